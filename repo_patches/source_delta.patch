From 53da77355b6da98795c4931fc98f91f324ac8fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:48 +0000
Subject: [PATCH 01/34] fix: remainder of the most negative number by -1/4096
 crashed with a divide fault

---
 source/interpreter/operators.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/interpreter/operators.c b/source/interpreter/operators.c
index 38d9e0c..3329948 100644
--- a/source/interpreter/operators.c
+++ b/source/interpreter/operators.c
@@ -286,7 +286,7 @@ void op_modulo(struct ptc* p){
 	
 	if (y == 0) ERROR(ERR_DIVIDE_BY_ZERO);
 	
-	stack_push(s, (struct stack_entry){VAR_NUMBER, {x % y}});
+	stack_push(s, (struct stack_entry){VAR_NUMBER, {(dfixp)x % y}});
 }
 
 void op_and(struct ptc* p){
-- 
2.43.0


From 405f38fc68851f1e83d0e68138af99dd76272517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:05 +0000
Subject: [PATCH 02/34] fix: long fractions overflowed in number parsing (wrong
 values, divide fault)

---
 source/interpreter/strs.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/source/interpreter/strs.c b/source/interpreter/strs.c
index 85eb283..3f37c7e 100644
--- a/source/interpreter/strs.c
+++ b/source/interpreter/strs.c
@@ -174,8 +174,8 @@ int64_t str_to_number(const void* str, const int base, const bool allow_decimal)
 	size_t len = str_len(str);
 	
 	unsigned int number = 0;
-	unsigned int fraction = 0;
-	unsigned int maximum = 1;
+	uint64_t fraction = 0;
+	uint64_t maximum = 1;
 	
 	bool is_negative = false;
 	
@@ -190,9 +190,12 @@ int64_t str_to_number(const void* str, const int base, const bool allow_decimal)
 			for (size_t k = i; k < len; ++k){
 				digit = digit_value(str_at_wide(str, k));
 				if (digit >= 0 && digit < base){
-					fraction *= base;
-					maximum *= base;
-					fraction += digit;
+					// 1/4096 has 12 decimal places: digits after those never matter
+					if (maximum < 1000000000000){
+						fraction *= base;
+						maximum *= base;
+						fraction += digit;
+					}
 				} else {
 					// Stop reading on invalid character (useful for VAL)
 					// Note: second period is not allowed
@@ -214,7 +217,7 @@ int64_t str_to_number(const void* str, const int base, const bool allow_decimal)
 	int64_t combined;
 	if (is_negative){
 		combined = INT_TO_FP(-number);
-		combined -= INT_TO_FP(1) * fraction / maximum;
+		combined -= (int64_t)(INT_TO_FP(1) * fraction / maximum);
 	} else {
 		combined = ((int64_t)number * 4096) + 4096 * fraction / maximum;
 	}
-- 
2.43.0


From eba6529150c77b32d9a3ba47862a05968d6bf4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:05 +0000
Subject: [PATCH 03/34] fix: the most negative number was printed as garbage

---
 source/interpreter/strs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/interpreter/strs.c b/source/interpreter/strs.c
index 3f37c7e..d581da3 100644
--- a/source/interpreter/strs.c
+++ b/source/interpreter/strs.c
@@ -271,7 +271,7 @@ void fixp_to_char(const fixp n, u8* str){
 	if (n < 0){
 		(*str++) = '-';
 	}
-	fixp num = n < 0 ? -n : n;
+	u32 num = n < 0 ? -(u32)n : (u32)n;
 	
 	u32 integer = num >> FIXPOINT;
 	const u32 decimal_mask = (INT_TO_FP(1) - 1); //default: 0x00000fff
-- 
2.43.0


From c91911668ac55d559c41301072612492622bede8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:05 +0000
Subject: [PATCH 04/34] fix: fractions that round up to 1 were printed as '.:'

---
 source/interpreter/strs.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/interpreter/strs.c b/source/interpreter/strs.c
index d581da3..ef5dbb8 100644
--- a/source/interpreter/strs.c
+++ b/source/interpreter/strs.c
@@ -276,6 +276,10 @@ void fixp_to_char(const fixp n, u8* str){
 	u32 integer = num >> FIXPOINT;
 	const u32 decimal_mask = (INT_TO_FP(1) - 1); //default: 0x00000fff
 	u32 decimal = ((((num & decimal_mask) + 2) * 1000) >> FIXPOINT);
+	if (decimal >= 1000){ // rounded up to the next integer
+		decimal -= 1000;
+		integer++;
+	}
 	u32 divisor = 100000;
 	bool trailing = false;
 	// Loop until divisor is zero (to get all digits)
-- 
2.43.0


From 772181eb7b530c9e83da7a37243ac5e880551ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:05 +0000
Subject: [PATCH 05/34] fix: VAL of a short string read uninitialised memory

---
 source/interpreter/strfuncs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/interpreter/strfuncs.c b/source/interpreter/strfuncs.c
index ea3bb84..2ebb121 100644
--- a/source/interpreter/strfuncs.c
+++ b/source/interpreter/strfuncs.c
@@ -54,7 +54,7 @@ void func_val(struct ptc* p){
 	struct value_stack* s = &p->stack;
 	struct stack_entry* a = stack_pop(s);
 	
-	u8 num_str[MAX_STRLEN];
+	u8 num_str[MAX_STRLEN] = {0}; // may be read past the end of short strings
 	void* str = value_str(a);
 	str_char_copy(str, num_str);
 	int len = str_len(str);
-- 
2.43.0


From 514a4979f78c7722dbb697929e7ce2748d13bdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:05 +0000
Subject: [PATCH 06/34] fix: MID$ with a large start or length wrapped around
 and overran the result

---
 source/interpreter/strfuncs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/interpreter/strfuncs.c b/source/interpreter/strfuncs.c
index 2ebb121..bae32be 100644
--- a/source/interpreter/strfuncs.c
+++ b/source/interpreter/strfuncs.c
@@ -33,11 +33,11 @@ void func_mid(struct ptc* p){
 	STACK_REL_INT_MIN(-1,0,len);
 	s->stack_i -= 3;
 	
-	s16 max_len = (s16)str_len(str) - (s16)start;
+	int max_len = (int)str_len(str) - start;
 	if (max_len <= 0){
 		stack_push(&p->stack, (struct stack_entry){VAR_STRING, {.ptr = empty_str}});
 		return;
-	} else if (max_len <= (s16)len){
+	} else if (max_len <= len){
 		len = max_len;
 	}
 	
-- 
2.43.0


From 03435d8cf1abc7718e9b8744ccaf7b186f6fcdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:05 +0000
Subject: [PATCH 07/34] fix: INSTR with a negative start read before the string

---
 source/interpreter/strfuncs.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/interpreter/strfuncs.c b/source/interpreter/strfuncs.c
index bae32be..160164b 100644
--- a/source/interpreter/strfuncs.c
+++ b/source/interpreter/strfuncs.c
@@ -99,6 +99,7 @@ void func_instr(struct ptc* p){
 	if (p->exec.argcount == 3){
 		struct stack_entry* startv = stack_pop(s);
 		start = VALUE_INT(startv);
+		if (start < 0) ERROR(ERR_OUT_OF_RANGE);
 	}
 	struct stack_entry* substring = stack_pop(s);
 	struct stack_entry* string = stack_pop(s);
-- 
2.43.0


From 0ec958d1dacfeb304aefb6a569cd4bdb4d367e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:05 +0000
Subject: [PATCH 08/34] fix: SUBST$ wrote past the end of results longer than
 256 characters

---
 source/interpreter/strfuncs.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/interpreter/strfuncs.c b/source/interpreter/strfuncs.c
index 160164b..f4b8b16 100644
--- a/source/interpreter/strfuncs.c
+++ b/source/interpreter/strfuncs.c
@@ -171,20 +171,21 @@ void func_subst(struct ptc* p){
 		count = len; // replaces all if less than max
 	}
 	int repl_len = str_len(repl);
+	int remaining = len - start - count;
+	if (remaining < 0) remaining = 0;
+	if (start + repl_len + remaining > MAX_STRLEN) ERROR(ERR_STRING_TOO_LONG);
 	// actual copying
 	dest->uses = 1;
-	if (start + repl_len > MAX_STRLEN) ERROR(ERR_STRING_TOO_LONG);
 
 	str_copy_buf(str_at(str, 0), dest->ptr.s, str_type(str) | (str_type(dest) << STR_COPY_DEST), start);
 //	iprintf("%s\n",dest->ptr.s);
 	str_copy_buf(str_at(repl, 0), str_at(dest, start), str_type(repl) | (str_type(dest) << STR_COPY_DEST), str_len(repl));
 //	iprintf("%s\n",dest->ptr.s);
-	int remaining = str_len(str)-start-count;
 	if (remaining > 0)
 		str_copy_buf(str_at(str, start+count), str_at(dest, start + str_len(repl)), str_type(str) | (str_type(dest) << STR_COPY_DEST), remaining);
 //	iprintf("%s\n",dest->ptr.s);
 	
-	dest->len = start + str_len(repl) + (remaining > 0 ? remaining : 0);
+	dest->len = start + str_len(repl) + remaining;
 	stack_push(&p->stack, (struct stack_entry){VAR_STRING, {.ptr = dest}});
 }
 
-- 
2.43.0


From 9226ae6df09d69deaeda7e2c20eb2fb1c539c8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:05 +0000
Subject: [PATCH 09/34] fix: string + and * kept a string slot in use forever
 when the result was too long

---
 source/interpreter/operators.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/interpreter/operators.c b/source/interpreter/operators.c
index 3329948..1d85ca4 100644
--- a/source/interpreter/operators.c
+++ b/source/interpreter/operators.c
@@ -33,11 +33,11 @@ void op_add(struct ptc* p){
 		struct string* z = get_new_str(&p->strs);
 		struct string* x = value_str(a);
 		struct string* y = value_str(b);
-		z->uses = 1;
 		
 		if (str_len(x) + str_len(y) > MAX_STRLEN){
 			ERROR(ERR_STRING_TOO_LONG);
 		}
+		z->uses = 1;
 		
 		str_concat(x, y, z);
 		
@@ -79,12 +79,12 @@ void op_mult(struct ptc* p){
 		struct string* y = get_new_str(&p->strs);
 		struct string* x = value_str(a);
 		
-		y->uses = 1;
-		y->len = 0; // start empty
 		if (count * str_len(x) > MAX_STRLEN){
 			p->exec.error = ERR_STRING_TOO_LONG;
 			return;
 		}
+		y->uses = 1;
+		y->len = 0; // start empty
 		
 		for (int i = 0; i < count; ++i){
 			str_concat(y, x, y);
-- 
2.43.0


From a7099722536ecc9a70347a7072b1c78b50cb0523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:18 +0000
Subject: [PATCH 10/34] fix: running out of string slots dereferenced a null
 pointer

---
 source/extension/sbc_memory.c  | 1 +
 source/interpreter/data.c      | 1 +
 source/interpreter/operators.c | 8 +++++---
 source/interpreter/strfuncs.c  | 5 +++++
 source/subsystem/background.c  | 1 +
 source/subsystem/console.c     | 2 ++
 source/subsystem/resources.c   | 3 +++
 source/subsystem/sysvars.c     | 2 ++
 8 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/source/extension/sbc_memory.c b/source/extension/sbc_memory.c
index 1752027..cc411d4 100644
--- a/source/extension/sbc_memory.c
+++ b/source/extension/sbc_memory.c
@@ -300,6 +300,7 @@ void func_addr(struct ptc* p){
 
 void func_ptr(struct ptc* p){
 	struct string* out_str = get_new_str(&p->strs);
+	if (!out_str) ERROR(ERR_OUT_OF_MEMORY);
 	
 	fixp ptr = STACK_REL_NUM(-1);
 	--p->stack.stack_i;
diff --git a/source/interpreter/data.c b/source/interpreter/data.c
index a384d64..2eebff2 100644
--- a/source/interpreter/data.c
+++ b/source/interpreter/data.c
@@ -16,6 +16,7 @@ int read_one_u8(struct ptc* p, const u8* src, size_t len, struct stack_entry* de
 	if (dest->type == (VAR_VARIABLE | VAR_STRING)){
 		// Create new string
 		struct string* s = get_new_str(&p->strs);
+		if (!s) return READ_ONE_ERR;
 		// Remove a use if variable had a string aleady
 		value_str(dest);
 		
diff --git a/source/interpreter/operators.c b/source/interpreter/operators.c
index 1d85ca4..b258f25 100644
--- a/source/interpreter/operators.c
+++ b/source/interpreter/operators.c
@@ -37,6 +37,7 @@ void op_add(struct ptc* p){
 		if (str_len(x) + str_len(y) > MAX_STRLEN){
 			ERROR(ERR_STRING_TOO_LONG);
 		}
+		if (!z) ERROR(ERR_OUT_OF_MEMORY);
 		z->uses = 1;
 		
 		str_concat(x, y, z);
@@ -83,6 +84,7 @@ void op_mult(struct ptc* p){
 			p->exec.error = ERR_STRING_TOO_LONG;
 			return;
 		}
+		if (!y) ERROR(ERR_OUT_OF_MEMORY);
 		y->uses = 1;
 		y->len = 0; // start empty
 		
@@ -149,6 +151,9 @@ void op_assign(struct ptc* p){
 		struct string* src = value_str(b);
 		assert(dest); // var must exist
 		assert(*dest); // must contain a valid string already
+		if (!new_alloc && (src->type == BC_STRING || src == &p->res.mem_str)){
+			ERROR(ERR_OUT_OF_MEMORY); // failed to alloc string
+		}
 		// char dest_old_type = (*dest)->type;
 		
 		if (is_dyn_str(*dest)){
@@ -161,9 +166,6 @@ void op_assign(struct ptc* p){
 			*dest = src;
 			(*dest)->uses++;
 		} else if (src->type == BC_STRING){
-			if (!new_alloc) {
-				ERROR(ERR_OUT_OF_MEMORY); // failed to alloc string
-			}
 			str_copy(src, new_alloc);
 			++new_alloc->uses;
 			*dest = new_alloc;
diff --git a/source/interpreter/strfuncs.c b/source/interpreter/strfuncs.c
index f4b8b16..c763319 100644
--- a/source/interpreter/strfuncs.c
+++ b/source/interpreter/strfuncs.c
@@ -41,6 +41,7 @@ void func_mid(struct ptc* p){
 		len = max_len;
 	}
 	
+	if (!dest) ERROR(ERR_OUT_OF_MEMORY);
 	dest->uses = 1;
 	dest->len = len;
 	
@@ -85,6 +86,7 @@ void func_str(struct ptc* p){
 	
 	struct string* s = get_new_str(&p->strs);
 	
+	if (!s) ERROR(ERR_OUT_OF_MEMORY);
 	fixp_to_str(n, s);
 	s->uses = 1;
 	
@@ -174,6 +176,7 @@ void func_subst(struct ptc* p){
 	int remaining = len - start - count;
 	if (remaining < 0) remaining = 0;
 	if (start + repl_len + remaining > MAX_STRLEN) ERROR(ERR_STRING_TOO_LONG);
+	if (!dest) ERROR(ERR_OUT_OF_MEMORY);
 	// actual copying
 	dest->uses = 1;
 
@@ -219,6 +222,7 @@ void _func_substring(struct ptc* p, bool right){
 	}
 	if (count > max_len) count = max_len;
 
+	if (!dest) ERROR(ERR_OUT_OF_MEMORY);
 	dest->uses = 1;
 	dest->len = count;
 
@@ -263,6 +267,7 @@ void func_hex(struct ptc* p){
 	if (digits){
 		num &= 0x0fffff >> 4*(5-digits);
 	}
+	if (!dest) ERROR(ERR_OUT_OF_MEMORY);
 	int len = 0;
 	// once again we can just force the type to work here. there will always be enough space.
 	dest->type = STRING_CHAR;
diff --git a/source/subsystem/background.c b/source/subsystem/background.c
index a023580..d83c003 100644
--- a/source/subsystem/background.c
+++ b/source/subsystem/background.c
@@ -228,6 +228,7 @@ void cmd_bgread(struct ptc* p){
 			*tile = INT_TO_FP(tiledata);
 		} else {
 			struct string* dest = get_new_str(&p->strs);
+			if (!dest) ERROR(ERR_OUT_OF_MEMORY);
 			void** tile = ARG(3)->value.ptr; // pointer to string (which is itself a pointer)
 //			fixp_to_str(INT_TO_FP(tiledata), dest);
 			dest->ptr.s[0] = hex_digits[(tiledata & 0xF000) >> 12];
diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index 08e9ba6..2b85027 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -378,6 +378,7 @@ void cmd_input(struct ptc* p){
 			} else if (e->type == (VAR_STRING | VAR_VARIABLE)){
 				if (c == ',' || c == '\0' || out_i >= CONSOLE_WIDTH){
 					struct string* s = get_new_str(&p->strs);
+					if (!s) ERROR(ERR_OUT_OF_MEMORY);
 					
 					if (*(void**)e->value.ptr != NULL && **(char**)e->value.ptr == STRING_CHAR){
 						(*(struct string**)e->value.ptr)->uses--;
@@ -440,6 +441,7 @@ void cmd_linput(struct ptc* p){
 
 	// Now store the result to a new string
 	struct string* s = get_new_str(&p->strs);
+	if (!s) ERROR(ERR_OUT_OF_MEMORY);
 	
 	if (*(void**)e->value.ptr != NULL && **(char**)e->value.ptr == STRING_CHAR){
 		(*(struct string**)e->value.ptr)->uses--;
diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index 1f93206..abca1f5 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -907,6 +907,7 @@ void cmd_chrread(struct ptc* p){
 	if (p->exec.error) return; // something went wrong
 
 	if (TYPE_CHR == info.type_id){
+		if (!dest) ERROR(ERR_OUT_OF_MEMORY);
 		// resource is valid
 		u8* chr_data = (u8*)info.data + 32*id;
 		// convert this to string
@@ -1216,6 +1217,7 @@ void sys_result(struct ptc* p){
 
 void sys_package(struct ptc* p){
 	struct string* str = get_new_str(&p->strs);
+	if (!str) ERROR(ERR_OUT_OF_MEMORY);
 	str->type = STRING_CHAR;
 	str->uses = 1;
 	int i = 0;
@@ -1235,6 +1237,7 @@ void sys_package(struct ptc* p){
 
 void sys_prgname(struct ptc* p){
 	struct string* str = get_new_str(&p->strs);
+	if (!str) ERROR(ERR_OUT_OF_MEMORY);
 	str->type = STRING_CHAR;
 	str->uses = 1;
 	str->len = strlen(p->res.prgname);
diff --git a/source/subsystem/sysvars.c b/source/subsystem/sysvars.c
index 5fd0eb4..d5c0350 100644
--- a/source/subsystem/sysvars.c
+++ b/source/subsystem/sysvars.c
@@ -47,6 +47,7 @@ void sys_date(struct ptc* p){
 	int year = tm->tm_year + 1900;
 	
 	struct string* str = get_new_str(&p->strs);
+	if (!str) ERROR(ERR_OUT_OF_MEMORY);
 	str->type = STRING_CHAR;
 	str->uses = 1;
 	str->len = 10;
@@ -75,6 +76,7 @@ void sys_time(struct ptc* p){
 	int sec = tm->tm_sec;
 	
 	struct string* str = get_new_str(&p->strs);
+	if (!str) ERROR(ERR_OUT_OF_MEMORY);
 	str->type = STRING_CHAR;
 	str->uses = 1;
 	str->len = 8;
-- 
2.43.0


From 59bf3e7f99d156caad3f10de08d969126c8efa0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:38 +0000
Subject: [PATCH 11/34] fix: READ, BGREAD, CHRREAD and INPUT kept the old
 string of their variable in use forever

---
 source/interpreter/data.c     | 3 +--
 source/interpreter/strs.h     | 5 +++++
 source/subsystem/background.c | 1 +
 source/subsystem/console.c    | 8 ++++----
 source/subsystem/resources.c  | 1 +
 5 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/source/interpreter/data.c b/source/interpreter/data.c
index 2eebff2..0625df2 100644
--- a/source/interpreter/data.c
+++ b/source/interpreter/data.c
@@ -17,8 +17,6 @@ int read_one_u8(struct ptc* p, const u8* src, size_t len, struct stack_entry* de
 		// Create new string
 		struct string* s = get_new_str(&p->strs);
 		if (!s) return READ_ONE_ERR;
-		// Remove a use if variable had a string aleady
-		value_str(dest);
 		
 		// create destination and copy characters
 		for (; i < len && src[i] != BC_DATA_DELIM; ++i){
@@ -30,6 +28,7 @@ int read_one_u8(struct ptc* p, const u8* src, size_t len, struct stack_entry* de
 		s->len = i - start;
 		
 		// Assign new string to variable
+		str_release(*(struct string**)dest->value.ptr); // the variable had a string already
 		(*(struct string**)dest->value.ptr) = s;
 		s->uses = 1;
 	} else if (dest->type == (VAR_VARIABLE | VAR_NUMBER)){
diff --git a/source/interpreter/strs.h b/source/interpreter/strs.h
index 6bbddea..436f012 100644
--- a/source/interpreter/strs.h
+++ b/source/interpreter/strs.h
@@ -73,6 +73,11 @@ static inline bool is_dyn_str(struct string* s){
 	return s->type == STRING_CHAR || s->type == STRING_WIDE;
 }
 
+/// Gives up one reference to a string (the variable holding it is about to be overwritten)
+static inline void str_release(struct string* s){
+	if (is_dyn_str(s)) s->uses--;
+}
+
 /// Checks if character is a lowercase letter ('a'-'z')
 bool is_lower(char c);
 /// Checks if character is an uppercase letter ('A'-'Z')
diff --git a/source/subsystem/background.c b/source/subsystem/background.c
index d83c003..c20deec 100644
--- a/source/subsystem/background.c
+++ b/source/subsystem/background.c
@@ -237,6 +237,7 @@ void cmd_bgread(struct ptc* p){
 			dest->ptr.s[3] = hex_digits[(tiledata & 0x000F) >> 0];
 			dest->len = 4;
 			dest->uses = 1;
+			str_release(*tile);
 			*tile = dest;
 		}
 	} else {
diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index 2b85027..58e40df 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -380,8 +380,8 @@ void cmd_input(struct ptc* p){
 					struct string* s = get_new_str(&p->strs);
 					if (!s) ERROR(ERR_OUT_OF_MEMORY);
 					
-					if (*(void**)e->value.ptr != NULL && **(char**)e->value.ptr == STRING_CHAR){
-						(*(struct string**)e->value.ptr)->uses--;
+					if (*(void**)e->value.ptr != NULL){
+						str_release(*(struct string**)e->value.ptr);
 					}
 					(*(struct string**)e->value.ptr) = s;
 					
@@ -443,8 +443,8 @@ void cmd_linput(struct ptc* p){
 	struct string* s = get_new_str(&p->strs);
 	if (!s) ERROR(ERR_OUT_OF_MEMORY);
 	
-	if (*(void**)e->value.ptr != NULL && **(char**)e->value.ptr == STRING_CHAR){
-		(*(struct string**)e->value.ptr)->uses--;
+	if (*(void**)e->value.ptr != NULL){
+		str_release(*(struct string**)e->value.ptr);
 	}
 	(*(struct string**)e->value.ptr) = s;
 	
diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index abca1f5..963f135 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -921,6 +921,7 @@ void cmd_chrread(struct ptc* p){
 		dest->type = STRING_CHAR; // force smaller type is always safe
 		dest->len = 64;
 		dest->uses = 1;
+		str_release(*out);
 		*out = dest;
 	} else {
 		ERROR(ERR_INVALID_RESOURCE_TYPE);
-- 
2.43.0


From 388b221c591bb5ab6ac24ae52b30fc091776d78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:05 +0000
Subject: [PATCH 12/34] fix: VAL, INPUT and READ of a number out of range gave
 an unrelated number

---
 source/interpreter/data.c     | 4 +++-
 source/interpreter/strfuncs.c | 3 ++-
 source/interpreter/strs.c     | 2 +-
 source/subsystem/console.c    | 7 ++++++-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/source/interpreter/data.c b/source/interpreter/data.c
index 0625df2..2ebb158 100644
--- a/source/interpreter/data.c
+++ b/source/interpreter/data.c
@@ -54,7 +54,9 @@ int read_one_u8(struct ptc* p, const u8* src, size_t len, struct stack_entry* de
 			iprintf(":%c", conversion[i - start]);
 		}
 		// Convert!
-		*((fixp*)dest->value.ptr) = u8_to_num(conversion, i - start);
+		int64_t n = u8_to_num(conversion, i - start);
+		if (n < INT32_MIN || n > INT32_MAX) return READ_ONE_ERR;
+		*((fixp*)dest->value.ptr) = n;
 	} else {
 		return READ_ONE_ERR;
 	}
diff --git a/source/interpreter/strfuncs.c b/source/interpreter/strfuncs.c
index c763319..60861b1 100644
--- a/source/interpreter/strfuncs.c
+++ b/source/interpreter/strfuncs.c
@@ -60,7 +60,7 @@ void func_val(struct ptc* p){
 	str_char_copy(str, num_str);
 	int len = str_len(str);
 //	bool negate = false;
-	fixp v;
+	int64_t v;
 
 	u8 first_char = num_str[0];
 	if (first_char == '&'){
@@ -76,6 +76,7 @@ void func_val(struct ptc* p){
 		v = u8_to_number(num_str + 2, len-2, base, false);
 	} else {
 		v = u8_to_num(num_str, len);
+		if (v < INT32_MIN || v > INT32_MAX) ERROR(ERR_OVERFLOW);
 	}
 	
 	stack_push(s, (struct stack_entry){VAR_NUMBER, {v}});
diff --git a/source/interpreter/strs.c b/source/interpreter/strs.c
index ef5dbb8..a80ff94 100644
--- a/source/interpreter/strs.c
+++ b/source/interpreter/strs.c
@@ -216,7 +216,7 @@ int64_t str_to_number(const void* str, const int base, const bool allow_decimal)
 	
 	int64_t combined;
 	if (is_negative){
-		combined = INT_TO_FP(-number);
+		combined = -((int64_t)number * 4096);
 		combined -= (int64_t)(INT_TO_FP(1) * fraction / maximum);
 	} else {
 		combined = ((int64_t)number * 4096) + 4096 * fraction / maximum;
diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index 58e40df..3ca566b 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -365,7 +365,12 @@ void cmd_input(struct ptc* p){
 						valid = false;
 						break;
 					}
-					fixp n = u8_to_num(&conversion_copy[prev_i], out_i - prev_i - 1);
+					int64_t n = u8_to_num(&conversion_copy[prev_i], out_i - prev_i - 1);
+					if (n < INT32_MIN || n > INT32_MAX){
+						// number does not fit
+						valid = false;
+						break;
+					}
 					prev_i = out_i;
 					*(fixp*)e->value.ptr = n; //store result to variable
 					++i;
-- 
2.43.0


From e447ca5a39deb087f99b590b6ba072da1783f2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:09 +0000
Subject: [PATCH 13/34] fix: DIM with negative or huge sizes and wrong index
 counts reached memory outside the array

---
 source/interpreter/arrays.c |  4 ++--
 source/interpreter/runner.c | 18 +++++++++++-------
 source/interpreter/tokens.c |  2 +-
 source/interpreter/vars.c   |  6 +++++-
 4 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/source/interpreter/arrays.c b/source/interpreter/arrays.c
index dad69ca..052b147 100644
--- a/source/interpreter/arrays.c
+++ b/source/interpreter/arrays.c
@@ -27,7 +27,7 @@ void free_mem_arr(struct arrays* a){
 
 void* get_init_new_arr(struct arrays* a, u32 size1, u32 size2, int type){
 	u32* new_arr = (u32*)&((union value*)a->arr_data)[a->arr_data_next];
-	int size = size1;
+	uint64_t size = size1;
 	if (size2 != ARR_DIM2_UNUSED){
 		size *= size2;
 	}
@@ -41,7 +41,7 @@ void* get_init_new_arr(struct arrays* a, u32 size1, u32 size2, int type){
 	// fill with empty elements
 	// Note: Treats every array as 1D - this is safe because memory is contiguous
 	union value* new_arr_dat = &((union value*)new_arr)[2];
-	for (int i = 0; i < size; ++i){
+	for (u32 i = 0; i < size; ++i){
 		if (type & VAR_NUMBER){
 			new_arr_dat[i].number = 0;
 		} else if (type & VAR_STRING){
diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index 40a9d51..c529426 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -160,6 +160,10 @@ struct var_name read_var_name(struct bytecode* b, idx index){
 	return result;
 }
 
+/// Second index or size of an array: -1 is reserved for ARR_DIM2_UNUSED, so replace it
+/// with a value that is also never valid.
+#define SECOND_DIM(i) ((idx)((i) == -1 ? -2 : (i)))
+
 /// The big interpreter function.
 /// 
 /// Takes a chunk of bytecode stored in code and runs it.
@@ -320,7 +324,7 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 				} else {
 					// array element
 					idx a = (r->argcount == 2) ? STACK_REL_INT(-2) : STACK_REL_INT(-1);
-					idx b = (r->argcount == 2) ? (idx)STACK_REL_INT(-1) : ARR_DIM2_UNUSED;
+					idx b = (r->argcount == 2) ? SECOND_DIM(STACK_REL_INT(-1)) : ARR_DIM2_UNUSED;
 					p->stack.stack_i -= r->argcount;
 					
 					union value* entry = get_arr_entry_via_ptr(&p->vars, &v->value, a, b, v->type);
@@ -370,7 +374,7 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 					x = &v->value;
 				} else {
 					idx a = (r->argcount == 2) ? STACK_REL_INT(-2) : STACK_REL_INT(-1);
-					idx b = (r->argcount == 2) ? (idx)STACK_REL_INT(-1) : ARR_DIM2_UNUSED;
+					idx b = (r->argcount == 2) ? SECOND_DIM(STACK_REL_INT(-1)) : ARR_DIM2_UNUSED;
 					p->stack.stack_i -= r->argcount;
 					
 					union value* val = get_arr_entry(&p->vars, var.name, var.len, var.type | VAR_ARRAY, a, b);
@@ -396,14 +400,14 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 			case BC_DIM:
 				{
 				idx a = (r->argcount == 2) ? STACK_REL_INT(-2) : STACK_REL_INT(-1);
-				idx b = (r->argcount == 2) ? (idx)STACK_REL_INT(-1) : ARR_DIM2_UNUSED;
+				idx b = (r->argcount == 2) ? SECOND_DIM(STACK_REL_INT(-1)) : ARR_DIM2_UNUSED;
 				p->stack.stack_i -= r->argcount;
 				
 				iprintf("name=");
 				if (data >= 'A'){
 					iprintf("%c ", data);
-					get_new_arr_var(&p->vars, &data, 1, VAR_NUMBER | VAR_ARRAY, a, b);
-					r->error = p->vars.error;
+					if (!get_new_arr_var(&p->vars, &data, 1, VAR_NUMBER | VAR_ARRAY, a, b))
+						r->error = p->vars.error;
 				} else {
 					char* x = (char*)&r->code.data[r->index];
 					iprintf("%.*s", data, x);
@@ -412,8 +416,8 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 					enum types t = x[(u8)data-1] == '$' ? VAR_STRING : VAR_NUMBER;
 					u32 len = t & VAR_NUMBER ? data : data-1;
 					
-					get_new_arr_var(&p->vars, x, len, t | VAR_ARRAY, a, b);
-					r->error = p->vars.error;
+					if (!get_new_arr_var(&p->vars, x, len, t | VAR_ARRAY, a, b))
+						r->error = p->vars.error;
 				}
 				
 				iprintf(" dim=%d,%d", (int)a, (int)b);
diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 5b6a3f5..0c944cd 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -841,7 +841,7 @@ int tok_code(struct tokenizer* state){
 					if (is_array_type) t |= VAR_ARRAY;
 					
 					struct named_var* v = get_var(&state->system->vars, &state->source->data[state->tokens[i].ofs], len, t);
-					if (state->system->vars.error != ERR_NONE){
+					if (!v){
 						return state->system->vars.error;
 					}
 //					iprintf("var %p: type=%d name=%s data=%d\n", (void*)v, v->type, v->name, v->value.number);
diff --git a/source/interpreter/vars.c b/source/interpreter/vars.c
index 4d082ce..d1c2300 100644
--- a/source/interpreter/vars.c
+++ b/source/interpreter/vars.c
@@ -106,6 +106,10 @@ struct named_var* get_new_arr_var(struct variables* v, char* name, u32 len, enum
 		
 		// set var ptr
 		var->value.ptr = get_init_new_arr(v->arrs, dim1, dim2, type);
+		if (!var->value.ptr){
+			v->error = ERR_OUT_OF_MEMORY;
+			return NULL;
+		}
 		return var;
 	} else {
 		// array already exists!
@@ -168,7 +172,7 @@ union value* get_arr_entry_via_ptr(struct variables* v, union value* arr, u32 ix
 	if (ix < arr_size(arr->ptr, ARR_DIM1)){
 		if (iy == ARR_DIM2_UNUSED){
 			return arr_entry(arr->ptr, ix, 0);
-		} else if (iy < arr_size(arr->ptr, ARR_DIM2)){
+		} else if (arr_size(arr->ptr, ARR_DIM2) != ARR_DIM2_UNUSED && iy < arr_size(arr->ptr, ARR_DIM2)){
 			return arr_entry(arr->ptr, ix, iy);
 		} else {
 			v->error = ERR_SUBSCRIPT_OUT_OF_RANGE_Y;
-- 
2.43.0


From 587e5e807a2c1a622a822f0411dccd072659952d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:09 +0000
Subject: [PATCH 14/34] fix: variable names longer than 16 characters
 overflowed the variable table entry

---
 source/interpreter/tokens.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 0c944cd..51862ce 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -1399,6 +1399,8 @@ int tok_name(struct tokenizer* state){
 	} else if (0 <= (index = tok_in_str_index(sysvars, state->source->data, &state->tokens[state->token_i]))){
 		state->tokens[state->token_i].type = sysvar;
 		state->tokens[state->token_i].cmd = index; // overrides len
+	} else if (state->tokens[state->token_i].len > VAR_NAME_MAX_LENGTH + (state->source->data[state->cursor - 1] == '$')){
+		err = ERR_SYNTAX; // variable name too long (string type is not part of the name)
 	}
 	
 	state->token_i++;
-- 
2.43.0


From d75b1acf849650d925306a67501f9792625ae1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:09 +0000
Subject: [PATCH 15/34] fix: text and DATA longer than 127 characters made the
 program continue at the wrong place

---
 source/interpreter/runner.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index c529426..ea8bfee 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -207,11 +207,11 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 			
 			case BC_LABEL_STRING:
 			case BC_STRING:
-				iprintf("len=%d ", data);
-				iprintf("%.*s", data, &r->code.data[r->index]);
+				iprintf("len=%d ", (u8)data);
+				iprintf("%.*s", (u8)data, &r->code.data[r->index]);
 				// push string pointer to the stack
 				p->stack.entry[p->stack.stack_i++] = (struct stack_entry){VAR_STRING, {.ptr = (void*)&r->code.data[r->index-2]}};
-				r->index += data + (data & 1); // to next instruction
+				r->index += (u8)data + (data & 1); // to next instruction
 				check_time(&p->time, 1);
 				break;
 			
@@ -530,13 +530,13 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 			case BC_DATA:
 			case BC_LABEL:
 				// ignore these!
-				iprintf("len=%d ", data);
-				for (int i = 0; i < (int)data; ++i){
+				iprintf("len=%d ", (u8)data);
+				for (int i = 0; i < (u8)data; ++i){
 					char c = r->code.data[r->index + i];
 					iprintf("%c", c ? c : ',');
 				}
 				
-				r->index += data + (data & 1); // to next instruction
+				r->index += (u8)data + (data & 1); // to next instruction
 				check_time(&p->time, 11);
 				break;
 				
-- 
2.43.0


From 75cdc5500656e71293d6b41d19072222fedb17bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:50 +0000
Subject: [PATCH 16/34] fix: an expression or PRINT with more than 100 pending
 values wrote past the value stack

---
 source/interpreter/runner.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index ea8bfee..d7a3a85 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -186,6 +186,11 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 	p->stack.stack_i = 0;
 
 	while (r->index < r->code.size && !p->exec.error){
+		// every instruction leaves at most one more value than before on the stack
+		if (p->stack.stack_i >= VALUE_STACK_SIZE){
+			r->error = ERR_OUT_OF_MEMORY;
+			break;
+		}
 		// get one instruction and execute it
 		start_time(&p->time);
 		char instr = r->code.data[r->index++];
-- 
2.43.0


From c4202a588fbfbc5ecdbc3925821c9be7406c7275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:06 +0000
Subject: [PATCH 17/34] fix: GOTO, GOSUB and RESTORE with a string longer than
 a label overflowed a buffer

---
 source/interpreter/label.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/interpreter/label.c b/source/interpreter/label.c
index 6580785..59816a1 100644
--- a/source/interpreter/label.c
+++ b/source/interpreter/label.c
@@ -106,14 +106,18 @@ idx search_label(struct ptc* p, void* label){
 	// Labels must always be located at the beginning of a line.
 	idx index = 0;
 
-	u8 buf[MAX_LABEL_SIZE+1]; // +1 to include the @ symbol in cases of strings
+	u8 buf[MAX_LABEL_SIZE+2] = {0}; // +1 to include the @ symbol in cases of strings, +1 for the end
 	char* buf_ptr = (char*)buf;
 	int len = str_len(label);
 	if (*(char*)label == BC_LABEL || *(char*)label == BC_LABEL_STRING){
 		assert(len <= 16);
 		str_char_copy(label, buf);
 	} else { // assume regular string
-		assert(len <= 17);
+		if (len < 2 || len > MAX_LABEL_SIZE+1 || str_at_wide(label, 0) != to_wide('@')){
+			// not a label name at all
+			p->exec.error = ERR_LABEL_NOT_FOUND;
+			return p->exec.code.size;
+		}
 		str_char_copy(label, buf);
 		++buf_ptr; // pointer past '@'
 		--len; // remove '@'
-- 
2.43.0


From 5ac3d01c76763c5d44c5b21ed0938c21638bfc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:06 +0000
Subject: [PATCH 18/34] fix: ON with a number or a string variable as its
 target read it as a label

---
 source/interpreter/flow.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/interpreter/flow.c b/source/interpreter/flow.c
index 38cae71..371b7ae 100644
--- a/source/interpreter/flow.c
+++ b/source/interpreter/flow.c
@@ -227,7 +227,10 @@ void cmd_goto_gosub(struct ptc* p, bool push_return){
 		if (p->stack.entry[label_i+1].type & STACK_OP){
 			ERROR(ERR_SYNTAX); // label is missing from this slot
 		}
-		label = p->stack.entry[label_i+1].value.ptr;
+		if (!(p->stack.entry[label_i+1].type & VAR_STRING)){
+			ERROR(ERR_TYPE_MISMATCH);
+		}
+		label = value_str(&p->stack.entry[label_i+1]);
 	} else {
 		label = value_str(e); //value_str
 	}
-- 
2.43.0


From 085035c1970afffac8d17e85d1cbd64fbeeebe58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:06 +0000
Subject: [PATCH 19/34] fix: RETURN inside a loop but outside any subroutine
 read below the call stack

---
 source/interpreter/flow.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/interpreter/flow.c b/source/interpreter/flow.c
index 371b7ae..da6deb8 100644
--- a/source/interpreter/flow.c
+++ b/source/interpreter/flow.c
@@ -272,7 +272,7 @@ void cmd_return(struct ptc* p){
 		if (p->calls.entry[--stack_i].type == CALL_GOSUB){
 			break;
 		}
-		if (stack_i < 0){
+		if (stack_i <= 0){
 			// did not find GOSUB anywhere in stack
 			p->exec.error = ERR_RETURN_WITHOUT_GOSUB;
 			return;
-- 
2.43.0


From 582e641317866091757d00753b0020936c03b6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:06 +0000
Subject: [PATCH 20/34] fix: NEXT of an outer loop checked the limit against
 the inner loop variable, and lost errors in the limit

---
 source/interpreter/flow.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/interpreter/flow.c b/source/interpreter/flow.c
index da6deb8..0685125 100644
--- a/source/interpreter/flow.c
+++ b/source/interpreter/flow.c
@@ -110,7 +110,11 @@ void cmd_next(struct ptc* p){
 	for_condition.size = to_size;
 	for_condition.data = code.data + to_start;
 	run(for_condition, p);
+	u32 error = p->exec.error;
 	p->exec = temp; //restore program state
+	if (error || !p->stack.stack_i){
+		ERROR(error ? error : ERR_BEGIN_LOOP_NO_END);
+	}
 	
 	// now stack should contain (END, [STEP])
 	s32* current = (s32*)c->var;
@@ -136,8 +140,8 @@ void cmd_next(struct ptc* p){
 			p->calls.entry[i] = p->calls.entry[i+1];
 		}
 	} else {
-		// loop continues, jump back to this point
-		p->exec.index = to_start;
+		// loop continues, jump back to the loop body (past BC_BEGIN_LOOP)
+		p->exec.index = to_start + to_size + 2;
 	}
 	// NEXT should clear stack when done
 	p->stack.stack_i = 0;
-- 
2.43.0


From 0e5ce2b8b4e6c6ec9078ec82aaeed6d0c521b44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:06 +0000
Subject: [PATCH 21/34] fix: a loop that is skipped stayed open, so the next
 NEXT stepped it

---
 source/interpreter/runner.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index d7a3a85..d3eeabd 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -509,7 +509,8 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 										result.index += 2; // past NEXT [var]
 										break; // ignore nesting?
 									}
-									// ignore otherwise? unclear
+									// NEXT of a loop inside the skipped one
+									if (nest > 1) nest--;
 								} else {
 									// treat as generic next
 									nest--;
@@ -523,6 +524,8 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 					}
 					// index now points to one past the NEXT, the correct location
 					r->index = result.index;
+					// the skipped loop is finished
+					p->calls.stack_i--;
 				} else {
 					// execution continues as normal into the loop
 				}
-- 
2.43.0


From b7e176a21f80bb21821ec2d93e4be2103cfa50df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:38 +0000
Subject: [PATCH 22/34] fix: a loop limit compiled to more than 255 bytes was
 cut off by NEXT

---
 source/interpreter/flow.c  | 8 ++++----
 source/interpreter/stack.h | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/source/interpreter/flow.c b/source/interpreter/flow.c
index 0685125..a6af62b 100644
--- a/source/interpreter/flow.c
+++ b/source/interpreter/flow.c
@@ -46,7 +46,8 @@ void cmd_for(struct ptc* p){
 	}
 
 	// stores beginning of TO [STEP] expression and size of expression
-	p->calls.entry[p->calls.stack_i].address = to_start | ((to_size - to_start) << 24);
+	p->calls.entry[p->calls.stack_i].address = to_start;
+	p->calls.entry[p->calls.stack_i].size = to_size - to_start;
 	p->calls.entry[p->calls.stack_i].var = e->value.ptr;
 	
 	p->calls.stack_i++;
@@ -98,9 +99,8 @@ void cmd_next(struct ptc* p){
 	}
 	// this is the FOR call we are processing.
 	struct call_entry* c = &p->calls.entry[stack_i];
-	u32 addr = c->address; //points to just after FOR
-	idx to_start = addr & 0x00ffffff;
-	idx to_size = addr >> 24;
+	idx to_start = c->address; //points to just after FOR
+	idx to_size = c->size;
 
 	struct bytecode code = p->exec.code;
 	struct runner temp = p->exec; // copy code state (not stack)
diff --git a/source/interpreter/stack.h b/source/interpreter/stack.h
index 09bae2a..5e64aa9 100644
--- a/source/interpreter/stack.h
+++ b/source/interpreter/stack.h
@@ -120,7 +120,8 @@ struct call_stack {
 	/// * FOR - Loop info index + length, variable pointer
 	struct call_entry {
 		enum call_type type; // FOR or GOSUB
-		u32 address; // combined instruction index and expression size for FOR
+		u32 address; // instruction index
+		u32 size; // expression size for FOR
 //		uint_fast8_t var_type;
 		void* var; // fixp* or struct string**
 	} entry[CALL_STACK_SIZE];
-- 
2.43.0


From f6f24a339ebdef83d80c8f3530d948c94ebf1db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:38 +0000
Subject: [PATCH 23/34] fix: the end mark of the reported source line was
 written past its buffer

---
 source/interpreter/tokens.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 51862ce..b5822e4 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -284,7 +284,7 @@ int tokenize_full(struct program* src, struct bytecode* out, void* system, int o
 			int line_view = state.cursor - old_cursor;
 			line_view = line_view > 31 ? 31 : line_view;
 			memcpy(state.system->exec.error_info, &state.source->data[old_cursor], line_view);
-			state.system->exec.error_info[line_view+1] = '\0';
+			state.system->exec.error_info[line_view] = '\0';
 		}
 		iprintf("tokenize error: %s\n", error_messages[error]);
 	}
-- 
2.43.0


From 546d84f40c2fd239f5d402fd1897e62e602b30fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:38 +0000
Subject: [PATCH 24/34] fix: a DATA number longer than 16 characters was split
 into two, and one after quoted spaces was read as 0

---
 source/interpreter/data.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/source/interpreter/data.c b/source/interpreter/data.c
index 2ebb158..5fd76f3 100644
--- a/source/interpreter/data.c
+++ b/source/interpreter/data.c
@@ -32,7 +32,6 @@ int read_one_u8(struct ptc* p, const u8* src, size_t len, struct stack_entry* de
 		(*(struct string**)dest->value.ptr) = s;
 		s->uses = 1;
 	} else if (dest->type == (VAR_VARIABLE | VAR_NUMBER)){
-		u8 conversion[16] = {0}; // this buffer size is very arbitrary
 		// skip leading spaces, but only for numbers
 		// strings may contain spaces when quoted
 		while (i < len && src[i] == ' '){
@@ -42,19 +41,18 @@ int read_one_u8(struct ptc* p, const u8* src, size_t len, struct stack_entry* de
 			return READ_ONE_ERR;
 		}
 		// Read number!
-		for (; i < len && i - start < 16; ++i){
+		size_t number = i;
+		for (; i < len; ++i){
 			u8 c = src[i];
-			if (is_number(c) || c == '-' || c == '.'){
-				conversion[i - start] = c;
-			} else if (c == BC_DATA_DELIM){ 
+			if (c == BC_DATA_DELIM){ 
 				break; // stop reading here
-			} else {
+			} else if (!(is_number(c) || c == '-' || c == '.')){
 				return READ_ONE_ERR;
 			}
-			iprintf(":%c", conversion[i - start]);
+			iprintf(":%c", c);
 		}
 		// Convert!
-		int64_t n = u8_to_num(conversion, i - start);
+		int64_t n = u8_to_num((u8*)src + number, i - number);
 		if (n < INT32_MIN || n > INT32_MAX) return READ_ONE_ERR;
 		*((fixp*)dest->value.ptr) = n;
 	} else {
-- 
2.43.0


From 52340da31dc8aeff2c001855a994a01d0871d168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:38 +0000
Subject: [PATCH 25/34] fix: READ of more variables than DATA items read memory
 outside the program

---
 source/interpreter/data.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/interpreter/data.c b/source/interpreter/data.c
index 5fd76f3..b023928 100644
--- a/source/interpreter/data.c
+++ b/source/interpreter/data.c
@@ -97,6 +97,9 @@ void cmd_read(struct ptc* p){
 	iprintf("READ from: ");
 	// Iterate over variables on stack
 	for (int i = 0; i < p->stack.stack_i; ++i){
+		if (p->exec.data_index == BC_SCAN_NOT_FOUND){
+			ERROR(ERR_OUT_OF_DATA);
+		}
 		block_size = data_block[1];
 		iprintf("src=%d size=%d", (int)p->exec.data_index, block_size);
 		iprintf(" data=\"%.*s\"", block_size, &data_block[DATA_DATA_OFS + p->exec.data_offset]);
@@ -108,13 +111,14 @@ void cmd_read(struct ptc* p){
 		}
 		p->exec.data_offset += read;
 		iprintf(" read:%d", (int)p->exec.data_offset);
-		if (data_block[2 + p->exec.data_offset] == BC_DATA_DELIM){
+		if (p->exec.data_offset < block_size && data_block[2 + p->exec.data_offset] == BC_DATA_DELIM){
 			p->exec.data_offset++;
 		}
 		iprintf(" pos:%d\n", (int)p->exec.data_offset);
 		if (p->exec.data_offset >= block_size){
 			// search for next data block
 			find_data(p);
+			if (p->exec.data_index == BC_SCAN_NOT_FOUND) continue;
 			data_block = (u8*)&p->exec.code.data[p->exec.data_index];
 		}
 	}
-- 
2.43.0


From de221b1b46a3b2c8bd8b996605a89d399d655687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:11 +0000
Subject: [PATCH 26/34] fix: INPUT and LINPUT aborted when the prompt ended in
 the bottom right corner

---
 source/subsystem/console.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index 3ca566b..d2066a5 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -289,8 +289,10 @@ void con_prompt(struct console* con, void* prompt_str){
 	// Displays prompt string
 	if (prompt_str) // only display string if it exists
 		con_puts(con, prompt_str);
+	con_scroll(con); // the prompt may have filled the last line
 	con_put(con, to_wide('?'));
 	if (con->x) con_newline(con, true); // only newline if necessary for user to have full line of input
+	con_scroll(con);
 }
 
 void con_reprompt(struct console* con, void* prompt_str){
-- 
2.43.0


From d6bb12e154a7858f79f78167dc4f61aa14ddb057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:11 +0000
Subject: [PATCH 27/34] fix: INPUT of a full line lost its last character and
 read and wrote past the line

---
 source/subsystem/console.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index d2066a5..0f9c119 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -350,18 +350,21 @@ void cmd_input(struct ptc* p){
 			con_reprompt(con, prompt_str);
 			continue;
 		}
-		u8 conversion_copy[CONSOLE_WIDTH];
+		// the line, with an end mark behind it
+		u16 line[CONSOLE_WIDTH+1] = {0};
+		memcpy(line, output, CONSOLE_WIDTH * sizeof(u16));
+		u8 conversion_copy[CONSOLE_WIDTH+1];
 		int prev_i = 0;
 		int out_i = 0;
 		
 		for (int i = 0; i < len; ){
 			struct stack_entry* e = ARG(index+i);
-			u8 c = to_char(output[out_i]);
+			u8 c = to_char(line[out_i]);
 			conversion_copy[out_i++] = c;
 			if (e->type == (VAR_NUMBER | VAR_VARIABLE)){
 				// validate first entry is numeric
 				if (is_number(c) || c == '.' || c == '-'){
-				} else if (c == ',' || c == '\0' || c == ' ' || out_i >= CONSOLE_WIDTH){
+				} else if (c == ',' || c == '\0' || c == ' '){
 					// convert from previous to out_i
 					if (out_i - prev_i - 1 == 0){
 						valid = false;
@@ -383,7 +386,7 @@ void cmd_input(struct ptc* p){
 					break;
 				}
 			} else if (e->type == (VAR_STRING | VAR_VARIABLE)){
-				if (c == ',' || c == '\0' || out_i >= CONSOLE_WIDTH){
+				if (c == ',' || c == '\0'){
 					struct string* s = get_new_str(&p->strs);
 					if (!s) ERROR(ERR_OUT_OF_MEMORY);
 					
@@ -395,7 +398,7 @@ void cmd_input(struct ptc* p){
 					// TODO:TEST:LOW Check that wide strings work here
 					bool require_wide = false;
 					for (int j = prev_i; j < out_i; ++j){
-						if (!is_char(output[j])){
+						if (!is_char(line[j])){
 							require_wide = true;
 							break;
 						}
@@ -406,7 +409,7 @@ void cmd_input(struct ptc* p){
 					s->len = out_i - prev_i - 1;
 					for (int j = prev_i; j < out_i; ++j){
 						if (require_wide){
-							s->ptr.w[j - prev_i] = output[j];
+							s->ptr.w[j - prev_i] = line[j];
 						} else {
 							s->ptr.s[j - prev_i] = conversion_copy[j];
 						}
-- 
2.43.0


From 9b15524b751c9ff4046d02ce279a2e1273c4d527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:11 +0000
Subject: [PATCH 28/34] fix: COLOR with a colour above 15 changed the
 background too

---
 source/subsystem/console.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index 0f9c119..f464374 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -151,13 +151,14 @@ void cmd_print(struct ptc* p){
 
 void cmd_color(struct ptc* p){
 	struct console* c = &p->console;
+	int fg, bg;
 	if (p->stack.stack_i == 2){
-		c->col = 0;
-		c->col |= STACK_INT(0); // FG
-		c->col |= STACK_INT(1) << 4; // BG
+		STACK_INT_RANGE(0, 0, 15, fg);
+		STACK_INT_RANGE(1, 0, 15, bg);
+		c->col = fg | bg << 4;
 	} else if (p->stack.stack_i == 1){
-		c->col &= ~COL_FG_MASK; // clear FG value
-		c->col |= STACK_INT(0); // FG
+		STACK_INT_RANGE(0, 0, 15, fg);
+		c->col = (c->col & ~COL_FG_MASK) | fg;
 	}
 	p->stack.stack_i = 0;
 }
-- 
2.43.0


From a159cfda2b25162f9d77ad08664cccbca521693e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:11 +0000
Subject: [PATCH 29/34] fix: deleting from a full input line read past the end
 of the line

---
 source/subsystem/console.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index f464374..cc08f4c 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -239,7 +239,7 @@ u16* shared_input(struct ptc* p){
 		} else if ((keyboard == 15 || check_pressed(&p->input, BUTTON_ID_Y))){
 			// Copy characters back
 			if (out_index > 0){
-				for (int i = out_index-1; i < (int)out_index_max; ++i){
+				for (int i = out_index-1; i < (int)out_index_max-1; ++i){
 					outcol[i] = outcol[i+1];
 					output[i] = output[i+1];
 				}
@@ -249,7 +249,7 @@ u16* shared_input(struct ptc* p){
 		} else if (keyboard == 67){
 			// Copy characters back
 			if (out_index < out_index_max){
-				for (int i = out_index; i < (int)out_index_max; ++i){
+				for (int i = out_index; i < (int)out_index_max-1; ++i){
 					outcol[i] = outcol[i+1];
 					output[i] = output[i+1];
 				}
-- 
2.43.0


From 725a9efff3efb431801350063a88615bc82cc9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:04 +0000
Subject: [PATCH 30/34] fix: GFILL and GBOX left or above of the page drew on
 its edge

---
 source/subsystem/graphics.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/source/subsystem/graphics.c b/source/subsystem/graphics.c
index 2d6bc3b..6de0e17 100644
--- a/source/subsystem/graphics.c
+++ b/source/subsystem/graphics.c
@@ -61,10 +61,11 @@ void cmd_gfill(struct ptc* p){
 	int y2 = STACK_INT(3);
 	u8 color;
 	
-	x1 = x1 < 0 ? 0 : x1 > GRP_WIDTH ? GRP_WIDTH : x1;
-	y1 = y1 < 0 ? 0 : y1 > GRP_HEIGHT ? GRP_HEIGHT : y1;
-	x2 = x2 < 0 ? 0 : x2 > GRP_WIDTH ? GRP_WIDTH : x2;
-	y2 = y2 < 0 ? 0 : y2 > GRP_HEIGHT ? GRP_HEIGHT : y2;
+	// limits just outside of the page, where nothing is drawn
+	x1 = x1 < 0 ? -1 : x1 > GRP_WIDTH ? GRP_WIDTH : x1;
+	y1 = y1 < 0 ? -1 : y1 > GRP_HEIGHT ? GRP_HEIGHT : y1;
+	x2 = x2 < 0 ? -1 : x2 > GRP_WIDTH ? GRP_WIDTH : x2;
+	y2 = y2 < 0 ? -1 : y2 > GRP_HEIGHT ? GRP_HEIGHT : y2;
 	
 	if (p->stack.stack_i == 5){
 		STACK_INT_RANGE(4,0,255,color);
@@ -89,10 +90,11 @@ void cmd_gbox(struct ptc* p){
 	int y2 = STACK_INT(3);
 	u8 color;
 	
-	x1 = x1 < 0 ? 0 : x1 > GRP_WIDTH ? GRP_WIDTH : x1;
-	y1 = y1 < 0 ? 0 : y1 > GRP_HEIGHT ? GRP_HEIGHT : y1;
-	x2 = x2 < 0 ? 0 : x2 > GRP_WIDTH ? GRP_WIDTH : x2;
-	y2 = y2 < 0 ? 0 : y2 > GRP_HEIGHT ? GRP_HEIGHT : y2;
+	// limits just outside of the page, where nothing is drawn
+	x1 = x1 < 0 ? -1 : x1 > GRP_WIDTH ? GRP_WIDTH : x1;
+	y1 = y1 < 0 ? -1 : y1 > GRP_HEIGHT ? GRP_HEIGHT : y1;
+	x2 = x2 < 0 ? -1 : x2 > GRP_WIDTH ? GRP_WIDTH : x2;
+	y2 = y2 < 0 ? -1 : y2 > GRP_HEIGHT ? GRP_HEIGHT : y2;
 	
 	if (p->stack.stack_i == 5){
 		int c = STACK_INT(4);
-- 
2.43.0


From 197fca6f4b269307be6402055dd4a8f430ef6109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:04 +0000
Subject: [PATCH 31/34] fix: GLINE far outside of the page overflowed and drew
 pixels elsewhere

---
 source/subsystem/graphics.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/subsystem/graphics.c b/source/subsystem/graphics.c
index 6de0e17..6a06746 100644
--- a/source/subsystem/graphics.c
+++ b/source/subsystem/graphics.c
@@ -147,7 +147,7 @@ static inline void draw_line(int x1, int y1, int x2, int y2, u8* page, u8 color,
 			x2 = temp;
 		}
 		for (int x = x1; x <= x2; ++x){
-			int y = FP_TO_INT(y_slope*(x-x1) + (1<<(FIXPOINT-1))) + y1;
+			int y = (((int64_t)y_slope*(x-x1) + (1<<(FIXPOINT-1))) >> FIXPOINT) + y1;
 			
 			grp_pixel(page,x,y,color,drawmode);
 		}
@@ -164,7 +164,7 @@ static inline void draw_line(int x1, int y1, int x2, int y2, u8* page, u8 color,
 			x2 = temp;
 		}
 		for (int y = y1; y <= y2; ++y){
-			int x = FP_TO_INT(x_slope*(y-y1) + (1<<(FIXPOINT-1))) + x1;
+			int x = (((int64_t)x_slope*(y-y1) + (1<<(FIXPOINT-1))) >> FIXPOINT) + x1;
 			
 			grp_pixel(page,x,y,color,drawmode);
 		}
-- 
2.43.0


From 5ced2318672a17be440186742dbe0797c27ab365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:04 +0000
Subject: [PATCH 32/34] fix: GPUTCHR did not draw on the top line of the page

---
 source/subsystem/graphics.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/subsystem/graphics.c b/source/subsystem/graphics.c
index 6a06746..4957a77 100644
--- a/source/subsystem/graphics.c
+++ b/source/subsystem/graphics.c
@@ -273,7 +273,7 @@ void cmd_gputchr(struct ptc* p){
 					for (int j = 0; j < size; ++j){
 						int xp = x_start + x*size + j;
 						int yp = y_start + y*size + i;
-						if (col1 && xp >= 0 && xp < GRP_WIDTH && yp && yp < GRP_HEIGHT){
+						if (col1 && xp >= 0 && xp < GRP_WIDTH && yp >= 0 && yp < GRP_HEIGHT){
 							grp_pixel(dest, xp, yp, 16*pal+col1, p->graphics.drawmode);
 						}
 					}
@@ -282,7 +282,7 @@ void cmd_gputchr(struct ptc* p){
 					for (int j = 0; j < size; ++j){
 						int xp = x_start + x*size + j + size;
 						int yp = y_start + y*size + i;
-						if (col2 && xp >= 0 && xp < GRP_WIDTH && yp && yp < GRP_HEIGHT){
+						if (col2 && xp >= 0 && xp < GRP_WIDTH && yp >= 0 && yp < GRP_HEIGHT){
 							grp_pixel(dest, xp, yp, 16*pal+col2, p->graphics.drawmode);
 						}
 					}
-- 
2.43.0


From 0dafde47b1a2152d9641e5ffaeb1ea25930bd4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:04 +0000
Subject: [PATCH 33/34] fix: GPUTCHR with a resource that has no characters
 read outside of it

---
 source/subsystem/graphics.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/source/subsystem/graphics.c b/source/subsystem/graphics.c
index 4957a77..7d238c4 100644
--- a/source/subsystem/graphics.c
+++ b/source/subsystem/graphics.c
@@ -236,6 +236,13 @@ void cmd_gputchr(struct ptc* p){
 	STACK_INT_RANGE(4,0,15,pal);
 	size = STACK_INT(5);
 	if (size == 1 || size == 2 || size == 4 || size == 8){
+		// pointer to base resource
+		struct res_info i = get_verified_resource_type(p, resource);
+		if (p->exec.error) return;
+		if (i.type_id != TYPE_CHR || !i.data){
+			ERROR(ERR_INVALID_RESOURCE_TYPE); // TODO:ERR:MED Check this is correct
+		}
+		u8* src = i.data;
 		// Copy colors from character resource specified
 		// BG* -> COL0
 		// SP* -> COL1
@@ -253,12 +260,6 @@ void cmd_gputchr(struct ptc* p){
 		iprintf("GPUTCHR palette copy %s(%p) %s%c(%p)\n", col_resource, (void*)col_src, "COL2", (p->graphics.screen ? 'L' : 'U'), (void*)col_dest);
 		p->res.regen_col = true;
 
-		// pointer to base resource
-		struct res_info i = get_verified_resource_type(p, resource);
-		u8* src = i.data;
-		if (!src){
-			ERROR(ERR_INVALID_RESOURCE_TYPE); // TODO:ERR:MED Check this is correct
-		}
 		// pointer to relevant character
 		src = &src[CHR_UNIT_SIZE * chr];
 
-- 
2.43.0


From 363193c3bcb715ee7d5984570d7635c796b4bb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:04 +0000
Subject: [PATCH 34/34] fix: GPAINT never ended when the start had the fill
 colour or with a border colour, and read outside the page

---
 source/subsystem/graphics.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/source/subsystem/graphics.c b/source/subsystem/graphics.c
index 7d238c4..9cc24d3 100644
--- a/source/subsystem/graphics.c
+++ b/source/subsystem/graphics.c
@@ -452,11 +452,13 @@ void cmd_gcircle(struct ptc* p){
 
 // Based on "combined-scan-and-fill" algorithm listed at
 // https://en.wikipedia.org/wiki/Flood_fill?useskin=monobook
-// match: positive = only fill this color negative = fill any other color
-static inline bool inside(u8* data, int x, int y, int match){
+// match: positive = only fill this color negative = fill any other color than this one and the fill color
+static inline bool inside(u8* data, int x, int y, int match, int c){
 	if (x < 0 || x >= GRP_WIDTH || y < 0 || y >= GRP_HEIGHT) return 0;
 	
-	return match >= 0 ? (data[grp_index(x,y)] == match) : (data[grp_index(x,y)] != -match - 1); // matching first color
+	u8 pixel = data[grp_index(x,y)];
+	if (pixel == c) return 0; // filled already
+	return match >= 0 ? (pixel == match) : (pixel != -match - 1); // matching first color
 }
 
 #define PAINT_STACK_MAX 256
@@ -493,6 +495,8 @@ void cmd_gpaint(struct ptc* p){
 	}
 	u8* data = p->res.grp[p->graphics.info[p->graphics.screen].drawpage];
 
+	if (x < 0 || x >= GRP_WIDTH || y < 0 || y >= GRP_HEIGHT) return; // nothing to fill
+
 	int match;
 	if (p->stack.stack_i > 3){
 		int b;
@@ -512,8 +516,8 @@ void cmd_gpaint(struct ptc* p){
 		PAINT_STACK_GET(x1, x2, y, dy);
 		
 		x = x1;
-		if (inside(data, x, y, match)){
-			while(inside(data, x-1, y, match)){
+		if (inside(data, x, y, match, c)){
+			while(inside(data, x-1, y, match, c)){
 				data[grp_index(x-1, y)] = c;
 				--x;
 			}
@@ -522,7 +526,7 @@ void cmd_gpaint(struct ptc* p){
 			}
 		}
 		while(x1 <= x2){
-			while(inside(data, x1, y, match)){
+			while(inside(data, x1, y, match, c)){
 				data[grp_index(x1, y)] = c;
 				++x1;
 			}
@@ -533,7 +537,7 @@ void cmd_gpaint(struct ptc* p){
 				PAINT_STACK_ADD(x2 + 1, x1 - 1, y - dy, -dy);
 			}
 			++x1;
-			while (x1 < x2 && !inside(data, x1, y, match)){
+			while (x1 < x2 && !inside(data, x1, y, match, c)){
 				++x1;
 			}
 			x = x1;
-- 
2.43.0

