// C03: conversions between numbers and text
#include "str.h"
#include "strfuncs.h"
//@unit fix mode=plain target=fixp_to_char functions=fixp_to_char unwind=13 :: decimal digits of every number, rounded to three places, at most 12 bytes
//@unit round mode=plain :: (lemma) the rounding used is within half a thousandth of the number
//@unit num mode=plain stub=str_at_wide,str_len cases=BS:10:16:2 unwind=14 target=str_to_number functions=str_to_number fb=-DSMALL bounded=all_texts_up_to_5_(decimal)_9_(hexadecimal)_12_(binary)_characters timeout=300 :: number texts
//@unit shape1 mode=plain stub=str_at_wide,str_len defs=-DK=1,-DM=3,-DNEG=1 unwind=12 target=str_to_number functions=str_to_number fb=-DSMALL bounded=a_sign,_a_digit,_a_point_and_3_digits :: decimal texts of a given shape
//@unit shape2 mode=plain stub=str_at_wide,str_len defs=-DK=6,-DM=7 unwind=20 target=str_to_number functions=str_to_number fb=-DSMALL bounded=6_digits_a_point_and_7_digits :: decimal texts of a given shape
//@unit shape3 mode=plain stub=str_at_wide,str_len defs=-DK=0,-DM=13 unwind=20 target=str_to_number functions=str_to_number fb=-DSMALL bounded=a_point_and_13_digits :: decimal texts of a given shape
//@unit shape4 mode=plain stub=str_at_wide,str_len defs=-DK=10,-DM=30 unwind=50 target=str_to_number functions=str_to_number fb=-DSMALL bounded=10_digits_a_point_and_30_digits :: long decimal texts
//@unit u8num mode=plain stub=str_to_number target=u8_to_number functions=u8_to_number,u8_to_num cases=KB:0:1 :: a byte text is read as a number through str_to_number
//@unit fixs mode=plain stub=fixp_to_char target=fixp_to_str functions=fixp_to_str unwind=16 cases=KA:0:2:3 :: the text and its length are stored in the destination, in every storage form
//@unit str mode=plain stub=fixp_to_str target=func_str functions=func_str unwind=6 cases=VX :: STR$ gives the number's text in free storage, or Out of memory
//@unit hex mode=plain target=func_hex functions=func_hex unwind=25 cases=ND:0:1:2:3:4:5:6 timeout=300 :: HEX$ gives the two's complement digits or Illegal function call
//@unit val mode=plain stub=str_to_number target=func_val functions=func_val unwind=12 cases=KA:0:1:2 bounded=texts_up_to_8_characters :: VAL reads decimal, &H and &B texts, else Syntax error, or Overflow
V_INPUT(fixp x; bool xv; u8 k; V_STR_IN(a); u32 I, D; u8 d[9]; u32 r[9]; u8 t[12]; int64_t ret; u8 free;);
#ifndef KA
#define KA 0
#endif
V_STR(KA, a)
// ghosts: I.D is the number rounded to three places, d its nine digits, r the remainders (i.e. long division)
#define MAG ((int64_t)in.x < 0 ? -(int64_t)in.x : (int64_t)in.x)
#define UMAG ((u32)(in.x < 0 ? 0u - (u32)in.x : (u32)in.x))
#define D0 ((((UMAG & 4095) + 2) * 1000) >> 12)
#define CARRY (D0 >= 1000)
static void digits(void){
	V_ASSUME(in.I == (UMAG >> 12) + CARRY && in.D == (CARRY ? D0 - 1000 : D0));
	static const u32 pw[9] = {100000, 10000, 1000, 100, 10, 1, 100, 10, 1};
	u32 prev = in.I;
	for (unsigned i = 0; i < 9; ++i) {
		if (i == 6) prev = in.D;
		V_ASSUME(in.d[i] <= 9 && in.r[i] < pw[i] && prev == in.d[i] * pw[i] + in.r[i]);
		prev = in.r[i];
	}
}
static u8 v_buf[12];
static u8 v_exp[12]; static unsigned v_n;
static void expect(void){
	unsigned n = 0; bool lead = true;
	if (in.x < 0) v_exp[n++] = '-';
	for (unsigned i = 0; i < 6; ++i) { if (in.d[i] || i == 5) lead = false; if (!lead) v_exp[n++] = '0' + in.d[i]; }
	if (in.D) {
		v_exp[n++] = '.';
		v_exp[n++] = '0' + in.d[6];
		if (in.d[7] || in.d[8]) v_exp[n++] = '0' + in.d[7];
		if (in.d[8]) v_exp[n++] = '0' + in.d[8];
	}
	v_n = n;
	v_exp[n] = 0;
}
#define C_fixp_to_char(REQ, ASG, ENS) REQ(n == in.x && str == v_buf) ASG(UPTO(v_buf, 12)) \
	ENS("the decimal digits of the number rounded to three places, without superfluous zeros, NUL-terminated", in.k > v_n || v_buf[in.k] == v_exp[in.k])
void h_fix(void){ V_IN(); digits(); expect(); V_ASSUME(in.k < 12); fixp n = in.x; u8 *str = v_buf; V_CALL(fixp_to_char, (n, str)); V_COVER(v_n == 11); V_COVER(v_n == 1); V_COVER(in.x == INT_MIN); }
// the rounding formula is within half a thousandth of the number: 1/1000 * (I*1000+D) vs MAG/4096
// in thousandths: the integer part contributes equally to both sides, so the fraction decides
#define FRAC (UMAG & 4095)
void h_round(void){ V_IN(); u32 D = CARRY ? D0 - 1000 : D0; int d = (int)(4096 * (D + 1000 * CARRY)) - (int)(1000 * FRAC);
	V_CHECK("rounded to the nearest thousandth (at most 0.512 thousandths off)", D < 1000 && d <= 2000 && d > 2000 - 4096); V_COVER(CARRY); V_COVER(D == 500); }

// str_to_number. ghosts: the text is -? (neg) then K digits of the base then, for decimals, optionally '.' and M digits, then nothing or another character
#ifndef BS
#define BS 10
#endif
#define DEC (BS == 10)
#if BS == 16
#define MAXL 9
#elif BS == 2
#define MAXL 12
#else
#define MAXL 5
#endif
#if defined(V_STUB_str_at_wide)
static const u8 v_str[2] = {BC_STRING, 0};
#else // fallback and replay: a real wide string
static u16 v_str[1 + MAX_STRLEN];
#define REALTXT { ((u8*)v_str)[0] = STRING_INLINE_WIDE; ((u8*)v_str)[1] = in.alen; for (unsigned i = 0; i < 60; ++i) v_str[1 + i] = in.awi.c[i]; V_ASSUME(in.alen <= 60); }
#endif
#ifndef REALTXT
#define REALTXT
#endif
#define TXT ((const void*)v_str)
static u16 v_txt(unsigned i){ return i < in.alen ? in.awi.c[i] : 0; }
#if defined(V_STUB_str_at_wide)
u16 str_at_wide(const void *src, const u16 index){ V_CHECK("callee precondition: index within the string", src == TXT && index < in.alen); return in.awi.c[index]; }
#endif
#ifdef V_STUB_str_len
u32 str_len(const void *src){ V_CHECK("callee precondition", src == TXT); return in.alen; }
#endif
static int v_dig(u16 c){ int d = c >= 0xff10 && c <= 0xff19 ? c - 0xff10 : c >= 0xff21 && c <= 0xff26 ? c - 0xff21 + 10 : 99; return d < BS ? d : -1; }
static bool v_negt; static uint32_t v_int; static uint64_t v_frac, v_max;
static void value(void){
	unsigned i = 0; bool point = false, done = false, huge = false;
	v_negt = in.alen && in.awi.c[0] == 0xff0d;
	v_int = 0; v_frac = 0; v_max = 1;
	for (i = 0; i < MAXL; ++i) {
		if (i >= in.alen || done) continue;
		if (i == 0 && v_negt) continue;
		u16 c = in.awi.c[i]; int d = v_dig(c);
		if (d >= 0 && !point) { v_int = v_int * BS + d; if (v_int >= 524288) done = true; }
		else if (d >= 0) { if (v_max < 1000000000000) { v_frac = v_frac * BS + d; v_max *= BS; } }
		else if (DEC && c == 0xff0e && !point) point = true;
		else done = true;
	}
}
#define VALUE ((int64_t)v_int * 4096 + (DEC ? (int64_t)(4096 * v_frac / v_max) : 0))
#define C_str_to_number(REQ, ASG, ENS) REQ(str == TXT && base == BS && allow_decimal == DEC) ASG() \
	ENS("the longest numeric prefix, truncated to 1/4096", RET == (v_negt ? -VALUE : VALUE))
void h_num(void){ V_IN(); V_ASSUME(in.alen <= MAXL); value(); REALTXT const void *str = TXT; int base = BS; bool allow_decimal = DEC; V_CALLR(int64_t, str_to_number, (str, base, allow_decimal)); V_COVER(v_ret < -4096); V_COVER(v_ret > 8192); V_COVER(!DEC || v_ret == 5120); }
// numbers of a given shape: an optional '-', K digits, '.', M digits, then up to three characters starting with one that is no digit
#ifndef M
#define M 3
#endif
#ifndef K
#define K 1
#endif
#ifndef NEG
#define NEG 0
#endif
#define MC (M > 12 ? 12 : M)
static const uint64_t v_p10[13] = {1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000, 10000000000, 100000000000, 1000000000000};
#define ISD(c) ((c) >= 0xff10 && (c) <= 0xff19)
static void shape(void){
	V_IN();
	uint64_t F = 0; u32 N = 0; unsigned o = NEG;
	if (NEG) in.awi.c[0] = 0xff0d;
	for (unsigned i = 0; i < K; ++i) { V_ASSUME(ISD(in.awi.c[o + i])); N = N * 10 + (in.awi.c[o + i] - 0xff10); V_ASSUME(N < 524288); }
	in.awi.c[o + K] = 0xff0e;
	for (unsigned i = 0; i < M; ++i) { V_ASSUME(ISD(in.awi.c[o + K + 1 + i])); if (i < 12) F = F * 10 + (in.awi.c[o + K + 1 + i] - 0xff10); }
	in.alen = o + K + 1 + M + (in.k & 3);
	V_ASSUME(!ISD(in.awi.c[o + K + 1 + M]));
	REALTXT const void *str = TXT; int64_t v_ret = str_to_number(str, 10, true);
	int64_t f = (NEG ? -v_ret : v_ret) - (int64_t)N * 4096;
	V_CHECK("the digits are read, truncated to 1/4096", f >= 0 && f < 4096 && (uint64_t)f * v_p10[MC] <= 4096 * F && 4096 * F < (uint64_t)(f + 1) * v_p10[MC]);
		V_COVER(M == 0 || f > 3000); V_COVER(!K || N > 7);
}
void h_shape1(void){ shape(); }
void h_shape2(void){ shape(); }
void h_shape3(void){ shape(); }
void h_shape4(void){ shape(); }

// u8_to_number / u8_to_num: str_to_number of that text
#ifndef KB
#define KB 0
#endif
static const u8 *v_data; static int v_len, v_base, v_calls; static bool v_dec;
#ifdef V_STUB_str_to_number
int64_t str_to_number(const void *str, const int base, const bool allow_decimal){
	V_CHECK("callee precondition: the text to read", *(char*)str == STRING_CHAR && (int)((struct string*)str)->len == v_len
		&& (in.k >= v_len || ((struct string*)str)->ptr.s[in.k] == v_data[in.k]));
	V_CHECK("callee precondition: base and decimals", base == v_base && allow_decimal == v_dec);
	v_calls++;
	return in.ret;
}
#define REF(d, l, b, dec) in.ret
#else
static int64_t REF(const u8 *d, int l, int b, bool dec){ struct string t = {.type = STRING_CHAR, .len = l, .ptr.s = (u8*)d}; return str_to_number(&t, b, dec); }
#endif
void h_u8num(void){ V_IN(); V_ASSUME(in.alen <= 256); v_data = in.aby.c; v_len = in.alen; v_base = KB ? 10 : 16; v_dec = KB;
	int64_t r = KB ? u8_to_num(in.aby.c, in.alen) : u8_to_number(in.aby.c, in.alen, 16, false);
	V_CHECK("the number of that text", r == REF(in.aby.c, in.alen, v_base, v_dec)); V_COVER(in.alen == 256); }

// fixp_to_str: text of n, NUL-terminated within 12 bytes, by fixp_to_char
#if defined(V_STUB_fixp_to_char)
void fixp_to_char(const fixp n, u8 *str){ V_CHECK("callee precondition", n == in.x); for (unsigned i = 0; i < 12; ++i) { str[i] = in.t[i]; if (!in.t[i]) break; } }
#endif
void h_fixs(void){ V_IN();
	in.t[11] = 0; unsigned n = 0; while (n < 11 && in.t[n]) ++n;
#ifndef V_STUB_fixp_to_char
	fixp_to_char(in.x, in.t); n = strlen((char*)in.t);
#endif
	static u8 inl[16]; static struct string d; static u16 w[256];
	void *dest;
	if (KA == 3) { inl[0] = STRING_INLINE_CHAR; dest = inl; }
	else { d.type = KA == 2 ? STRING_WIDE : STRING_CHAR; d.ptr.w = w; d.uses = in.auses; dest = &d; }
	fixp_to_str(in.x, dest);
	u8 *o = KA == 3 ? inl + 2 : (u8*)w;
	V_CHECK("length", (KA == 3 ? inl[1] : d.len) == n);
	V_CHECK("text", in.k >= n || o[in.k] == in.t[in.k]);
	V_CHECK("stored as 8-bit characters of the same string", KA == 3 ? inl[0] == STRING_INLINE_CHAR : d.type == STRING_CHAR && d.ptr.w == w && d.uses == in.auses);
	V_COVER(n == 11); V_COVER(n == 1);
}
// string table of three slots; slot i is in use iff bit i of in.free is clear
#ifndef VX
#define VX 0
#endif
#define NS 3
#define BASE 2
static struct string v_slots[NS]; static u8 v_chars[NS * MAX_STRLEN];
static struct ptc *table(void){
	struct ptc *p = &P;
	p->strs.strs_max = NS; p->strs.strs = v_slots; p->strs.str_data = v_chars; p->strs.type = STRING_CHAR;
	for (unsigned i = 0; i < NS; ++i) { v_slots[i].type = STRING_CHAR; v_slots[i].uses = !((in.free >> i) & 1); v_slots[i].ptr.s = v_chars + i * MAX_STRLEN; }
	p->exec.error = ERR_NONE; p->stack.stack_i = BASE;
	return p;
}
#define NOFREE (!(in.free & 7))
// the result string: one of the free slots, used exactly once, slot data its own
#define RES ((struct string*)p->stack.entry[BASE].value.ptr)
#define RESOK (p->exec.error == ERR_NONE && p->stack.stack_i == BASE + 1 && p->stack.entry[BASE].type == VAR_STRING && \
	(RES == v_slots || RES == v_slots + 1 || RES == v_slots + 2) && ((in.free >> (RES - v_slots)) & 1) && RES->uses == 1 && RES->ptr.s == v_chars + (RES - v_slots) * MAX_STRLEN)
#define OTHERS (in.k >= NS || &v_slots[in.k] == RES || v_slots[in.k].uses == !((in.free >> in.k) & 1))
#ifdef V_STUB_fixp_to_str
static void *v_dst;
void fixp_to_str(const fixp n, void *dest){ V_CHECK("callee precondition", n == in.x); v_dst = dest; ((struct string*)dest)->type = STRING_CHAR; ((struct string*)dest)->len = 4; }
#define TEXTOK (v_dst == RES && RES->len == 4)
#else
#define TEXTOK text_ok(RES)
static bool text_ok(struct string *r){ u8 t[12]; fixp_to_char(in.x, t); return r->len == strlen((char*)t) && !memcmp(t, r->ptr.s, r->len); }
#endif
void h_str(void){ V_IN(); struct ptc *p = table(); v_push_num(p, in.x, VX, 0); p->exec.argcount = 1;
	func_str(p);
	V_CHECK("Out of memory when no storage is free", !NOFREE || p->exec.error == ERR_OUT_OF_MEMORY);
	V_CHECK("the result takes free storage", NOFREE || RESOK);
	V_CHECK("the result is the number's text", NOFREE || TEXTOK);
	V_CHECK("other strings are kept", NOFREE || OTHERS);
	V_COVER(NOFREE); V_COVER(in.free == 4); }

#ifndef ND
#define ND 0
#endif
#if ND
static fixp v_ndv;
#endif
#ifdef V_UNIT_hex
#include "fmt.h"
void h_hex(void){ V_IN(); struct ptc *p = table(); v_push_num(p, in.x, in.xv, 0);
	if (ND) { v_push_num(p, ((ND == 6 ? (in.d[0] & 1 ? 6 : in.d[0] & 2 ? 0 : -3) : ND) << 12) + 4095, in.d[1] & 1, 1); }
	p->exec.argcount = ND ? 2 : 1;
	func_hex(p);
	int v = in.x >> 12;
	bool bad = ND == 6 || (ND && (v >= (1 << (4 * ND)) || v < -(1 << (4 * ND - 1))));
	V_CHECK("digit counts other than 1 to 5 are Out of range", ND != 6 || p->exec.error == ERR_OUT_OF_RANGE);
	V_CHECK("numbers that do not fit are Illegal function call", ND == 6 || !bad || NOFREE || p->exec.error == ERR_ILLEGAL_FUNCTION_CALL);
	V_CHECK("Out of memory when no storage is free", bad || !NOFREE || p->exec.error == ERR_OUT_OF_MEMORY);
	V_CHECK("the result takes free storage", bad || NOFREE || RESOK);
	if (!bad && !NOFREE) {
		u32 w = v & (ND ? (1u << (4 * ND)) - 1 : 0xfffffu);
		unsigned n = ND ? ND : w >> 16 ? 5 : w >> 12 ? 4 : w >> 8 ? 3 : w >> 4 ? 2 : 1;
		V_CHECK("length", RES->len == n && RES->type == STRING_CHAR);
		V_ASSUME(in.k < 5);
		u32 g = (w >> (4 * (n - 1 - (in.k < n ? in.k : 0)))) & 15;
		V_CHECK("the two's complement digits", in.k >= n || RES->ptr.s[in.k] == (g < 10 ? '0' + g : 'A' + g - 10));
	}
	V_COVER(v < 0);
	V_COVER(bad == (ND == 6)); }
#endif
#ifdef V_UNIT_val
#define VL 8
static u8 v_copy[MAX_STRLEN];
void h_val(void){ V_IN(); struct ptc *p = &P; p->exec.error = ERR_NONE; p->stack.stack_i = BASE; p->exec.argcount = 1;
	V_ASSUME(in.alen <= VL && in.auses > 0);
	static void *str; str = v_mk_a();
	struct stack_entry *e = &p->stack.entry[p->stack.stack_i++];
	if (in.xv) { e->type = VAR_STRING | VAR_VARIABLE; e->value.ptr = &str; } else { e->type = VAR_STRING; e->value.ptr = str; }
	for (unsigned i = 0; i < VL; ++i) v_copy[i] = i < in.alen ? (KA == 2 ? (u8)to_char(in.awi.c[i]) : V_CH8(KA, a, i)) : 0;
	v_base = v_copy[0] != '&' ? 10 : v_copy[1] == 'H' ? 16 : v_copy[1] == 'B' ? 2 : 0;
	v_data = v_copy + (v_base == 10 ? 0 : 2); v_len = in.alen - (v_base == 10 ? 0 : 2); v_dec = v_base == 10;
	func_val(p);
	if (v_base == 0) V_CHECK("Syntax error", p->exec.error == ERR_SYNTAX);
	else {
		int64_t r = REF(v_data, v_len, v_base, v_dec);
		bool over = v_base == 10 && (r < INT_MIN || r > INT_MAX);
		V_CHECK("Overflow when the number does not fit", !over || p->exec.error == ERR_OVERFLOW);
		V_CHECK("the number read", over || (p->exec.error == ERR_NONE && v_result_num(p, BASE, (fixp)r)));
		V_COVER(over);
	}
	V_CHECK("a temporary operand is released once", V_KEPT(KA, a, 0, in.auses - !in.xv));
	V_COVER(p->exec.error == ERR_SYNTAX); V_COVER(v_base == 16); V_COVER(v_base == 2); V_COVER(p->exec.error == 0 && in.alen > 5);
}
#endif
