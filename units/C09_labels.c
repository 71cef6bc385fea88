// C09: jumps and DATA pointers land where the label says
#include "v.h"
#include "label.h"
#include "runner.h"
#include "flow.h"
#include "data.h"
#include "tokens.h"
//@unit keep  mode=plain target=find_label_slot functions=find_label_slot,find_label stub=namecmp,name_hash unwind=20 bounded=label_tables_of_8_entries,_any_content :: defining a label keeps all others and is found again
//@unit fresh mode=plain target=find_label_slot functions=find_label_slot,find_label stub=namecmp,name_hash unwind=20 bounded=label_tables_of_8_entries,_any_content :: a label is found where it was defined
//@unit add mode=plain target=add_label functions=add_label stub=find_label_slot unwind=20 bounded=label_tables_of_8_entries,_any_content :: a label and its place are recorded, all others kept
//@unit other mode=plain target=find_label functions=find_label stub=namecmp,name_hash unwind=20 bounded=label_tables_of_8_entries,_any_content :: only the label of exactly that name is found
//@unit reset mode=plain target=reset_label functions=reset_label unwind=20 bounded=label_tables_of_8_entries,_any_content :: no label of an earlier program is left
//@unit search mode=plain target=search_label functions=search_label,str_char_copy stub=label_index cases=KF:0:1:2:3 unwind=20 :: a label in any form is looked up by its characters, anything else is refused
//@unit jump mode=plain target=cmd_goto functions=cmd_goto,cmd_gosub,cmd_goto_gosub stub=search_label unwind=4 cases=KSUB :: GOTO and GOSUB continue at the label; the return place is remembered
//@unit on mode=plain target=cmd_goto functions=cmd_goto_gosub stub=search_label unwind=4 cases=KSUB :: ON continues at the chosen label or after it
//@unit if mode=plain target=cmd_if functions=cmd_if,cmd_else,bc_scan stub=search_label cases=KP:0:1:2:3:4:5:6 unwind=30 flags=fsens :: IF takes exactly the branch its condition says
//@unit scan mode=plain target=bc_scan functions=bc_scan,bc_scan_pair cases=KB:0:1:2:3 unwind=12 flags=fsens bounded=programs_of_3_instructions_with_texts_of_up_to_3_characters :: scanning visits exactly the instructions of the program
//@unit restore mode=plain target=cmd_restore functions=cmd_restore stub=search_label,bc_scan unwind=4 :: RESTORE continues READ at the first DATA after the label
//@unit item_num mode=plain target=read_one_u8 functions=read_one_u8 stub=u8_to_num unwind=22 bounded=DATA_lines_of_up_to_20_characters :: READ of a number takes exactly one item
//@unit item_str mode=plain target=read_one_u8 functions=read_one_u8 stub=get_new_str unwind=22 bounded=DATA_lines_of_up_to_20_characters :: READ of a text takes exactly one item
//@unit read mode=plain target=cmd_read functions=cmd_read,find_data,bc_scan stub=read_one_u8 unwind=12 cases=KD:0:1:2 flags=fsens bounded=two_DATA_lines_and_three_variables :: READ takes the items in program order and stops with Out of DATA after the last
#define N 8
struct v_nm { char c[16]; };
struct v_ent { struct v_nm name; u32 index; };
struct v_c20 { u8 c[20]; };
V_INPUT(struct v_ent e[N]; struct v_nm n1; struct v_c20 txt; u8 l1, w, k, ln; u32 h1, hw, idx1, at, cs; fixp num; bool found, has; u16 len; u8 b1, b2, b3, op1, op2, op3, find; fixp cond; u8 pos; u8 free; s16 r1, r2, r3; s16 uses; u8 dt;);
static struct v_nm v_n1, v_nw; static u32 v_iw;
#if defined(V_UNIT_keep) || defined(V_UNIT_add) || defined(V_UNIT_fresh) || defined(V_UNIT_other) || defined(V_UNIT_reset)
static struct label_line tab[N]; static struct labels v_l = {N, tab};
static bool okname(const struct v_nm *n, unsigned l){ if (l < 1 || l > 16) return false; for (unsigned i = 0; i < 16; ++i) if (i < l && !n->c[i]) return false; return true; }
static bool samename(const char *a, const char *b, unsigned l){ for (unsigned i = 0; i < 16; ++i) if (i < l && a[i] != b[i]) return false; return l == 16 || !a[l]; }
static unsigned len16(const char *c){ unsigned l = 16; for (unsigned i = 16; i > 0; --i) if (!c[i - 1]) l = i - 1; return l; }
#ifdef V_STUB_namecmp
bool namecmp(const char *a, const u32 len, const char b[16]){
	for (unsigned i = 0; i < N; ++i) if (b == tab[i].name) { V_CHECK("callee precondition: name length", len >= 1 && len <= 16); bool r = true; for (unsigned j = 0; j < 16; ++j) if (j < len ? a[j] != tab[i].name[j] : j == len && tab[i].name[j]) r = false; return r; }
	V_CHECK("callee precondition: names are those of the table's entries", false); return false; }
u32 name_hash(const char *name, const u32 len, const u32 hmax){ V_CHECK("callee precondition: whole table", hmax == N); return (name == v_n1.c ? in.h1 : in.hw) % N; }
#endif
static void setup(void){
	NATIVE(in.l1 = in.l1 >= 1 && in.l1 <= 16 ? in.l1 : 1 + in.l1 % 16; for (unsigned i = 0; i < in.l1; ++i) if (!in.n1.c[i]) in.n1.c[i] = 'A'; in.w %= N;)
	v_n1 = in.n1;
	for (unsigned i = 0; i < N; ++i) { tab[i].index = in.e[i].index; for (unsigned j = 0; j < 16; ++j) tab[i].name[j] = in.e[i].name.c[j];
		if (i == in.w) { v_iw = in.e[i].index; for (unsigned j = 0; j < 16; ++j) v_nw.c[j] = in.e[i].name.c[j]; } }
}
#endif
// entry i becomes label n1 (what add_label does with the slot found: unit add)
#if defined(V_UNIT_keep) || defined(V_UNIT_fresh) || defined(V_UNIT_add) || defined(V_UNIT_other) || defined(V_UNIT_reset)
static void put_n1(int s){ for (int i = 0; i < N; ++i) if (i == s) { tab[i].index = in.idx1; for (unsigned j = 0; j < 16; ++j) if (j <= in.l1) tab[i].name[j] = j < in.l1 ? v_n1.c[j] : 0; } }
#endif
#ifdef V_UNIT_keep
void h_keep(void){ V_IN(); setup(); unsigned lw = len16(v_nw.c); V_ASSUME(in.w < N && lw >= 1 && okname(&in.n1, in.l1));
	bool same = in.l1 == lw && samename(v_nw.c, in.n1.c, lw); V_ASSUME(!same || in.h1 % N == in.hw % N);
	V_ASSUME(find_label(&v_l, v_nw.c, lw) == in.w); // entry w is a label defined earlier
	int s = find_label_slot(&v_l, v_n1.c, in.l1);
	V_CHECK("a label is not defined twice", !same || s == -1);
	V_CHECK("a new label never takes the place of another", s != in.w);
	put_n1(s);
	V_CHECK("all others are still found at their place", find_label(&v_l, v_nw.c, lw) == in.w);
	V_COVER(s >= 0); V_COVER(same); }
#endif
#ifdef V_UNIT_fresh
void h_fresh(void){ V_IN(); setup(); V_ASSUME(okname(&in.n1, in.l1));
	bool room = false; for (unsigned i = 0; i < N; ++i) if (!in.e[i].name.c[0]) room = true;
	int s = find_label_slot(&v_l, v_n1.c, in.l1);
	V_CHECK("in the table", s >= -1 && s < N);
	V_CHECK("refused only when the table is full or the label is there", s >= 0 || !room || find_label(&v_l, v_n1.c, in.l1) != -1);
	put_n1(s);
	V_CHECK("the new label is found where it was put", s == -1 || find_label(&v_l, v_n1.c, in.l1) == s);
	V_COVER(s >= 0); V_COVER(s < 0 && room); }
#endif
#ifdef V_UNIT_add
#ifdef V_STUB_find_label_slot
int find_label_slot(struct labels *l, char *name, uint_fast8_t len){ V_CHECK("callee precondition: that label", l == &v_l && name == v_n1.c && len == in.l1); return (int)in.w % (N + 1) - 1; }
#endif
void h_add(void){ V_IN(); setup(); V_ASSUME(okname(&in.n1, in.l1));
#ifdef V_STUB_find_label_slot
	int s = (int)in.w % (N + 1) - 1;
#else
	int s = find_label_slot(&v_l, v_n1.c, in.l1);
#endif
	bool r = add_label(&v_l, v_n1.c, in.l1, in.idx1); V_CHECK("added exactly when there is a place", r == (s >= 0));
	for (int i = 0; i < N; ++i) if (i == s) V_CHECK("name and place are recorded", tab[i].index == in.idx1 && len16(tab[i].name) == in.l1 && samename(tab[i].name, in.n1.c, in.l1));
		else V_CHECK("all others are kept", tab[i].index == in.e[i].index && tab[i].name[in.k & 15] == in.e[i].name.c[in.k & 15]);
	V_COVER(r && in.l1 == 16); V_COVER(!r); }
#endif
#ifdef V_UNIT_other
void h_other(void){ V_IN(); setup(); V_ASSUME(okname(&in.n1, in.l1));
	int r = find_label(&v_l, v_n1.c, in.l1); V_CHECK("in the table", r >= -1 && r < N);
	for (int i = 0; i < N; ++i) if (r == i) { V_CHECK("exactly that name", len16(tab[i].name) == in.l1 && samename(in.e[i].name.c, in.n1.c, in.l1)); V_CHECK("its place", label_index(&v_l, v_n1.c, in.l1) == in.e[i].index); }
	if (r == -1) V_CHECK("not defined", label_index(&v_l, v_n1.c, in.l1) == LABEL_NOT_FOUND);
	V_COVER(r >= 0); V_COVER(r < 0); }
#endif
#ifdef V_UNIT_reset
void h_reset(void){ V_IN(); setup(); reset_label(&v_l); V_ASSUME(in.w < N); V_CHECK("empty", !tab[in.w].name[0]); V_COVER(in.e[1].name.c[0]); }
#endif
#ifdef V_UNIT_search
#ifndef KF
#define KF (in.k & 3)
#endif
static unsigned want_len; static u8 v_i[2 + 20]; static struct string v_s8; struct v_ws { char type; uint_fast16_t len, uses; u16 *w; }; static struct v_ws v_s16; static u8 v_b8[256]; static u16 v_b16[256];
static bool called;
#define SKIP (KF ? 1 : 0)
#ifdef V_STUB_label_index
idx label_index(struct labels *l, char *name, uint_fast8_t len){ called = true; V_CHECK("callee precondition: the program's labels, the label's length", l == &P.exec.code.labels && len == want_len);
	for (unsigned i = 0; i < 16; ++i) if (i < want_len) V_CHECK("callee precondition: the label's characters", name[i] == (char)in.txt.c[SKIP + i]);
	return in.found ? in.at : LABEL_NOT_FOUND; }
#else
static struct label_line v_le[16];
#endif
// forms: 0 compiled label, 1 text constant, 2 and 3 text made by the program (8 and 16 bits)
void h_search(void){ V_IN();
	NATIVE(in.len = KF ? in.len & 1 ? in.len % 24 : in.len % 257 : in.len % 17; in.at &= 0xffff; if (in.k & 8) in.txt.c[0] = '@'; for (int i = 0; i < 20; ++i) if (!in.txt.c[i]) in.txt.c[i] = 'A';)
	V_ASSUME(KF ? KF == 1 ? in.len <= 255 : in.len <= 256 : in.len <= 16); V_ASSUME(in.at != LABEL_NOT_FOUND);
	P.exec.error = ERR_NONE; P.exec.code.size = in.cs; void *l; bool ok = !KF || (in.len >= 2 && in.len <= 17 && in.txt.c[0] == '@'); want_len = in.len - SKIP;
	if (KF < 2) { v_i[0] = KF ? BC_STRING : BC_LABEL_STRING; v_i[1] = in.len; for (unsigned i = 0; i < 20; ++i) v_i[2 + i] = in.txt.c[i]; l = v_i; }
	else if (KF == 2) { for (unsigned i = 0; i < 20; ++i) v_b8[i] = in.txt.c[i]; v_s8.type = STRING_CHAR; v_s8.len = in.len; v_s8.uses = 1; v_s8.ptr.s = v_b8; l = &v_s8; }
	else { for (unsigned i = 0; i < 20; ++i) v_b16[i] = to_wide(in.txt.c[i]); v_s16.type = STRING_WIDE; v_s16.len = in.len; v_s16.uses = 1; v_s16.w = v_b16; l = &v_s16; }
#ifndef V_STUB_label_index
	P.exec.code.labels.label_count = 16; P.exec.code.labels.entry = v_le; bool nul = false; for (unsigned i = 0; i < 16; ++i) if (i < want_len && !in.txt.c[SKIP + i]) nul = true; V_ASSUME(!ok || (want_len && !nul)); // not possible in a label
	if (ok && in.found) add_label(&P.exec.code.labels, (char*)in.txt.c + SKIP, want_len, in.at); called = true;
	if (ok && in.len > 2) { add_label(&P.exec.code.labels, (char*)in.txt.c + SKIP, want_len - 1, in.at + 7); }
#endif
	idx r = search_label(&P, l);
	V_CHECK("the label's place", !ok || !in.found || (called && r == in.at && P.exec.error == ERR_NONE));
	V_CHECK("anything else stops and never jumps", (ok && in.found) || (P.exec.error == ERR_LABEL_NOT_FOUND && r == in.cs));
	V_COVER(ok && in.found); V_COVER(!in.found); }
#endif
#ifdef V_STUB_search_label
static void *v_lab; static unsigned searched;
idx search_label(struct ptc *p, void *l){ searched++; V_CHECK("callee precondition: the label written", p == &P && l == v_lab); if (in.found) return in.at; p->exec.error = ERR_LABEL_NOT_FOUND; return p->exec.code.size; }
#endif
// native: a label table with one label L at in.at
#ifndef V_STUB_search_label
static void *v_lab; static unsigned searched; static struct label_line v_tab1[4];
#define LTAB P.exec.code.labels.label_count = 4, P.exec.code.labels.entry = v_tab1; if (in.found) add_label(&P.exec.code.labels, "L", 1, in.at); searched = 1;
#else
#define LTAB
#endif
static u8 v_l0[4] = {BC_LABEL_STRING, 1, 'L', 0}, v_lx[4] = {BC_LABEL_STRING, 1, 'X', 0};
#ifdef V_UNIT_jump
#ifndef KSUB
#define KSUB (in.k & 1)
#endif
void h_jump(void){ V_IN(); NATIVE(in.uses = in.uses & 1 ? 255 : in.uses % 255; if (in.uses < 0) in.uses = 3; in.at &= 0xffff;) V_ASSUME(in.uses >= 0 && in.uses < CALL_STACK_SIZE); V_ASSUME(in.at != LABEL_NOT_FOUND); P.exec.error = ERR_NONE; P.exec.code.size = in.cs; P.exec.index = in.idx1; P.calls.stack_i = in.uses; P.stack.stack_i = 1; P.stack.entry[0].type = VAR_STRING; P.stack.entry[0].value.ptr = v_lab = v_l0; LTAB
	if (KSUB) cmd_gosub(&P); else cmd_goto(&P);
	bool full = KSUB && in.uses == CALL_STACK_SIZE - 1;
	V_CHECK("looked up once", searched == 1);
	V_CHECK("an undefined label stops", in.found || P.exec.error != ERR_NONE);
	V_CHECK("nesting beyond the limit stops", !full || (P.exec.error != ERR_NONE && P.calls.stack_i == in.uses));
	V_CHECK("continues at the label", !in.found || full || (P.exec.index == in.at && P.exec.error == ERR_NONE));
	V_CHECK("GOSUB remembers where to return, GOTO nothing", !in.found || full || (KSUB ? P.calls.stack_i == in.uses + 1 && P.calls.entry[in.uses].type == CALL_GOSUB && P.calls.entry[in.uses].address == in.idx1 : P.calls.stack_i == in.uses));
	V_COVER(in.found); V_COVER(in.uses == CALL_STACK_SIZE - 1); }
#endif
#ifdef V_UNIT_on
#ifndef KSUB
#define KSUB (in.k & 1)
#endif
void h_on(void){ V_IN(); NATIVE(in.num = in.num & 1 ? in.num : in.num % 6 * 4096; in.pos = 1 + in.pos % 4; in.at &= 0xffff;) V_ASSUME(in.pos >= 1 && in.pos <= 4 && in.at != LABEL_NOT_FOUND); P.exec.error = ERR_NONE; P.exec.code.size = in.cs; P.exec.index = in.idx1; P.calls.stack_i = 3; int n = in.num >> 12;
	P.stack.entry[0].type = VAR_NUMBER; P.stack.entry[0].value.number = in.num; P.stack.stack_i = 1 + in.pos; v_lab = v_l0; bool hit = n >= 0 && n < in.pos, miss = false;
	for (unsigned i = 0; i < 4; ++i) { P.stack.entry[1 + i].type = VAR_STRING; P.stack.entry[1 + i].value.ptr = hit && i == n ? v_l0 : v_lx; if (in.has && i == 1) { P.stack.entry[2].type = STACK_OP; P.stack.entry[2].value.number = OP_COMMA; if (hit && n == 1) miss = true; } }
	LTAB
	if (KSUB) cmd_gosub(&P); else cmd_goto(&P);
	V_CHECK("a number without label goes on behind ON", hit || (P.exec.index == in.idx1 && P.exec.error == ERR_NONE && P.calls.stack_i == 3));
	V_CHECK("a left out label stops", !miss || P.exec.error != ERR_NONE);
	V_CHECK("the chosen label", !hit || miss || !in.found || (searched == 1 && P.exec.index == in.at && P.exec.error == ERR_NONE && P.calls.stack_i == 3 + KSUB));
	V_CHECK("undefined label stops", !hit || miss || in.found || P.exec.error != ERR_NONE);
	V_COVER(hit && n == 3); V_COVER(n < 0); V_COVER(miss); }
#endif
#ifdef V_UNIT_if
#ifndef KP
#define KP (in.k % 7)
#endif
// the shapes an IF line compiles to, behind IF itself
#define LL BC_LABEL_STRING, 1, 'L', 0
#define CM(c) BC_COMMAND, c
#define PAY BC_SMALL_NUMBER, CMD_ELSE, CM(CMD_ON)
static u8 prog[40]; static unsigned n;
#define PUT(...) { u8 x[] = {__VA_ARGS__}; for (unsigned i = 0; i < sizeof x; ++i) prog[2 + i] = x[i]; n = 2 + sizeof x; }
void h_if(void){ V_IN(); NATIVE(in.cond &= in.k & 16 ? -1 : 0; in.at &= 0xffff; in.found |= in.k & 32;) V_ASSUME(in.at != LABEL_NOT_FOUND); P.exec.error = ERR_NONE; int tl = -1, el = -1; unsigned t = 2, e;
	prog[0] = BC_COMMAND_FIRST; prog[1] = CMD_IF;
	switch (KP) {
		case 0: PUT(LL, CM(CMD_ELSE), PAY, CM(CMD_ENDIF)) tl = 2; e = 8; break; // THEN @L ELSE ..
		case 1: PUT(PAY, CM(CMD_ELSE), PAY, CM(CMD_ENDIF)) e = 8; break; // THEN .. ELSE ..
		case 2: PUT(PAY, CM(CMD_ENDIF)) e = 8; break; // THEN ..
		case 3: PUT(LL, CM(CMD_GOTO), CM(CMD_ENDIF)) e = 10; break; // GOTO @L
		case 4: PUT(PAY, CM(CMD_ELSE), LL, CM(CMD_ENDIF)) e = el = 8; break; // THEN .. ELSE @L
		case 5: PUT(PAY, CM(CMD_ELSE), LL, CM(CMD_GOSUB), CM(CMD_ENDIF)) e = 8; break; // THEN .. ELSE GOSUB @L
		default: PUT(PAY, CM(CMD_ENDIF), LL, BC_SMALL_NUMBER, 1) e = 8; break; // the next line starts with a label text
	}
	P.exec.code.data = prog; P.exec.code.size = n; P.exec.index = 2; P.stack.stack_i = 1; P.stack.entry[0].type = VAR_NUMBER; P.stack.entry[0].value.number = in.cond;
	int l = in.cond ? tl : el; v_lab = l < 0 ? 0 : &prog[l]; LTAB
	cmd_if(&P);
	if (l >= 0) { V_CHECK("the label of the branch", searched == 1 && (in.found ? P.exec.index == in.at && P.exec.error == ERR_NONE : P.exec.error == ERR_LABEL_NOT_FOUND)); }
	else V_CHECK("exactly the branch the condition says", P.exec.error == ERR_NONE && P.exec.index == (in.cond ? t : e));
	if (KP == 1) { P.exec.index = e; cmd_else(&P); V_CHECK("behind the taken branch, ELSE goes to the end of IF", P.exec.index == n && P.exec.error == ERR_NONE); }
	V_COVER(in.cond == 1); V_COVER(!in.cond); }
#endif
#ifdef V_UNIT_scan
#ifndef KB
#define KB (in.k & 3)
#endif
// instruction kinds: 0 two bytes, 1 text, 2 number, 3 name
static u8 prog[40]; static unsigned starts[4];
static unsigned put(unsigned n, unsigned kind, unsigned len, u8 op, u8 fill){
	if (kind == 1) { prog[n++] = op & 1 ? BC_STRING : op & 2 ? BC_DATA : op & 4 ? BC_LABEL : BC_LABEL_STRING; prog[n++] = len; for (unsigned i = 0; i < len; ++i) prog[n++] = fill; if (len & 1) prog[n++] = 0; }
	else if (kind == 2) { prog[n++] = BC_NUMBER; prog[n++] = 0; for (unsigned i = 0; i < 4; ++i) prog[n++] = fill; }
	else if (kind == 3) { prog[n++] = op & 1 ? BC_VARIABLE_NAME : op & 2 ? BC_ARRAY_NAME : BC_DIM; if (!len) prog[n++] = 'A' + (fill & 15); else { unsigned l = len + 1; prog[n++] = l; for (unsigned i = 0; i < l; ++i) prog[n++] = fill; if (l & 1) prog[n++] = 0; } }
	else if (op & 128) { prog[n++] = BC_VARIABLE_ID; for (unsigned i = 0; i < 3; ++i) prog[n++] = fill; }
	else { prog[n++] = op & 1 ? BC_COMMAND : op & 2 ? BC_OPERATOR : op & 4 ? BC_BEGIN_LOOP : op & 8 ? BC_VARIABLE_ID_SMALL : BC_FUNCTION; prog[n++] = fill; }
	return n; }
#define L1 (KB == 1 ? 3 : KB == 3 ? 2 : 0)
void h_scan(void){ V_IN(); unsigned n = 0; bool big = in.op1 & 128; V_ASSUME(KB != 0 || !(in.op1 & 128)); V_ASSUME(!(in.op3 & 128));
	starts[0] = n; n = put(n, KB, L1, in.op1, in.b1); starts[1] = n; n = put(n, (KB + 1) & 3, ((KB + 1) & 3) == 3 ? 0 : 2, in.op2 & 127, in.b2); starts[2] = n; n = put(n, 0, 0, in.op3, in.b3); starts[3] = n;
	(void)big; struct bytecode c = {.size = n, .data = prog};
	// first instruction with that code
	unsigned w = BC_SCAN_NOT_FOUND, pr = BC_SCAN_NOT_FOUND; for (int i = 2; i >= 0; --i) if (prog[starts[i]] == in.find) { w = starts[i]; pr = i ? starts[i - 1] : BC_SCAN_NOT_FOUND; }
	V_CHECK("the first such instruction, never the inside of one", bc_scan(c, 0, in.find) == w);
	struct idx_pair r = bc_scan_pair(c, 0, in.find); V_CHECK("with the instruction before it", r.index == w && (w == BC_SCAN_NOT_FOUND || r.prev == pr));
	unsigned w1 = BC_SCAN_NOT_FOUND; for (int i = 2; i >= 1; --i) if (prog[starts[i]] == in.find) w1 = starts[i];
	V_CHECK("from any instruction on", bc_scan(c, starts[1], in.find) == w1);
	V_COVER(w == starts[2]); V_COVER(w == BC_SCAN_NOT_FOUND); }
#endif
#ifdef V_UNIT_restore
static u8 prog[8] = {BC_SMALL_NUMBER, 1, BC_LABEL, 1, 'L', 0, BC_SMALL_NUMBER, 2};
#ifdef V_STUB_bc_scan
idx bc_scan(struct bytecode c, idx i, u8 f){ V_CHECK("callee precondition: DATA behind the label", f == BC_DATA && i == (in.found ? in.at : in.cs) && c.data == prog); return in.idx1; }
void h_restore(void){ V_IN(); P.exec.error = ERR_NONE; P.exec.data_offset = in.hw; P.exec.code.size = in.cs; P.exec.code.data = prog; P.stack.stack_i = 1; P.stack.entry[0].type = VAR_STRING; P.stack.entry[0].value.ptr = v_lab = v_l0;
	cmd_restore(&P); V_CHECK("looked up once", searched == 1); V_CHECK("an undefined label stops", in.found || P.exec.error == ERR_LABEL_NOT_FOUND); V_CHECK("the next READ starts there", !in.found || (P.exec.error == ERR_NONE && P.exec.data_index == in.idx1 && P.exec.data_offset == 0)); V_COVER(in.found); }
#else
static u8 prog2[14] = {BC_DATA, 1, '1', 0, BC_LABEL, 1, 'L', 0, BC_DATA, 1, '2', 0};
void h_restore(void){ V_IN(); P.exec.error = ERR_NONE; P.exec.data_offset = in.hw; P.exec.code.size = 12; P.exec.code.data = prog2; P.stack.stack_i = 1; P.stack.entry[0].type = VAR_STRING; P.stack.entry[0].value.ptr = v_l0; in.at = 4; LTAB
	cmd_restore(&P); V_CHECK("undefined stops", in.found || P.exec.error == ERR_LABEL_NOT_FOUND); V_CHECK("starts there", !in.found || (P.exec.error == ERR_NONE && P.exec.data_index == 8 && P.exec.data_offset == 0)); }
#endif
#endif
#if defined(V_UNIT_item_num) || defined(V_UNIT_item_str)
static u8 v_txt[20]; static fixp v_val; static unsigned v_from, v_to; static unsigned v_calls;
#endif
#ifdef V_UNIT_item_num
#ifdef V_STUB_u8_to_num
int64_t u8_to_num(u8 *data, const idx len){ v_calls++; V_CHECK("callee precondition: exactly the item's characters, without leading spaces", len == v_to - v_from && len <= 20); for (unsigned i = 0; i < 20; ++i) if (i < len) V_CHECK("callee precondition: in order", data[i] == in.txt.c[(v_from + i) % 20]); return in.num; }
#define NUMV (int64_t)in.num
#else
#define NUMV u8_to_num(in.txt.c + v_from, v_to - v_from)
#endif
void h_item_num(void){ V_IN(); NATIVE(in.ln %= 20;) V_ASSUME(in.ln <= 20); for (unsigned i = 0; i < 20; ++i) v_txt[i] = in.txt.c[i];
	unsigned f = 0, t; while (f < in.ln && v_txt[f] == ' ') ++f; t = f; bool bad = f >= in.ln; for (unsigned i = 0; i < 20; ++i) if (i == t && i < in.ln && v_txt[i]) ++t;
	for (unsigned i = 0; i < 20; ++i) if (i >= f && i < t && !((v_txt[i] >= '0' && v_txt[i] <= '9') || v_txt[i] == '-' || v_txt[i] == '.')) bad = true;
	v_from = f; v_to = t; v_val = in.cond; struct stack_entry e = {.type = VAR_VARIABLE | VAR_NUMBER, .value.ptr = &v_val};
	int r = read_one_u8(&P, v_txt, in.ln, &e);
	if (bad) V_CHECK("an item that is no number is refused and changes nothing", r == READ_ONE_ERR && v_val == in.cond);
	else if (NUMV >= INT32_MIN && NUMV <= INT32_MAX) { V_CHECK("the whole item is taken", r == (int)t); V_CHECK("its value is stored", v_val == (fixp)NUMV); }
	V_COVER(!bad && f == 2 && t == 5); V_COVER(!bad && t == 20); }
#endif
#ifdef V_UNIT_item_str
static struct string v_new, v_old; static u8 v_chars[256]; static void *v_var;
#ifdef V_STUB_get_new_str
struct string *get_new_str(struct strings *s){ V_CHECK("callee precondition", s == &P.strs); return in.has ? &v_new : NULL; }
#endif
void h_item_str(void){ V_IN(); NATIVE(in.ln %= 20; in.uses = 1 + (in.uses & 7);) V_ASSUME(in.ln <= 20 && in.uses >= 1); for (unsigned i = 0; i < 20; ++i) v_txt[i] = in.txt.c[i];
	unsigned t = 0; bool bad = false; for (unsigned i = 0; i < 20; ++i) if (i == t && i < in.ln && v_txt[i] != BC_DATA_DELIM) ++t; for (unsigned i = 0; i < 20; ++i) if (i < t && v_txt[i] == BC_DATA_ERROR) bad = true;
	v_new.type = STRING_CHAR; v_new.ptr.s = v_chars; v_new.uses = 0; v_new.len = 0; v_old.type = STRING_CHAR; v_old.uses = in.uses; v_old.len = 3; v_var = &v_old;
	P.strs.strs = &v_new; P.strs.strs_max = 1; P.strs.str_data = v_chars; P.strs.type = STRING_CHAR;
#ifndef V_STUB_get_new_str
	if (!in.has) v_new.uses = 1;
#endif
	struct stack_entry e = {.type = VAR_VARIABLE | VAR_STRING, .value.ptr = &v_var};
	int r = read_one_u8(&P, v_txt, in.ln, &e);
	if (!in.has || bad) V_CHECK("refused and unchanged", r == READ_ONE_ERR && v_var == &v_old && v_old.uses == in.uses);
	else { V_CHECK("the whole item is taken", r == (int)t && v_new.len == t); V_CHECK("stored in the variable, the old text is released once", v_var == &v_new && v_new.uses == 1 && v_old.uses == in.uses - 1); for (unsigned i = 0; i < 20; ++i) if (i < t) V_CHECK("its characters", v_chars[i] == v_txt[i]); }
	V_COVER(in.has && !bad && t == 4); }
#endif
#ifdef V_UNIT_read
#ifndef KD
#define KD (in.k % 3)
#endif
// DATA a,b / (command) / DATA c : items of one character; READ of three variables, then one more
static u8 prog[20] = {BC_SMALL_NUMBER, 5, BC_DATA, 3, '1', 0, '2', 0, BC_STRING, 2, BC_DATA, BC_DATA, BC_DATA, 1, '3', 0}; static fixp v[4];
#ifdef V_STUB_read_one_u8
static unsigned nr;
int read_one_u8(struct ptc *p, const u8 *src, size_t len, struct stack_entry *dest){ unsigned at = src - prog; V_CHECK("callee precondition: the items in program order", p == &P && ((nr == 0 && at == 4 && len == 3) || (nr == 1 && at == 6 && len == 1) || (nr == 2 && at == 14 && len == 1))); V_CHECK("callee precondition: the variables in order", dest == &P.stack.entry[P.stack.stack_i == 1 ? 0 : nr]); if (nr == 2 && !in.found) return READ_ONE_ERR; nr++; return 1; }
#endif
void h_read(void){ V_IN(); NATIVE(in.found = true;) P.exec.error = ERR_NONE; P.exec.code.data = prog; P.exec.code.size = 16; P.exec.data_index = 0; P.exec.data_offset = 0;
	for (unsigned i = 0; i < 4; ++i) { P.stack.entry[i].type = VAR_VARIABLE | VAR_NUMBER; P.stack.entry[i].value.ptr = &v[i]; }
	if (KD == 0) { P.stack.stack_i = 3; cmd_read(&P); V_CHECK("an item that is no number stops", in.found || P.exec.error == ERR_READ_FAILURE); V_CHECK("three items", !in.found || P.exec.error == ERR_NONE); if (in.found) { P.stack.stack_i = 1; cmd_read(&P); V_CHECK("no item is left", P.exec.error == ERR_OUT_OF_DATA); } }
	else if (KD == 1) { P.stack.stack_i = 4; cmd_read(&P); V_CHECK("the fourth finds no item", P.exec.error == (in.found ? ERR_OUT_OF_DATA : ERR_READ_FAILURE)); }
	else { for (int i = 0; i < 3; ++i) { P.stack.stack_i = 1; cmd_read(&P); V_CHECK("one at a time", i == 2 && !in.found ? P.exec.error == ERR_READ_FAILURE : P.exec.error == ERR_NONE); } }
#ifndef V_STUB_read_one_u8
	if (KD < 2) V_CHECK("values", v[0] == 4096 && v[1] == 8192 && v[2] == 12288); else V_CHECK("values", v[0] == 12288);
#endif
	V_COVER(in.found); }
#endif
