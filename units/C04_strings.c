// C04: string functions return exactly the characters they define
#include "v.h"
#include "strfuncs.h"
#include "operators.h"
//@unit len   mode=plain target=func_len functions=func_len cases=KA:0:1:2 :: LEN
//@unit asc   mode=plain target=func_asc functions=func_asc cases=KA:0:1:2 :: ASC
//@unit chr   mode=plain target=func_chr functions=func_chr unwind=3 :: CHR$
//@unit left  mode=plain stub=get_new_str,str_copy_buf target=func_left functions=func_left,_func_substring cases=KA:0:1:2 fb=-DSMALL fbunwind=12 :: LEFT$
//@unit right mode=plain stub=get_new_str,str_copy_buf target=func_right functions=func_right,_func_substring cases=KA:0:1:2 fb=-DSMALL fbunwind=12 :: RIGHT$
//@unit mid   mode=plain stub=get_new_str,str_copy_buf target=func_mid functions=func_mid cases=KA:0:1:2 fb=-DSMALL fbunwind=12 :: MID$
//@unit subst mode=plain stub=get_new_str,str_copy_buf target=func_subst functions=func_subst cases=KA:0:1:2,KB:0:1 fb=-DSMALL fbunwind=20 :: SUBST$
//@unit add   mode=plain stub=get_new_str,str_copy_buf target=op_add functions=op_add,str_concat,str_copy,str_char_copy cases=KA:0:1:2,KB:0:1:2 fb=-DSMALL fbunwind=20 :: string + joins its operands
//@unit mult  mode=plain stub=get_new_str,str_concat target=op_mult functions=op_mult cases=KA:0:1:2 unwind=14 defs=-DMAXN=12 fb=-DSMALL bounded=up_to_12_repetitions :: string * repeats its operand
//@unit instr mode=plain stub=str_at_wide,str_len target=func_instr functions=func_instr unwind=34 fb=-DSMALL bounded=texts_up_to_6_and_search_texts_up_to_4_characters :: INSTR gives the first match at or after the start, else -1
//@unit instre mode=plain target=func_instr functions=func_instr unwind=6 :: INSTR refuses a negative start and never matches past the end
#ifndef KA
#define KA 0
#endif
#ifndef KB
#define KB 0
#endif
#define BASE 2
#define V_TABLE
#include "str.h"
#define SLOT_IN bool free; u8 wo, wa
V_INPUT(fixp x, y, z; bool xv, yv, zv, s3; SLOT_IN; u16 j; u8 q; V_STR_IN(a); V_STR_IN(b););
V_STR(KA, a)
V_STR(KB, b)
#include "slots.h"
#ifdef SMALL
#define MAXA 4
#else
#define MAXA (KA == 1 ? 255 : MAX_STRLEN)
#endif
#if KB == 1
#define MAXB (MAXA == 4 ? 4 : 255)
#else
#define MAXB (MAXA == 4 ? 4 : 256)
#endif
static void *A, *B;
#define CA(i) (KA == 2 ? (u8)to_char(in.awi.c[i]) : V_CH8(KA, a, i))
#define CB(i) (KB == 2 ? (u8)to_char(in.bwi.c[i]) : V_CH8(KB, b, i))
static struct ptc *setup(int nstr){
	struct ptc *p = v_table();
	V_ASSUME(in.alen <= MAXA && in.blen <= MAXB && in.auses > 0 && in.buses > 0 && in.j < 255);
	p->stack.stack_i = BASE;
	empty_str = (char*)v_empty;
	A = v_mk_a(); if (nstr > 1) B = v_mk_b();
	return p;
}
#define PUSHA v_push_strp(p, A, in.xv, &v_svar0)
#define PUSHB v_push_strp(p, B, in.yv, &v_svar1)
#define ARGKEPT(n) do { V_CHECK("the argument is kept; a temporary operand is released once, a variable's string not", (!p->exec.error && REUSED(TOPSTR(p)) && TOPSTR(p) == A) || V_KEPT(KA, a, in.j, in.auses - !in.xv)); \
	if (n > 1) V_CHECK("the argument is kept; a temporary operand is released once, a variable's string not", (!p->exec.error && REUSED(TOPSTR(p)) && TOPSTR(p) == B) || V_KEPT(KB, b, in.j, in.buses - !in.yv)); \
	V_CHECK("other strings are kept", p->exec.error || OTHERS(TOPSTR(p))); } while (0)
#define NUM(v) ((v) >> 12)
// the result is the text of length L whose character i is C(i)
#define RESULT(L, C) do { \
	V_CHECK("Out of memory only when no storage is free", p->exec.error != ERR_OUT_OF_MEMORY || NOFREE); \
	V_CHECK("a result is given", p->exec.error == ERR_OUT_OF_MEMORY || RESSTR(p)); \
	if (!p->exec.error) { \
		V_CHECK("length of the result", RLEN(TOPSTR(p)) == (L)); \
		unsigned o = in.wo; V_CHECK("every character of the result", o >= (unsigned)(L) || RCH(TOPSTR(p), o) == (C)); \
		V_COVER((L) > 3); V_COVER((L) == 0); } } while (0)

void h_len(void){ V_IN(); struct ptc *p = setup(1); PUSHA; p->exec.argcount = 1; func_len(p);
	V_CHECK("number of characters", p->exec.error == ERR_NONE && v_result_num(p, BASE, in.alen << 12)); ARGKEPT(1); V_COVER(in.alen == 200); }
void h_asc(void){ V_IN(); struct ptc *p = setup(1); PUSHA; p->exec.argcount = 1; func_asc(p);
	V_CHECK("Syntax error for an empty text", in.alen || p->exec.error == ERR_SYNTAX);
	V_CHECK("code of the first character", !in.alen || (p->exec.error == ERR_NONE && v_result_num(p, BASE, (fixp)((u32)(KA == 2 ? in.awi.c[0] : V_CH8(KA, a, 0)) << 12)))); ARGKEPT(1); V_COVER(in.alen == 200); V_COVER(!in.alen); }
#ifdef V_UNIT_chr
extern char *single_char_strs_src;
void h_chr(void){ V_IN(); struct ptc *p = &P; p->exec.error = ERR_NONE; p->stack.stack_i = BASE; p->exec.argcount = 1; single_char_strs = single_char_strs_src;
	v_push_num(p, in.x, in.xv, 0); func_chr(p);
	int c = NUM(in.x);
	V_CHECK("codes outside 0 to 255 are Out of range", (c >= 0 && c <= 255) || p->exec.error == ERR_OUT_OF_RANGE);
	if (c >= 0 && c <= 255) { V_CHECK("a text is given", p->exec.error == ERR_NONE && p->stack.stack_i == BASE + 1 && p->stack.entry[BASE].type == VAR_STRING);
		u8 *r = TOPSTR(p); V_CHECK("exactly the one character", r[0] == BC_STRING && r[1] == 1 && r[2] == c); V_COVER(c == 255); } V_COVER(p->exec.error); }
#endif
#if defined(V_UNIT_left) || defined(V_UNIT_right)
#define RIGHT defined(V_UNIT_right)
static void substring(bool right, void (*f)(struct ptc*)){ V_IN(); struct ptc *p = setup(1); PUSHA; v_push_num(p, in.y, in.yv, 0); p->exec.argcount = 2;
	if (right) func_right(p); else func_left(p);
	int n = NUM(in.y);
	V_CHECK("a negative count is Out of range", n >= 0 || p->exec.error == ERR_OUT_OF_RANGE);
	if (n >= 0) { int L = n < in.alen ? n : in.alen; RESULT(L, CA((right ? in.alen - L : 0) + o)); }
	ARGKEPT(1); V_COVER(p->exec.error == ERR_OUT_OF_RANGE); V_COVER(p->exec.error == ERR_OUT_OF_MEMORY); }
void h_left(void){ substring(0, 0); }
void h_right(void){ substring(1, 0); }
#endif
void h_mid(void){ V_IN(); struct ptc *p = setup(1); PUSHA; v_push_num(p, in.y, in.yv, 0); v_push_num(p, in.z, in.zv, 1); p->exec.argcount = 3;
	func_mid(p);
	int s = NUM(in.y), n = NUM(in.z);
	V_CHECK("a negative start or length is Out of range", (s >= 0 && n >= 0) || p->exec.error == ERR_OUT_OF_RANGE);
	if (s >= 0 && n >= 0) { int L = s >= in.alen ? 0 : n < in.alen - s ? n : in.alen - s; RESULT(L, CA(s + o)); }
	ARGKEPT(1); V_COVER(p->exec.error == ERR_OUT_OF_RANGE); V_COVER(p->exec.error == ERR_OUT_OF_MEMORY); }
void h_subst(void){ V_IN(); struct ptc *p = setup(2); PUSHA; v_push_num(p, in.x, 0, 0); v_push_num(p, in.z, in.zv, 1); PUSHB; p->exec.argcount = 4;
	func_subst(p);
	int s = NUM(in.x), n = NUM(in.z), la = in.alen, lb = in.blen;
	V_CHECK("a start outside the text is Out of range", (s >= 0 && s <= la) || p->exec.error == ERR_OUT_OF_RANGE);
	if (s >= 0 && s <= la) {
		if (n < 0 || n > la - s) n = la - s;
		int L = la - n + lb;
		V_CHECK("String too long for more than 256 characters", L <= MAX_STRLEN || p->exec.error == ERR_STRING_TOO_LONG);
		if (L <= MAX_STRLEN) { RESULT(L, o < s ? CA(o) : o < s + lb ? CB(o - s) : CA(o - lb + n)); V_COVER(n > 1 && s > 1 && L > s + lb + 1); }
	}
	ARGKEPT(2); V_COVER(p->exec.error == ERR_OUT_OF_RANGE); V_COVER(p->exec.error == ERR_OUT_OF_MEMORY); }
void h_add(void){ V_IN(); struct ptc *p = setup(2); PUSHA; PUSHB; p->exec.argcount = 2; op_add(p);
	unsigned L = in.alen + in.blen;
	V_CHECK("String too long for more than 256 characters", L <= MAX_STRLEN || p->exec.error == ERR_STRING_TOO_LONG);
	if (L <= MAX_STRLEN) RESULT(L, o < in.alen ? CA(o) : CB(o - in.alen));
	ARGKEPT(2); V_COVER(p->exec.error == ERR_OUT_OF_MEMORY); V_COVER(L > 7); }
#ifdef V_UNIT_mult
#ifdef V_STUB_str_concat
// contract of str_concat (proved by unit add): dest becomes a then b; here: the watched character of y is set when y + x is formed
bool str_concat(const void *src1, const void *src2, void *dest){
	V_CHECK("callee precondition: appending the operand to the result", src1 == dest && src2 == A && dest == (void*)&v_slot);
	unsigned n = v_slot.len;
	if (n + in.alen > MAX_STRLEN) return false;
	if (in.wo >= n && in.wo < n + in.alen) v_wch = CA(in.wo - n);
	v_slot.len = n + in.alen;
	return true;
}
#endif
void h_mult(void){ V_IN(); struct ptc *p = setup(1); PUSHA; v_push_num(p, in.y, in.yv, 0); p->exec.argcount = 2;
	int n = NUM(in.y); if (n < 0) n = 0;
	V_ASSUME(n <= MAXN || n * in.alen > MAX_STRLEN);
	op_mult(p);
	V_CHECK("String too long for more than 256 characters", n * in.alen <= MAX_STRLEN || p->exec.error == ERR_STRING_TOO_LONG);
	if (n * in.alen <= MAX_STRLEN) { V_ASSUME(!in.alen || (in.q <= MAXN && in.q * in.alen <= in.wo && in.wo < in.q * in.alen + in.alen)); RESULT(n * in.alen, CA(in.alen ? o - in.q * in.alen : 0)); }
	ARGKEPT(1); V_COVER(p->exec.error == ERR_OUT_OF_MEMORY); V_COVER(p->exec.error == ERR_STRING_TOO_LONG); }
#endif
#define WA(i) V_CHW(KA, a, i)
#define WB(i) V_CHW(KB, b, i)
#ifdef V_STUB_str_at_wide
u16 str_at_wide(const void *src, const u16 index){
	V_CHECK("callee precondition: index within the string", (src == A && index < in.alen) || (src == B && index < in.blen));
	return src == A ? WA(index) : WB(index);
}
#endif
#ifdef V_STUB_str_len
u32 str_len(const void *src){ V_CHECK("callee precondition", src == A || src == B); return src == A ? in.alen : in.blen; }
#endif
#define TL 6
#define SL 4
void h_instr(void){ V_IN(); struct ptc *p = setup(2); V_ASSUME(in.alen <= TL && in.blen <= SL);
	PUSHA; PUSHB; int s = 0; p->exec.argcount = 2;
	if (in.s3) { v_push_num(p, in.z, in.zv, 0); p->exec.argcount = 3; s = NUM(in.z); }
	V_ASSUME(s >= 0);
	func_instr(p);
	int r = -1;
	if (in.blen == 0) r = 0;
	else for (int i = TL - 1; i >= 0; --i) {
		bool m = i >= s && i + in.blen <= in.alen;
		for (int k = 0; k < SL; ++k) if (m && k < in.blen) m = WA(i + k) == WB(k);
		if (m) r = i;
	}
	V_CHECK("first match, else -1", p->exec.error == ERR_NONE && v_result_num(p, BASE, (fixp)((u32)r << 12)));
	ARGKEPT(2); V_COVER(r == 3); V_COVER(r == -1 && in.alen == TL); }
void h_instre(void){ V_IN(); struct ptc *p = setup(2);
	PUSHA; PUSHB; int s; v_push_num(p, in.z, in.zv, 0); p->exec.argcount = 3; s = NUM(in.z);
	V_ASSUME(s < 0 || s > in.alen - in.blen);
	func_instr(p);
	if (s < 0) V_CHECK("a negative start is Out of range", p->exec.error == ERR_OUT_OF_RANGE);
	else V_CHECK("no match", in.blen == 0 || (p->exec.error == ERR_NONE && v_result_num(p, BASE, -4096)));
	V_COVER(s < 0); V_COVER(s > 300); }
