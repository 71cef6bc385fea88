// C02: comparison and logic operators
#include "str.h"
#include "operators.h"
//@unit eq  enforce=op_equal   never=str_comp,str_len :: x==y
//@unit ne  enforce=op_inequal never=str_comp,str_len :: x!=y
//@unit lt  enforce=op_less    never=str_lex,str_len :: x<y
//@unit gt  enforce=op_greater never=str_lex,str_len :: x>y
//@unit le  enforce=op_less_equal never=str_lex,str_len :: x<=y
//@unit ge  enforce=op_greater_equal never=str_lex,str_len :: x>=y
//@unit and enforce=op_and :: bitwise AND of the integer parts
//@unit or  enforce=op_or  :: bitwise OR of the integer parts
//@unit xor enforce=op_xor :: bitwise XOR of the integer parts
//@unit not enforce=op_not :: bitwise NOT of the integer part
//@unit lnot enforce=op_logical_not :: 1 for zero, else 0
//@unit seq  enforce=op_equal   replace=str_comp defs=-DSTRS fb=-DSMALL cases=KA,KB :: equality of strings, operand uses released
//@unit sne  enforce=op_inequal replace=str_comp defs=-DSTRS fb=-DSMALL cases=KA :: inequality of strings
//@unit slt  enforce=op_less    replace=str_lex defs=-DSTRS fb=-DSMALL cases=KA :: string order
//@unit sgt  enforce=op_greater replace=str_lex defs=-DSTRS fb=-DSMALL cases=KA :: string order
//@unit sle  enforce=op_less_equal replace=str_lex defs=-DSTRS fb=-DSMALL cases=KA :: string order
//@unit sge  enforce=op_greater_equal replace=str_lex defs=-DSTRS fb=-DSMALL cases=KA :: string order
//@unit comp enforce=str_comp stub=str_at_wide,str_len unwind=258 defs=-DKA=2,-DKB=2 fb=-DSMALL fbunwind=8 :: two strings are equal iff same length and same characters
//@unit lex  enforce=str_lex  stub=str_at_wide,str_len unwind=258 defs=-DKA=2,-DKB=2 fb=-DSMALL fbunwind=8 :: sign of the first difference, else of the lengths
//@unit atw  enforce=str_at_wide defs=-DATW cases=KA:0:1:2 :: the character at an index, in Unicode form, in every storage form
//@unit len  enforce=str_len defs=-DATW cases=KA:0:1:2 :: the length, in every storage form
#ifndef KA
#define KA 0
#endif
#ifndef KB
#define KB 0
#endif
#ifdef SMALL
#define MAXL 4
#else
#define MAXL MAX_STRLEN
#endif
V_INPUT(fixp x, y; bool xv, yv; V_STR_IN(a); V_STR_IN(b); u16 d; int ord; bool eq;);
#define BASE 2
V_STR(KA, a)
V_STR(KB, b)
#if KA == 2
#define UA v_na.uses
#else
#define UA v_ma.uses
#endif
#if KB == 2
#define UB v_nb.uses
#else
#define UB v_mb.uses
#endif
static const void *A, *B;
static int v_uses_a, v_uses_b;
// ghost: the order of the two operand strings. With the comparison replaced by its
// contract it is any value; otherwise it is computed from the characters
static int v_ord;
static bool v_eq;
#ifndef V_DFCC
static int ref_ord(void){
	for (unsigned i = 0; i < in.alen && i < in.blen; ++i)
		if (V_CHW(KA, a, i) != V_CHW(KB, b, i)) return V_CHW(KA, a, i) < V_CHW(KB, b, i) ? -1 : 1;
	return in.alen < in.blen ? -1 : in.alen > in.blen;
}
#endif
static struct ptc *setup(int n, bool str){
	struct ptc *p = &P;
	V_IN();
	p->exec.error = ERR_NONE;
	p->exec.argcount = n;
	p->stack.stack_i = BASE;
	if (str) {
#ifdef SMALL
		V_ASSUME(in.alen <= MAXL && in.blen <= MAXL);
#endif
		V_ASSUME(in.auses > 0 && in.buses > 0);
		A = v_mk_a(); B = v_mk_b();
		struct stack_entry *e = &p->stack.entry[BASE];
		p->stack.stack_i += 2;
		static void *va, *vb;
		va = (void*)A; vb = (void*)B;
		if (in.xv) { e[0].type = VAR_STRING | VAR_VARIABLE; e[0].value.ptr = &va; } else { e[0].type = VAR_STRING; e[0].value.ptr = va; }
		if (in.yv) { e[1].type = VAR_STRING | VAR_VARIABLE; e[1].value.ptr = &vb; } else { e[1].type = VAR_STRING; e[1].value.ptr = vb; }
		v_uses_a = in.auses - !in.xv; v_uses_b = in.buses - !in.yv;
#ifdef V_DFCC
		V_ASSUME(in.ord >= -1 && in.ord <= 1 && in.eq == (in.ord == 0)); v_ord = in.ord; v_eq = in.eq;
#else
		v_ord = ref_ord(); v_eq = !v_ord;
#endif
	} else {
		v_push_num(p, in.x, in.xv, 0);
		if (n > 1) v_push_num(p, in.y, in.yv, 1);
	}
	return p;
}
#define OKRES(z) (p->exec.error == ERR_NONE && v_result_num(p, BASE, (z)))
#define X ((int64_t)in.x)
#define Y ((int64_t)in.y)
#define IX (in.x >> 12)
#define IY (in.y >> 12)
#define INT(b) ((int)((unsigned)(b) << 12))
#define PREN(n) (p->stack.stack_i == BASE + (n) && p->exec.error == ERR_NONE)
#define COV V_COVER(p->stack.entry[BASE].value.number == 0); V_COVER(p->stack.entry[BASE].value.number);
#ifdef STRS
#define REL(f, name, sname, num, str) \
	V_CONTRACT(void, f, (struct ptc *p)) void h_##sname(void){ struct ptc *p = setup(2, 1); V_CALL(f, (p)); COV }
#define NRM(num, str) str
#define SREQ (A != B)
#define SASG LV(UA), LV(UB)
#define SENS (KA || UA == v_uses_a) && (KB || UB == v_uses_b)
#else
#define REL(f, name, sname, num, str) \
	V_CONTRACT(void, f, (struct ptc *p)) void h_##name(void){ struct ptc *p = setup(2, 0); V_CALL(f, (p)); COV }
#define NRM(num, str) num
#define SREQ 1
#define SASG LV(UA)
#define SENS 1
#endif
#define CREL(REQ, ASG, ENS, num, str) REQ(PREN(2)) REQ(SREQ) ASG(STACK_FRAME(BASE), SASG) \
	ENS("1 iff the relation holds, else 0", OKRES(INT(NRM(num, str)))) ENS("temporary operands are released once, variables are kept", SENS)
#define C_op_equal(REQ, ASG, ENS) CREL(REQ, ASG, ENS, X == Y, v_eq)
REL(op_equal, eq, seq, , )
#define C_op_inequal(REQ, ASG, ENS) CREL(REQ, ASG, ENS, X != Y, !v_eq)
REL(op_inequal, ne, sne, , )
#define C_op_less(REQ, ASG, ENS) CREL(REQ, ASG, ENS, X < Y, v_ord < 0)
REL(op_less, lt, slt, , )
#define C_op_greater(REQ, ASG, ENS) CREL(REQ, ASG, ENS, X > Y, v_ord > 0)
REL(op_greater, gt, sgt, , )
#define C_op_less_equal(REQ, ASG, ENS) CREL(REQ, ASG, ENS, X <= Y, v_ord <= 0)
REL(op_less_equal, le, sle, , )
#define C_op_greater_equal(REQ, ASG, ENS) CREL(REQ, ASG, ENS, X >= Y, v_ord >= 0)
REL(op_greater_equal, ge, sge, , )
#define BIT(f, name, n, val) V_CONTRACT(void, f, (struct ptc *p)) void h_##name(void){ struct ptc *p = setup(n, 0); V_CALL(f, (p)); COV }
#define CBIT(REQ, ASG, ENS, n, val) REQ(PREN(n)) ASG(STACK_FRAME(BASE)) ENS("result", OKRES(val))
#define C_op_and(REQ, ASG, ENS) CBIT(REQ, ASG, ENS, 2, INT(IX & IY))
BIT(op_and, and, 2, )
#define C_op_or(REQ, ASG, ENS) CBIT(REQ, ASG, ENS, 2, INT(IX | IY))
BIT(op_or, or, 2, )
#define C_op_xor(REQ, ASG, ENS) CBIT(REQ, ASG, ENS, 2, INT(IX ^ IY))
BIT(op_xor, xor, 2, )
#define C_op_not(REQ, ASG, ENS) CBIT(REQ, ASG, ENS, 1, INT(~IX))
BIT(op_not, not, 1, )
#define C_op_logical_not(REQ, ASG, ENS) CBIT(REQ, ASG, ENS, 1, INT(in.x == 0))
BIT(op_logical_not, lnot, 1, )

// str_comp / str_lex: d is the first index at which the strings differ
#define MINLEN (in.alen < in.blen ? in.alen : in.blen)
#define WA(i) V_CHW(KA, a, i)
#define WB(i) V_CHW(KB, b, i)
#ifdef STRS
#define C_str_comp(REQ, ASG, ENS) REQ(str1 == A && str2 == B) ASG() ENS("equal", RET == v_eq)
#define C_str_lex(REQ, ASG, ENS) REQ(a == A && b == B) ASG() ENS("order", RET == v_ord)
#elif !defined(ATW)
// callee contracts, proved by units atw and len for every storage form
#ifdef V_STUB_str_at_wide
u16 str_at_wide(const void *src, const u16 index){
	V_CHECK("callee precondition: index within the string", (src == A && index < in.alen) || (src == B && index < in.blen));
	return src == A ? in.awi.c[index] : in.bwi.c[index];
}
#endif
#ifdef V_STUB_str_len
u32 str_len(const void *src){ V_CHECK("callee precondition", src == A || src == B); return src == A ? in.alen : in.blen; }
#endif
static void setup_cmp(void){
	V_IN();
#ifdef SMALL
	V_ASSUME(in.alen <= MAXL && in.blen <= MAXL);
#endif
	A = v_mk_a(); B = v_mk_b();
	V_ASSUME(in.d <= MINLEN);
	for (unsigned i = 0; i < MAXL; ++i) V_ASSUME(i >= in.d || WA(i) == WB(i));
	V_ASSUME(in.d == MINLEN || WA(in.d) != WB(in.d));
}
#define C_str_comp(REQ, ASG, ENS) REQ(str1 == A && str2 == B) ASG() \
	ENS("equal iff same length and no differing character", RET == (in.alen == in.blen && in.d == in.alen))
#define C_str_lex(REQ, ASG, ENS) REQ(a == A && b == B) ASG() \
	ENS("order of the first differing character", in.d == MINLEN || RET == (WA(in.d) < WB(in.d) ? -1 : 1)) \
	ENS("a proper prefix is smaller", in.d != MINLEN || RET == (in.alen < in.blen ? -1 : in.alen > in.blen ? 1 : 0))
void h_comp(void){ setup_cmp(); const void *str1 = A, *str2 = B; V_CALLR(bool, str_comp, (str1, str2)); V_COVER(v_ret && in.alen > 200); V_COVER(!v_ret); }
void h_lex(void){ setup_cmp(); const void *a = A, *b = B; V_CALLR(int, str_lex, (a, b)); V_COVER(v_ret == 0 && in.alen > 200); V_COVER(v_ret < 0 && in.d > 100); V_COVER(v_ret > 0); }
#else
#define C_str_at_wide(REQ, ASG, ENS) REQ(src == A && index < in.alen) ASG() ENS("character at the index", RET == V_CHW(KA, a, index))
#define C_str_len(REQ, ASG, ENS) REQ(src == A) ASG() ENS("length", RET == in.alen)
V_CONTRACT(u16, str_at_wide, (const void *src, const u16 index))
V_CONTRACT(u32, str_len, (const void *src))
void h_atw(void){ V_IN(); A = v_mk_a(); const void *src = A; u16 index = in.d; V_CALLR(u16, str_at_wide, (src, index)); V_COVER(in.d == 200); }
void h_len(void){ V_IN(); A = v_mk_a(); const void *src = A; V_CALLR(u32, str_len, (src)); V_COVER(in.alen == 255); }
#endif
#ifndef ATW
V_CONTRACT(bool, str_comp, (const void *str1, const void *str2))
V_CONTRACT(int, str_lex, (const void *a, const void *b))
#endif
