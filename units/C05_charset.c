// C05: character set conversion is lossless
#include "v.h"
#include "strs.h"
//@unit chars mode=plain functions=to_wide,to_char target=to_char :: converting a code to Unicode and back gives the code; distinct codes have distinct forms
//@unit buf  enforce=str_copy_buf cases=T:0:1:2:3 unwind=258 fb=-DSMALL fbunwind=12 :: every character is copied or converted, nothing else is written
//@unit copy mode=plain stub=str_copy_buf target=str_copy functions=str_copy,str_char_copy,str_wide_copy cases=KA:0:1:2,KD:0:2 fb=-DSMALL fbunwind=12 :: copying a string between storage forms keeps length and characters
//@unit at   mode=plain target=str_at_char functions=str_at,str_at_char,str_type,str_len,str_at_wide cases=KA:0:1:2 :: reading a character by index
#ifndef KA
#define KA 0
#endif
#ifndef KD
#define KD 0
#endif
#ifndef T
#define T 0
#endif
#ifdef SMALL
#define MAXL 5
#else
#define MAXL MAX_STRLEN
#endif
#include "str.h"
V_INPUT(u8 c, d; u16 n, i; V_STR_IN(a););
V_STR(KA, a)
void h_chars(void){ V_IN();
	V_CHECK("back to the same code", to_char(to_wide(in.c)) == in.c);
	V_CHECK("distinct codes have distinct forms", in.c == in.d || to_wide(in.c) != to_wide(in.d));
	V_CHECK("every form is a valid character", to_char(to_wide(in.c)) != -1);
	V_COVER(in.c == 0xdf && to_wide(in.c) == 0x309c); V_COVER(to_wide(in.c) == 0xff21); }
static u8 v_d8[MAX_STRLEN]; static u16 v_d16[MAX_STRLEN];
#define SRC (T & 1 ? (const void*)in.awi.c : (const void*)in.aby.c)
#define DST (T & 2 ? (void*)v_d16 : (void*)v_d8)
#define CH8(i) (T & 1 ? (u8)to_char_(in.awi.c[i]) : in.aby.c[i])
static int v_tc; // to_char(in.awi.c[in.i]), computed before (contract clauses call nothing)
static u16 v_tw;
#define C_str_copy_buf(REQ, ASG, ENS) REQ(src == SRC && dest == DST && types == T && count == in.n && in.n <= MAXL && in.i < MAXL) ASG(UPTO((char*)dest, (size_t)in.n << (T >> 1))) \
	ENS("each character arrives at its place", in.i >= in.n || (T & 2 ? v_d16[in.i] == (T & 1 ? in.awi.c[in.i] : v_tw) : v_d8[in.i] == (T & 1 ? (u8)v_tc : in.aby.c[in.i])))
V_CONTRACT(void, str_copy_buf, (const void *src, void *dest, const u8 types, const u16 count))
void h_buf(void){ V_IN(); V_ASSUME(in.i < MAXL && in.n <= MAXL); v_tc = to_char(in.awi.c[in.i]); v_tw = to_wide(in.aby.c[in.i]);
	const void *src = SRC; void *dest = DST; u8 types = T; u16 count = in.n; V_CALL(str_copy_buf, (src, dest, types, count)); V_COVER(in.n == MAXL && in.i == MAXL - 1); V_COVER(in.n == 0); }

static struct string v_dst; static struct v_wstr v_dstw; static u16 v_w; static bool v_set;
#ifdef V_STUB_str_copy_buf
// contract of str_copy_buf (unit buf) for the watched character
void str_copy_buf(const void *src, void *dest, const u8 types, const u16 count){
	unsigned w = types >> 1 ? 2 : 1;
	V_CHECK("callee precondition: source readable", !count || __CPROVER_r_ok(src, (size_t)count << (types & 1)));
	V_CHECK("callee precondition: destination", types <= 3 && dest == (KD == 2 ? (void*)v_d16 : (void*)v_d8) && count <= MAX_STRLEN && w == (KD == 2 ? 2 : 1));
	if (in.i < count) { v_set = true; v_w = types == 0 ? ((u8*)src)[in.i] : types == 1 ? (u8)to_char(((u16*)src)[in.i]) : types == 2 ? to_wide(((u8*)src)[in.i]) : ((u16*)src)[in.i]; }
}
#define OUT v_w
#else
#define OUT (KD == 2 ? v_d16[in.i] : v_d8[in.i])
#endif
void h_copy(void){ V_IN(); void *a = v_mk_a(); V_ASSUME(in.i < 255 && in.alen <= MAXL);
	void *d;
	if (KD == 2) { v_dstw.type = STRING_WIDE; v_dstw.w = v_d16; v_dstw.len = in.n; v_dstw.uses = in.c; d = &v_dstw; } else { v_dst.type = STRING_CHAR; v_dst.ptr.s = v_d8; v_dst.len = in.n; v_dst.uses = in.c; d = &v_dst; }
	str_copy(a, d);
	V_CHECK("length is kept", (KD == 2 ? v_dstw.len : v_dst.len) == in.alen);
	if (in.i < in.alen) {
		V_CHECK("every character is kept", OUT == (KD == 2 ? V_CHW(KA, a, in.i) : KA == 2 ? (u8)to_char(in.awi.c[in.i]) : V_CH8(KA, a, in.i)));
		if (KA == 2 && KD == 0) V_CHECK("a convertible character keeps its Unicode form", to_wide(in.c) != in.awi.c[in.i] || OUT == in.c);
	}
	V_CHECK("the source is kept", V_KEPT(KA, a, in.i, in.auses));
	V_CHECK("the destination stays the same storage", KD == 2 ? v_dstw.type == STRING_WIDE && v_dstw.uses == in.c && v_dstw.w == v_d16 : v_dst.type == STRING_CHAR && v_dst.uses == in.c && v_dst.ptr.s == v_d8);
	V_COVER(in.alen > 3); V_COVER(in.alen == 0); }
void h_at(void){ V_IN(); void *a = v_mk_a(); V_ASSUME(in.i < in.alen);
	V_CHECK("length", str_len(a) == in.alen);
	V_CHECK("character width", str_type(a) == (KA == 2 ? STR_TYPE_16 : STR_TYPE_8));
	V_CHECK("character as stored", str_at_char(a, in.i) == (KA == 2 ? in.awi.c[in.i] : V_CH8(KA, a, in.i)));
	V_CHECK("character as Unicode", str_at_wide(a, in.i) == V_CHW(KA, a, in.i));
	V_CHECK("pointer to the character", KA == 2 ? *(u16*)str_at(a, in.i) == in.awi.c[in.i] : *(u8*)str_at(a, in.i) == V_CH8(KA, a, in.i));
	V_COVER(in.i > 200); }
