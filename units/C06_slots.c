// C06: a string that is still referenced is never changed or reused
#include "v.h"
#include "operators.h"
//@unit new   mode=plain target=get_new_str functions=get_new_str unwind=34 bounded=tables_of_up_to_32_slots :: a new string takes an unused slot, its own characters, or NULL when every slot is used
//@unit num   mode=plain target=op_assign functions=op_assign :: assigning a number
//@unit lit   mode=plain stub=get_new_str,str_copy_buf target=op_assign functions=op_assign,str_copy cases=KA:1,KD:0:1:2 fb=-DSMALL fbunwind=12 :: assigning a program literal copies it to free storage
//@unit dyn   mode=plain stub=get_new_str target=op_assign functions=op_assign cases=KA:0:2,KD:0:1:2:3 fb=-DSMALL fbunwind=12 :: assigning a string shares it, counting one more holder
//@unit mem   mode=plain stub=get_new_str,str_copy_buf target=op_assign functions=op_assign,str_copy defs=-DKA=2,-DMEM fb=-DSMALL fbunwind=12 :: assigning MEM$ copies it
//@unit val   mode=plain functions=value_str cases=KA:0:1:2 :: reading an operand releases it exactly when it was a temporary
//@unit rel   mode=plain functions=str_release cases=KA:0:1:2 :: giving up a reference
//@unit copym mode=plain stub=str_copy_buf target=syschk_mem functions=syschk_mem,str_copy cases=KA:0:1:2 fb=-DSMALL fbunwind=12 :: assigning to MEM$ copies the text and releases it
#ifndef KA
#define KA 0
#endif
#ifndef KD
#define KD 0
#endif
#define BASE 2
#define V_TABLE
#define SLOT_IN bool free; u8 wo, wa
#include "str.h"
#define N 32
V_INPUT(fixp x, y; bool xv, yv, alias; SLOT_IN; u8 i, j, n; u8 uses[N]; u8 duses; u8 mwide; V_STR_IN(a););
V_STR(KA, a)
#ifndef v_slot
static struct string v_mb; // no second operand
#endif
#include "slots.h"
#ifdef SMALL
#define MAXA 4
#else
#define MAXA 256
#endif
static struct ptc *setup(void){ struct ptc *p = v_table(); p->stack.stack_i = BASE; p->exec.argcount = 2; empty_str = (char*)v_empty; V_ASSUME(in.alen <= MAXA && in.auses > 0); return p; }

void h_new(void){ V_IN(); struct ptc *p = &P;
	static struct string tab[N]; static u8 chars[N * MAX_STRLEN];
	V_ASSUME(in.n >= 1 && in.n <= N && in.i < in.n);
	p->strs.strs_max = in.n; p->strs.strs = tab; p->strs.str_data = chars; p->strs.type = STRING_CHAR;
	bool any = false;
	for (unsigned k = 0; k < N; ++k) { tab[k].uses = in.uses[k]; tab[k].ptr.s = chars + k * MAX_STRLEN; tab[k].type = STRING_CHAR; tab[k].len = k; if (k < in.n && !in.uses[k]) any = true; }
	struct string *r = get_new_str(&p->strs);
	V_CHECK("NULL exactly when every slot is used", (r == NULL) == !any);
	if (r) {
		V_CHECK("a slot of the table", r >= tab && r < tab + in.n && ((uintptr_t)r - (uintptr_t)tab) % sizeof(struct string) == 0);
		unsigned k = r - tab;
		V_CHECK("an unused slot", in.uses[k] == 0 && r->uses == 0);
		V_CHECK("its own characters", r->ptr.s == chars + k * MAX_STRLEN && r->type == STRING_CHAR);
		V_COVER(k == 31);
	}
	V_CHECK("used strings are untouched", !in.uses[in.i] || (tab[in.i].uses == in.uses[in.i] && tab[in.i].len == in.i && tab[in.i].ptr.s == chars + in.i * MAX_STRLEN));
	V_COVER(r == NULL); }

static fixp v_nv;
void h_num(void){ V_IN(); struct ptc *p = setup(); v_nv = in.y;
	struct stack_entry *e = &p->stack.entry[BASE]; e->type = VAR_NUMBER | VAR_VARIABLE; e->value.ptr = &v_nv; p->stack.stack_i = BASE + 1;
	v_push_num(p, in.x, in.xv, 0);
	if (in.alias) { V_ASSUME(in.x == in.y && in.xv); p->stack.entry[BASE + 1].value.ptr = &v_nv; }
	op_assign(p);
	V_CHECK("the variable has the assigned number", v_nv == in.x && p->exec.error == ERR_NONE && p->stack.stack_i == BASE);
	V_CHECK("the source keeps its number", !in.xv || v_var0 == in.x || in.alias);
	V_COVER(in.alias); V_COVER(in.xv); }

// the variable's former string: 0 a dynamic 8-bit string, 1 a program string, 2 a dynamic wide string, 3 the assigned string itself
static struct string v_old; static struct v_wstr v_oldw; static u8 v_oldinl[3] = {BC_STRING, 1, 'x'}; static u8 v_oldch[4]; static u16 v_oldw16[4];
static void *v_dest;
static void *A;
static void assign(struct ptc *p){
	V_ASSUME(in.duses > 0);
	A = v_mk_a();
	v_old.type = STRING_CHAR; v_old.uses = in.duses; v_old.ptr.s = v_oldch; v_old.len = 3;
	v_oldw.type = STRING_WIDE; v_oldw.uses = in.duses; v_oldw.w = v_oldw16; v_oldw.len = 3;
	v_dest = KD == 0 ? (void*)&v_old : KD == 1 ? (void*)v_oldinl : KD == 2 ? (void*)&v_oldw : A;
	struct stack_entry *e = &p->stack.entry[BASE]; e->type = VAR_STRING | VAR_VARIABLE; e->value.ptr = &v_dest; p->stack.stack_i = BASE + 1;
	if (KD == 3) V_ASSUME(in.auses >= (in.xv ? 1 : 2)); // held by the variable itself too
}
#define OLD (KD == 0 ? v_old.uses : v_oldw.uses)
#define OLDTEXT (v_old.ptr.s == v_oldch && v_old.len == 3 && v_oldw.w == v_oldw16 && v_oldw.len == 3 && v_oldinl[0] == BC_STRING && v_oldinl[1] == 1 && v_oldinl[2] == 'x')
void h_lit(void){ V_IN(); struct ptc *p = setup(); assign(p); v_push_strp(p, A, in.xv, &v_svar0);
	op_assign(p);
	V_CHECK("Out of memory exactly when no storage is free", p->exec.error == (NOFREE ? ERR_OUT_OF_MEMORY : ERR_NONE));
	if (p->exec.error) V_CHECK("the variable still holds its former text", (KD == 1 || OLD == in.duses) && v_dest == (KD == 0 ? (void*)&v_old : KD == 1 ? (void*)v_oldinl : (void*)&v_oldw));
	else {
		V_CHECK("the variable holds free storage, once", (v_dest == (void*)&v_slot || REUSED(v_dest)) && FRESH(v_dest, 1));
		V_CHECK("reading it back gives the assigned text", RLEN(v_dest) == in.alen && (in.wo >= in.alen || SLOTCH(in.wo) == V_CH8(KA, a, in.wo)));
		V_CHECK("the former text has one holder less", KD == 1 || OLD == in.duses - 1);
		V_COVER(in.alen == 3);
	}
	V_CHECK("the former text itself is unchanged", OLDTEXT);
	V_CHECK("the source is unchanged", V_KEPT(KA, a, in.wo < 255 ? in.wo : 0, 0));
	V_COVER(p->exec.error); }
void h_dyn(void){ V_IN(); struct ptc *p = setup(); assign(p); v_push_strp(p, A, in.xv, &v_svar0);
	op_assign(p);
	V_CHECK("never fails", p->exec.error == ERR_NONE && p->stack.stack_i == BASE);
	V_CHECK("the variable holds the assigned string", v_dest == A);
	V_CHECK("holders are counted exactly; the text is unchanged", V_KEPT(KA, a, in.wo, (u8)in.auses + (in.xv ? 1 : 0) - (KD == 3 ? 1 : 0)));
	V_CHECK("the former text has one holder less", KD == 1 || KD == 3 || OLD == in.duses - 1);
	V_CHECK("the former text itself is unchanged", OLDTEXT);
	V_CHECK("no storage is taken", v_slot.uses == !in.free);
	V_COVER(in.xv); V_COVER(!in.xv); }
#ifdef MEM
static struct v_wstr *v_memw(struct ptc *p){ return (struct v_wstr*)&p->res.mem_str; }
void h_mem(void){ V_IN(); struct ptc *p = setup(); assign(p);
	p->res.mem_str.type = STRING_WIDE; p->res.mem_str.len = in.alen; p->res.mem_str.uses = in.auses; p->res.mem_str.ptr.s = (u8*)v_awi.c; p->res.mem_ptr = &p->res.mem_str;
	v_push_strp(p, &p->res.mem_str, 1, (void**)&v_svar0);
	op_assign(p);
	V_CHECK("Out of memory exactly when no storage is free", p->exec.error == (NOFREE ? ERR_OUT_OF_MEMORY : ERR_NONE));
	if (!p->exec.error) {
		V_CHECK("the variable holds free storage, once", (v_dest == (void*)&v_slot || REUSED(v_dest)) && FRESH(v_dest, 1) && RLEN(v_dest) == in.alen);
		V_CHECK("the former text has one holder less", OLD == in.duses - 1);
	} else V_CHECK("the variable still holds its former text", OLD == in.duses && v_dest == (void*)&v_old);
	V_COVER(p->exec.error); V_COVER(!p->exec.error); }
#endif
void h_val(void){ V_IN(); struct ptc *p = setup(); A = v_mk_a(); v_push_strp(p, A, in.xv, &v_svar0);
	void *r = value_str(&p->stack.entry[BASE]);
	V_CHECK("the operand's string", r == A); V_CHECK("released exactly when temporary; nothing else changes", V_KEPT(KA, a, in.wo < 255 ? in.wo : 0, in.auses - !in.xv)); V_COVER(in.xv); V_COVER(!in.xv); }
void h_rel(void){ V_IN(); A = v_mk_a(); V_ASSUME(in.auses > 0); 
#ifdef HAVE_REL
	str_release(A); V_CHECK("one holder less", V_KEPT(KA, a, in.wo < 255 ? in.wo : 0, in.auses - 1));
#endif
	V_CHECK("dynamic strings are recognised", is_dyn_str(A) == (KA != 1)); V_COVER(in.auses == 1); }
// MEM$ = a string: MEM's pointer was set to it by op_assign; syschk_mem copies it into MEM's own storage
static struct ptc Q;
void syschk_mem(struct ptc *p);
void h_copym(void){ V_IN(); struct ptc *p = setup(); A = v_mk_a();
	p->res.mem_str.type = STRING_CHAR; p->res.mem_str.ptr.s = v_chars; p->res.mem_str.len = 0; p->res.mem_ptr = A;
	syschk_mem(p);
	V_CHECK("MEM$ is its own storage again", p->res.mem_ptr == &p->res.mem_str);
	V_CHECK("MEM$ has the assigned text", p->res.mem_str.len == in.alen && (in.wo >= in.alen || SLOTCH(in.wo) == (KA == 2 ? (u8)to_char(in.awi.c[in.wo]) : V_CH8(KA, a, in.wo))));
	V_CHECK("the assigned string is released", V_KEPT(KA, a, in.wo < 255 ? in.wo : 0, in.auses - 1));
	V_COVER(in.alen > 3); }
