// C08: array elements are separate storage inside their array
#include "v.h"
#include "runner.h"
#include "tokens.h"
//@unit alloc mode=plain target=get_init_new_arr functions=get_init_new_arr unwind=30 bounded=data_blocks_of_up_to_24_elements,_any_dimensions :: DIM reserves exactly the elements its dimensions say or refuses
//@unit entry mode=plain target=arr_entry functions=arr_entry,arr_data unwind=3 :: an index pair reaches the element at x + y * width of its own array
//@unit inject mode=plain target=arr_entry helper=1 functions=arr_entry unwind=3 solver=z3 alt=cvc5 timeout=60 :: different index pairs reach different elements (lemma over entry)
//@unit access mode=plain target=get_arr_entry_via_ptr functions=get_arr_entry_via_ptr,arr_size stub=get_init_new_arr unwind=3 :: an index is inside its dimensions or refused
//@unit named mode=plain target=get_arr_entry functions=get_arr_entry stub=get_var,get_arr_entry_via_ptr unwind=3 :: a named element is the element of that array
//@unit run_dim mode=plain target=_run functions=_run stub=get_new_arr_var unwind=8 cases=KTWO:0:1,KN:0:1 flags=fsens drop=^(cmd|func|op|sys|syschk|ptc)_.* :: DIM passes exactly its dimensions on
//@unit run_elem mode=plain target=_run functions=_run stub=get_arr_entry unwind=8 cases=KTWO:0:1,KN:0:1 flags=fsens drop=^(cmd|func|op|sys|syschk|ptc)_.* :: an element access passes exactly its indices on
//@unit run_id mode=plain target=_run functions=_run stub=get_arr_entry_via_ptr unwind=8 cases=KTWO:0:1 flags=fsens drop=^(cmd|func|op|sys|syschk|ptc)_.* :: an element access by variable number passes exactly its indices on
//@unit reset mode=plain target=reset_arr functions=reset_arr unwind=30 bounded=a_data_block_of_16_elements :: CLEAR empties the array memory
#define N 24
#define NTYPE if (in.type != (VAR_NUMBER | VAR_ARRAY) && in.type != (VAR_STRING | VAR_ARRAY)) in.type = (in.type & 1 ? VAR_NUMBER : VAR_STRING) | VAR_ARRAY;
V_INPUT(u32 s1, s2, next, size, ix, iy, jx, jy, w; u8 type; bool two, made, ok; u32 v[N]; fixp a, b; u8 name; u8 args;);
static u8 v_empty[2] = {BC_STRING, 0};
#ifdef V_UNIT_alloc
static union value blk[N + 2]; static struct arrays v_arr;
void h_alloc(void){ V_IN();
	NATIVE(in.size = N - in.size % 8 % (N + 1); if (in.next > in.size) in.next %= in.size + 1; in.w %= N; NTYPE; if (in.s1 % 3) { in.s1 %= 9; in.s2 = in.s1 & 1 ? ARR_DIM2_UNUSED : in.s2 % 6; })
	empty_str = (char*)v_empty;
	V_ASSUME(in.size <= N && in.next <= in.size && (in.type == (VAR_NUMBER | VAR_ARRAY) || in.type == (VAR_STRING | VAR_ARRAY)) && in.w < N);
	for (unsigned i = 0; i < N; ++i) blk[i].number = in.v[i];
	v_arr.arr_data = blk; v_arr.arr_data_size = in.size; v_arr.arr_data_next = in.next;
	u32 *r = get_init_new_arr(&v_arr, in.s1, in.s2, in.type);
	uint64_t n = in.s2 == ARR_DIM2_UNUSED ? in.s1 : (uint64_t)in.s1 * in.s2;
	bool fits = n + 2 + in.next < in.size;
	if (!r) { V_CHECK("refused only when its elements do not fit", n + 2 + in.next >= in.size); V_CHECK("a refusal reserves nothing", v_arr.arr_data_next == in.next); V_CHECK("a refusal keeps the other arrays", blk[in.w].number == (fixp)in.v[in.w]); }
	else {
		V_CHECK("made only when all its elements are inside the memory", n + 2 + in.next <= in.size);
		if (n + 2 + in.next > in.size) return;
		V_CHECK("new storage after the existing arrays", r == (u32*)&blk[in.next]);
		V_CHECK("all of it is taken", v_arr.arr_data_next >= in.next + 2 + n && v_arr.arr_data_next <= in.size);
		V_CHECK("dimensions are recorded", r[0] == in.s1 && r[1] == in.s2);
		V_CHECK("other arrays are kept", in.w >= in.next || blk[in.w].number == (fixp)in.v[in.w]);
		if (in.w < n) { if (in.type & VAR_NUMBER) V_CHECK("elements start as 0", blk[in.next + 2 + in.w].number == 0); else V_CHECK("elements start as empty text", blk[in.next + 2 + in.w].ptr == (void*)empty_str); }
		V_COVER(n == 0); V_COVER(n > 3 && in.s2 == 2);
	}
	V_CHECK("block stays the same", v_arr.arr_data == blk && v_arr.arr_data_size == in.size);
	V_COVER(!fits && n > 0x100000000ull); }
#endif
// any array up to the whole array memory
#define CAP 262144
#if defined(V_UNIT_entry) || defined(V_UNIT_inject)
static union value big[CAP + 2];
static union value *at(u32 x, u32 y){ return arr_entry(big, x, y); }
static void dims(void){ V_ASSUME(in.s1 >= 1 && in.s1 <= CAP && in.s2 >= 1 && in.s2 <= CAP && (uint64_t)in.s1 * in.s2 <= CAP); ((u32*)big)[0] = in.s1; ((u32*)big)[1] = in.s2; }
#endif
#ifdef V_UNIT_entry
void h_entry(void){ V_IN();
	NATIVE(in.s1 = 1 + in.s1 % 700; in.s2 = 1 + in.s2 % 300; in.ix %= in.s1; in.iy %= in.s2;)
	dims(); V_ASSUME(in.ix < in.s1 && in.iy < in.s2);
	V_CHECK("element x + y * width", at(in.ix, in.iy) == &big[2 + in.ix + in.iy * in.s1]);
	V_CHECK("behind the dimensions", at(in.ix, in.iy) >= &big[2]);
	V_CHECK("the data starts behind the dimensions", arr_data(big) == &big[2]); V_COVER(in.iy > 5); }
#endif
#ifdef V_UNIT_inject
// width * y + x is a number in base width: the argument is over mathematical integers (all index arithmetic of unit entry is below 2^32)
void h_inject(void){
#ifndef V_REPLAY
	__CPROVER_integer ix, iy, jx, jy, w, h, z = 0; // any values
	__CPROVER_assume(ix >= z && ix < w && jx >= z && jx < w && iy >= z && jy >= z && iy < h && jy < h);
	__CPROVER_assert(!(ix + iy * w == jx + jy * w) || (ix == jx && iy == jy), "ENS:different index pairs are different elements");
	__CPROVER_assert(!(ix < jx && iy > jy), "REACH:two pairs");
	__CPROVER_assert(ix + iy * w < w * h, "ENS:every element is inside the array");
#endif
}
#endif
#ifdef V_STUB_get_init_new_arr
static union value arr[4]; static struct arrays v_arrs;
void *get_init_new_arr(struct arrays *a, u32 s1, u32 s2, int type){ V_CHECK("callee precondition: an array not dimensioned has 10 or 10 by 10 elements", a == &v_arrs && s1 == 10 && s2 == (in.two ? 10 : ARR_DIM2_UNUSED) && type == in.type); V_CHECK("callee precondition: only when there is none", !in.made);
	if (!in.ok) return NULL; ((u32*)arr)[0] = s1; ((u32*)arr)[1] = s2; return arr; }
#else
static union value arr[400]; static struct arrays v_arrs = {.arr_data_size = 398, .arr_data = arr};
#endif
#ifdef V_UNIT_access
void h_access(void){ V_IN(); NATIVE(NTYPE)
	empty_str = (char*)v_empty; struct variables *v = &P.vars; v->arrs = &v_arrs; v->error = ERR_NONE; V_ASSUME(in.type == (VAR_NUMBER | VAR_ARRAY) || in.type == (VAR_STRING | VAR_ARRAY));
	union value cell; cell.ptr = NULL; bool sec = in.s2 != ARR_DIM2_UNUSED; u32 w = in.made ? in.s1 : 10, h = in.made ? in.s2 : in.two ? 10 : ARR_DIM2_UNUSED;
#ifdef V_REPLAY
	in.ok = true;
#endif
	if (in.made) { ((u32*)arr)[0] = in.s1; ((u32*)arr)[1] = in.s2; cell.ptr = arr; }
	u32 iy = in.two ? in.iy : ARR_DIM2_UNUSED; V_ASSUME(!in.two || in.iy != ARR_DIM2_UNUSED);
	union value *r = get_arr_entry_via_ptr(v, &cell, in.ix, iy, in.type);
	if (!in.made && !in.ok) { V_CHECK("no storage is Out of memory", !r && v->error == ERR_OUT_OF_MEMORY); return; }
	V_CHECK("the array", cell.ptr == arr);
	bool inx = in.ix < w, iny = !in.two || (h != ARR_DIM2_UNUSED && in.iy < h);
	V_CHECK("outside the dimensions is Subscript out of range", (inx && iny) || (!r && (v->error == ERR_SUBSCRIPT_OUT_OF_RANGE_X || v->error == ERR_SUBSCRIPT_OUT_OF_RANGE_Y)));
	V_CHECK("inside the dimensions is the element", !inx || !iny || (r == arr_entry(arr, in.ix, in.two ? in.iy : 0) && v->error == ERR_NONE));
	V_COVER(inx && iny && in.two); V_COVER(!inx); V_COVER(in.made && in.two && !sec); }
#endif
#ifdef V_UNIT_named
struct named_var *v_nvp;
static struct named_var v_nv; static union value v_el;
#ifdef V_STUB_get_var
static char nm[1];
struct named_var *get_var(struct variables *v, char *name, u32 len, enum types type){ V_CHECK("callee precondition: the name asked for", v == &P.vars && name == nm && len == 1 && type == in.type); if (in.made) return &v_nv; v->error = ERR_OUT_OF_MEMORY; return NULL; }
union value *get_arr_entry_via_ptr(struct variables *v, union value *a, u32 ix, u32 iy, int type){ V_CHECK("callee precondition: the array and indices asked for", v == &P.vars && a == &v_nv.value && ix == in.ix && iy == in.iy && type == in.type); return in.ok ? &v_el : NULL; }
void h_named(void){ V_IN(); P.vars.error = ERR_NONE; union value *r = get_arr_entry(&P.vars, nm, 1, in.type, in.ix, in.iy);
	V_CHECK("the element or the refusal", r == (in.made && in.ok ? &v_el : NULL)); V_CHECK("an array that cannot be made is Out of memory", in.made || P.vars.error == ERR_OUT_OF_MEMORY); V_COVER(r); }
#else
void h_named(void){ }
#endif
#endif
#ifdef KTWO
#define TWO KTWO
#else
#define TWO in.two
#endif
// the compiled form: number, number, argument count, instruction
static u8 prog[24];
static void num(unsigned *n, fixp v){ prog[(*n)++] = BC_NUMBER; prog[(*n)++] = 0; prog[(*n)++] = (u32)v >> 24; prog[(*n)++] = (u32)v >> 16; prog[(*n)++] = (u32)v >> 8; prog[(*n)++] = v; }
static struct named_var v_tab1[4]; static fixp v_cell;
static u32 want_a, want_b; static unsigned called; static u8 v_want;
#ifndef KN
#define KN (in.name & 1)
#endif
// the name compiled as one letter or as length and characters
#define NAME_TYPE (KN ? VAR_STRING | VAR_ARRAY : VAR_NUMBER | VAR_ARRAY)
static bool name_ok(const char *nm, u32 len){ return KN ? len == 2 && nm[0] == 'Z' && nm[1] == '7' : len == 1 && nm[0] == 'Q'; }
static unsigned build(u8 op, u8 arg){ unsigned n = 0; int a = in.a >> 12, b = in.b >> 12;
	num(&n, in.a); if (TWO) num(&n, in.b); prog[n++] = BC_ARGCOUNT; prog[n++] = TWO ? 2 : 1; prog[n++] = op; prog[n++] = arg; if (arg == 3) { prog[n++] = 'Z'; prog[n++] = '7'; prog[n++] = '$'; prog[n++] = 0; } want_a = a; want_b = TWO ? (u32)b : ARR_DIM2_UNUSED; called = 0; v_want = arg; return n; }
// -1 is not a second dimension or index, but never the mark for none
static bool arg_ok(u32 x, u32 y){ return x == want_a && (TWO ? (y == want_b && want_b != ARR_DIM2_UNUSED) || (want_b == ARR_DIM2_UNUSED && y != ARR_DIM2_UNUSED && y >= 0x80000000u) : y == ARR_DIM2_UNUSED); }
#ifdef V_UNIT_run_dim
static union value *rd;
#ifdef V_STUB_get_new_arr_var
struct named_var *get_new_arr_var(struct variables *v, char *name, u32 len, enum types type, u32 d1, u32 d2){ called++; V_CHECK("callee precondition: name, type and dimensions as written", v == &P.vars && name_ok(name, len) && type == NAME_TYPE && arg_ok(d1, d2)); if (in.ok) return &v_tab1[0]; v->error = ERR_DUPLICATE_DIM; return NULL; }
void h_run_dim(void){ V_IN(); P.vars.error = in.made ? ERR_SUBSCRIPT_OUT_OF_RANGE_X : ERR_NONE; P.exec.error = ERR_NONE;
	unsigned n = build(BC_DIM, KN ? 3 : 'Q'); struct bytecode c = {.data = prog, .size = n}; run(c, &P);
	V_CHECK("made once", called == 1); V_CHECK("an error stops exactly when it was refused", P.exec.error == (in.ok ? ERR_NONE : ERR_DUPLICATE_DIM)); V_CHECK("the numbers are consumed", P.stack.stack_i == 0); V_COVER(in.ok); }
#else
static union value blk[300]; static struct arrays v_arr; static struct strings v_strs; static struct named_var v_t[16];
void h_run_dim(void){ V_IN(); empty_str = (char*)v_empty; P.exec.error = ERR_NONE; P.vars.error = in.made ? ERR_SUBSCRIPT_OUT_OF_RANGE_X : ERR_NONE; P.vars.vars = v_t; P.vars.vars_max = 16; P.vars.strs = &v_strs; P.vars.arrs = &v_arr; v_arr.arr_data = blk; v_arr.arr_data_size = 298; P.vars.clear_values = false;
	unsigned n = build(BC_DIM, KN ? 3 : 'Q'); struct bytecode c = {.data = prog, .size = n}; run(c, &P);
	struct named_var *r = get_var(&P.vars, KN ? "Z7" : "Q", KN ? 2 : 1, NAME_TYPE);
	bool fit = in.a >= 0 && (!TWO || in.b >= 0) && (TWO ? (uint64_t)want_a * want_b : want_a) + 2 < 298;
	V_CHECK("fits and is made", !fit || (P.exec.error == ERR_NONE && r->value.ptr == blk && ((u32*)blk)[0] == want_a && ((u32*)blk)[1] == want_b)); V_CHECK("refused", fit || P.exec.error == ERR_OUT_OF_MEMORY || (want_a == 0 || want_b == 0 || want_a + 2 == 298)); }
#endif
#endif
#ifdef V_UNIT_run_elem
#ifdef V_STUB_get_arr_entry
union value *get_arr_entry(struct variables *v, char *name, u32 len, enum types type, u32 x, u32 y){ called++; V_CHECK("callee precondition: name, type and indices as written", v == &P.vars && name_ok(name, len) && type == NAME_TYPE && arg_ok(x, y)); if (in.ok) return (union value*)&v_cell; v->error = ERR_SUBSCRIPT_OUT_OF_RANGE_Y; return NULL; }
void h_run_elem(void){ V_IN(); P.vars.error = ERR_NONE; P.exec.error = ERR_NONE;
	unsigned n = build(BC_VARIABLE_NAME, KN ? 3 : 'Q'); struct bytecode c = {.data = prog, .size = n}; run(c, &P);
	V_CHECK("reached once", called == 1); V_CHECK("refused exactly when outside", P.exec.error == (in.ok ? ERR_NONE : ERR_SUBSCRIPT_OUT_OF_RANGE_Y));
	V_CHECK("the element is the operand", !in.ok || (P.stack.stack_i == 1 && P.stack.entry[0].type == (VAR_VARIABLE | (KN ? VAR_STRING : VAR_NUMBER)) && P.stack.entry[0].value.ptr == &v_cell)); V_COVER(in.ok); }
#else
void h_run_elem(void){ }
#endif
#endif
#ifdef V_UNIT_run_id
#ifdef V_STUB_get_arr_entry_via_ptr
union value *get_arr_entry_via_ptr(struct variables *v, union value *a, u32 x, u32 y, int type){ called++; V_CHECK("callee precondition: array and indices as written", v == &P.vars && a == &v_tab1[2].value && type == v_tab1[2].type && arg_ok(x, y)); if (in.ok) return (union value*)&v_cell; v->error = ERR_SUBSCRIPT_OUT_OF_RANGE_Y; return NULL; }
void h_run_id(void){ V_IN(); P.vars.vars = v_tab1; v_tab1[2].type = in.made ? VAR_NUMBER | VAR_ARRAY : VAR_STRING | VAR_ARRAY; P.vars.error = ERR_NONE; P.exec.error = ERR_NONE;
	unsigned n = build(BC_VARIABLE_ID_SMALL, 2); struct bytecode c = {.data = prog, .size = n}; run(c, &P);
	V_CHECK("reached once", called == 1); V_CHECK("refused exactly when outside", P.exec.error == (in.ok ? ERR_NONE : ERR_SUBSCRIPT_OUT_OF_RANGE_Y));
	V_CHECK("the element is the operand", !in.ok || (P.stack.stack_i == 1 && P.stack.entry[0].type == (VAR_VARIABLE | (in.made ? VAR_NUMBER : VAR_STRING)) && P.stack.entry[0].value.ptr == &v_cell)); V_COVER(in.ok); }
#else
void h_run_id(void){ }
#endif
#endif
#ifdef V_UNIT_reset
static uint64_t blk2[N + 2]; static struct arrays v_arr2;
void h_reset(void){ V_IN(); NATIVE(in.size = 16; in.w %= N;)
	V_ASSUME(in.size == 16 && in.w < N); for (unsigned i = 0; i < N; ++i) blk2[i] = in.v[i];
	v_arr2.arr_data = blk2; v_arr2.arr_data_size = 16; v_arr2.arr_data_next = in.next; reset_arr(&v_arr2);
	V_CHECK("all memory is free and zero", v_arr2.arr_data_next == 0 && (in.w >= in.size || blk2[in.w] == 0)); V_CHECK("nothing outside it", in.w < in.size || blk2[in.w] == in.v[in.w]); V_COVER(in.w > 16); }
#endif
