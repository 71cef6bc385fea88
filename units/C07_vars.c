// C07: a variable name always reaches the same variable
#include "v.h"
#include "runner.h"
//@unit keep  mode=plain target=get_var functions=get_var,search_name_type stub=namecmp,name_hash unwind=20 bounded=tables_of_8_entries,_any_content :: reaching or creating a variable never disturbs another one
//@unit fresh mode=plain target=get_var functions=get_var,search_name_type stub=namecmp,name_hash unwind=20 bounded=tables_of_8_entries,_any_content :: a new variable starts empty, has exactly the name and type asked for, and is found again
//@unit dim   mode=plain target=get_new_arr_var functions=get_new_arr_var,search_name_type stub=get_init_new_arr,namecmp,name_hash unwind=20 bounded=tables_of_8_entries,_any_content :: DIM creates exactly the named array once
//@unit cmp   mode=plain target=namecmp functions=namecmp unwind=20 :: names are equal exactly when all their characters are
//@unit hash  mode=plain target=name_hash functions=name_hash unwind=20 :: the start of a search is inside the table and depends on the name alone
//@unit reset mode=plain target=reset_var functions=reset_var unwind=12 bounded=tables_of_8_entries,_any_content :: CLEAR leaves no variable
#define N 8
struct v_nm { char c[16]; };
struct v_ent { u8 type; struct v_nm name; };
V_INPUT(struct v_ent e[N]; struct v_nm n1, n2; u8 l1, l2, t1, t2, w, k; fixp nums[N]; u8 clear; u32 d1, d2; u8 one; u8 code[24]; bool full; u32 h1, h2, hw;);
static struct named_var tab[N]; static struct strings v_strs; static struct arrays v_arrs; static u8 v_empty[2] = {BC_STRING, 0};
static struct v_nm v_n1, v_n2, v_nw; static u8 v_tw; static fixp v_num; // entry w as it was
static bool okname(const struct v_nm *n, unsigned l){ if (l < 1 || l > 16) return false; for (unsigned i = 0; i < 16; ++i) if (i < l && !n->c[i]) return false; return true; }
static bool oktype(u8 t){ return t == VAR_NUMBER || t == VAR_STRING || t == (VAR_NUMBER | VAR_ARRAY) || t == (VAR_STRING | VAR_ARRAY); }
static bool samename(const char *a, const char *b, unsigned l){ for (unsigned i = 0; i < 16; ++i) if (i < l && a[i] != b[i]) return false; return l == 16 || !a[l]; }
#ifdef V_STUB_namecmp
// contract of namecmp (unit cmp) and name_hash (unit hash); the hash itself is arbitrary
bool namecmp(const char *a, const u32 len, const char b[16]){
	for (unsigned i = 0; i < N; ++i) if (b == tab[i].name) { V_CHECK("callee precondition: name length", len >= 1 && len <= 16); bool r = true; for (unsigned j = 0; j < 16; ++j) if (j < len ? a[j] != tab[i].name[j] : j == len && tab[i].name[j]) r = false; return r; }
	V_CHECK("callee precondition: names are those of the table's entries", false); return false; }
u32 name_hash(const char *name, const u32 len, const u32 hmax){ V_CHECK("callee precondition: whole table", hmax == N); return (name == v_n1.c ? in.h1 : in.hw) % N; }
#endif
static struct variables *setup(void){
	NATIVE(for (unsigned i = 0; i < N; ++i) { struct v_ent *e = &in.e[i]; if (e->type && !(e->type == 1 || e->type == 2 || e->type == 9 || e->type == 10)) e->type = "\1\2\0\11\12"[e->type % 5]; if (e->type && !e->name.c[0]) e->name.c[0] = 'A'; }
	in.l1 = in.l1 >= 1 && in.l1 <= 16 ? in.l1 : 1 + in.l1 % 16; for (unsigned i = 0; i < in.l1; ++i) if (!in.n1.c[i]) in.n1.c[i] = 'A'; in.w = in.w < N ? in.w : in.w % N;
	if (!(in.t1 == 1 || in.t1 == 2 || in.t1 == 9 || in.t1 == 10)) in.t1 = "\1\2\11\12"[in.t1 % 4];)
	struct variables *v = &P.vars; v->vars = tab; v->vars_max = N; v->strs = &v_strs; v->arrs = &v_arrs; v->error = ERR_NONE; v->clear_values = false; empty_str = (char*)v_empty; v_n1 = in.n1; v_n2 = in.n2; for (unsigned i = 0; i < N; ++i) if (in.w == i) { v_tw = in.e[i].type; v_num = in.nums[i]; for (unsigned j = 0; j < 16; ++j) v_nw.c[j] = in.e[i].name.c[j]; }
	for (unsigned i = 0; i < N; ++i) {
		V_ASSUME(in.e[i].type == VAR_EMPTY || oktype(in.e[i].type)); V_ASSUME(in.e[i].name.c[0] || !in.e[i].type);
		tab[i].type = in.e[i].type; for (unsigned j = 0; j < 16; ++j) tab[i].name[j] = in.e[i].name.c[j];
		if (in.e[i].type == VAR_NUMBER) tab[i].value.number = in.nums[i]; else tab[i].value.ptr = v_empty;
	}
	return v;
}
// entry w now
static bool kept(unsigned lw){ for (unsigned i = 0; i < N; ++i) if (i == in.w) { if (tab[i].type != v_tw || (v_tw == VAR_NUMBER ? tab[i].value.number != v_num : tab[i].value.ptr != v_empty)) return false; for (unsigned j = 0; j < 16; ++j) if (j <= lw && tab[i].name[j] != v_nw.c[j]) return false; } return true; }
static unsigned len16(const char *c){ unsigned l = 16; for (unsigned i = 16; i > 0; --i) if (!c[i - 1]) l = i - 1; return l; }
void h_keep(void){ V_IN(); struct variables *v = setup();
	V_ASSUME(in.w < N && v_tw && okname(&in.n1, in.l1) && oktype(in.t1));
	unsigned lw = len16(v_nw.c); bool eqn = in.l1 == lw && samename(v_nw.c, in.n1.c, lw);
	V_ASSUME(!eqn || in.h1 % N == in.hw % N);
	// entry w is a variable made earlier: its name reaches it
	V_ASSUME(get_var(v, v_nw.c, lw, v_tw) == &tab[in.w]);
	struct named_var *r = get_var(v, v_n1.c, in.l1, in.t1);
	bool same = in.t1 == v_tw && eqn;
	V_CHECK("the same name and type reach the same variable", !same || r == &tab[in.w]);
	V_CHECK("another name or type reaches another variable", same || r != &tab[in.w]);
	V_CHECK("existing variables keep name, type and value", kept(lw));
	V_CHECK("and are still reached by their name", get_var(v, v_nw.c, lw, v_tw) == &tab[in.w]);
	V_COVER(r && !same); V_COVER(same); }
void h_fresh(void){ V_IN(); struct variables *v = setup();
	V_ASSUME(okname(&in.n1, in.l1) && oktype(in.t1));
	bool room = false; for (unsigned i = 0; i < N; ++i) if (!in.e[i].type) room = true;
	struct named_var *r = get_var(v, v_n1.c, in.l1, in.t1);
	V_CHECK("refused only when the table is full", r || !room);
	V_CHECK("a refusal is Out of memory", r || v->error == ERR_OUT_OF_MEMORY);
	if (r) {
		V_CHECK("no error", v->error == ERR_NONE);
		unsigned k = 0; for (unsigned i = 0; i < N; ++i) if (r == &tab[i]) k = i;
		V_CHECK("an entry of the table", r == &tab[k]);
		V_CHECK("exactly the name and type asked for", r->type == in.t1 && samename(r->name, in.n1.c, in.l1));
		V_CHECK("a new variable is 0, empty text or an undimensioned array", in.e[k].type || (in.t1 == VAR_NUMBER ? r->value.number == 0 : in.t1 == VAR_STRING ? r->value.ptr == empty_str : r->value.ptr == NULL));
		V_CHECK("found again", get_var(v, v_n1.c, in.l1, in.t1) == r);
	}
	V_COVER(!r); V_COVER(r && in.l1 == 16); }
#ifdef V_STUB_get_init_new_arr
static u32 v_arr[8];
void *get_init_new_arr(struct arrays *a, u32 s1, u32 s2, int type){ V_CHECK("callee precondition: DIM passes its sizes on", a == &v_arrs && s1 == in.d1 && s2 == in.d2 && type == in.t1); return in.full ? NULL : v_arr; }
void h_dim(void){ V_IN(); struct variables *v = setup();
	V_ASSUME(okname(&in.n1, in.l1) && (in.t1 == (VAR_NUMBER | VAR_ARRAY) || in.t1 == (VAR_STRING | VAR_ARRAY)));
	bool there = false, room = false; unsigned at = 0; for (unsigned i = 0; i < N; ++i) { if (!in.e[i].type) room = true; else if (in.e[i].type == in.t1 && len16(in.e[i].name.c) == in.l1 && samename(in.e[i].name.c, in.n1.c, in.l1)) { there = true; at = i; } }
	V_ASSUME(!there || get_var(v, v_n1.c, in.l1, in.t1) == &tab[at]);
	struct named_var *r = get_new_arr_var(v, v_n1.c, in.l1, in.t1, in.d1, in.d2);
	V_CHECK("an array that exists is not made again", !there || (!r && v->error == ERR_DUPLICATE_DIM && tab[at].value.ptr == v_empty));
	V_CHECK("no storage is Out of memory", there || (room && !in.full) || (!r && v->error == ERR_OUT_OF_MEMORY));
	if (!there && room && !in.full) { V_CHECK("made", r && v->error == ERR_NONE && r->type == in.t1 && samename(r->name, in.n1.c, in.l1) && r->value.ptr == v_arr);
		V_CHECK("its name reaches it", get_var(v, v_n1.c, in.l1, in.t1) == r); }
	V_CHECK("other entries are kept", in.w >= N || !v_tw || kept(len16(v_nw.c)));
	V_COVER(there); V_COVER(r); }
#endif
#ifdef V_UNIT_cmp
bool namecmp(const char *a, const u32 len, const char b[16]);
void h_cmp(void){ V_IN(); v_n1 = in.n1; v_n2 = in.n2; V_ASSUME(in.l1 >= 1 && in.l1 <= 16); bool r = namecmp(v_n1.c, in.l1, v_n2.c), e = true;
	for (unsigned i = 0; i < 16; ++i) if (i < in.l1 && in.n1.c[i] != in.n2.c[i]) e = false;
	if (in.l1 < 16 && in.n2.c[in.l1]) e = false;
	V_CHECK("equal exactly when all characters and the length are", !r == !e); V_COVER(r); V_COVER(!r); }
#endif
#ifdef V_UNIT_hash
u32 name_hash(const char *name, const u32 len, const u32 hmax);
void h_hash(void){ V_IN(); v_n1 = in.n1; v_n2 = in.n2; V_ASSUME(in.l1 >= 1 && in.l1 <= 16 && in.k < 16); u32 m = 1u << in.k;
	u32 a = name_hash(v_n1.c, in.l1, m); bool same = true; for (unsigned i = 0; i < 16; ++i) if (i < in.l1 && in.n1.c[i] != in.n2.c[i]) same = false;
	u32 b = name_hash(v_n2.c, in.l1, m);
	V_CHECK("inside the table", a < m); V_CHECK("equal names start at the same entry, whatever follows the name", !same || a == b); V_COVER(same); }
#endif
void h_reset(void){ V_IN(); struct variables *v = setup(); reset_var(v); V_ASSUME(in.w < N);
	V_CHECK("no variable is left", tab[in.w].type == VAR_EMPTY && v->var_count == 0); V_COVER(in.e[in.w].type == VAR_STRING); }
