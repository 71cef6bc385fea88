#pragma once
// string operands in every storage form; the characters live in `in` itself
#include "stk.h"
#include "tokens.h"
// kinds: 0 dynamic 8-bit, 1 inline program string (8-bit), 2 dynamic 16-bit
struct v_c8 { u8 c[MAX_STRLEN]; }; struct v_c16 { u16 c[MAX_STRLEN]; }; struct v_ci { u8 c[2 + 255]; };
#define V_STR_IN(x) struct v_c8 x##by; struct v_c16 x##wi; struct v_ci x##inl; u16 x##len; u8 x##uses
// the descriptor of a wide string: the layout of struct string, with the pointer typed
// (CBMC 6.11 loses the second member of struct string's pointer union when it is read
// through a pointer to an object of that type: a spurious failure)
struct v_wstr { char type; uint_fast16_t len, uses; u16 *w; };
_Static_assert(sizeof(struct v_wstr) == sizeof(struct string) && offsetof(struct v_wstr, w) == offsetof(struct string, ptr) && offsetof(struct v_wstr, uses) == offsetof(struct string, uses), "layout");
#if defined(V_TABLE) && !defined(V_STUB_get_new_str) && !defined(V_STUB_str_copy_buf)
// no contract for get_new_str: operands and the slot are entries of one real table, so that a released operand can be handed out again
static struct string v_tab[3]; static u8 v_store[3 * MAX_STRLEN];
#define v_ma v_tab[0]
#define v_mb v_tab[1]
#define v_slot v_tab[2]
#define v_aby (*(struct v_c8*)v_store)
#define v_bby (*(struct v_c8*)(v_store + MAX_STRLEN))
#define v_chars (v_store + 2 * MAX_STRLEN)
#define V_DECL8(x)
#else
#define V_DECL8(x) static struct string v_m##x; static struct v_c8 v_##x##by;
#endif
#define V_STR(kind, x) V_DECL8(x) static struct v_wstr v_n##x; static struct v_c16 v_##x##wi; static struct v_ci v_##x##inl; \
	static void *v_mk_##x(void){ \
		V_ASSUME(in.x##len <= (kind == 1 ? 255 : MAX_STRLEN)); \
		if (kind == 1) { v_##x##inl = in.x##inl; v_##x##inl.c[0] = BC_STRING; v_##x##inl.c[1] = in.x##len; return v_##x##inl.c; } \
		if (kind == 2) { v_##x##wi = in.x##wi; v_n##x.len = in.x##len; v_n##x.uses = in.x##uses; v_n##x.type = STRING_WIDE; v_n##x.w = v_##x##wi.c; return &v_n##x; } \
		v_##x##by = in.x##by; v_m##x.len = in.x##len; v_m##x.uses = in.x##uses; v_m##x.type = STRING_CHAR; v_m##x.ptr.s = v_##x##by.c; return &v_m##x; }
// the characters as given
#define V_CH8(kind, x, i) ((kind) == 1 ? in.x##inl.c[2 + (i)] : in.x##by.c[i])
#define V_CHW(kind, x, i) ((kind) == 2 ? in.x##wi.c[i] : to_wide(V_CH8(kind, x, i)))
// nothing but the use count changed
#define V_KEPT(kind, x, i, newuses) ((kind) == 1 ? v_##x##inl.c[1] == in.x##len && v_##x##inl.c[2 + (i)] == in.x##inl.c[2 + (i)] : \
	(kind) == 2 ? v_n##x.type == STRING_WIDE && v_n##x.len == in.x##len && v_n##x.uses == (newuses) && v_n##x.w == v_##x##wi.c && v_##x##wi.c[i] == in.x##wi.c[i] : \
	v_m##x.type == STRING_CHAR && v_m##x.len == in.x##len && v_m##x.uses == (newuses) && v_m##x.ptr.s == v_##x##by.c && v_##x##by.c[i] == in.x##by.c[i])
#define V_USES(kind, x) ((kind) == 2 ? v_n##x.uses : v_m##x.uses)
