#pragma once
// one slot of the string table (which one does not matter to a caller of get_new_str); unused iff in.free
// units using this have in their inputs: SLOT_IN
#include "str.h"
#define SLOT_IN bool free; u8 wo, wa
#ifndef v_slot
static struct string v_slot; static u8 v_chars[MAX_STRLEN];
#endif
// ghost: the character at index in.wo of the slot; every in.wo is covered, so this speaks about all characters
static u8 v_wch;
static struct ptc *v_table(void){
	struct ptc *p = &P;
#ifdef v_slot
	p->strs.strs_max = 3; p->strs.strs = v_tab; p->strs.str_data = v_store;
	v_ma.uses = v_mb.uses = 1; v_ma.type = v_mb.type = STRING_CHAR;
#else
	p->strs.strs_max = 1; p->strs.strs = &v_slot; p->strs.str_data = v_chars;
#endif
	p->strs.type = STRING_CHAR;
	v_slot.type = STRING_CHAR; v_slot.uses = !in.free; v_slot.ptr.s = v_chars; v_slot.len = in.wa;
	p->exec.error = ERR_NONE;
	return p;
}
#define NOFREE (!in.free)
static u8 v_empty[2] = {BC_STRING, 0};
#ifdef V_STUB_get_new_str
// contract of get_new_str (proved in C06): some unused slot, set up to use its own characters, or NULL when there is none
struct string *get_new_str(struct strings *s){
	V_CHECK("callee precondition", s == &P.strs);
	V_CHECK("operands are still held while storage is taken", !v_ma.type || v_ma.uses > 0);
	V_CHECK("operands are still held while storage is taken", !v_mb.type || v_mb.uses > 0);
	return v_slot.uses ? NULL : &v_slot;
}
#endif
// r is a string that was free before, now used n times and stored in its own characters
#ifdef v_slot
// (a released operand's storage is as good, if the text comes out right)
#define REUSED(r) ((r) == (void*)&v_ma || (r) == (void*)&v_mb)
#define FRESH(r, n) ((((r) == (void*)&v_slot && in.free) || REUSED(r)) && ((struct string*)(r))->uses == (n) && ((struct string*)(r))->type == STRING_CHAR && ((struct string*)(r))->ptr.s == v_store + MAX_STRLEN * ((struct string*)(r) - v_tab))
#define RINL(r) ((r) == (void*)v_empty)
#define RLEN(r) (RINL(r) ? ((u8*)(r))[1] : ((struct string*)(r))->len)
#define SLOTCH(i) v_chars[i]
#define RCH(r, i) (RINL(r) ? ((u8*)(r))[2 + (i)] : ((struct string*)(r))->ptr.s[i])
#else
#define REUSED(r) 0
#define FRESH(r, n) ((r) == (void*)&v_slot && in.free && v_slot.uses == (n) && v_slot.type == STRING_CHAR && v_slot.ptr.s == v_chars)
// a string result: the fresh slot, or a constant (inline) string
#define RINL(r) ((r) != (void*)&v_slot)
#define RLEN(r) (RINL(r) ? ((u8*)(r))[1] : v_slot.len)
#ifdef V_STUB_str_copy_buf
#define SLOTCH(i) ((i) == in.wo ? v_wch : in.wa)
#elif defined(V_STUB_str_concat)
#define SLOTCH(i) ((i) == in.wo ? v_wch : in.wa)
#else
#define SLOTCH(i) v_chars[i]
#endif
#define RCH(r, i) (RINL(r) ? ((u8*)(r))[2 + (i)] : SLOTCH(i))
#endif
#define TOPSTR(p) ((p)->stack.entry[BASE].value.ptr)
#define RESSTR(p) ((p)->exec.error == ERR_NONE && (p)->stack.stack_i == BASE + 1 && (p)->stack.entry[BASE].type == VAR_STRING && \
	(TOPSTR(p) == empty_str || FRESH(TOPSTR(p), 1)))
// the slot is as before unless it is the result
#define OTHERS(r) ((r) == (void*)&v_slot || (v_slot.uses == !in.free && v_slot.ptr.s == v_chars))
#ifdef V_STUB_str_copy_buf
// contract of str_copy_buf (proved in C05), stated for the watched character
void str_copy_buf(const void *src, void *dest, const u8 types, const u16 count){
	V_CHECK("callee precondition: destination is 8-bit", !(types & STR_COPY_DEST_16) && types <= 3);
	V_CHECK("callee precondition: source readable", !count || __CPROVER_r_ok(src, (size_t)count << (types & 1)));
	V_CHECK("callee precondition: within the 256 characters of the new string", !count || (__CPROVER_same_object(dest, v_chars) && __CPROVER_POINTER_OFFSET(dest) + count <= MAX_STRLEN));
	unsigned o = (unsigned)__CPROVER_POINTER_OFFSET(dest);
	if (in.wo >= o && in.wo < o + count)
		v_wch = types & STR_COPY_SRC_16 ? (u8)to_char(((const u16*)src)[in.wo - o]) : ((const u8*)src)[in.wo - o];
}
#endif
static void v_push_strp(struct ptc *p, void *s, bool var, void **at){
	struct stack_entry *e = &p->stack.entry[p->stack.stack_i++];
	if (var) { *at = s; e->type = VAR_STRING | VAR_VARIABLE; e->value.ptr = at; } else { e->type = VAR_STRING; e->value.ptr = s; }
}
static void *v_svar0, *v_svar1;
