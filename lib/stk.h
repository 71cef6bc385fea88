#pragma once
// numeric operands on the value stack
#include "v.h"
// operand i of the call sits at entry[base+i]; a variable operand is read through a pointer
static fixp v_var0, v_var1;
#define v_push_num(p, v, var, slot) v_push_num_(p, v, var, &v_var##slot)
static void v_push_num_(struct ptc *p, fixp v, bool var, fixp *at){
	struct stack_entry *e = &p->stack.entry[p->stack.stack_i++];
	if (var) { *at = v; e->type = VAR_NUMBER | VAR_VARIABLE; e->value.ptr = at; }
	else { e->type = VAR_NUMBER; e->value.ptr = NULL; e->value.number = v; }
}
// the call consumed everything above base and pushed one number r
#define v_result_num(p, base, r) ((p)->stack.stack_i == (base) + 1 && (p)->stack.entry[base].type == VAR_NUMBER && (p)->stack.entry[base].value.number == (r))
#define STACK_FRAME(base) LV(p->exec.error), LV(p->stack.stack_i), UPTO(&p->stack.entry[base], sizeof(struct stack_entry) * (VALUE_STACK_SIZE - (base)))
