// C10: loops and subroutines nest correctly
#include "v.h"
#include "runner.h"
#include "flow.h"
#include "tokens.h"
//@unit for mode=plain target=cmd_for functions=cmd_for,bc_scan unwind=12 cases=KP:0:1 flags=fsens :: FOR opens a loop over its variable and limit, or stops at the limit
//@unit next mode=plain target=cmd_next functions=cmd_next stub=run cases=KV:0:1,KS:0:1,KN:0:1:2:3 unwind=7 bounded=call_stacks_of_up_to_3_entries flags=fsens :: NEXT steps the innermost loop and repeats its body or leaves it
//@unit next_under mode=plain target=cmd_next functions=cmd_next stub=run unwind=258 cases=KV:0:1,KN:0:1:2:9:256 bounded=call_stacks_of_0_1_2_9_and_256_entries flags=fsens :: NEXT without loop stops, whatever is on the call stack
//@unit next_err mode=plain target=cmd_next functions=cmd_next stub=run unwind=4 :: an error in the limit stops the program
//@unit ret mode=plain target=cmd_return functions=cmd_return unwind=10 cases=KN:0:1:2:3:5:8 bounded=call_stacks_of_up_to_8_entries flags=fsens :: RETURN continues behind the latest GOSUB
//@unit gosub mode=plain target=cmd_gosub functions=cmd_gosub,cmd_goto_gosub stub=search_label unwind=4 flags=fsens :: GOSUB remembers its place or stops at the limit
//@unit begin mode=plain target=_run functions=_run,bc_scan_pair cases=KB:0:1:2:3:4:5 unwind=20 flags=fsens+--paths+lifo drop=^(cmd|func|op|sys|syschk|ptc)_.* :: the loop body is entered exactly when the limit is not passed yet
//@unit limit mode=plain target=cmd_next functions=cmd_next,_run unwind=8 flags=fsens drop=^(cmd_[a-mo-z]|cmd_ne[a-w]|cmd_new|func|op|sys|syschk|ptc)_?.* :: NEXT reads limit and step from the program
V_INPUT(struct { u8 t[256]; } st; u32 addr, size, ix, cs; u32 n; fixp val, end, step, oth; u8 k, has, nv; bool found, one; u32 at; u32 err; u8 vs[8];);
static fixp v_a, v_b, v_c;
#ifdef V_STUB_search_label
idx search_label(struct ptc *p, void *l){ return in.at; }
#endif
#ifdef V_UNIT_for
#ifndef KP
#define KP (in.k & 1)
#endif
// I FOR 1 = 3 TO (2 STEP) loop
static u8 prog[30];
#define PUT(...) { u8 x[] = {__VA_ARGS__}; for (unsigned i = 0; i < sizeof x; ++i) prog[i] = x[i]; sz = sizeof x; }
void h_for(void){ V_IN(); NATIVE(in.n = in.n % 3 ? in.n % 256 : 255;) V_ASSUME(in.n < CALL_STACK_SIZE); unsigned sz, s, e; P.exec.error = ERR_NONE;
	if (KP) { PUT(BC_VARIABLE_NAME, 'I', BC_COMMAND_FIRST, CMD_FOR, BC_SMALL_NUMBER, 1, BC_OPERATOR, OP_NEGATE, BC_OPERATOR, OP_ASSIGN, BC_SMALL_NUMBER, 3, BC_COMMAND, CMD_TO, BC_SMALL_NUMBER, 2, BC_COMMAND, CMD_STEP, BC_BEGIN_LOOP, 0) s = 10; e = 18; }
	else { PUT(BC_VARIABLE_NAME, 'I', BC_COMMAND_FIRST, CMD_FOR, BC_SMALL_NUMBER, 1, BC_OPERATOR, OP_ASSIGN, BC_VARIABLE_NAME, 'B', BC_COMMAND, CMD_TO, BC_BEGIN_LOOP, 0) s = 8; e = 12; }
	P.exec.code.data = prog; P.exec.code.size = sz; P.exec.index = 4; P.calls.stack_i = in.n; P.stack.stack_i = 0; P.stack.entry[0].type = VAR_NUMBER | VAR_VARIABLE; P.stack.entry[0].value.ptr = &v_a;
	if (in.n) { P.calls.entry[0].type = CALL_GOSUB; P.calls.entry[0].address = in.addr; }
	cmd_for(&P);
	bool full = in.n == CALL_STACK_SIZE - 1; u8 m = in.n;
	V_CHECK("nesting beyond the limit stops", !full || (P.exec.error == ERR_OUT_OF_MEMORY && P.calls.stack_i == in.n));
	V_CHECK("one loop more", full || (P.exec.error == ERR_NONE && P.calls.stack_i == in.n + 1 && P.calls.entry[in.n].type == CALL_FOR));
	V_CHECK("over its variable and limit", full || (P.calls.entry[in.n].var == &v_a && P.calls.entry[in.n].address == s && P.calls.entry[in.n].size == e - s));
	V_CHECK("others are kept", !in.n || (P.calls.entry[0].type == CALL_GOSUB && P.calls.entry[0].address == in.addr)); V_CHECK("execution goes on", P.exec.index == 4); (void)m; V_COVER(full); V_COVER(in.n == 0); }
#endif
#if defined(V_UNIT_next) || defined(V_UNIT_next_under) || defined(V_UNIT_next_err)
#ifndef KV
#define KV (in.k & 1)
#endif
#ifndef KS
#define KS (in.k >> 1 & 1)
#endif
static u8 prog[64]; static unsigned ran; static u32 v_from, v_size;
#define NUMB(at, v) prog[at] = BC_NUMBER, prog[at + 1] = 0, prog[at + 2] = (u32)(v) >> 24, prog[at + 3] = (u32)(v) >> 16, prog[at + 4] = (u32)(v) >> 8, prog[at + 5] = (v)
#ifdef V_STUB_run
// evaluating the limit: leaves limit and step, and may end anywhere with any error
void run(struct bytecode c, struct ptc *p){ ran++; V_CHECK("callee precondition: the loop's own limit expression", c.data == prog + v_from && c.size == v_size);
	p->exec.code = c; p->exec.index = c.size; p->exec.data_index = 0; p->exec.data_offset = 0; p->exec.argcount = 0; p->exec.error = in.err; p->stack.stack_i = 0;
	if (in.has) { p->stack.stack_i = KS ? 2 : 1; p->stack.entry[0].type = VAR_NUMBER; p->stack.entry[0].value.number = in.end; if (KS) { p->stack.entry[1].type = VAR_NUMBER; p->stack.entry[1].value.number = in.step; } } }
#endif
static void *var_of(u8 k){ return k % 3 == 0 ? (void*)&v_a : k % 3 == 1 ? (void*)&v_b : (void*)&v_c; }
static fixp val_of(u8 k){ return k % 3 == 0 ? in.val : k % 3 == 1 ? in.oth : in.val; }
#endif
#ifdef V_UNIT_next
#define D 4
static struct call_entry v_was[D + 1];
void h_next(void){ V_IN();
	NATIVE(in.n %= D + 1; in.err = 0; in.has = 1; for (int i = 0; i < D; ++i) { in.st.t[i] &= 1; } in.addr %= 30; in.size %= 20;)
#ifdef KN
	in.n = KN;
#endif

	V_ASSUME(in.n <= D && !in.err && in.has && in.addr <= 30 && in.size <= 24); v_a = in.val; v_b = in.oth; v_c = in.val; P.exec.error = ERR_NONE; P.exec.index = in.ix; P.exec.data_index = in.at; P.exec.code.data = prog; P.exec.code.size = 60;
	int w = -1; void *nv = var_of(in.nv);
	for (int i = 0; i < D; ++i) { P.calls.entry[i].type = in.st.t[i] & 1 ? CALL_FOR : CALL_GOSUB; P.calls.entry[i].address = in.addr + i; P.calls.entry[i].size = in.size; P.calls.entry[i].var = var_of(in.vs[i]); v_was[i] = P.calls.entry[i];
		if (i < in.n && (in.st.t[i] & 1) && (!KV || var_of(in.vs[i]) == nv)) w = i; }
	P.calls.stack_i = in.n; P.stack.stack_i = 0; if (KV) { P.stack.stack_i = 1; P.stack.entry[0].type = VAR_NUMBER | VAR_VARIABLE; P.stack.entry[0].value.ptr = nv; }
	fixp cur = 0, step = KS ? in.step : 4096; void *cv = 0; for (int i = 0; i < D; ++i) if (i == w) { cv = var_of(in.vs[i]); cur = val_of(in.vs[i]); v_from = in.addr + i; v_size = in.size; }
	if (w < 0) v_from = v_size = 0;
#ifndef V_STUB_run
	v_size = KS ? 12 : 6; for (int i = 0; i < D; ++i) P.calls.entry[i].size = v_was[i].size = v_size; if (w >= 0) { NUMB(v_from, in.end); if (KS) NUMB(v_from + 6, in.step); } ran = 1;
#endif
	cmd_next(&P);
	V_COVER(w < 0);
	if (w < 0) { V_CHECK("no such loop: stops", P.exec.error == ERR_NEXT_WITHOUT_FOR); return; }
	int64_t nx = (int64_t)cur + step; bool ovf = nx > INT32_MAX || nx < INT32_MIN; bool leave = step < 0 ? nx < in.end : nx > in.end;
	V_CHECK("limit read once", ran == 1);
	V_CHECK("a step out of range stops", !ovf || (P.exec.error == ERR_OVERFLOW && *(fixp*)cv == cur));
	V_CHECK("the variable is stepped", ovf || (*(fixp*)cv == (fixp)nx && P.exec.error == ERR_NONE));
	V_CHECK("no other variable", (cv == &v_a || v_a == in.val) && (cv == &v_b || v_b == in.oth) && (cv == &v_c || v_c == in.val));
	if (!ovf && !leave) { V_CHECK("the body is repeated", P.exec.index == v_from + v_size + 2 || P.exec.index == v_from + v_size || P.exec.index == v_from); V_CHECK("the loop stays open", P.calls.stack_i >= w + 1 && P.calls.stack_i <= in.n && P.calls.entry[w].type == CALL_FOR && P.calls.entry[w].address == v_from && P.calls.entry[w].var == cv); }
	if (!ovf && leave) { V_CHECK("the program goes on behind NEXT", P.exec.index == in.ix); V_CHECK("the loop is closed", P.calls.stack_i >= w && P.calls.stack_i < in.n); }
	for (int i = 0; i < D; ++i) if (i < w) V_CHECK("outer loops and subroutines stay", P.calls.entry[i].type == v_was[i].type && P.calls.entry[i].address == v_was[i].address && P.calls.entry[i].var == v_was[i].var);
	if (!ovf && leave) for (int i = 0; i < D; ++i) if (i >= w && i < P.calls.stack_i) V_CHECK("what was opened since is kept as it was, or closed", P.calls.entry[i].type == v_was[i + 1].type && P.calls.entry[i].address == v_was[i + 1].address && P.calls.entry[i].var == v_was[i + 1].var);
	if (!ovf) V_CHECK("the rest of the program state is as before", P.exec.data_index == in.at && P.exec.code.data == prog && P.exec.code.size == 60);
	
#if !defined KN || KN
	V_COVER(leave); V_COVER(ovf);
#endif
}
#endif
#ifdef V_UNIT_next_under
void h_next_under(void){ V_IN(); NATIVE(in.n %= 257; if (KV) in.nv = 1;)
#ifdef KN
	in.n = KN;
#endif
	 V_ASSUME(in.n <= CALL_STACK_SIZE); P.exec.error = ERR_NONE; P.calls.stack_i = in.n; P.exec.code.data = prog; v_a = in.val;
	for (int i = 0; i < (int)in.n; ++i) { P.calls.entry[i].type = KV && (in.st.t[i] & 1) ? CALL_FOR : CALL_GOSUB; P.calls.entry[i].var = &v_a; }
	P.stack.stack_i = 0; if (KV) { P.stack.stack_i = 1; P.stack.entry[0].type = VAR_NUMBER | VAR_VARIABLE; P.stack.entry[0].value.ptr = &v_b; }
	cmd_next(&P); V_CHECK("stops", P.exec.error == ERR_NEXT_WITHOUT_FOR); V_CHECK("nothing is lost", P.calls.stack_i == in.n && v_a == in.val); V_COVER(in.n + 1); }
#endif
#ifdef V_UNIT_next_err
void h_next_err(void){ V_IN(); NATIVE(in.err = 38; in.has = 0; in.size = 8; in.addr = 0;) V_ASSUME(in.addr <= 30 && in.size <= 24); P.exec.error = ERR_NONE; P.exec.code.data = prog; P.exec.code.size = 60; P.exec.index = 50; v_a = in.val; P.calls.stack_i = 1; P.calls.entry[0].type = CALL_FOR; P.calls.entry[0].address = v_from = in.addr; P.calls.entry[0].size = v_size = in.size; P.calls.entry[0].var = &v_a; P.stack.stack_i = 0;
	V_ASSUME(in.err || !in.has);
#ifndef V_STUB_run
	// 1 / 0
	V_ASSUME(in.size == 8 && in.err == 38 && !in.has); u8 x[] = {BC_SMALL_NUMBER, 1, BC_SMALL_NUMBER, 0, BC_OPERATOR, OP_DIVIDE, BC_COMMAND, CMD_TO}; for (int i = 0; i < 8; ++i) prog[in.addr + i] = x[i]; P.calls.entry[0].size = 8;
#endif
	cmd_next(&P); V_CHECK("the error stops the program", in.err ? P.exec.error == in.err : P.exec.error != ERR_NONE); V_COVER(in.err == 3); V_COVER(!in.err); }
#endif
#ifdef V_UNIT_ret
void h_ret(void){ V_IN(); NATIVE(in.n = in.k & 1 ? in.n % 257 : in.n % 5;)
#ifdef KN
	in.n = KN;
#endif
	NATIVE(for (int i = 0; i < 256; ++i) in.st.t[i] &= 1;) V_ASSUME(in.n <= CALL_STACK_SIZE); P.exec.error = ERR_NONE; P.exec.index = in.ix; P.calls.stack_i = in.n; int w = -1;
	for (int i = 0; i < (int)in.n; ++i) { P.calls.entry[i].type = in.st.t[i] & 1 ? CALL_GOSUB : CALL_FOR; P.calls.entry[i].address = in.addr ^ i; if (i < in.n && (in.st.t[i] & 1)) w = i; }
	cmd_return(&P);
	V_CHECK("no open subroutine: stops", w >= 0 || (P.exec.error == ERR_RETURN_WITHOUT_GOSUB && P.exec.index == in.ix));
	V_CHECK("continues behind the latest GOSUB", w < 0 || (P.exec.error == ERR_NONE && P.exec.index == (in.addr ^ w)));
	V_CHECK("it and the loops opened since are closed, no others", w < 0 || P.calls.stack_i == w);
	V_COVER(in.n == 0 || w == (int)in.n - 1); V_COVER(w < 0); }
#endif
#ifdef V_UNIT_gosub
static u8 v_l0[4] = {BC_LABEL_STRING, 1, 'L', 0};
void h_gosub(void){ V_IN(); NATIVE(in.n = in.n % 3 ? in.n % 256 : 255;)
#ifdef KN
	in.n = KN;
#endif
	 V_ASSUME(in.n < CALL_STACK_SIZE); P.exec.error = ERR_NONE; P.exec.index = in.ix; P.calls.stack_i = in.n; P.stack.stack_i = 1; P.stack.entry[0].type = VAR_STRING; P.stack.entry[0].value.ptr = v_l0;
#ifndef V_STUB_search_label
	static struct label_line t[4]; P.exec.code.labels.label_count = 4; P.exec.code.labels.entry = t; in.at &= 0xffff; reset_label(&P.exec.code.labels); add_label(&P.exec.code.labels, "L", 1, in.at);
#endif
	if (in.n) { P.calls.entry[0].type = CALL_FOR; P.calls.entry[0].address = in.addr; }
	cmd_gosub(&P); bool full = in.n == CALL_STACK_SIZE - 1;
	V_CHECK("nesting beyond the limit stops", !full || (P.exec.error == ERR_OUT_OF_MEMORY && P.calls.stack_i == in.n));
	V_CHECK("its place is remembered", full || (P.exec.error == ERR_NONE && P.calls.stack_i == in.n + 1 && P.calls.entry[in.n].type == CALL_GOSUB && P.calls.entry[in.n].address == in.ix && P.exec.index == in.at));
	V_CHECK("the others are kept", !in.n || (P.calls.entry[0].type == CALL_FOR && P.calls.entry[0].address == in.addr)); V_COVER(full); V_COVER(!in.n); }
#endif
#ifdef V_UNIT_begin
#ifndef KB
#define KB (in.k % 6)
#endif
// end step BEGIN_LOOP body; a marker number tells where execution went on
static u8 prog[64]; static struct named_var v_t[4];
#define VV(i) BC_VARIABLE_ID_SMALL, i
#define CF(c) BC_COMMAND_FIRST, c
#define NN BC_SMALL_NUMBER, 0
#define NUMB(v) BC_NUMBER, 0, (u32)(v) >> 24, (u32)(v) >> 16, (u32)(v) >> 8, (u32)(v)
#define PUT(...) { u8 x[] = {__VA_ARGS__}; for (unsigned i = 0; i < sizeof x; ++i) prog[i] = x[i]; sz = sizeof x; }
#define HEAD NUMB(in.end), NUMB(in.step), BC_BEGIN_LOOP, 0
void h_begin(void){ V_IN(); unsigned sz; fixp step = in.step; P.exec.error = ERR_NONE; P.calls.stack_i = 2; P.calls.entry[0].type = CALL_GOSUB; P.calls.entry[0].address = in.addr; P.calls.entry[1].type = CALL_FOR; P.calls.entry[1].var = &v_t[1].value.number; v_t[1].type = v_t[2].type = VAR_NUMBER; v_t[1].value.number = in.val; P.vars.vars = v_t; P.vars.vars_max = 4;
	// the body leaves 1 when it is entered (and stops there), behind the loop 7 is left
#define BODY BC_SMALL_NUMBER, 1, BC_ERROR, ERR_BREAK
#define TAIL BC_SMALL_NUMBER, 7, BC_ERROR, ERR_BREAK
	switch (KB) {
		case 0: PUT(HEAD, BODY, CF(CMD_NEXT), TAIL) break;
		case 1: PUT(HEAD, BODY, VV(1), CF(CMD_NEXT), TAIL) break;
		case 2: PUT(HEAD, BODY, VV(2), CF(CMD_FOR), CF(CMD_NEXT), CF(CMD_NEXT), TAIL) break;
		case 3: PUT(HEAD, BODY, VV(2), CF(CMD_FOR), VV(2), CF(CMD_NEXT), VV(1), CF(CMD_NEXT), TAIL) break;
		case 4: PUT(HEAD, BODY, VV(2), CF(CMD_FOR), VV(2), CF(CMD_NEXT), CF(CMD_NEXT), TAIL) break;
		default: PUT(NUMB(in.end), BC_BEGIN_LOOP, 0, BODY, BC_OPERATOR, 0, CF(CMD_NEXT), TAIL) step = 4096; break;
	}
	struct bytecode c = {.size = sz, .data = prog}; extern void _run(struct bytecode, struct ptc*, bool); _run(c, &P, false);
	bool enter = step < 0 ? in.val >= in.end : in.val <= in.end;
	V_CHECK("stopped at the marker", P.exec.error == ERR_BREAK && P.stack.stack_i == 1);
	V_CHECK("the body is entered exactly when the limit is not passed", (P.stack.entry[0].value.number >> 12 == 1) == enter);
	V_CHECK("otherwise execution goes on behind the loop", enter || P.stack.entry[0].value.number >> 12 == 7);
	V_CHECK("a skipped loop is closed, an entered one open, others stay", P.calls.stack_i == (enter ? 2 : 1) && P.calls.entry[0].type == CALL_GOSUB && P.calls.entry[0].address == in.addr);
	V_CHECK("the variable keeps its start", v_t[1].value.number == in.val);
	V_COVER(enter); V_COVER(!enter); }
#endif
#ifdef V_UNIT_limit
static u8 prog[20]; static struct named_var v_t[4];
#define NUMB(at, v) prog[at] = BC_NUMBER, prog[at + 1] = 0, prog[at + 2] = (u32)(v) >> 24, prog[at + 3] = (u32)(v) >> 16, prog[at + 4] = (u32)(v) >> 8, prog[at + 5] = (v)
void h_limit(void){ V_IN(); P.exec.error = ERR_NONE; NUMB(0, in.end); NUMB(6, in.step); prog[12] = BC_BEGIN_LOOP; P.exec.code.data = prog; P.exec.code.size = 20; P.exec.index = 18; v_a = in.val; P.calls.stack_i = 1; P.calls.entry[0].type = CALL_FOR; P.calls.entry[0].address = 0; P.calls.entry[0].size = 12; P.calls.entry[0].var = &v_a; P.stack.stack_i = 0;
	cmd_next(&P); int64_t nx = (int64_t)in.val + in.step; bool ovf = nx > INT32_MAX || nx < INT32_MIN, leave = in.step < 0 ? nx < in.end : nx > in.end;
	V_CHECK("stepped by STEP", ovf ? P.exec.error == ERR_OVERFLOW : P.exec.error == ERR_NONE && v_a == nx);
	V_CHECK("left exactly behind the limit", ovf || P.calls.stack_i == !leave); V_COVER(leave); V_COVER(!leave && in.step < 0); }
#endif
