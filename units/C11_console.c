// C11: the text console stays a 32 by 24 grid
#include "v.h"
#include "console.h"
#include "tokens.h"
//@unit put mode=plain target=con_put functions=con_put unwind=34 :: a character goes to the cursor, which moves on and wraps at the right edge
//@unit scroll mode=plain target=con_scroll functions=con_scroll unwind=34 cases=KD:0:1 :: scrolling moves every line up by one
//@unit newline mode=plain target=con_newline functions=con_newline unwind=34 cases=KD:0:1 :: a new line, scrolling at the bottom
//@unit puts mode=plain target=con_puts functions=con_puts stub=con_put,con_scroll,str_len,str_at_wide unwind=258 cases=KY:0:20:22:23:24 bounded=starting_lines_0_20_22_23_or_below_the_last fb=-DSMALL fbunwind=34 :: a text is written character by character from the cursor, scrolling as needed
//@unit print mode=plain target=cmd_print functions=cmd_print stub=con_puts,con_putn,con_scroll,con_newline cases=KP:0:1:2:3:4:5 unwind=20 bounded=lists_of_up_to_4_items :: PRINT writes its items in order, tabs, and ends the line unless told not to
//@unit tab mode=plain target=cmd_print functions=cmd_print stub=con_put,con_scroll unwind=34 :: a comma moves to the next tab stop
//@unit locate mode=plain target=cmd_locate functions=cmd_locate unwind=3 :: LOCATE moves the cursor only to places on the grid
//@unit color mode=plain target=cmd_color functions=cmd_color unwind=3 cases=KC:0:1 :: COLOR sets the colours or refuses
//@unit cls mode=plain target=cmd_cls functions=cmd_cls unwind=3 :: CLS clears the whole grid
//@unit chkchr mode=plain target=func_chkchr functions=func_chkchr unwind=258 :: CHKCHR gives the character at the addressed cell, -1 outside
//@unit csr mode=plain target=sys_csrx functions=sys_csrx,sys_csry,syschk_tabstep unwind=3 :: CSRX, CSRY, TABSTEP
//@unit prompt mode=plain flags=fsens target=con_prompt functions=con_prompt stub=con_puts,con_put,con_scroll unwind=34 :: the input line is a whole line on the grid
//@unit input mode=plain target=cmd_input functions=cmd_input stub=con_prompt,con_reprompt,shared_input,con_newline,get_new_str,u8_to_num cases=KL:0:1:2:3:4:5:6 flags=fsens unwind=36 bounded=seven_sample_lines :: INPUT gives each variable its part of the line
V_INPUT(struct { u16 t[24][32]; } sc; struct { u8 t[24][32]; } cc; u8 x, y, col, i, j; u16 w; fixp a, b; u8 len; struct { u16 t[256]; } s; fixp n[4]; u8 ts; fixp tab; struct { u16 t[32]; } ln; struct { fixp t[4]; } val; u8 k; bool av;);
#if defined(V_UNIT_put) || defined(V_UNIT_scroll) || defined(V_UNIT_newline) || defined(V_UNIT_puts) || defined(V_UNIT_prompt)
static struct console C;
#else
#define C (P.console)
#endif
static void scr(void){ for (int i = 0; i < 24; ++i) for (int j = 0; j < 32; ++j) { C.text[i][j] = in.sc.t[i][j]; C.color[i][j] = in.cc.t[i][j]; } C.x = in.x; C.y = in.y; C.col = in.col; }
#define ROW(b) NATIVE(b)
#ifdef V_UNIT_put
// from every position, forwards and then backwards: every cell keeps what was put there, whatever is put before or after it elsewhere
static void one(int y, int x){ C.x = x; C.y = y; C.col = in.cc.t[y][x]; con_put(&C, in.sc.t[y][x]); V_CHECK("the cursor moves on and wraps", C.x == (x == 31 ? 0 : x + 1) && C.y == y + (x == 31) && C.col == in.cc.t[y][x]); }
static void all(void){ for (int y = 0; y < 24; ++y) for (int x = 0; x < 32; ++x) V_CHECK("written at the cursor with the current colour, and no other cell", C.text[y][x] == in.sc.t[y][x] && C.color[y][x] == in.cc.t[y][x]); }
void h_put(void){ V_IN(); C.tabstep = in.ts; C.sys_tabstep = in.tab; C.cursor_visible = in.av;
	for (int y = 0; y < 24; ++y) for (int x = 0; x < 32; ++x) one(y, x);
	all(); for (int y = 0; y < 24; ++y) for (int x = 0; x < 32; ++x) { C.text[y][x] = 0; C.color[y][x] = 0; }
	for (int y = 23; y >= 0; --y) for (int x = 31; x >= 0; --x) one(y, x);
	all(); V_CHECK("nothing else", C.tabstep == in.ts && C.sys_tabstep == in.tab && C.cursor_visible == in.av); V_COVER(1); }
#endif
#if defined(V_UNIT_scroll) || defined(V_UNIT_newline)
#ifndef KD
#define KD (in.k & 1)
#endif
// case 0: nothing to scroll; 1: one line below the grid
void con_scroll(struct console*);
static void all(int d){ for (int i = 0; i < 24; ++i) for (int j = 0; j < 32; ++j) { V_CHECK("every line moves up", i + d > 23 || (C.text[i][j] == in.sc.t[i + d][j] && C.color[i][j] == in.cc.t[i + d][j])); V_CHECK("the new line is blank in the current colour", i + d <= 23 || (C.text[i][j] == 0 && C.color[i][j] == in.col)); } V_CHECK("the colour stays", C.col == in.col); }
#define EACH(from, to, call) for (int y = from; y <= (to); ++y) { C.y = y; C.x = in.x; call; }
#ifdef V_UNIT_scroll
void h_scroll(void){ V_IN(); NATIVE(in.x %= 32;) V_ASSUME(in.x < 32); scr(); EACH(KD ? 24 : 0, KD ? 24 : 23, con_scroll(&C); V_CHECK("the cursor is on the grid", C.y == (KD ? 23 : y) && C.x == in.x)) all(KD); V_COVER(1); }
#else
void h_newline(void){ V_IN(); NATIVE(in.x %= 32;) V_ASSUME(in.x < 32); scr(); EACH(KD ? 23 : 0, KD ? 23 : 22, con_newline(&C, true); V_CHECK("at the start of the next line", C.x == 0 && C.y == (KD ? 23 : y + 1))) all(KD); V_COVER(1); }
#endif
#endif
#if defined(V_UNIT_puts) || defined(V_UNIT_tab)
static unsigned puts_, scrolled; static u16 last_;
// contracts of con_put and con_scroll (units put, scroll)
#ifdef V_STUB_con_put
static u16 expect_(unsigned k);
void con_put(struct console *c, u16 w){ V_CHECK("callee precondition: the cursor is on the grid", c == &C && c->x < 32 && c->y < 24); V_CHECK("the next character of the text", w == expect_(puts_));
	V_CHECK("each character goes right behind the one before", (c->y + scrolled) * 32 + c->x == in.y * 32 + in.x + puts_); puts_++; unsigned q = in.y * 32 + in.x + puts_; 
	unsigned r = (q - 1) / 32; V_CHECK("scrolled only when the cursor passed the bottom", scrolled == (r > 23 ? r - 23 : 0)); scrolled = r > 23 ? r - 23 : 0; c->x = q % 32; c->y = q / 32 - scrolled; }
#endif
#ifdef V_STUB_con_scroll
void con_scroll(struct console *c){ if (c->y >= 24) { scrolled += c->y - 23; c->y = 23; } }
#endif
#endif
#ifdef V_UNIT_puts
#ifdef V_STUB_con_put
static u16 expect_(unsigned k){ return in.s.t[k & 255]; }
#endif
#ifdef V_STUB_str_len
static u8 v_s;
u32 str_len(const void *s){ V_CHECK("callee precondition: the text", s == &v_s); return in.len; }
u16 str_at_wide(const void *s, const u16 i){ V_CHECK("callee precondition: a character of the text", s == &v_s && i < in.len); return in.s.t[i]; }
void h_puts(void){ V_IN();
#ifdef KY
	in.y = KY;
#endif
	V_ASSUME(in.x < 32 && (in.y < 24 || (in.y == 24 && in.x == 0))); C.x = in.x; C.y = in.y; C.col = in.col; con_puts(&C, &v_s);
	V_CHECK("all characters are written", puts_ == in.len); V_CHECK("the cursor is behind the text", (C.y + scrolled) * 32 + C.x == in.y * 32 + in.x + in.len && C.x < 32 && (C.y < 24 || (C.y == 24 && !C.x)));
	V_CHECK("no more lines are scrolled than the text needs", !in.len || scrolled == ((in.y * 32 + in.x + in.len - 1) / 32 > 23 ? (in.y * 32 + in.x + in.len - 1) / 32 - 23 : 0)); V_COVER(in.len == 255); V_COVER(in.len == 0); }
#else
// the screen itself, for short texts
static struct string v_t; static u16 v_c[8];
void h_puts(void){ V_IN(); NATIVE(in.x = in.x & 128 ? 31 - in.x % 3 : in.x % 32; in.y = in.y & 128 ? 23 + (in.y & 1) : in.y % 25; if (in.y == 24) in.x = 0; in.len %= 5; in.i %= 24; in.j %= 32;)
	V_ASSUME(in.x < 32 && (in.y < 24 || (in.y == 24 && in.x == 0)) && in.len < 5 && in.i < 24 && in.j < 32); scr(); v_t.type = STRING_WIDE; v_t.ptr.w = v_c; v_t.len = in.len; v_t.uses = 1; for (int i = 0; i < 4; ++i) v_c[i] = in.s.t[i];
	con_puts(&C, &v_t); int p0 = in.y * 32 + in.x, p1 = p0 + in.len, sc = (in.len || in.y < 24) ? 0 : 1; (void)sc;
	int end = C.y * 32 + C.x, d = (p1 - end) / 32, at = (in.i + d) * 32 + in.j;
	V_CHECK("the cursor is behind the text", (p1 - end) % 32 == 0 && d >= 0 && (!in.len || d == ((p1 - 1) / 32 > 23 ? (p1 - 1) / 32 - 23 : 0)) && C.x < 32 && (C.y < 24 || (C.y == 24 && !C.x)));
	V_CHECK("the characters are on the screen", at < p0 || at >= p1 || (C.text[in.i][in.j] == in.s.t[at - p0] && C.color[in.i][in.j] == in.col));
	V_CHECK("nothing else changes", (at >= p0 && at < p1) || at >= 24 * 32 || (C.text[in.i][in.j] == in.sc.t[in.i + d][in.j])); }
#endif
#endif
#ifdef V_UNIT_tab
#ifdef V_STUB_con_put
static u16 expect_(unsigned k){ return to_wide(' '); }
#endif
void h_tab(void){ V_IN(); NATIVE(in.x %= 32; in.y %= 25; if (in.y == 24) in.x = 0; in.ts = in.ts % 16 + 1;) V_ASSUME(in.x < 32 && (in.y < 24 || (in.y == 24 && in.x == 0)) && in.ts >= 1 && in.ts <= 16); C.x = in.x; C.y = in.y; C.tabstep = in.ts; P.exec.error = 0; P.stack.stack_i = 1; P.stack.entry[0].type = STACK_OP; P.stack.entry[0].value.number = OP_COMMA;
	cmd_print(&P); unsigned x = in.x + 1; while (x % 32 && x % in.ts) x++; if (x > 32) x = 32;
	V_CHECK("at the next tab stop", C.x == x % 32 && !P.exec.error && !P.stack.stack_i);
#ifdef V_STUB_con_put
	V_CHECK("the cells between are blank", puts_ == x - in.x);
#endif
	V_COVER(x == 32); V_COVER(x == in.x + 5); }
#endif
#ifdef V_UNIT_print
#ifndef KP
#define KP (in.k % 6)
#endif
static unsigned nr; static struct { int kind; const void *s; fixp n; } ev[8];
#ifdef V_STUB_con_puts
void con_puts(struct console *c, const void *s){ V_CHECK("callee precondition: the console", c == &C); ev[nr].kind = 1; ev[nr++ & 7].s = s; }
void con_putn(struct console *c, fixp n){ V_CHECK("callee precondition: the console", c == &C); ev[nr].kind = 2; ev[nr++ & 7].n = n; }
void con_newline(struct console *c, bool s){ V_CHECK("callee precondition: scrolling", c == &C && s); ev[nr++ & 7].kind = 3; }
void con_scroll(struct console *c){ if (c->y >= 24) c->y = 23; }
#endif
static u8 v_x, v_y; static void *v_sv; static fixp v_nv;
static struct stack_entry num(fixp n){ struct stack_entry e = {VAR_NUMBER, {.number = n}}; if (in.av) { e.type |= VAR_VARIABLE; v_nv = n; e.value.ptr = &v_nv; } return e; }
static struct stack_entry str_(void *s){ struct stack_entry e = {VAR_STRING, {.ptr = s}}; if (in.av) { e.type |= VAR_VARIABLE; v_sv = s; e.value.ptr = &v_sv; } return e; }
static struct stack_entry op(int o){ struct stack_entry e = {STACK_OP, {.number = o}}; return e; }
#ifdef V_STUB_con_puts
void h_print(void){ V_IN(); V_ASSUME(in.x < 24 && in.y < 24); C.x = in.x; C.y = in.y; C.tabstep = 4; P.exec.error = 0; P.stack.stack_i = 0; struct stack_entry *e = P.stack.entry; unsigned n = 0; fixp a = in.a;
	int kinds[5], want = 0;
	switch (KP) {
		case 0: kinds[want++] = 3; break;
		case 1: e[n++] = num(a); kinds[want++] = 2; kinds[want++] = 3; break;
		case 2: e[n++] = str_(&v_x); e[n++] = op(OP_SEMICOLON); kinds[want++] = 1; break;
		case 3: e[n++] = str_(&v_x); e[n++] = op(OP_SEMICOLON); e[n++] = num(a); kinds[want++] = 1; kinds[want++] = 2; kinds[want++] = 3; break;
		case 4: e[n++] = num(a); e[n++] = op(OP_COMMA); e[n++] = op(OP_SEMICOLON); e[n++] = str_(&v_x); kinds[want++] = 2; kinds[want++] = 1; kinds[want++] = 3; break;
		default: e[n++] = str_(&v_x); e[n++] = op(OP_COMMA); kinds[want++] = 1; break;
	}
	P.stack.stack_i = n; cmd_print(&P); V_CHECK("no error", !P.exec.error && !P.stack.stack_i); V_CHECK("every item is written once", nr == (unsigned)want);
	for (int i = 0; i < 4; ++i) if (i < want) V_CHECK("in order, with its value", ev[i].kind == kinds[i] && (kinds[i] != 1 || ev[i].s == &v_x) && (kinds[i] != 2 || ev[i].n == in.a)); V_COVER(in.av); }
#else
void h_print(void){ V_ASSUME(0); }
#endif
#endif
#ifdef V_UNIT_locate
void h_locate(void){ V_IN(); NATIVE(if (in.k & 1) { in.a = (in.a & 0x3ffff) - 8192; in.b = (in.b & 0x3ffff) - 8192; }) C.x = in.x; C.y = in.y; P.exec.error = 0; P.stack.stack_i = 2; P.stack.entry[0].type = P.stack.entry[1].type = VAR_NUMBER; P.stack.entry[0].value.number = in.a; P.stack.entry[1].value.number = in.b;
	cmd_locate(&P); int x = in.a >> 12, y = in.b >> 12; bool ok = x >= 0 && x < 32 && y >= 0 && y < 24;
	V_CHECK("the cursor is where it was told", !ok || (C.x == x && C.y == y && !P.exec.error)); V_CHECK("or stays", ok || (C.x == in.x && C.y == in.y)); V_COVER(ok); V_COVER(!ok); }
#endif
#ifdef V_UNIT_color
#ifndef KC
#define KC (in.k & 1)
#endif
void h_color(void){ V_IN(); NATIVE(if (in.k & 2) { in.a &= 0x1ffff; in.b &= 0x1ffff; }) C.col = in.col; P.exec.error = 0; P.stack.stack_i = 1 + KC; P.stack.entry[0].type = P.stack.entry[1].type = VAR_NUMBER; P.stack.entry[0].value.number = in.a; P.stack.entry[1].value.number = in.b;
	cmd_color(&P); int x = in.a >> 12, y = in.b >> 12; bool ok = x >= 0 && x < 16 && (!KC || (y >= 0 && y < 16));
	V_CHECK("the colours are set", !ok || (!P.exec.error && (C.col & 15) == x && C.col >> 4 == (KC ? y : in.col >> 4))); V_CHECK("or refused", ok || (P.exec.error == ERR_OUT_OF_RANGE && C.col == in.col)); V_COVER(ok); V_COVER(!ok); }
#endif
#ifdef V_UNIT_cls
static struct console v_pc;
void h_cls(void){ V_IN(); NATIVE(in.i %= 24; in.j %= 32;) V_ASSUME(in.i < 24 && in.j < 32); P.panel.text = &v_pc; C.x = in.x; C.y = in.y; C.col = in.col; C.text[in.i][in.j] = in.w; C.color[in.i][in.j] = in.k; C.tabstep = in.ts; P.exec.error = 0; C.sys_tabstep = in.tab;
	cmd_cls(&P); V_CHECK("every cell is blank in the current colour", C.text[in.i][in.j] == 0 && C.color[in.i][in.j] == in.col); V_CHECK("the cursor is at the top left", !C.x && !C.y); V_CHECK("nothing else", C.col == in.col && C.tabstep == in.ts && C.sys_tabstep == in.tab && !P.exec.error); V_COVER(1); }
#endif
#ifdef V_UNIT_chkchr
void h_chkchr(void){ V_IN(); NATIVE(in.w = to_wide(in.w); if (in.k & 1) { in.a = (in.a & 0x3ffff) - 8192; in.b = (in.b & 0x3ffff) - 8192; }) int x = in.a >> 12, y = in.b >> 12; bool ok = x >= 0 && x < 32 && y >= 0 && y < 24; u8 ch = in.k; if (ok) C.text[y][x] = to_wide(ch); P.exec.error = 0; P.stack.stack_i = 2; P.stack.entry[0].type = P.stack.entry[1].type = VAR_NUMBER; P.stack.entry[0].value.number = in.a; P.stack.entry[1].value.number = in.b;
	func_chkchr(&P); V_CHECK("the character there, -1 outside", P.stack.stack_i == 1 && P.stack.entry[0].type == VAR_NUMBER && P.stack.entry[0].value.number >> 12 == (ok ? ch : -1)); V_CHECK("the cell is kept", !ok || C.text[y][x] == to_wide(ch)); V_COVER(ok); V_COVER(!ok); }
#endif
#ifdef V_UNIT_csr
void h_csr(void){ V_IN(); C.x = in.x; C.y = in.y; C.sys_tabstep = in.tab; P.stack.stack_i = 0; sys_csrx(&P); sys_csry(&P); V_CHECK("cursor position", P.stack.stack_i == 2 && P.stack.entry[0].type == VAR_NUMBER && P.stack.entry[0].value.number == in.x << 12 && P.stack.entry[1].value.number == in.y << 12);
	syschk_tabstep(&P); int t = in.tab >> 12; V_CHECK("tab size 1 to 16", C.tabstep == (t < 1 ? 1 : t > 16 ? 16 : t)); V_COVER(t > 20); V_COVER(t == 3); }
#endif
#ifdef V_UNIT_prompt
#ifdef V_STUB_con_put
void con_put(struct console *c, u16 w){ V_CHECK("callee precondition: the cursor is on the grid", c->x < 32 && c->y < 24); c->x++; if (c->x >= 32) { c->x = 0; c->y++; } }
void con_scroll(struct console *c){ if (c->y >= 24) c->y = 23; }
#endif
#ifdef V_STUB_con_puts
void con_puts(struct console *c, const void *s){ c->x = in.i; c->y = in.j; }
#endif
void con_prompt(struct console *con, void *prompt_str); static u8 v_p0[4] = {BC_STRING, 1, 'a', 0};
void h_prompt(void){ V_IN(); NATIVE(in.x %= 32; in.y %= 25; if (in.y == 24) in.x = 0; in.i = in.x; in.j = in.y;) V_ASSUME(in.x < 32 && (in.y < 24 || (in.y == 24 && !in.x)) && in.i < 32 && (in.j < 24 || (in.j == 24 && !in.i))); C.x = in.x; C.y = in.y;
	con_prompt(&C, in.av ? (void*)v_p0 : (void*)0); V_CHECK("at the start of a line on the grid", C.x == 0 && C.y < 24); V_COVER(in.j == 24 && in.av); V_COVER(in.y == 24 && !in.av); }
#endif
#ifdef V_UNIT_input
#ifndef KL
#define KL (in.k % 7)
#endif
#define KI (KL < 3 ? 0 : KL < 5 ? 1 : 2)
#define KQ (KL == 4 || KL == 6 ? 31 : 5)
#define KE (KL == 0 ? 0 : KL == 1 ? 7 : KL == 3 ? 9 : 32)
// 0: one string variable, 1: two string variables, 2: a number and a string variable
static unsigned asked;
#ifdef V_STUB_shared_input
void con_prompt(struct console *c, void *s){ }
void con_reprompt(struct console *c, void *s){ V_CHECK("a well-formed line is accepted", 0); V_ASSUME(0); }
u16 *shared_input(struct ptc *p){ asked++; V_ASSUME(asked < 2); return C.text[C.y]; }
void con_newline(struct console *c, bool s){ }
static struct string v_n[2]; static u8 v_store[2][2 * MAX_STRLEN]; static unsigned given;
struct string *get_new_str(struct strings *s){ u8 k = KI ? given++ & 1 : 0; v_n[k].type = STRING_CHAR; v_n[k].uses = 0; v_n[k].ptr.s = v_store[k]; return &v_n[k]; }
static u8 v_num[34]; static int v_nl;
int64_t u8_to_num(u8 *d, int len){ v_nl = len; for (int i = 0; i < 33; ++i) if (i < len) v_num[i] = d[i]; return in.a; }
void h_input(void){ V_IN(); in.y = 23; static struct string *s0, *s1; static fixp n0; s0 = s1 = 0; n0 = 7; C.y = in.y; P.exec.error = 0;
	// a first part in front of the comma, and any text after it
	int c0 = KI ? KQ : 32, end = KE; for (int i = 0; i < 32; ++i) C.text[in.y][i] = i >= end ? 0 : KI && i < KQ ? to_wide(KI == 2 ? '0' + i % 10 : 'A' + i) : KI && i == KQ ? to_wide(',') : to_wide('a' + i % 26);
	P.stack.stack_i = 1 + (KI != 0); if (KI == 2) { P.stack.entry[0].type = VAR_NUMBER | VAR_VARIABLE; P.stack.entry[0].value.ptr = &n0; } else { P.stack.entry[0].type = VAR_STRING | VAR_VARIABLE; P.stack.entry[0].value.ptr = &s0; } P.stack.entry[1].type = VAR_STRING | VAR_VARIABLE; P.stack.entry[1].value.ptr = &s1;
	u16 *L = C.text[in.y]; int e0 = KI ? c0 : end; if (KI == 2) V_ASSUME(c0 > 0);
	cmd_input(&P); V_CHECK("no error", !P.exec.error && asked == 1);
	if (KI == 2) V_CHECK("the digits are the number", n0 == in.a && v_nl == c0); 
	else { V_CHECK("the first text", s0 && s0->len == e0 && s0->uses == 1); V_CHECK("its characters", in.i >= e0 || str_at_wide(s0, in.i) == L[in.i & 31]); }
	if (KI && end > c0) { V_CHECK("the second text", s1 && s1->len == end - c0 - 1 && s1->uses == 1); V_CHECK("its characters", in.i >= end - c0 - 1 || str_at_wide(s1, in.i) == L[(c0 + 1 + in.i) & 31]); }
	V_COVER(1); }
#else
void h_input(void){ V_ASSUME(0); }
#endif
#endif
