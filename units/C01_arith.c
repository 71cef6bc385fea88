// C01: fixed-point arithmetic is exact or reports an error
#include "stk.h"
#include "operators.h"
#include "mathptc.h"
//@unit add   enforce=op_add   never=str_concat,get_new_str,str_len :: x+y exact or Overflow
//@unit addd  enforce=op_add   never=str_concat,get_new_str,str_len defs=-DANYDEPTH tier=thorough target=op_add :: x+y, at any stack depth
//@unit negd  enforce=op_negate defs=-DANYDEPTH :: -x, at any stack depth
//@unit sub   enforce=op_sub   :: x-y exact or Overflow
//@unit mult  enforce=op_mult  never=str_concat,get_new_str,str_len fb=-DSMALL :: x*y rounded down to 1/4096 or Overflow
//@unit div   enforce=op_div solver=z3 cases=VX,VY flags=--signed-overflow-check fb=-DSMALL :: x/y truncated to 1/4096, Division by zero or Overflow
//@unit mod   enforce=op_modulo solver=z3 cases=VX,VY flags=--signed-overflow-check fb=-DSMALL :: remainder with the sign of x, or Division by zero
//@unit neg   enforce=op_negate :: -x
//@unit absn  enforce=func_abs :: ABS
//@unit sgn   enforce=func_sgn :: SGN
//@unit flr   enforce=func_floor :: FLOOR
//@unit rnd   enforce=func_rnd fb=-DSMALL :: RND(n) is an integer strictly between n and -1/1 exclusive of n
//@unit rad   enforce=func_rad solver=z3 fb=-DSMALL :: RAD
//@unit deg   enforce=func_deg solver=z3 fb=-DSMALL :: DEG
//@unit pi    enforce=func_pi  :: PI
V_INPUT(fixp x, y; bool xv, yv; u8 base; u32 err; );
#ifdef ANYDEPTH
#define BASE in.base
#else
#define BASE 2
#endif

static struct ptc *setup(int n, bool xv, bool yv){
	struct ptc *p = &P;
	V_ASSUME(in.base <= VALUE_STACK_SIZE - 2);
#ifdef SMALL
	V_ASSUME(((in.x >= -255 && in.x <= 255) || in.x == INT_MIN || in.x == INT_MAX) && ((in.y >= -255 && in.y <= 255) || in.y == INT_MIN || in.y == INT_MAX));
#endif
	p->exec.error = ERR_NONE;
	p->exec.argcount = n;
	p->stack.stack_i = BASE;
	if (n > 0) v_push_num(p, in.x, xv, 0);
	if (n > 1) v_push_num(p, in.y, yv, 1);
	return p;
}
// operands are literals or variables: 4 cases, in each the code's operands are the same terms as the specification's
#define CASE(f, n, a, b) do { struct ptc *p = setup(n, a, b); V_CALL(f, (p)); } while (0)
#ifdef ANYDEPTH
#define H1(name, f, cov) void h_##name(void){ V_IN(); struct ptc *p = &P; CASE(f, 1, in.xv, 0); cov }
#define H2(name, f, cov) void h_##name(void){ V_IN(); struct ptc *p = &P; CASE(f, 2, in.xv, in.yv); cov }
#elif defined(VX)
#define H1(name, f, cov) void h_##name(void){ V_IN(); struct ptc *p = &P; CASE(f, 1, VX, 0); cov }
#define H2(name, f, cov) void h_##name(void){ V_IN(); struct ptc *p = &P; CASE(f, 2, VX, VY); cov }
#else
#define H1(name, f, cov) void h_##name(void){ V_IN(); struct ptc *p = &P; if (in.xv) CASE(f, 1, 1, 0); else CASE(f, 1, 0, 0); cov }
#define H2(name, f, cov) void h_##name(void){ V_IN(); struct ptc *p = &P; \
	if (in.xv) { if (in.yv) CASE(f, 2, 1, 1); else CASE(f, 2, 1, 0); } else if (in.yv) CASE(f, 2, 0, 1); else CASE(f, 2, 0, 0); cov }
#endif
#define FITS(z) ((z) >= INT_MIN && (z) <= INT_MAX)
#define OKRES(z) (p->exec.error == ERR_NONE && v_result_num(p, BASE, (z)))
#define ERRS(code) (p->exec.error == (code))
#define X ((int64_t)in.x)
#define Y ((int64_t)in.y)
#define PREN(n) (p->stack.stack_i == BASE + (n) && p->exec.error == ERR_NONE)

#define C_op_add(REQ, ASG, ENS) REQ(PREN(2)) ASG(STACK_FRAME(BASE)) \
	ENS("sum exact when representable", !FITS(X + Y) || OKRES(X + Y)) \
	ENS("Overflow when the sum is not representable", FITS(X + Y) || ERRS(ERR_OVERFLOW))
V_CONTRACT(void, op_add, (struct ptc *p))
H2(add, op_add, V_COVER(p->exec.error == 0); V_COVER(p->exec.error);)
H2(addd, op_add, V_COVER(p->exec.error == 0); V_COVER(p->exec.error);)

#define C_op_sub(REQ, ASG, ENS) REQ(PREN(2)) ASG(STACK_FRAME(BASE)) \
	ENS("difference exact when representable", !FITS(X - Y) || OKRES(X - Y)) \
	ENS("Overflow when the difference is not representable", FITS(X - Y) || ERRS(ERR_OVERFLOW))
V_CONTRACT(void, op_sub, (struct ptc *p))
H2(sub, op_sub, V_COVER(p->exec.error == 0); V_COVER(p->exec.error);)

#define PROD ((X * Y) >> 12)
#define C_op_mult(REQ, ASG, ENS) REQ(PREN(2)) ASG(STACK_FRAME(BASE)) \
	ENS("product rounded down to 1/4096 when representable", !FITS(PROD) || OKRES(PROD)) \
	ENS("Overflow when the product is not representable", FITS(PROD) || ERRS(ERR_OVERFLOW))
V_CONTRACT(void, op_mult, (struct ptc *p))
H2(mult, op_mult, V_COVER(p->exec.error == 0); V_COVER(p->exec.error);)

// (only evaluated where y != 0)
#define QUOT (((dfixp)in.x << FIXPOINT) / in.y)
#define C_op_div(REQ, ASG, ENS) REQ(PREN(2)) ASG(STACK_FRAME(BASE)) \
	ENS("quotient truncated to 1/4096 when representable", Y == 0 || !FITS(QUOT) || OKRES(QUOT)) \
	ENS("Overflow when the quotient is not representable", Y == 0 || FITS(QUOT) || ERRS(ERR_OVERFLOW)) \
	ENS("Division by zero", Y != 0 || ERRS(ERR_DIVIDE_BY_ZERO))
V_CONTRACT(void, op_div, (struct ptc *p))
H2(div, op_div, V_COVER(p->exec.error == 0); V_COVER(p->exec.error == ERR_OVERFLOW);)

#define REM (X % in.y)
#define C_op_modulo(REQ, ASG, ENS) REQ(PREN(2)) ASG(STACK_FRAME(BASE)) \
	ENS("remainder of truncated division", Y == 0 || OKRES(REM)) \
	ENS("Division by zero", Y != 0 || ERRS(ERR_DIVIDE_BY_ZERO))
V_CONTRACT(void, op_modulo, (struct ptc *p))
H2(mod, op_modulo, V_COVER(p->exec.error == 0); V_COVER(p->exec.error);)

// the most negative number has no negation; it is left as it is
#define NEG(v) ((v) == INT_MIN ? (int64_t)INT_MIN : -(v))
#define C_op_negate(REQ, ASG, ENS) REQ(PREN(1)) ASG(STACK_FRAME(BASE)) ENS("-x", OKRES(NEG(X)))
V_CONTRACT(void, op_negate, (struct ptc *p))
H1(neg, op_negate, V_COVER(p->exec.error == 0);)
H1(negd, op_negate, V_COVER(p->exec.error == 0);)

#define C_func_abs(REQ, ASG, ENS) REQ(PREN(1)) ASG(STACK_FRAME(BASE)) ENS("ABS", OKRES(X < 0 ? NEG(X) : X))
V_CONTRACT(void, func_abs, (struct ptc *p))
H1(absn, func_abs, V_COVER(in.x < 0);)

#define C_func_sgn(REQ, ASG, ENS) REQ(PREN(1)) ASG(STACK_FRAME(BASE)) ENS("SGN", OKRES(X < 0 ? -4096 : X > 0 ? 4096 : 0))
V_CONTRACT(void, func_sgn, (struct ptc *p))
H1(sgn, func_sgn, V_COVER(in.x < 0);)

static inline int64_t floor_(int64_t x){ return x - ((x % 4096) + 4096) % 4096; }
#define C_func_floor(REQ, ASG, ENS) REQ(PREN(1)) ASG(STACK_FRAME(BASE)) ENS("greatest integer not above x", OKRES(floor_(X)))
V_CONTRACT(void, func_floor, (struct ptc *p))
H1(flr, func_floor, V_COVER(in.x < 0 && in.x % 4096);)

#define RES (p->stack.entry[BASE].value.number)
#define N (floor_(X) / 4096)
#define C_func_rnd(REQ, ASG, ENS) REQ(PREN(1)) ASG(STACK_FRAME(BASE)) \
	ENS("one number, no error", p->exec.error == ERR_NONE && p->stack.stack_i == BASE + 1 && p->stack.entry[BASE].type == VAR_NUMBER) \
	ENS("whole number", RES % 4096 == 0) \
	ENS("0 <= RND(n) < n for n > 0", N <= 0 || (RES >= 0 && RES / 4096 < N)) \
	ENS("n < RND(n) <= 0 for n < 0", N >= 0 || (RES <= 0 && RES / 4096 > N)) \
	ENS("RND(0) is 0", N != 0 || RES == 0)
V_CONTRACT(void, func_rnd, (struct ptc *p))
H1(rnd, func_rnd, V_COVER(N > 5 && RES > 4096); V_COVER(N < -5 && RES < 0);)

#define C_func_rad(REQ, ASG, ENS) REQ(PREN(1)) ASG(STACK_FRAME(BASE)) ENS("x*PI/180, PI=12867/4096, truncated", OKRES(X * 12867 / (180 * 4096)))
V_CONTRACT(void, func_rad, (struct ptc *p))
H1(rad, func_rad, V_COVER(in.x < 0);)

#define DEGV (X * (180 * 4096) / 12867)
#define C_func_deg(REQ, ASG, ENS) REQ(PREN(1)) ASG(STACK_FRAME(BASE)) ENS("x*180/PI truncated when representable", !FITS(DEGV) || OKRES(DEGV))
V_CONTRACT(void, func_deg, (struct ptc *p))
H1(deg, func_deg, V_COVER(in.x < 0);)

#define C_func_pi(REQ, ASG, ENS) REQ(PREN(0)) ASG(STACK_FRAME(BASE)) ENS("PI is 12867/4096", OKRES(12867))
V_CONTRACT(void, func_pi, (struct ptc *p))
void h_pi(void){ V_IN(); struct ptc *p = setup(0, 0, 0); V_CALL(func_pi, (p));  V_COVER(1); }
