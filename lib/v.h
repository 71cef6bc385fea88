#pragma once
// Shared contract vocabulary. One contract text, three readings:
//   V_DFCC   : CBMC code contracts (__CPROVER_requires/assigns/ensures), enforced
//              or substituted at call sites by goto-instrument --dfcc
//   V_PLAIN  : the same clauses as assume/call/assert around the call (used for
//              lemma units, for units dfcc is too slow on, and bounded stand-ins)
//   V_REPLAY : native gcc build; the verifier's counterexample is loaded into `in`
//              and the same clauses are evaluated around the real compiled code
#include "system.h"
#include "ptc.h"
#include "error.h"
#include "vars.h"
#include "strs.h"
#include "stack.h"
#include "arrays.h"
#include <limits.h>
#include <string.h>
#include <stdbool.h>
#include <stdint.h>

#ifdef V_REPLAY
#include <stdio.h>
#include <stdlib.h>
extern int v_bad, v_search;
// steers the native search for a failing input into the precondition; no part of any proof or replay of a counterexample
#define NATIVE(...) if (v_search) { __VA_ARGS__ }
void v_reg(const void *p, size_t n);
void v_snap(const void *p, size_t n);
void v_framecheck(void);
#define V_ASSUME(c) do { if (!(c)) { fprintf(stderr, "REPLAY-PRECONDITION-FALSE: %s\n", #c); exit(77); } } while (0)
#define V_CHECK(msg, c) do { if (!(c)) { fprintf(stderr, "REPLAY-VIOLATED: %s  [%s]\n", msg, #c); v_bad = 1; } } while (0)
#define V_COVER(c) ((void)0)
#define V_IN() ((void)0)
#define V_SAME(p, q, n) ((uintptr_t)(p) - (uintptr_t)(q) < (uintptr_t)(n))
#else
#define NATIVE(...)
#define V_ASSUME(c) __CPROVER_assume(c)
#define V_CHECK(msg, c) __CPROVER_assert((c), "ENS:" msg)
// each must FAIL: proof that the point is reachable under the preconditions
#define V_COVER(c) __CPROVER_assert(!(c), "REACH:" #c)
#define V_IN() (in = nondet_in())
#endif

#define V_INPUT(...) struct v_in { __VA_ARGS__ } in; struct v_in nondet_in(void)

// clause readings
#define VD_REQ(c) __CPROVER_requires(c)
#define VD_ENS(msg, c) __CPROVER_ensures(c)
#define VD_ASG(...) __CPROVER_assigns(__VA_ARGS__)
#define VN_REQ(c)
#define VN_ENS(msg, c)
#define VN_ASG(...)
#define VP_REQ(c) V_ASSUME(c);
#define VP_ENS(msg, c) V_CHECK(msg, c);
#define VR_ASG(...) __VA_ARGS__;

#if defined(V_DFCC)
#define V_CONTRACT(ret, f, args) ret f args C_##f(VD_REQ, VD_ASG, VD_ENS);
#define V_CALL(f, args) f args
#define V_CALLR(type, f, args) type v_ret = f args; (void)v_ret
#define RET __CPROVER_return_value
#define LV(x) x
#define UPTO(p, n) __CPROVER_object_upto(p, n)
#define WHOLE(p, n) __CPROVER_object_whole(p)
#elif defined(V_REPLAY)
#define V_CONTRACT(ret, f, args)
#define V_CALL(f, args) do { C_##f(VP_REQ, VN_ASG, VN_ENS) v_snap(&P, sizeof P); C_##f(VN_REQ, VR_ASG, VN_ENS) f args; v_framecheck(); C_##f(VN_REQ, VN_ASG, VP_ENS) } while (0)
#define V_CALLR(type, f, args) type v_ret; C_##f(VP_REQ, VN_ASG, VN_ENS) v_snap(&P, sizeof P); C_##f(VN_REQ, VR_ASG, VN_ENS) v_ret = f args; v_framecheck(); C_##f(VN_REQ, VN_ASG, VP_ENS)
#define RET v_ret
#define LV(x) v_reg(&(x), sizeof(x))
#define UPTO(p, n) v_reg(p, n)
#define WHOLE(p, n) v_reg(p, n)
#else
#define V_CONTRACT(ret, f, args)
#define V_CALL(f, args) do { C_##f(VP_REQ, VN_ASG, VN_ENS) f args; C_##f(VN_REQ, VN_ASG, VP_ENS) } while (0)
#define V_CALLR(type, f, args) type v_ret; C_##f(VP_REQ, VN_ASG, VN_ENS) v_ret = f args; C_##f(VN_REQ, VN_ASG, VP_ENS)
#define RET v_ret
#define LV(x) x
#define UPTO(p, n) p
#define WHOLE(p, n) p
#endif

static struct ptc P;
