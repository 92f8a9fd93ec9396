/* Shared prelude of the contract harnesses.  Three ways to read the same contracts:
 *   VP_CBMC            real __CPROVER contract clauses, enforced by goto-instrument --dfcc
 *   VP_CBMC + VP_PLAIN the same pre/postconditions as assume/assert around the call
 *   VP_NATIVE          gcc + sanitizers: replay of a counterexample against the real code
 */
#pragma once
#ifdef VP_NATIVE
#define _GNU_SOURCE 1
#endif
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <stdio.h>

#include "config.h"
#ifdef VP_USERS
#undef MAX_USERS
#define MAX_USERS VP_USERS
#endif
#ifdef VP_GROUPS
#undef MAX_GROUPS
#define MAX_GROUPS VP_GROUPS
#endif

/* shorter texts in the user and group tables (a stated bound of the units that use it) */
#ifdef VP_SMALL
#undef MAX_NODELEN
#define MAX_NODELEN 6
#undef MAX_IDLEN
#define MAX_IDLEN 4
#undef MAX_PASSWDLEN
#define MAX_PASSWDLEN 3
#undef MAX_REALLEN
#define MAX_REALLEN 3
#undef MAX_AWAY_LEN
#define MAX_AWAY_LEN 6
#undef MAX_TOPICLEN
#define MAX_TOPICLEN 6
#endif

#define VP_STR2(x) #x
#define VP_STR(x) VP_STR2(x)

#ifdef VP_NATIVE
#include <unistd.h>
#define REQUIRES(...)
#define ENSURES(...)
#define ASSIGNS(...)
#define FREES(...)
#define RV 0
#define ASSUME(c) do { if (!(c)) { fprintf(stderr, "infeasible: %s\n", #c); _exit(77); } } while (0)
#define PRE(c) ASSUME(c)
#define CHECK(c, msg) do { if (!(c)) { fprintf(stderr, "CONTRACT VIOLATED: %s: %s (%s:%d)\n", msg, #c, __FILE__, __LINE__); _exit(65); } } while (0)
#define POST(c) CHECK(c, "postcondition")
#define REACH(c, name) ((void)0)
#define HARNESS_IN() (IN = VP_REPLAY)
#define VP_MAIN int main(void) { harness(); return 0; }
#else
#define REQUIRES(...) __CPROVER_requires(__VA_ARGS__)
#define ENSURES(...) __CPROVER_ensures(__VA_ARGS__)
#define ASSIGNS(...) __CPROVER_assigns(__VA_ARGS__)
#define FREES(...) __CPROVER_frees(__VA_ARGS__)
#define RV __CPROVER_return_value
#define ASSUME(c) __CPROVER_assume(c)
#define CHECK(c, msg) __CPROVER_assert(c, msg)
#ifdef VP_PLAIN
#define PRE(c) __CPROVER_assume(c)
#define POST(c) __CPROVER_assert(c, "postcondition " #c)
#else
#define PRE(c) ((void)0)
#define POST(c) ((void)0)
#endif
#define REACH(c, name) __CPROVER_assert(!(c), "vp-reach " name)
#define HARNESS_IN() (IN = nondet_vp_in())
#define VP_MAIN
#endif

