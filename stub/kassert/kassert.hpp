// The external/kassert submodule is not checked out; this stub supplies the macros the headers use.
#pragma once
#ifdef KVC_KASSERT
// bounded runs: the assertions written in the code are checked as well
#include <cstdio>
#include <cstdlib>
#define KVC_KASSERT_1(c) ((c) ? (void)0 : (std::printf("FAIL assertion %s:%d: %s\n", __FILE__, __LINE__, #c), std::fflush(stdout), std::_Exit(1)))
#define KVC_KASSERT_2(c, m) KVC_KASSERT_1(c)
#define KVC_KASSERT_3(c, m, l) KVC_KASSERT_1(c)
#define KVC_KASSERT_N(_1, _2, _3, N, ...) N
#define KASSERT(...) KVC_KASSERT_N(__VA_ARGS__, KVC_KASSERT_3, KVC_KASSERT_2, KVC_KASSERT_1)(__VA_ARGS__)
#define KASSERT_ENABLED(...) 1
#define KASSERT_ASSERTION_LEVEL 0
#define ASSERT_ONLY
#else
#define KASSERT(...) ((void)0)
#define KASSERT_ENABLED(...) 0
#define KASSERT_ASSERTION_LEVEL 0
#define ASSERT_ONLY
#endif
namespace kassert {}
namespace assert = kassert;
