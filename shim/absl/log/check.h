// Stand-in for absl/log/check.h: a failed CHECK prints the expression and aborts.
#ifndef VH_ABSL_LOG_CHECK_H_
#define VH_ABSL_LOG_CHECK_H_

#include <cstring>

#include "absl/log/log.h"

#define VH_CHECK_IMPL(cond, text)   \
  (cond) ? (void)0                  \
         : ::vh_log::Voidify() &    \
               (VH_LOG_STREAM_FATAL << "Check failed: " text " ")

#define VH_CHECK_OP(op, a, b) VH_CHECK_IMPL(((a)op(b)), #a " " #op " " #b)

#define CHECK(cond) VH_CHECK_IMPL((cond), #cond)
#define QCHECK(cond) CHECK(cond)
#define CHECK_EQ(a, b) VH_CHECK_OP(==, a, b)
#define CHECK_NE(a, b) VH_CHECK_OP(!=, a, b)
#define CHECK_LT(a, b) VH_CHECK_OP(<, a, b)
#define CHECK_LE(a, b) VH_CHECK_OP(<=, a, b)
#define CHECK_GT(a, b) VH_CHECK_OP(>, a, b)
#define CHECK_GE(a, b) VH_CHECK_OP(>=, a, b)
#define CHECK_STREQ(a, b) VH_CHECK_IMPL(std::strcmp(a, b) == 0, #a " == " #b)
#define PCHECK(cond) CHECK(cond)

#ifdef NDEBUG
#define VH_DCHECK_IMPL(cond) true || (cond) ? (void)0 : ::vh_log::Voidify() & VH_LOG_STREAM_FATAL
#else
#define VH_DCHECK_IMPL(cond) CHECK(cond)
#endif
#define DCHECK(cond) VH_DCHECK_IMPL((cond))
#define DCHECK_EQ(a, b) VH_DCHECK_IMPL(((a) == (b)))
#define DCHECK_NE(a, b) VH_DCHECK_IMPL(((a) != (b)))
#define DCHECK_LT(a, b) VH_DCHECK_IMPL(((a) < (b)))
#define DCHECK_LE(a, b) VH_DCHECK_IMPL(((a) <= (b)))
#define DCHECK_GT(a, b) VH_DCHECK_IMPL(((a) > (b)))
#define DCHECK_GE(a, b) VH_DCHECK_IMPL(((a) >= (b)))

#endif
