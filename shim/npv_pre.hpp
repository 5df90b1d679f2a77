// forced include for both verification builds
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef NPV_VC
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE // std::string's code is verified with its caller
#define _GLIBCXX_EXTERN_TEMPLATE -1
extern "C" void __npv_neso_assert(bool);
// the failing-assertion path terminates the program; the message argument is not evaluated
#define NESOASSERT_FUNCTION(a, b, c, d, e) __npv_neso_assert(static_cast<bool>(b))
#else
namespace npv { void neso_assert_failed(const char *expr, const char *file, int line); }
#define NESOASSERT_FUNCTION(a, b, c, d, e) (static_cast<bool>(b) ? (void)0 : ::npv::neso_assert_failed(a, c, d))
#endif
