// Spec function: GCD(a,b) is the greatest common divisor of |a| and |b| (Euclid's recursion; GCD(a,0)=|a|)
#pragma once
#include "vf.hpp"
#ifdef VF_SYM
extern "C" long vf_GCD(long a, long b) noexcept;
extern "C" void vf_same_ratio(long n1, long d1, long n2, long d2) noexcept; // lemma: equal fractions in lowest terms are identical
namespace vf {
inline long GCD(long a, long b) { return vf_GCD(a, b); }
inline void same_ratio(long n1, long d1, long n2, long d2) { vf_same_ratio(n1, d1, n2, d2); }
}
#else
namespace vf {
inline long GCD(long a, long b) { a = a < 0 ? -a : a; b = b < 0 ? -b : b; while (b) { long m = a % b; a = b; b = m; } return a; }
inline void same_ratio(long, long, long, long) {}
}
#endif
namespace vf { inline long mag(long a) { return vf::ite(a >= 0, a, -a); } }
