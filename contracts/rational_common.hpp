// Rationals in lowest terms, and the contract of get_gcd.
#pragma once
#include "spec_gcd.hpp"
#include <bwsl/RationalNum.hpp>
using namespace bwsl;
#ifdef VF_SYM
// contract of get_gcd (discharged by gcd.cpp)
extern "C" long stub_gcd_long(long a, long b)
{
  vf::check((a > std::numeric_limits<long>::min()) & (b > std::numeric_limits<long>::min()), "pre: get_gcd");
  long g = vf::any<long>("g", std::numeric_limits<long>::min() + 1);
  vf::assume(vf::mag(g) == vf::GCD(a, b));
  return g;
}
extern "C" int stub_gcd_int(int a, int b)
{
  vf::check((a > std::numeric_limits<int>::min()) & (b > std::numeric_limits<int>::min()), "pre: get_gcd");
  int g = vf::any<int>("g", std::numeric_limits<int>::min() + 1);
  vf::assume(vf::mag((long)g) == vf::GCD(a, b));
  return g;
}
#endif
template<class T> constexpr long LIM = sizeof(T) == 8 ? (1L << 30) : 32767;
// any rational number in lowest terms
template<class T> static RationalNum<T> any_rational(const char* n, const char* d)
{
  T num = vf::any<T>(n, -LIM<T>, LIM<T>), den = vf::any<T>(d, 1, LIM<T>);
  if (!vf::symbolic) { long g = vf::GCD(num, den); num /= g; den /= g; }
  vf::assume(vf::GCD(num, den) == 1);
  RationalNum<T> r(num, den);
  vf::check((r.GetNum() == num) & (r.GetDen() == den), "a fraction in lowest terms is kept as it is");
  return r;
}
// r is num/den in lowest terms
template<class T> static void is(RationalNum<T> const& r, long num, long den)
{
  vf::check(r.GetDen() > 0, "denominator positive");
  vf::check((__int128)r.GetNum() * den == (__int128)r.GetDen() * num, "exact value");
  vf::check(vf::GCD(r.GetNum(), r.GetDen()) == 1, "lowest terms");
}
