// Greatest common divisor
#include "spec_gcd.hpp"
#include <bwsl/MathUtils.hpp>
template<class T> static void gcd()
{
  auto lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
  T a = vf::any<T>("a", lo + (std::is_signed_v<T> ? 1 : 0), hi), b = vf::any<T>("b", lo + (std::is_signed_v<T> ? 1 : 0), hi);
  long d = vf::GCD((long)a, (long)b);
  vf::use(d);
  T g = bwsl::get_gcd(a, b);
  vf::check((a == 0) & (b == 0) ? g == 0 : g != 0, "no common divisor but zero of zero and zero");
  vf::check(vf::mag((long)g) == d, "the greatest common divisor up to sign");
  if (g != 0) vf::check((a % g == 0) & (b % g == 0), "divides both");
}
VF_HARNESS(gcd_long) { gcd<long>(); }
VF_HARNESS(gcd_int) { gcd<int>(); }
