// Rational arithmetic: canonical results, exact values, true order
//@mode real
#include "rational_common.hpp"
//@stub ^(?:[^(]*\s)?bwsl::get_gcd<long>\( => stub_gcd_long
//@stub ^(?:[^(]*\s)?bwsl::get_gcd<int>\( => stub_gcd_int
template<class T> static void construct()
{
  auto hi = std::numeric_limits<T>::max();
  T n = vf::any<T>("n", -hi, hi), d = vf::any<T>("d", -hi, hi);
  vf::assume(d != 0);
  is(RationalNum<T>(n, d), n, d);
  RationalNum<T> z;
  is(z, 0, 1);
}
VF_HARNESS(construct_long) { construct<long>(); }
VF_HARNESS(construct_int) { construct<int>(); }

// the four operations between two rationals, and with an integer on either side
#define OPS(T, S)                                                                                              \
  VF_HARNESS(add_##S) { auto a = any_rational<T>("an", "ad"), b = any_rational<T>("bn", "bd");                 \
    long p = a.GetNum(), q = a.GetDen(), r = b.GetNum(), s = b.GetDen(); is(a + b, p * s + r * q, q * s); }    \
  VF_HARNESS(sub_##S) { auto a = any_rational<T>("an", "ad"), b = any_rational<T>("bn", "bd");                 \
    long p = a.GetNum(), q = a.GetDen(), r = b.GetNum(), s = b.GetDen(); is(a - b, p * s - r * q, q * s); }    \
  VF_HARNESS(mul_##S) { auto a = any_rational<T>("an", "ad"), b = any_rational<T>("bn", "bd");                 \
    long p = a.GetNum(), q = a.GetDen(), r = b.GetNum(), s = b.GetDen(); is(a * b, p * r, q * s); }            \
  VF_HARNESS(div_##S) { auto a = any_rational<T>("an", "ad"), b = any_rational<T>("bn", "bd");                 \
    long p = a.GetNum(), q = a.GetDen(), r = b.GetNum(), s = b.GetDen(); vf::assume(r != 0); is(a / b, p * s, q * r); } \
  VF_HARNESS(right_add_##S) { auto a = any_rational<T>("an", "ad"); T k = vf::any<T>("k", -LIM<T>, LIM<T>); \
    long p = a.GetNum(), q = a.GetDen(); is(a + k, p + k * q, q); } \
  VF_HARNESS(right_sub_##S) { auto a = any_rational<T>("an", "ad"); T k = vf::any<T>("k", -LIM<T>, LIM<T>); \
    long p = a.GetNum(), q = a.GetDen(); is(a - k, p - k * q, q); } \
  VF_HARNESS(right_mul_##S) { auto a = any_rational<T>("an", "ad"); T k = vf::any<T>("k", -LIM<T>, LIM<T>); \
    long p = a.GetNum(), q = a.GetDen(); is(a * k, p * k, q); } \
  VF_HARNESS(right_div_##S) { auto a = any_rational<T>("an", "ad"); T k = vf::any<T>("k", -LIM<T>, LIM<T>); \
    long p = a.GetNum(), q = a.GetDen(); vf::assume(k != 0); is(a / k, p, q * k); } \
  VF_HARNESS(left_add_##S) { auto a = any_rational<T>("an", "ad"); T k = vf::any<T>("k", -LIM<T>, LIM<T>); \
    long p = a.GetNum(), q = a.GetDen(); is(k + a, p + k * q, q); } \
  VF_HARNESS(left_sub_##S) { auto a = any_rational<T>("an", "ad"); T k = vf::any<T>("k", -LIM<T>, LIM<T>); \
    long p = a.GetNum(), q = a.GetDen(); is(k - a, k * q - p, q); } \
  VF_HARNESS(left_mul_##S) { auto a = any_rational<T>("an", "ad"); T k = vf::any<T>("k", -LIM<T>, LIM<T>); \
    long p = a.GetNum(), q = a.GetDen(); is(k * a, p * k, q); } \
  VF_HARNESS(left_div_##S) { auto a = any_rational<T>("an", "ad"); T k = vf::any<T>("k", -LIM<T>, LIM<T>); \
    long p = a.GetNum(), q = a.GetDen(); vf::assume(p != 0); is(k / a, k * q, p); } \
  VF_HARNESS(convert_##S) { auto a = any_rational<T>("an", "ad"); long p = a.GetNum(), q = a.GetDen();         \
    vf::check(a.IsInt() == (q == 1), "integer exactly when the denominator is one");                           \
    vf::check(vf::eqr((double)a * (double)q, (double)p), "conversion to double");                              \
    long t = (T)a, m = p - t * q;                                                                              \
    vf::check((vf::mag(m) < q) & ((m == 0) | ((m > 0) == (p > 0))), "conversion to an integer truncates towards zero"); \
    auto b = a; a = RationalNum<T>(); vf::check((b.GetNum() == p) & (b.GetDen() == q) & (a.GetNum() == 0) & (a.GetDen() == 1), "copies are independent"); } \
  VF_HARNESS(order_##S) { auto a = any_rational<T>("an", "ad"), b = any_rational<T>("bn", "bd");               \
    if (!vf::symbolic && vf::any<bool>("same")) b = a;                                                         \
    long p = a.GetNum(), q = a.GetDen(), r = b.GetNum(), s = b.GetDen(); long x = p * s, y = r * q;            \
    vf::check((a < b) == (x < y), "less"); vf::check((a > b) == (x > y), "greater");                           \
    vf::check((a <= b) == (x <= y), "at most"); vf::check((a >= b) == (x >= y), "at least");                   \
    vf::check((a == b) == (x == y), "equal"); vf::check((a != b) == (x != y), "different");                    \
    if (x == y) { vf::same_ratio(p, q, r, s); vf::check((p == r) & (q == s), "equal numbers have equal representations"); } } \
  VF_HARNESS(ordint_##S) { auto a = any_rational<T>("an", "ad"); T k = vf::any<T>("k", -LIM<T>, LIM<T>);       \
    if (!vf::symbolic && vf::any<bool>("same")) k = a.GetNum() / a.GetDen();                                   \
    long x = a.GetNum(), y = k * (long)a.GetDen();                                                             \
    vf::check((a < k) == (x < y), "rational less than integer"); vf::check((a > k) == (x > y), "rational greater than integer"); \
    vf::check((a <= k) == (x <= y), "rational at most integer"); vf::check((a >= k) == (x >= y), "rational at least integer"); \
    vf::check((a == k) == (x == y), "rational equal to integer"); vf::check((a != k) == (x != y), "rational different from integer"); \
    vf::check((k < a) == (y < x), "integer less than rational"); vf::check((k > a) == (y > x), "integer greater than rational"); \
    vf::check((k <= a) == (y <= x), "integer at most rational"); vf::check((k >= a) == (y >= x), "integer at least rational"); \
    vf::check((k == a) == (y == x), "integer equal to rational"); vf::check((k != a) == (y != x), "integer different from rational"); }
OPS(long, long)
OPS(int, int)
