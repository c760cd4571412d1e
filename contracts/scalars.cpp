// Scalar helper functions, and the extremes of containers of reals.
//@mode real
#include "vf.hpp"
#include <bwsl/MathUtils.hpp>
using namespace bwsl;
VF_HARNESS(extremes_f)
{
  auto n = vf::any<size_t>("n", 1, vf::symbolic ? (1L << 58) : 12);
  std::vector<double> v;
  vf::fill_any<double>(v, "x", n);
  double a = bwsl::max(v), b = bwsl::min(v);
  vf::check_all(n, "no element is above the largest or below the smallest", [&](size_t k) { return (v[k] <= a) & (v[k] >= b); });
  vf::check_exists(n, "the largest is one of the elements", [&](size_t k) { return v[k] == a; });
  vf::check_exists(n, "the smallest is one of the elements", [&](size_t k) { return v[k] == b; });
}
VF_HARNESS(extremes_i)
{
  auto n = vf::any<size_t>("n", 1, vf::symbolic ? (1L << 58) : 12);
  std::vector<long> v;
  vf::fill_any<long>(v, "x", n);
  long a = bwsl::max(v), b = bwsl::min(v);
  vf::check_all(n, "no integer is above the largest or below the smallest", [&](size_t k) { return (v[k] <= a) & (v[k] >= b); });
  vf::check_exists(n, "the largest is one of the integers", [&](size_t k) { return v[k] == a; });
  vf::check_exists(n, "the smallest is one of the integers", [&](size_t k) { return v[k] == b; });
}
VF_HARNESS(sign)
{
  auto i = vf::any<long>("i");
  auto j = vf::any<int>("j");
  auto u = vf::any<unsigned long>("u");
  auto x = vf::any<double>("x");
  vf::check(sgn(i) == (i > 0 ? 1 : i < 0 ? -1 : 0), "sign of an integer");
  vf::check(sgn(j) == (j > 0 ? 1 : j < 0 ? -1 : 0), "sign of an int");
  vf::check(sgn(u) == (u > 0 ? 1 : 0), "sign of an unsigned");
  vf::check(sgn(x) == (x > 0 ? 1 : x < 0 ? -1 : 0), "sign of a real");
}
VF_HARNESS(differences)
{
  auto a = vf::any<unsigned long>("a"), b = vf::any<unsigned long>("b");
  unsigned long d = absdiff(a, b);
  vf::check(a >= b ? b + d == a && d <= a : a + d == b && d <= b, "absolute difference of unsigned numbers");
  if (d <= (unsigned long)std::numeric_limits<long>::max()) {
    long s = signeddiff<unsigned long, long>(a, b);
    vf::check(a >= b ? s >= 0 && (unsigned long)s == d : s < 0 && (unsigned long)(-s) == d, "signed difference of unsigned numbers");
  }
  auto i = vf::any<unsigned>("i"), j = vf::any<unsigned>("j");
  vf::check(signeddiff<unsigned, long>(i, j) == (long)i - (long)j, "signed difference of narrow unsigned numbers");
  auto p = vf::any<long>("p", -vf::B62 + 1, vf::B62 - 1), q = vf::any<long>("q", -vf::B62 + 1, vf::B62 - 1);
  vf::check(absdiff(p, q) == (p > q ? p - q : q - p), "absolute difference of integers");
  auto x = vf::any<double>("x", -1e100, 1e100), y = vf::any<double>("y", -1e100, 1e100);
  double z = absdiff(x, y);
  vf::check(z >= 0 && (z == x - y || z == y - x), "absolute difference of reals");
}
VF_HARNESS(powers)
{
  auto i = vf::any<long>("i", -3000000000L, 3000000000L), j = vf::any<long>("j", -2000000L, 2000000L);
  vf::check(square(i) == i * i, "square");
  vf::check(cube(j) == j * j * j, "cube");
  auto x = vf::any<double>("x", -1e100, 1e100);
  vf::check(square(x) == x * x, "square of a real");
  vf::check(cube(x) == x * x * x, "cube of a real");
}
VF_HARNESS(steps)
{
  auto x = vf::any<double>("x");
  vf::check(heaviside(x) == (x >= 0 ? 1. : 0.), "step function");
  vf::check(heaviside2(x) == (x > 0 ? 1. : x < 0 ? 0. : 0.5), "step function with the half-maximum convention");
}
VF_HARNESS(interpolation)
{
  auto a = vf::any<double>("a", -1e3, 1e3), b = vf::any<double>("b", -1e3, 1e3), t = vf::any<double>("t", -1e3, 1e3);
  double l = lerp(a, b, t);
  vf::check(vf::eqr(l, a + t * (b - a)), "linear in the parameter, from the first value to the second");
  vf::check(lerp(a, b, 0.) == a, "the first value at 0");
  vf::check(lerp(a, b, 1.) == b, "the second value at 1");
  if (t >= 0 && t <= 1) vf::check(a <= b ? vf::ler(a, l) && vf::ler(l, b) : vf::ler(b, l) && vf::ler(l, a), "between the values for a parameter between 0 and 1");
  auto i = vf::any<long>("i", -(1L << 40), 1L << 40), j = vf::any<long>("j", 1, 1L << 40);
  double s = lerpi<double, long>(i, j, a, b);
  vf::check(s == lerp(a, b, (double)i / (double)j), "the i-th of j steps");
}
