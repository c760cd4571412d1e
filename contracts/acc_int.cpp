// Integer accumulator: sums exact, statistics over mathematical reals.
//@mode real
#include "acc_common.hpp"
using namespace bwsl;
using L = vf::Tup<long>;
static bool eq(double a, double b) { return vf::eqr(a, b, 1e-6); }
// differences of numbers as large as the given one (the native run works with rounded ones)
static bool near(double a, double b, double scale) { return vf::symbolic ? vf::eqr(a, b, 1e-6) : vf::eqr(a, b, 1e-6) || std::abs(a - b) <= 1e-12 * scale; }
// integers whose squares, and whose running sums, fit the sums' type (the precondition of the accumulator)
static std::vector<long> any_ints(const char* nm, const char* len)
{
  auto n = vf::any<size_t>(len, 0, vf::symbolic ? (1L << 58) : 12);
  std::vector<long> v;
  vf::fill_any<long>(v, nm, n, vf::symbolic ? -3000000000L : -1100000000L, vf::symbolic ? 3000000000L : 1100000000L);
  return v;
}
static auto sums(std::vector<long> const& v, long a = 0, long b = 0)
{
  return vf::rec<long, 2>(L{ a, b }, [&](L s, long k) { return L{ s[0] + v[k], s[1] + v[k] * v[k] }; });
}
template<class S> static void bounds(S const& s, long n)
{
  vf::assume_all(n + 1, [&](size_t k) { return (s(0, (long)k) <= vf::B62) & (s(0, (long)k) >= -vf::B62) & (s(1, (long)k) <= vf::B62); });
  vf::induct(n, "lemma: sums of squares", [&](long k) { return s(1, k) >= 0; });
}
template<class S> static void hints(S const& s)
{
  vf::hint([&](long k) { return s(0, k); });
  vf::hint([&](long k) { return s(1, k); });
}
static void result(NaiveInteger const& acc, long s1, long s2, long n)
{
  vf::check(acc.Count() == (unsigned long)n, "count is the number of inputs");
  vf::check(acc.Sum() == s1, "sum of the inputs");
  if (n > 0) vf::check(eq(acc.Mean() * (double)n, (double)s1), "mean times count is the sum of the inputs");
  if (n > 1) {
    double dev = (double)s2 - acc.Mean() * (double)s1;
    vf::check(near(acc.ScaledVariance(), dev, (double)s2), "scaled variance is the sum of squared deviations");
    vf::check(near(acc.Variance(false) * (double)n, dev, (double)s2), "population variance times count");
    vf::check(near(acc.Variance(true) * (double)(n - 1), dev, (double)s2), "sample variance times (count-1)");
    vf::assume(vf::symbolic ? dev >= 0. : dev > 1e-6 + 1e-9 * (double)s2); // a sum of squares
    double sd = acc.StandardDeviation(false), ss = acc.StandardDeviation(true);
    vf::check(vf::ler(0., sd) & near(sd * sd * (double)n, dev, (double)s2), "standard deviation squared is the population variance");
    vf::check(vf::ler(0., ss) & near(ss * ss * (double)(n - 1), dev, (double)s2), "standard deviation squared is the sample variance");
  }
}
VF_HARNESS(integer_stats)
{
  auto v = any_ints("x", "n");
  auto n = (long)v.size();
  auto s = sums(v);
  bounds(s, n);
  hints(s);
  NaiveInteger acc;
  for (size_t i = 0; i < v.size(); i++) acc.Add(v[i]);
  result(acc, s(0, n), s(1, n), n);
}
VF_HARNESS(integer_reset)
{
  auto u = any_ints("z", "l"), v = any_ints("x", "n");
  auto n = (long)v.size(), l = (long)u.size();
  auto su = sums(u), s = sums(v);
  bounds(su, l);
  hints(su);
  NaiveInteger acc;
  for (size_t i = 0; i < u.size(); i++) acc.Add(u[i]);
  acc.Reset();
  vf::check((acc.Count() == 0) & (acc.Sum() == 0), "reset: nothing counted");
  bounds(s, n);
  hints(s);
  for (size_t i = 0; i < v.size(); i++) acc.Add(v[i]);
  result(acc, s(0, n), s(1, n), n);
}
VF_HARNESS(integer_stored)
{
  auto v = any_ints("x", "n"), y = any_ints("y", "m");
  auto n = (long)v.size(), m = (long)y.size();
  auto s = sums(v);
  bounds(s, n);
  hints(s);
  NaiveInteger a, b;
  for (size_t i = 0; i < v.size(); i++) a.Add(v[i]);
  b.Add(7);
  transfer(a, b);
  result(b, s(0, n), s(1, n), n);
  auto s2 = sums(y, s(0, n), s(1, n));
  bounds(s2, m);
  vf::clear_hints();
  hints(s2);
  for (size_t i = 0; i < y.size(); i++) b.Add(y[i]);
  result(b, s2(0, m), s2(1, m), n + m);
}
