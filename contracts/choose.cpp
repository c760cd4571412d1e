// Weighted random choice: the uniform variate decides, each index on an interval as long as its weight.
//@mode real
#include "vf.hpp"
#include <bwsl/MathUtils.hpp>
#include <random>
// A generator whose uniform variates in [0,1) are arbitrary; natively a real one.
struct Gen
{
#ifdef VF_SYM
  using result_type = unsigned long;
  long pos = 0;
  unsigned long operator()() { vf::check(false, "pre: generators are used through a distribution"); return 0; }
  static constexpr unsigned long min() { return 0; }
  static constexpr unsigned long max() { return ~0UL; }
#else
  using result_type = std::mt19937_64::result_type;
  std::mt19937_64 e;
  long pos = 0;
  result_type operator()() { pos++; return e(); }
  static constexpr result_type min() { return std::mt19937_64::min(); }
  static constexpr result_type max() { return std::mt19937_64::max(); }
#endif
};
static double U0; // the first variate
#ifdef VF_SYM
static double variate(Gen& g)
{
  vf::check(g.pos == 0, "one variate decides");
  g.pos++;
  return U0;
}
struct Params { double a, b; };
// std::uniform_real_distribution: uniform on [a,b)
extern "C" double stub_uniform(Params* d, Gen& g)
{
  vf::check(d->a <= d->b, "pre: std::uniform_real_distribution needs a range");
  double u = variate(g), w = d->b - d->a, r = d->a + w * u;
  vf::assume((r >= d->a) & ((r < d->b) | (w == 0)));
  return r;
}
extern "C" const double* stub_ub(const double* f, const double* l, double const& v)
{
  long n = l - f;
  vf::check(n >= 0, "pre: std::upper_bound needs a valid range");
  if (n > 0) vf::check_all((size_t)n - 1, "pre: std::upper_bound needs a sorted range", [&](size_t k) { return f[k] <= f[k + 1]; });
  long r = vf::any<long>("r", 0, vf::B62);
  vf::assume(r <= n);
  vf::assume_all((size_t)n, [&](size_t k) { return ((long)k < r) == !(v < f[k]); });
  vf::assume(r == 0 || !(v < f[r - 1]));
  vf::assume(r == n || v < f[r]);
  return f + r;
}
//@stub std::uniform_real_distribution<double>::operator\(\)<Gen>\(Gen&\) => stub_uniform
//@stub std::upper_bound<__gnu_cxx::__normal_iterator<(const )?double( const)?\*, .*double>\( => stub_ub
#endif
static Gen any_gen()
{
  Gen g;
#ifdef VF_SYM
  U0 = vf::any<double>("u", 0., 1.);
  vf::assume(U0 < 1);
#else
  g.e.seed((unsigned long)vf::any<long>("seed", 0, 1L << 40));
#endif
  return g;
}
static double draw(Gen& g, double a, double b) { return std::uniform_real_distribution<double>(a, b)(g); }
using D = vf::Tup<double>;
VF_HARNESS(weights)
{
  auto n = vf::any<size_t>("n", 1, vf::symbolic ? 1UL << 40 : 8);
  std::vector<double> p;
  vf::fill_nice(p, "p", n, 0.);
  auto p0 = p;
  auto S = vf::rec<double, 1>(D{ 0. }, [&](D s, long k) { return D{ s[0] + p[k] }; });
  vf::induct((long)n, "lemma: partial sums are not negative", [&](long k) { return S(k) >= 0; });
  vf::assume(S((long)n) > 0);
  vf::hint([&](long k) { return S(k); });
  vf::hint([&](long k) { return S(k + 1); });
  auto g = any_gen(), h = g;
  auto i = bwsl::choose_between(p, g);
  double r = draw(h, 0., S((long)n));
  vf::check(i < n, "an existing index is chosen");
  vf::check((S((long)i) <= r) & (r < S((long)i + 1)), "the index whose interval of partial sums holds the variate");
  vf::check(p[i] > 0, "an index of weight zero is never chosen");
  vf::check(g.pos == h.pos, "one variate is drawn");
  vf::check_all(n, "weights untouched", [&](size_t k) { return p[k] == p0[k]; });
}
VF_HARNESS(partial_sums)
{
  auto n = vf::any<size_t>("n", 1, vf::symbolic ? 1UL << 40 : 8);
  std::vector<double> c;
  vf::fill_nice(c, "c", n, 0.);
  if (!vf::symbolic) for (size_t k = 1; k < n; k++) c[k] += c[k - 1];
  vf::assume_all(n - 1, [&](size_t k) { return c[k] <= c[k + 1]; });
  vf::assume(c[n - 1] > 0);
  auto g = any_gen(), h = g;
  auto i = bwsl::choose_between_psums(c, g);
  double r = draw(h, 0., c[n - 1]);
  vf::check(i < n, "an existing index is chosen");
  vf::check(r < c[i] && (i == 0 || c[i - 1] <= r), "the index whose interval of partial sums holds the variate");
  vf::check(g.pos == h.pos, "one variate is drawn");
}
VF_HARNESS(probability)
{
  auto p = vf::any<double>("p", -2., 2.);
  auto g = any_gen(), h = g;
  bool b = bwsl::choose_with_probability(p, g);
  double r = draw(h, 0., 1.);
  vf::check(b == (r < p), "true exactly when the variate is below the probability");
  vf::check(p > 0 || !b, "an impossible event never happens");
  vf::check(p < 1 || b, "a certain event always happens");
  vf::check(g.pos == h.pos, "one variate is drawn");
}
