// Running statistics, over mathematical reals: mean and variance of every sequence.
//@mode real
#include "acc_common.hpp"
using namespace bwsl;
using namespace bwsl::accumulators;
static std::vector<double> any_reals(const char* nm, size_t n)
{
  std::vector<double> v;
  vf::fill_nice(v, nm, n);
  return v;
}
static size_t any_len(const char* nm) { return vf::any<size_t>(nm, 0, vf::symbolic ? (1L << 58) : 12); }
static bool eq(double a, double b) { return vf::eqr(a, b, 1e-6); }

// ------------------------------------------------------------------ unweighted
static auto sums(std::vector<double> const& v, double a = 0., double b = 0.)
{ // 0: sum of the inputs, 1: sum of their squares
  return vf::rec<double, 2>(D{ a, b }, [&](D s, long k) { return D{ s[0] + v[k], s[1] + v[k] * v[k] }; });
}
// auxiliary: running mean and sum of squared deviations, c0 inputs having been seen before
static auto welford(std::vector<double> const& v, double m0 = 0., double d0 = 0., long c0 = 0)
{
  return vf::rec<double, 2>(D{ m0, d0 }, [&v, c0](D s, long k) {
    double m = s[0] + (v[k] - s[0]) / (double)(c0 + k + 1);
    return D{ m, s[1] + (v[k] - s[0]) * (v[k] - m) };
  });
}
template<class S, class W> static void lemma(S const& s, W const& w, long n, long c0 = 0)
{
  vf::induct(n, "lemma: running mean", [&](long k) { return eq(w(0, k) * (double)(c0 + k), s(0, k)); });
  vf::induct(n, "lemma: running squared deviations", [&](long k) { return eq(w(1, k), s(1, k) - w(0, k) * s(0, k)); });
}
template<class W> static void hints(W const& w)
{
  vf::hint([&](long k) { return w(0, k); });
  vf::hint([&](long k) { return w(1, k); });
}
// s1, s2: sum and sum of squares of the n inputs.  The sum of squared deviations from the mean mu is s2 - mu*s1
static void result(KnuthWelfordAccumulator const& acc, double s1, double s2, long n)
{
  vf::check(acc.Count() == (unsigned long)n, "count is the number of inputs");
  vf::check(eq(acc.Sum(), s1), "sum of the inputs");
  if (n > 0) vf::check(eq(acc.Mean() * (double)n, s1), "mean times count is the sum of the inputs");
  if (n > 1) {
    double dev = s2 - acc.Mean() * s1;
    vf::check(eq(acc.ScaledVariance(), dev), "scaled variance is the sum of squared deviations");
    vf::check(eq(acc.Variance(false) * (double)n, dev), "population variance times count");
    vf::check(eq(acc.Variance(true) * (double)(n - 1), dev), "sample variance times (count-1)");
    double sd = acc.StandardDeviation(false), ss = acc.StandardDeviation(true);
    vf::assume(vf::symbolic ? dev >= 0. : dev > 1e-6); // squared deviations; proved non-negative in welford_nonneg
    vf::check(vf::ler(0., sd) & eq(sd * sd * (double)n, dev), "standard deviation squared is the population variance");
    vf::check(vf::ler(0., ss) & eq(ss * ss * (double)(n - 1), dev), "standard deviation squared is the sample variance");
    double ef = acc.Error(false), et = acc.Error(true);
    vf::check(vf::ler(0., ef) & eq(ef * ef * (double)n * (double)n, dev), "error of the mean is the standard deviation over the root of the count");
    vf::check(vf::ler(0., et) & eq(et * et * (double)n * (double)(n - 1), dev), "error of the mean (sample)");
  }
}
VF_HARNESS(welford_stats)
{
  auto v = any_reals("x", any_len("n"));
  auto n = (long)v.size();
  auto s = sums(v);
  auto w = welford(v);
  lemma(s, w, n);
  hints(w);
  KnuthWelfordAccumulator acc;
  for (size_t i = 0; i < v.size(); i++) acc.Add(v[i]);
  result(acc, s(0, n), s(1, n), n);
}
VF_HARNESS(welford_nonneg)
{
  auto v = any_reals("x", any_len("n"));
  auto n = (long)v.size();
  auto w = welford(v);
  vf::hint([&](long k) { return w(0, k); });
  vf::hint([&](long k) { return w(1, k); });
  vf::induct(n, "lemma: squared deviations are never negative", [&](long k) { return vf::ler(0., w(1, k)); });
  KnuthWelfordAccumulator acc;
  for (size_t i = 0; i < v.size(); i++) acc.Add(v[i]);
  if (n > 1) {
    vf::check(vf::ler(0., acc.ScaledVariance()), "scaled variance is not negative");
    vf::check(vf::ler(0., acc.Variance(false)), "population variance is not negative");
    vf::check(vf::ler(0., acc.Variance(true)), "sample variance is not negative");
  }
}
VF_HARNESS(welford_range)
{
  auto v = any_reals("x", any_len("n"));
  auto n = (long)v.size();
  auto s = sums(v);
  auto w = welford(v);
  lemma(s, w, n);
  hints(w);
  KnuthWelfordAccumulator acc;
  auto& q = apply_accumulator(v.begin(), v.end(), acc);
  vf::check(&q == &acc, "range: returns the accumulator it was given");
  result(acc, s(0, n), s(1, n), n);
}
VF_HARNESS(welford_reset)
{
  auto u = any_reals("z", any_len("l")), v = any_reals("x", any_len("n"));
  auto n = (long)v.size();
  KnuthWelfordAccumulator acc;
  for (size_t i = 0; i < u.size(); i++) acc.Add(u[i]);
  acc.Reset();
  vf::check(acc.Count() == 0, "reset: nothing counted");
  vf::check(acc.Sum() == 0., "reset: sum is zero");
  auto s = sums(v);
  auto w = welford(v);
  lemma(s, w, n);
  hints(w);
  for (size_t i = 0; i < v.size(); i++) acc.Add(v[i]);
  result(acc, s(0, n), s(1, n), n);
}
VF_HARNESS(welford_stored)
{
  auto u = any_reals("z", any_len("l")), v = any_reals("x", any_len("n")), y = any_reals("y", any_len("m"));
  auto n = (long)v.size(), m = (long)y.size();
  auto s = sums(v);
  auto w = welford(v);
  lemma(s, w, n);
  hints(w);
  KnuthWelfordAccumulator a, b;
  for (size_t i = 0; i < v.size(); i++) a.Add(v[i]);
  for (size_t i = 0; i < u.size(); i++) b.Add(u[i]);
  transfer(a, b);
  result(b, s(0, n), s(1, n), n);
  auto s2 = sums(y, s(0, n), s(1, n));
  auto w2 = welford(y, w(0, n), w(1, n), n);
  lemma(s2, w2, m, n);
  vf::clear_hints();
  hints(w2);
  for (size_t i = 0; i < y.size(); i++) b.Add(y[i]);
  result(b, s2(0, m), s2(1, m), n + m);
}

// ------------------------------------------------------------------ weighted (observations of weight <= 0 are ignored)
struct Weighted { std::vector<double> x, w; };
static Weighted any_weighted(const char* nx, const char* nw, const char* len)
{
  auto n = any_len(len);
  Weighted r;
  r.x = any_reals(nx, n);
  r.w = any_reals(nw, n);
  return r;
}
static auto wcount(Weighted const& o, long c0 = 0)
{
  return vf::rec<long, 1>(vf::Tup<long>{ c0 }, [&](vf::Tup<long> s, long k) { return vf::Tup<long>{ s[0] + vf::ite(o.w[k] > 0., 1L, 0L) }; });
}
static auto wsums(Weighted const& o, D i = D{ 0., 0., 0., 0. })
{ // sums of w, w^2, w x, w x^2 over the observations of positive weight
  return vf::rec<double, 4>(i, [&](D s, long k) {
    double w = o.w[k], x = o.x[k];
    bool u = w > 0.;
    return D{ s[0] + vf::ite(u, w, 0.), s[1] + vf::ite(u, w * w, 0.), s[2] + vf::ite(u, w * x, 0.), s[3] + vf::ite(u, w * x * x, 0.) };
  });
}
static auto west(Weighted const& o, D i = D{ 0., 0., 0., 0. })
{ // auxiliary: running sum of weights, of squared weights, mean, squared deviations
  return vf::rec<double, 4>(i, [&](D s, long k) {
    double w = o.w[k], x = o.x[k];
    bool u = w > 0.;
    double W = s[0] + w, m = s[2] + (w / W) * (x - s[2]);
    return D{ vf::ite(u, W, s[0]), vf::ite(u, s[1] + w * w, s[1]), vf::ite(u, m, s[2]), vf::ite(u, s[3] + w * (x - s[2]) * (x - m), s[3]) };
  });
}
template<class C, class S, class R> static void wlemma(C const& c, S const& s, R const& r, long n)
{
  vf::induct(n, "lemma: weights", [&](long k) { return (c(k) >= 0) & vf::ler(0., s(0, k)) & vf::imp(c(k) > 0, s(0, k) > 0.) & vf::ler(0., s(1, k)); });
  vf::induct(n, "lemma: weight sums", [&](long k) { return eq(r(0, k), s(0, k)) & eq(r(1, k), s(1, k)); });
  vf::induct(n, "lemma: weighted mean", [&](long k) { return eq(r(2, k) * s(0, k), s(2, k)); });
  vf::induct(n, "lemma: weighted squared deviations", [&](long k) { return eq(r(3, k), s(3, k) - r(2, k) * s(2, k)); });
}
template<class C, class R> static void whints(C const& c, R const& r)
{
  vf::hint([&](long k) { return c(k); });
  vf::hint([&](long k) { return r(0, k); });
  vf::hint([&](long k) { return r(1, k); });
  vf::hint([&](long k) { return r(2, k); });
  vf::hint([&](long k) { return r(3, k); });
}
template<class C, class S> static void wresult(WestAccumulator const& acc, C const& c, S const& s, long n)
{
  double W = s(0, n), W2 = s(1, n), X = s(2, n), XX = s(3, n);
  vf::check(acc.Count() == (unsigned long)c(n), "count is the number of observations of positive weight");
  vf::check(eq(acc.Sum(), X), "sum of the weighted observations");
  if (c(n) > 0) vf::check(eq(acc.Mean() * W, X), "mean times the total weight is the weighted sum");
  if (c(n) > 1) {
    double dev = XX - acc.Mean() * X; // sum of w (x - mean)^2
    vf::check(eq(acc.PopulationVariance() * W, dev), "population variance times the total weight");
    if (!vf::symbolic && std::abs(W - 1.) < 1e-3) return;
    if (W != 1.) vf::check(eq(acc.SampleFrequencyVariance() * (W - 1.), dev), "frequency-weight variance times (total weight - 1)");
    if (W * W != W2) vf::check(eq(acc.SampleReliabilityVariance() * (W * W - W2), dev * W), "reliability-weight variance");
  }
}
VF_HARNESS(west_stats)
{
  auto o = any_weighted("x", "w", "n");
  auto n = (long)o.x.size();
  auto c = wcount(o);
  auto s = wsums(o);
  auto r = west(o);
  wlemma(c, s, r, n);
  whints(c, r);
  WestAccumulator acc;
  for (size_t i = 0; i < o.x.size(); i++) acc.Add(o.x[i], o.w[i]);
  wresult(acc, c, s, n);
}
VF_HARNESS(west_reset)
{
  auto u = any_weighted("z", "v", "l"), o = any_weighted("x", "w", "n");
  auto n = (long)o.x.size();
  WestAccumulator acc;
  auto cu = wcount(u);
  vf::hint([&](long k) { return cu(k); });
  for (size_t i = 0; i < u.x.size(); i++) acc.Add(u.x[i], u.w[i]);
  acc.Reset();
  vf::check(acc.Count() == 0, "reset: nothing counted");
  vf::check(acc.Sum() == 0., "reset: sum is zero");
  auto c = wcount(o);
  auto s = wsums(o);
  auto r = west(o);
  wlemma(c, s, r, n);
  whints(c, r);
  for (size_t i = 0; i < o.x.size(); i++) acc.Add(o.x[i], o.w[i]);
  wresult(acc, c, s, n);
}
VF_HARNESS(west_stored)
{
  auto o = any_weighted("x", "w", "n"), y = any_weighted("y", "wy", "m");
  auto n = (long)o.x.size(), m = (long)y.x.size();
  auto c = wcount(o);
  auto r = west(o);
  vf::induct(n, "lemma: weights", [&](long k) { return (c(k) >= 0) & vf::ler(0., r(0, k)) & vf::imp(c(k) > 0, r(0, k) > 0.); });
  whints(c, r);
  WestAccumulator a, b;
  for (size_t i = 0; i < o.x.size(); i++) a.Add(o.x[i], o.w[i]);
  b.Add(1.0, 2.0);
  transfer(a, b);
  auto c2 = wcount(y, c(n));
  auto r2 = west(y, D{ r(0, n), r(1, n), r(2, n), r(3, n) });
  vf::induct(m, "lemma: weights", [&](long k) { return (c2(k) >= 0) & vf::ler(0., r2(0, k)) & vf::imp(c2(k) > 0, r2(0, k) > 0.); });
  vf::clear_hints();
  whints(c2, r2);
  // continue both: the restored one keeps the same state as the specification
  for (size_t i = 0; i < y.x.size(); i++) b.Add(y.x[i], y.w[i]);
  vf::check(b.Count() == (unsigned long)c2(m), "restored: count continues");
  vf::check(eq(b.Mean(), r2(2, m)), "restored: mean continues");
  vf::check(eq(b.Sum(), r2(2, m) * r2(0, m)), "restored: total weight continues");
  if (c2(m) > 1) {
    vf::check(eq(b.PopulationVariance() * r2(0, m), r2(3, m)), "restored: squared deviations continue");
    if ((r2(0, m) * r2(0, m) != r2(1, m))) vf::check(eq(b.SampleReliabilityVariance() * (r2(0, m) * r2(0, m) - r2(1, m)), r2(3, m) * r2(0, m)), "restored: squared weights continue");
  }
}
