// Compensated summation: bit-exact against the published recurrences.
//@mode uf
#include "acc_common.hpp"
using namespace bwsl;
using namespace bwsl::accumulators;
// state (s, c) after k terms, starting from (s0, c0)
static auto kahan(std::vector<double> const& v, double s0 = 0., double c0 = 0.)
{
  return vf::rec<double, 2>(D{ s0, c0 }, [&](D s, long k) { double y = v[k] - s[1]; double t = s[0] + y; return D{ t, (t - s[0]) - y }; });
}
static auto neumaier(std::vector<double> const& v, double s0 = 0., double c0 = 0.)
{
  return vf::rec<double, 2>(D{ s0, c0 }, [&](D s, long k) {
    double x = v[k], t = s[0] + x;
    return D{ t, vf::ite(std::abs(s[0]) >= std::abs(x), s[1] + ((s[0] - t) + x), s[1] + ((x - t) + s[0])) };
  });
}
template<class R> static void hints(R const& r)
{
  vf::hint([&](long k) { return r(0, k); });
  vf::hint([&](long k) { return r(1, k); });
}
template<class A, class R> static void feed(A& acc, std::vector<double> const& v, R const& r)
{
  hints(r);
  for (size_t i = 0; i < v.size(); i++) acc.Add(v[i]);
}
struct KahanSpec
{
  using acc = KahanAccumulator;
  static auto rec(std::vector<double> const& v, double s = 0., double c = 0.) { return kahan(v, s, c); }
  template<class R> static double sum(R const& r, long n) { return r(0, n); }
};
struct NeumaierSpec
{
  using acc = NeumaierAccumulator;
  static auto rec(std::vector<double> const& v, double s = 0., double c = 0.) { return neumaier(v, s, c); }
  template<class R> static double sum(R const& r, long n) { return r(0, n) + r(1, n); }
};
template<class S, class R> static void result(typename S::acc const& acc, R const& r, long n, unsigned long count)
{
  vf::check(same(acc.Sum(), S::sum(r, n)), "sum is the compensated sum of the inputs");
  vf::check(acc.Count() == count, "count is the number of inputs");
  vf::check(same(acc.Mean(), S::sum(r, n) / (double)count), "mean is the sum over the count");
}
template<class S> static void sums()
{
  auto v = any_bits("x", "n");
  auto r = S::rec(v);
  typename S::acc acc;
  feed(acc, v, r);
  result<S>(acc, r, (long)v.size(), v.size());
}
template<class S> static void reset()
{
  auto v = any_bits("x", "n"), w = any_bits("y", "m");
  typename S::acc acc;
  feed(acc, v, S::rec(v));
  acc.Reset();
  vf::check(acc.Count() == 0, "reset: nothing counted");
  vf::check(same(acc.Sum(), 0.), "reset: sum is that of no inputs");
  auto r = S::rec(w);
  feed(acc, w, r);
  result<S>(acc, r, (long)w.size(), w.size());
}
template<class S> static void range()
{
  auto v = any_bits("x", "n");
  auto r = S::rec(v);
  hints(r);
  typename S::acc acc;
  auto& q = apply_accumulator(v.begin(), v.end(), acc);
  vf::check(&q == &acc, "range: returns the accumulator it was given");
  result<S>(acc, r, (long)v.size(), v.size());
}
template<class S> static void copy()
{
  auto v = any_bits("x", "n"), w = any_bits("y", "m");
  typename S::acc a;
  auto rv = S::rec(v);
  feed(a, v, rv);
  auto b = a;
  typename S::acc c;
  c.Add(1.0);
  c = a;
  a.Reset();
  result<S>(c, rv, (long)v.size(), v.size());
  auto r = S::rec(w, rv(0, (long)v.size()), rv(1, (long)v.size()));
  feed(b, w, r);
  result<S>(b, r, (long)w.size(), v.size() + w.size());
}
template<class S> static void stored()
{
  auto v = any_bits("x", "n"), u = any_bits("z", "l"), w = any_bits("y", "m");
  typename S::acc a, b;
  auto rv = S::rec(v);
  feed(a, v, rv);
  feed(b, u, S::rec(u));
  transfer(a, b);
  result<S>(b, rv, (long)v.size(), v.size());
  // the restored accumulator continues exactly where the stored one stopped
  auto r = S::rec(w, rv(0, (long)v.size()), rv(1, (long)v.size()));
  feed(b, w, r);
  result<S>(b, r, (long)w.size(), v.size() + w.size());
}
VF_HARNESS(kahan_sum) { sums<KahanSpec>(); }
VF_HARNESS(kahan_reset) { reset<KahanSpec>(); }
VF_HARNESS(kahan_range) { range<KahanSpec>(); }
VF_HARNESS(kahan_copy) { copy<KahanSpec>(); }
VF_HARNESS(kahan_stored) { stored<KahanSpec>(); }
VF_HARNESS(neumaier_sum) { sums<NeumaierSpec>(); }
VF_HARNESS(neumaier_reset) { reset<NeumaierSpec>(); }
VF_HARNESS(neumaier_range) { range<NeumaierSpec>(); }
VF_HARNESS(neumaier_copy) { copy<NeumaierSpec>(); }
VF_HARNESS(neumaier_stored) { stored<NeumaierSpec>(); }
