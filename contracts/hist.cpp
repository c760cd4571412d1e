// Histogram: what one (arbitrary) bin reports, after any history of operations on all the bins.
//@mode uf
//@default bwsl::accumulators::NeumaierAccumulator => stub_default_neumaier
#include "acc_common.hpp"
#include <bwsl/HistAccumulator.hpp>
#include <new>
using namespace bwsl;
using L = vf::Tup<long>;
#ifdef VF_SYM
extern "C" void stub_default_neumaier(void* p) { new (p) accumulators::NeumaierAccumulator(); }
#endif
constexpr long BINS = 1L << 40;
// operations: 0 add, 1 force-add, 2 resize to that many bins, 3 reset
struct History { std::vector<long> op, idx; std::vector<double> val; };
static History any_history(const char* no, const char* ni, const char* nv, const char* len)
{
  History h;
  auto n = vf::any<size_t>(len, 0, vf::symbolic ? (1L << 40) : 12);
  vf::fill_any<long>(h.op, no, n, 0, 3);
  vf::fill_any<long>(h.idx, ni, n, 0, vf::symbolic ? BINS : 6);
#ifdef VF_SYM
  vf_vec_bits(&h.val, nv, n);
#else
  for (size_t i = 0; i < n; i++) h.val.push_back(vf::any_double(nv));
#endif
  return h;
}
// number of bins and of measurements
static auto totals(History const& h, L i = L{ 0, 0 })
{
  return vf::rec<long, 2>(i, [&](L s, long k) {
    long op = h.op[k], x = h.idx[k];
    bool in = x < s[0];
    return L{ vf::ite(op == 2, x, vf::ite((op == 1) & !in, x + 1, s[0])), vf::ite(op == 3, 0L, s[1] + vf::ite((op == 1) | ((op == 0) & in), 1L, 0L)) };
  });
}
// number of measurements of bin b since it was created or reset
template<class T> static auto tally(History const& h, T const& t, long b, L i = L{ 0 })
{
  return vf::rec<long, 1>(i, [&h, &t, b](L s, long k) {
    long op = h.op[k], x = h.idx[k];
    bool gone = ((op == 2) & (x <= b)) | (op == 3);
    return L{ vf::ite(gone, 0L, s[0] + vf::ite((x == b) & ((op == 1) | ((op == 0) & (x < t(0, k)))), 1L, 0L)) };
  });
}
// compensated sum of bin b
template<class T> static auto sum(History const& h, T const& t, long b, D i = D{ 0., 0. })
{
  return vf::rec<double, 2>(i, [&h, &t, b](D s, long k) {
    long op = h.op[k], x = h.idx[k];
    double v = h.val[k], r = s[0] + v;
    bool gone = ((op == 2) & (x <= b)) | (op == 3), hit = (x == b) & ((op == 1) | ((op == 0) & (x < t(0, k))));
    double c = vf::ite(std::abs(s[0]) >= std::abs(v), s[1] + ((s[0] - r) + v), s[1] + ((v - r) + s[0]));
    return D{ vf::ite(gone, 0., vf::ite(hit, r, s[0])), vf::ite(gone, 0., vf::ite(hit, c, s[1])) };
  });
}
static void apply(HistAccumulator& a, long op, long x, double v)
{
  switch (op) {
    case 0: if ((size_t)x < a.GetNbins()) a.Add((size_t)x, v); break;
    case 1: a.ForceAdd((size_t)x, v); break;
    case 2: a.Resize((size_t)x); break;
    default: a.Reset(); break;
  }
}
template<class T, class C, class S> static void hints(T const& t, C const& c, S const& s, long b)
{
  vf::focus(b);
  vf::hint([&](long k) { return t(0, k); });
  vf::hint([&](long k) { return t(1, k); });
  vf::hint([&](long k) { return c(k); });
  vf::hint([&](long k) { return s(0, k); });
  vf::hint([&](long k) { return s(1, k); });
}
template<class T, class C, class S> static void lemma(T const& t, C const& c, S const& s, long b, long n)
{
  vf::induct(n, "lemma: totals are small", [&](long k) { return (t(0, k) >= 0) & (t(0, k) <= BINS + 1) & (t(1, k) >= 0) & (t(1, k) <= k); });
  vf::induct(n, "lemma: a bin that does not exist is empty", [&](long k) { return (c(k) >= 0) & (c(k) <= k) & ((b < t(0, k)) | (c(k) == 0)); });
  vf::induct(n, "lemma: the sum of a bin that does not exist", [&](long k) { return (b < t(0, k)) | (same(s(0, k), 0.) & same(s(1, k), 0.)); });
}
template<class T, class C, class S> static double value(T const& t, C const& c, S const& s, long n)
{
  return vf::ite(c(n) == 0, 0., (s(0, n) + s(1, n)) / (double)(unsigned long)t(1, n));
}
VF_HARNESS(hist_history)
{
  auto h = any_history("op", "idx", "val", "n");
  long n = (long)h.op.size(), b = vf::any<long>("bin", 0, vf::symbolic ? BINS : 6);
  auto t = totals(h);
  auto c = tally(h, t, b);
  auto s = sum(h, t, b);
  lemma(t, c, s, b, n);
  hints(t, c, s, b);
  HistAccumulator a;
  for (size_t i = 0; i < h.op.size(); i++) apply(a, h.op[i], h.idx[i], h.val[i]);
  vf::check(a.GetNbins() == (size_t)t(0, n), "number of bins");
  vf::check(a.GetCount() == (size_t)t(1, n), "number of measurements");
  if (b < t(0, n)) {
    vf::check(a.GetCount((size_t)b) == (size_t)c(n), "number of measurements of a bin");
    vf::check(same(a.GetResult((size_t)b), value(t, c, s, n)), "a bin reports its compensated sum over the number of all measurements");
  }
}
static HistAccumulator any_histogram()
{
  auto h = any_history("op", "idx", "val", "n");
  HistAccumulator a;
  for (size_t i = 0; i < h.op.size(); i++) apply(a, h.op[i], h.idx[i], h.val[i]);
  return a;
}
VF_HARNESS(hist_results)
{
  auto a = any_histogram();
  size_t j = vf::any<size_t>("j", 0, vf::symbolic ? (size_t)BINS : 6), m = vf::any<size_t>("m", 0, vf::symbolic ? (size_t)BINS : 6);
  auto r = a.GetResults();
  vf::check(r.size() == a.GetNbins(), "one result per bin");
  if (j < a.GetNbins()) vf::check(same(r[j], a.GetResult(j)), "the results are the results of the bins");
}
VF_HARNESS(hist_normalised)
{
  auto a = any_histogram();
  size_t j = vf::any<size_t>("j", 0, vf::symbolic ? (size_t)BINS : 6), m = vf::any<size_t>("m", 0, vf::symbolic ? (size_t)BINS : 6);
  if (m < a.GetNbins()) {
    auto r = a.GetResults(m);
    vf::check(r.size() == a.GetNbins(), "one normalised result per bin");
    if (j < a.GetNbins()) vf::check(same(r[j], a.GetResult(j) / a.GetResult(m)), "the normalised results are those of the bins over that of the chosen bin");
  }
}
// an archive that restores numbers and (A06) the bins that were streamed through it, in order
struct HistTape
{
  bool saving = true;
  long nu = 0, nv = 0;
  unsigned long u[4] = {};
  std::vector<accumulators::NeumaierAccumulator> bins;
  HistTape& operator&(unsigned long& x) { if (saving) u[nu++] = x; else x = u[nu++]; return *this; }
  HistTape& operator&(std::vector<accumulators::NeumaierAccumulator>& x)
  {
    if (saving) { bins = x; nv++; } else { vf::check(nv == 1, "the bins were saved before they are loaded"); x = bins; }
    return *this;
  }
  template<class T> HistTape& operator<<(T const& x) { T y = x; return *this & y; }
  template<class T> HistTape& operator>>(T& x) { return *this & x; }
};
static void same_histogram(HistAccumulator const& x, HistAccumulator const& y, const char* m)
{
  vf::check(x.GetNbins() == y.GetNbins() && x.GetCount() == y.GetCount(), m);
  size_t k = vf::any<size_t>("k", 0, vf::symbolic ? (size_t)BINS : 6);
  if (k < x.GetNbins()) {
    vf::check(x.GetCount(k) == y.GetCount(k), m);
    vf::check(same(x.GetResult(k), y.GetResult(k)), m);
  }
}
VF_HARNESS(hist_serialize)
{
  auto a = any_histogram();
  auto b = a;
  HistAccumulator c(vf::any<size_t>("bins", 0, vf::symbolic ? (size_t)BINS : 6));
  HistTape t;
  boost::serialization::access::serialize(t, a, 0u);
  t.saving = false; t.nu = 0;
  boost::serialization::access::serialize(t, c, 0u);
  same_histogram(a, b, "saving leaves the histogram alone");
  same_histogram(c, b, "saving and loading restores the histogram");
  // and what is added afterwards goes on from there
  size_t j = vf::any<size_t>("j", 0, vf::symbolic ? (size_t)BINS : 6);
  double v = vf::any_double("v");
  if (j < b.GetNbins()) {
    b.Add(j, v); c.Add(j, v);
    same_histogram(c, b, "a restored histogram goes on like the original");
  }
}
VF_HARNESS(hist_copy)
{
  auto a = any_histogram();
  auto b = a, c = a;
  size_t j = vf::any<size_t>("j", 0, vf::symbolic ? (size_t)BINS : 6);
  b.ForceAdd(j);
  same_histogram(a, c, "a change to a copy leaves the original alone");
  c.ForceAdd(j, 1.0);
  same_histogram(b, c, "without a value, a measurement counts one");
  if (j < a.GetNbins()) {
    a.Add(j);
    same_histogram(a, c, "without a value, a measurement counts one");
  }
}
VF_HARNESS(hist_new)
{
  size_t n = vf::any<size_t>("bins", 0, vf::symbolic ? (size_t)BINS : 6), k = vf::any<size_t>("k", 0, vf::symbolic ? (size_t)BINS : 6);
  HistAccumulator a(n);
  vf::check(a.GetNbins() == n && a.GetCount() == 0, "a new histogram has the bins asked for and no measurement");
  if (k < n) vf::check((a.GetCount(k) == 0) & same(a.GetResult(k), 0.), "a new histogram has empty bins");
}
