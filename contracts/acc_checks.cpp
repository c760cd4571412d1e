// Overflow-protected configuration (BWSL_ACCUMULATORS_CHECKS): a measurement that cannot be
// represented is refused by throwing and leaves the accumulator as it was.
//@mode uf
#define BWSL_ACCUMULATORS_CHECKS
#include "acc_common.hpp"
using namespace bwsl;
using namespace bwsl::accumulators;
static constexpr unsigned long UMAX = std::numeric_limits<unsigned long>::max();
static constexpr long LMAX = std::numeric_limits<long>::max();
static unsigned long any_count()
{
#ifdef VF_SYM
  return vf::any<unsigned long>("count");
#else
  return vf::any<bool>("full") ? UMAX : vf::any<bool>("near") ? UMAX - 1 : vf::any<unsigned long>("count", 0, 1000);
#endif
}
template<class A> static Tape saved(A& a) { Tape t; boost::serialization::access::serialize(t, a, 0u); return t; }
template<class A> static void load(A& a, Tape t) { t.rewind(); boost::serialization::access::serialize(t, a, 0u); }
static bool equal(Tape const& a, Tape const& b)
{
  bool e = (a.nd == b.nd) & (a.nu == b.nu);
  for (int i = 0; i < 4; i++) e &= same(a.d[i], b.d[i]) & (a.u[i] == b.u[i]);
  return e;
}
template<class A, class F> static void protects(unsigned long count, F&& add, A& acc, bool used = true)
{
  auto before = saved(acc);
  vf::check(acc.Count() == count, "state restored");
  bool thrown = false;
  try {
    add(acc);
  } catch (exception::AccumulatorOverflow const&) {
    thrown = true;
  }
  vf::check(thrown == ((count == UMAX) & used), "throws exactly when the count is exhausted");
  if (thrown) vf::check(equal(before, saved(acc)), "a refused measurement leaves the accumulator unchanged");
  if (!thrown) vf::check(acc.Count() == count + (unsigned long)used, "an accepted measurement is counted");
}
static double any_f(const char* n) { return vf::symbolic ? vf::any_double(n) : vf::any<double>(n, -100., 100.); }
#define LOADED(T, ND)                                                                    \
  T acc;                                                                                 \
  auto count = any_count();                                                              \
  Tape t;                                                                                \
  for (int i = 0; i < ND; i++) t.d[i] = any_f("state");                                  \
  t.u[0] = count;                                                                        \
  load(acc, t);                                                                          \
  auto x = any_f("x")
VF_HARNESS(checks_kahan) { LOADED(KahanAccumulator, 2); protects(count, [&](auto& a) { a.Add(x); }, acc); }
VF_HARNESS(checks_neumaier) { LOADED(NeumaierAccumulator, 2); protects(count, [&](auto& a) { a.Add(x); }, acc); }
VF_HARNESS(checks_welford) { LOADED(KnuthWelfordAccumulator, 2); protects(count, [&](auto& a) { a.Add(x); }, acc); }
VF_HARNESS(checks_west) 
{
  LOADED(WestAccumulator, 4);
  auto w = any_f("w");
  protects(count, [&](auto& a) { a.Add(x, w); }, acc, w > 0.);
}
VF_HARNESS(checks_west_zero)
{ // an observation without weight is ignored even when the count is exhausted
  LOADED(WestAccumulator, 4);
  auto before = saved(acc);
  bool thrown = false;
  try {
    acc.Add(x, 0.);
  } catch (exception::AccumulatorOverflow const&) {
    thrown = true;
  }
  vf::check(!thrown & equal(before, saved(acc)), "observations of zero weight are ignored");
}
VF_HARNESS(checks_integer)
{ // sum and sum of squares start anywhere within range; overflow of either is refused (signed overflow is an obligation)
  NaiveInteger acc;
  Tape t;
  auto count = any_count();
  long s1 = vf::any<long>("sum", -LMAX, LMAX), s2 = vf::any<long>("sum2", 0, LMAX), x = vf::any<long>("x");
  if (!vf::symbolic && vf::any<bool>("small")) { s1 %= 1000; s2 %= 1000; x %= 1000; }
  t.u[0] = (unsigned long)s1; t.u[1] = (unsigned long)s2; t.u[2] = count;
  load(acc, t);
  auto before = saved(acc);
  bool thrown = false;
  try {
    acc.Add(x);
  } catch (exception::AccumulatorOverflow const&) {
    thrown = true;
  }
  auto after = saved(acc);
  if (thrown) vf::check(equal(before, after), "a refused measurement leaves the accumulator unchanged");
  if (!thrown) {
    vf::check((acc.Count() == count + 1) & (count != UMAX), "an accepted measurement is counted");
    vf::check(acc.Sum() - s1 == x, "an accepted measurement is summed");
    vf::check((long)after.u[1] - s2 == x * x, "an accepted measurement's square is summed");
  }
  bool small = (x <= 1000000) & (x >= -1000000) & (s1 <= 1000000000000) & (s1 >= -1000000000000) & (s2 <= 1000000000000);
  vf::check(vf::imp(small & (count != UMAX), !thrown), "measurements that fit are accepted");
}
