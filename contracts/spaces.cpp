// Linearly and logarithmically spaced numbers: every number of steps, every position.
//@mode real
#include "vf.hpp"
#include <bwsl/LinSpace.hpp>
#include <bwsl/LogSpace.hpp>
using namespace bwsl;
using D = vf::Tup<double>;
constexpr unsigned long STEPS = 1UL << 50;
struct Lin
{
  double a, b;
  unsigned long n;
  LinSpace<double> l;
  double at(long k) const { return a + ((b - a) / (double)n) * (double)k; }
};
static Lin any_lin()
{
  double a = vf::nice("first", -1e100, 1e100), b = vf::nice("last", -1e100, 1e100);
  auto n = vf::any<unsigned long>("steps", 1, vf::symbolic ? STEPS : 1UL << vf::any<int>("lg", 0, 5));
  if (!vf::symbolic) n = n & -n; // natively only powers of two: exact
  vf::assume(a < b);
  return Lin{ a, b, n, LinSpace<double>(a, b, n) };
}
static void forward(LinSpace<double>& l, unsigned long k) { for (unsigned long i = 0; i < k; i++) ++l; }
static unsigned long any_count(const char* nm) { return vf::any<unsigned long>(nm, 0, vf::symbolic ? STEPS : 40); }
VF_HARNESS(lin_values)
{
  auto s = any_lin();
  auto k = any_count("k");
  vf::check(*s.l == s.a, "starts at the first value");
  vf::hint([&](long k) { return s.at(k); });
  forward(s.l, k);
  vf::check(vf::eqr(*s.l, s.at((long)k)), "the value after k steps");
  if (k == s.n) vf::check(vf::eqr(*s.l, s.b), "the last value after all steps");
  vf::check((s.l == s.l.end()) == (k == s.n), "at the end exactly after all steps");
  vf::check((s.l != s.l.end()) == (k != s.n), "not at the end before or after");
  vf::check((s.l == s.l.begin()) == (k == 0), "at the begin only before any step");
  auto b = s.l.begin(), e = s.l.end();
  vf::check(*b == s.a, "begin is the first value from anywhere");
  vf::check(*e == s.b, "end is the last value");
  ++b;
  vf::check(vf::eqr(*b, s.at(1)), "begin steps on from the start");
  auto c = s.l;
  double x = *s.l;
  auto o = s.l++;
  double y = c();
  vf::check((*o == x) & (o != s.l), "stepping on after use gives the old position");
  vf::check((y == x) & (c == s.l) & (*c == *s.l), "a call gives the current value and steps on");
  vf::check(vf::eqr(*s.l, s.at((long)k + 1)), "and the step is a single one");
}
VF_HARNESS(lin_collect)
{
  auto s = any_lin();
  auto k = any_count("k");
  auto m = any_count("m");
  vf::hint([&](long k) { return s.at(k); });
  vf::hint([&](long j) { return s.at(j + (long)k); });
  forward(s.l, k);
  auto c = s.l;
  auto v = s.l.Collect(m);
  vf::check(v.size() == m, "as many values as asked for");
  vf::check_all(m, "the values from the current position on", [&](size_t j) { return vf::eqr(v[j], s.at((long)(k + j))); });
  vf::check((s.l == c) & (*s.l == *c), "collecting does not move the position");
}
VF_HARNESS(lin_range)
{
  auto s = any_lin();
  vf::hint([&](long k) { return s.at(k); });
  unsigned long k = 0;
  for (double x : s.l) {
    vf::check(vf::eqr(x, s.at((long)k)), "a loop visits the values in order");
    k++;
  }
  vf::check(k == s.n, "a loop visits as many values as there are steps");
}
#ifdef VF_SYM
static double First, Last;
static unsigned long N;
static vf::Rec<double, 1>* PW;
static double Ratio;
// e^y with y the n-th part of log(last/first), however written, has the n-th power last/first (textbook fact on exp and log)
static bool nth_part(double y) { return (y == (log(Last) - log(First)) / (double)N) | (y == log(Last / First) / (double)N); }
extern "C" double stub_pow(double b, double y)
{
  double r = pow(b, y);
  if (N > 0) vf::assume(!(((b == M_E) & nth_part(y)) | ((b == Last / First) & (y == 1 / (double)N))) | ((r > 0) & (r == Ratio)));
  return r;
}
extern "C" double stub_exp(double y)
{
  double r = exp(y);
  if (N > 0) vf::assume(!nth_part(y) | ((r > 0) & (r == Ratio)));
  return r;
}
//@stub ^(pow|llvm\.pow\..*)$ => stub_pow
//@stub ^(exp|llvm\.exp\..*)$ => stub_exp
#endif
// a logarithmic space with its ratio: the positive number whose n-th power is last/first
struct Log
{
  double a, b, q;
  unsigned long n;
  LogSpace<double> l;
};
template<class F> static void with_log(F&& f)
{
  bool powers = vf::any<bool>("powers");
  auto n = vf::any<unsigned long>("steps", 1, vf::symbolic ? STEPS : 40);
#ifdef VF_SYM
  Ratio = vf::any<double>("ratio", 0., 1e300);
  vf::assume(Ratio > 0);
  auto P = vf::rec<double, 1>(D{ 1. }, [&](D p, long) { return D{ p[0] * Ratio }; });
  double a, b, base = 0;
  long s = 0, t = 0;
  N = 0;
  if (powers) {
    base = vf::any<double>("base", 0., 1e100);
    s = vf::any<long>("start", -1000, 1000); t = vf::any<long>("stop", -1000, 1000);
    vf::assume(base > 1 && s < t);
    a = pow(base, (double)s);
    b = pow(base, (double)t);
  } else {
    a = vf::any<double>("first", 0., 1e100); b = vf::any<double>("last", 0., 1e100);
  }
  vf::assume(0 < a && a < b); // powers of a base above 1
  First = a; Last = b; N = n;
  vf::assume(a * P((long)n) == b);
  vf::hint([&](long k) { return a * P(k); });
  auto at = [&](long k) { return a * P(k); };
#else
  double base = vf::any<double>("base", 1.5, 10.), a, b;
  long s = vf::any<long>("start", -5, 5), t = s + vf::any<long>("width", 1, 8);
  if (powers) { a = pow(base, s); b = pow(base, t); }
  else { a = vf::any<double>("first", 0.1, 10.); b = a * vf::any<double>("quotient", 1.01, 1000.); }
  auto at = [=](long k) { return a * pow(b / a, (double)k / (double)n); };
#endif
  if (powers) f(LogSpace<double>(s, t, n, base), a, b, n, at);
  else f(LogSpace<double>(a, b, n), a, b, n, at);
}
static void forward(LogSpace<double>& l, unsigned long k) { for (unsigned long i = 0; i < k; i++) ++l; }
VF_HARNESS(log_values)
{
  auto k = any_count("k");
  with_log([&](LogSpace<double> l, double a, double b, unsigned long n, auto at) {
    vf::check(vf::eqr(*l, a), "starts at the first value");
    forward(l, k);
    vf::check(vf::eqr(*l, at((long)k)), "the value after k steps is the first times the k-th power of the ratio");
    if (k == n) vf::check(vf::eqr(*l, b), "the last value after all steps");
    vf::check((l == l.end()) == (k == n), "at the end exactly after all steps");
    vf::check((l != l.end()) == (k != n), "not at the end before or after");
    auto s = l.begin(), e = l.end();
    vf::check(vf::eqr(*s, a) & vf::eqr(*e, b), "begin is the first value and end the last one");
    vf::check((l == s) == (k == 0), "at the begin only before any step");
    ++s;
    vf::check(vf::eqr(*s, at(1)), "begin steps on from the start");
    auto c = l;
    double x = *l;
    auto o = l++;
    double y = c();
    vf::check((*o == x) & (o != l), "stepping on after use gives the old position");
    vf::check((y == x) & (c == l) & (*c == *l), "a call gives the current value and steps on");
    vf::check(vf::eqr(*l, at((long)k + 1)), "and the step is a single one");
  });
}
VF_HARNESS(log_collect)
{
  auto k = any_count("k");
  auto m = any_count("m");
  with_log([&](LogSpace<double> l, double a, double b, unsigned long n, auto at) {
    vf::hint([&](long j) { return at(j + (long)k); });
    forward(l, k);
    auto c = l;
    auto v = l.Collect(m);
    vf::check(v.size() == m, "as many values as asked for");
    vf::check_all(m, "the values from the current position on", [&](size_t j) { return vf::eqr(v[j], at((long)(k + j))); });
    vf::check((l == c) & (*l == *c), "collecting does not move the position");
  });
}
VF_HARNESS(log_range)
{
  with_log([&](LogSpace<double> l, double a, double b, unsigned long n, auto at) {
    unsigned long k = 0;
    for (double x : l) {
      vf::check(vf::eqr(x, at((long)k)), "a loop visits the values in order");
      k++;
    }
    vf::check(k == n, "a loop visits as many values as there are steps");
  });
}
