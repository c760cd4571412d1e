// Approximate comparison of numbers.
//@mode real
#include "vf.hpp"
#include <bwsl/Approx.hpp>
using bwsl::Approx;
static double mag(double x) { return x < 0 ? -x : x; }
VF_HARNESS(compare)
{
  auto v = vf::nice("v", -1e100, 1e100), x = vf::nice("x", -1e100, 1e100), e = vf::nice("abs", -1e100, 1e100), r = vf::nice("rel", -1e3, 1e3);
  Approx a(v);
  bool sa = vf::any<bool>("set_abs"), sr = vf::any<bool>("set_rel");
  double ea = 0., er = std::numeric_limits<double>::epsilon() * 100;
  if (sa) { vf::check(&a.SetAbs(e) == &a, "setting the absolute error gives the object back"); ea = mag(e); }
  if (sr) { vf::check(&a.SetRel(r) == &a, "setting the relative error gives the object back"); er = mag(r); }
  if (sa && vf::any<bool>("again")) { a.SetAbs(r); ea = mag(r); }
  double d = mag(x - v), t = mag(er * v);
  bool eq = (d <= ea) || (d <= t);
  vf::check((a == x) == eq, "equal when the difference is within the absolute or the relative error");
  vf::check((x == a) == eq, "the same the other way around");
  vf::check((a != x) == !eq && (x != a) == !eq, "unequal otherwise");
  vf::check((a <= x) == (eq || v < x) && (x >= a) == (eq || v < x), "below or equal");
  vf::check((a >= x) == (eq || v > x) && (x <= a) == (eq || v > x), "above or equal");
  vf::check((a < x) == (!eq && v < x) && (x > a) == (!eq && v < x), "strictly below");
  vf::check((a > x) == (!eq && v > x) && (x < a) == (!eq && v > x), "strictly above");
  vf::check(a == v && v == a, "equal to its own value");
  Approx b(a);
  vf::check((b == x) == eq, "a copy compares alike");
}
