// Search in sorted ranges of any length (interpolation followed by binary search).
//@mode real
//@nra 1
#include "vf.hpp"
#include <bwsl/MathUtils.hpp>
#include <algorithm>
// v is partitioned at p by value: the elements before p are not above it, the others are.
// (A sorted range is partitioned by every value; nothing else about the order is needed.)
static long N, Pt;
static const void* Base;
#ifdef VF_SYM
template<class T> static T* ub(T* f, T* l, T const& v)
{
  T* b = (T*)Base;
  long i = f - b, j = l - b;
  vf::check((0 <= i) & (i <= j) & (j <= N), "pre: std::upper_bound needs a valid range");
  long n = j - i;
  vf::check_all((size_t)n, "pre: std::upper_bound needs a partitioned range", [&](size_t k) { return (i + (long)k < Pt) == !(v < f[k]); });
  long r = vf::any<long>("r", 0, vf::B62);
  vf::assume(r <= n);
  vf::assume_all((size_t)n, [&](size_t k) { return ((long)k < r) == !(v < f[k]); });
  vf::assume(r == 0 || !(v < f[r - 1]));
  vf::assume(r == n || v < f[r]);
  return f + r;
}
extern "C" double* stub_ub_d(double* f, double* l, double const& v) { return ub(f, l, v); }
extern "C" long* stub_ub_l(long* f, long* l, long const& v) { return ub(f, l, v); }
#endif
//@stub std::upper_bound<__gnu_cxx::__normal_iterator<double\*, .*double>\( => stub_ub_d
//@stub std::upper_bound<__gnu_cxx::__normal_iterator<long\*, .*long>\( => stub_ub_l
template<class T> static void search(T lo, T hi)
{
  std::vector<T> v;
  T x;
  if constexpr (vf::symbolic) {
    auto n = vf::any<size_t>("n", 0, 1L << 40);
    vf::fill_any<T>(v, "v", n, lo, hi);
    x = vf::any<T>("value", lo, hi);
    Pt = vf::any<long>("p", 0, (long)1 << 40);
    vf::assume(Pt <= (long)n);
    vf::assume_all(n, [&](size_t k) { return ((long)k < Pt) == !(x < v[k]); });
  } else {
    auto big = vf::any<long>("big", 0, 3), n = vf::any<long>("n", 0, big == 0 ? 30000 : 40), dup = vf::any<long>("dup", 1, 1L << (vf::any<long>("lg", 0, 14))), at = vf::any<long>("at", 0, 30000), bump = vf::any<long>("bump", 0, 1000000);
    for (long i = 0; i < n; i++) v.push_back((T)(i / dup + (i >= at ? bump : 0)));
    x = (T)(vf::any<long>("value", -2, n / dup + 2) + (vf::any<long>("off", 0, 1) ? bump : 0));
    Pt = 0;
    while (Pt < n && !(x < v[Pt])) Pt++;
  }
  N = (long)v.size();
  Base = v.data();
  vf::hint([&](long) { return Pt; });
  vf::hint([&](long) { return Pt - 1; });
  auto r = bwsl::upper_bound(v.begin(), v.end(), x);
  vf::check(r - v.begin() == Pt, "the first element above the value, or the end");
}
VF_HARNESS(search_real) { search<double>(-1e300, 1e300); }
VF_HARNESS(search_int) { search<long>(-(1L << 60), 1L << 60); }
