// Spec functions for mixed-radix indexing.
//   SP(s,k) = s[k]*s[k+1]*...*s[n-1]   (suffix product, SP(s,n)=1)
//   COORD(s,i,k) = (i / SP(s,k+1)) mod s[k]
//   DIG(s,c,k)   = c[k]*SP(s,k+1)+...+c[n-1]*SP(s,n)   (mixed radix value of the tail)
#pragma once
#include "vf.hpp"
#ifdef VF_SYM
extern "C" {
long vf_SP(const void* sizes, long k) noexcept;
long vf_PP(const void* sizes, long k) noexcept;
long vf_COORD(const void* sizes, long idx, long k) noexcept;
long vf_DIG(const void* sizes, const void* coords, long k) noexcept;
long vf_mod(long a, long b) noexcept; // mathematical modulus, b > 0
long vf_div(long a, long b) noexcept;
void vf_mod_shift(long a, long v, long b) noexcept; // lemma: mod(mod(a, b) + v, b) = mod(a + v, b)
void vf_positive(const void* sizes) noexcept; // proves all entries >= 1, then makes the lemmas about suffix products available
void vf_same_site(const void* sizes, long i, long j) noexcept; // lemma: equal coordinates -> equal index
void vf_ongrid(const void* sizes, const void* coords) noexcept;
}
namespace vf {
template<class V> inline long SP(V const& v, long k) { return vf_SP(&v, k); }
template<class V> inline long PP(V const& v, long k) { return vf_PP(&v, k); }
template<class V> inline long COORD(V const& v, long i, long k) { return vf_COORD(&v, i, k); }
template<class V, class C> inline long DIG(V const& v, C const& c, long k) { return vf_DIG(&v, &c, k); }
template<class V> inline void same_site(V const& v, long i, long j) { vf_same_site(&v, i, j); }
inline long mod(long a, long b) { return vf_mod(a, b); }
inline long div(long a, long b) { return vf_div(a, b); }
inline void mod_shift(long a, long v, long b) { vf_mod_shift(a, v, b); }
template<class V> inline void positive(V const& v) { vf_positive(&v); }
template<class V, class C> inline void ongrid(V const& v, C const& c) { vf_ongrid(&v, &c); }
}
#else
namespace vf {
template<class V> inline long SP(V const& v, long k) { long p = 1; for (size_t j = v.size(); (long)j-- > k;) p *= (long)v[j]; return p; }
template<class V> inline long PP(V const& v, long k) { long p = 1; for (long j = 0; j < k; j++) p *= (long)v[j]; return p; }
template<class V> inline void same_site(V const&, long, long) {}
template<class V> inline void positive(V const&) {}
template<class V, class C> inline void ongrid(V const&, C const&) {}
inline long mod(long a, long b) { long r = a % b; return r < 0 ? r + b : r; }
inline long div(long a, long b) { return (a - mod(a, b)) / b; }
inline void mod_shift(long, long, long) {}
template<class V> inline long COORD(V const& v, long i, long k) { return mod(div(i, SP(v, k + 1)), (long)v[k]); }
template<class V, class C> inline long DIG(V const& v, C const& c, long k) { long r = 0; for (size_t j = k; j < v.size(); j++) r += (long)c[j] * SP(v, j + 1); return r; }
}
#endif
namespace vf {
// an arbitrary grid shape: any dimension (also 0), extents >= 1, number of sites < 2^62
inline std::vector<std::size_t> any_sizes(const char* name = "sizes")
{
  std::vector<std::size_t> s;
  auto d = any<std::size_t>("dim", 0, symbolic ? (1L << 58) : 6);
#ifdef VF_SYM
  fill_any<std::size_t>(s, name, d, 1, B62 - 1);
  positive(s);
  assume(SP(s, 0) < B62);
#else
  long left = B62 - 1;
  bool big = pick(6) == 0;
  for (size_t i = 0; i < d; i++) {
    long hi = big ? left : (left < 7 ? left : 7);
    auto x = any<std::size_t>(name, 1, hi);
    s.push_back(x);
    left /= (long)x;
  }
#endif
  return s;
}
}
