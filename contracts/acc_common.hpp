// shared by the accumulator contracts
#pragma once
#include "vf.hpp"
#include <bwsl/Accumulators.hpp>
#include <bwsl/accumulators/NaiveIntegerAccumulator.hpp>
#include <boost/serialization/access.hpp>
using D = vf::Tup<double>;
// a minimal archive: the sequence of the values streamed through it
struct Tape
{
  bool saving = true;
  long nd = 0, nu = 0;
  double d[16] = {};
  unsigned long u[16] = {};
  template<class T>
  Tape& operator&(T& x)
  {
    if constexpr (std::is_floating_point_v<T>) { if (saving) d[nd++] = x; else x = static_cast<T>(d[nd++]); }
    else if constexpr (std::is_class_v<T>) boost::serialization::access::serialize(*this, x, 0u);
    else { if (saving) u[nu++] = static_cast<unsigned long>(x); else x = static_cast<T>(u[nu++]); }
    return *this;
  }
  template<class T> Tape& operator<<(T const& x) { T y = x; return *this & y; }
  template<class T> Tape& operator>>(T& x) { return *this & x; }
  void rewind() { saving = false; nd = nu = 0; }
};
// save `from` and load it back into `to`
template<class A> inline void transfer(A& from, A& to)
{
  Tape t;
  boost::serialization::access::serialize(t, from, 0u);
  t.rewind();
  boost::serialization::access::serialize(t, to, 0u);
}
inline bool same(double a, double b)
{
#ifdef VF_SYM
  return vf_same_f(a, b);
#else
  return a == b || (a != a && b != b);
#endif
}
// any sequence of doubles, every bit pattern
inline std::vector<double> any_bits(const char* nm, const char* len)
{
  std::vector<double> v;
  auto n = vf::any<size_t>(len, 0, vf::symbolic ? (1L << 58) : 12);
#ifdef VF_SYM
  vf_vec_bits(&v, nm, n);
#else
  for (size_t i = 0; i < n; i++) v.push_back(vf::any_double(nm));
#endif
  return v;
}
