// concrete (run-time) interpretation of the contract language
#pragma once
#include <cstdio>
#include <functional>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <random>
#include <sstream>
#include <chrono>
namespace vf {
inline constexpr bool symbolic = false;
struct Reject {};
struct Fail { std::string label; };
struct Stop {};
struct Ctx {
  std::mt19937_64 rng{ 1 };
  std::map<std::string, std::vector<std::string>> replay;
  std::map<std::string, std::size_t> pos;
  std::vector<std::pair<std::string, std::string>> log;
  std::map<std::string, long> reached;
};
inline Ctx& ctx() { static Ctx c; return c; }
inline unsigned long pick(unsigned long n) { return ctx().rng() % n; }
inline bool replayed(const char* name, std::string& out)
{
  auto& c = ctx();
  auto it = c.replay.find(name);
  if (it == c.replay.end()) return false;
  auto p = c.pos[name]++;
  if (p >= it->second.size()) return false;
  out = it->second[p];
  return true;
}
template<class T> inline std::string show(T x)
{
  if constexpr (std::is_floating_point_v<T>) { char b[64]; snprintf(b, 64, "%.17g", (double)x); return b; }
  else return std::to_string(x);
}
template<class T> inline T record(const char* name, T x) { ctx().log.emplace_back(name, show(x)); return x; }
inline double gen_double()
{
  switch (pick(8)) {
    case 0: return 0.;
    case 1: return (double)((long)pick(21) - 10);
    case 2: return ((double)((long)pick(4001) - 2000)) / 8;
    case 3: return std::ldexp((double)(ctx().rng() >> 11), (int)pick(40) - 70) * (pick(2) ? 1 : -1);
    case 4: return (double)((long)pick(201) - 100) / 10;
    case 5: return (double)((long)pick(2000001) - 1000000);
    default: return ((double)((long)pick(2001) - 1000)) / 16;
  }
}
template<class T>
inline T any(const char* name, T lo = std::numeric_limits<T>::lowest(), T hi = std::numeric_limits<T>::max())
{
  std::string s;
  if constexpr (std::is_same_v<T, bool>) {
    if (replayed(name, s)) return record(name, s != "0");
    return record(name, pick(2) == 1);
  } else if constexpr (std::is_floating_point_v<T>) {
    if (replayed(name, s)) {
      T v = (T)std::strtod(s.c_str(), nullptr);
      if (!(v >= lo && v <= hi)) throw Reject{};
      return record(name, v);
    }
    for (int i = 0; i < 20; i++) { double d = gen_double(); if (d >= lo && d <= hi) return record(name, (T)d); }
    if (pick(8) == 0) return record(name, lo);
    if (pick(8) == 0) return record(name, hi);
    double u = (double)(ctx().rng() >> 11) * 0x1p-53;
    double h = hi > 1e6 ? (lo > 1e5 ? hi : 1e6) : hi, l = lo < -1e6 ? -1e6 : lo;
    return record(name, (T)(l + (h - l) * u));
  } else {
    if (replayed(name, s)) {
      T v;
      if constexpr (std::is_unsigned_v<T>) v = (T)std::strtoull(s.c_str(), nullptr, 10);
      else v = (T)std::strtoll(s.c_str(), nullptr, 10);
      if (v < lo || v > hi) throw Reject{};
      return record(name, v);
    }
    using W = __int128;
    W l = lo, h = hi;
    if (h < l) throw Reject{};
    W r = h - l + 1;
    W x = 0;
    auto small = [&](W m) { return (W)pick((unsigned long)(m > r ? r : m)); };
    switch (pick(9)) {
      case 0: x = l + small(3); break;
      case 1: x = h - small(3); break;
      case 2: { W b = (W)1 << pick(sizeof(T) * 8); x = b - 2 + (W)pick(4); if (pick(2)) x = -x; break; }
      case 3: { x = (W)(long)(ctx().rng() >> pick(63)); if (pick(2)) x = -x; break; }
      case 4: case 5: case 6: x = (l <= 0 && h >= 0) ? (W)pick(13) - (pick(2) ? 6 : 0) : l + small(12); break;
      default: x = l + (r > (W)0x7fffffffffffffffL ? (W)(ctx().rng() >> pick(63)) : (W)pick((unsigned long)r)); break;
    }
    if (x < l || x > h) { W m = x - l; m %= r; if (m < 0) m += r; x = l + m; }
    return record(name, (T)x);
  }
}
inline double any_double(const char* name)
{
  std::string s;
  if (replayed(name, s)) return record(name, std::strtod(s.c_str(), nullptr));
  switch (pick(12)) {
    case 0: return record(name, std::numeric_limits<double>::infinity() * (pick(2) ? 1 : -1));
    case 1: return record(name, std::numeric_limits<double>::quiet_NaN());
    case 2: return record(name, -0.0);
    case 3: { union { unsigned long u; double d; } x; x.u = ctx().rng(); return record(name, x.d); }
    case 4: return record(name, std::numeric_limits<double>::denorm_min() * (double)pick(5));
    case 5: return record(name, std::ldexp(1.0 + (double)pick(4) * 0x1p-52, (int)pick(120) - 60) * (pick(2) ? 1 : -1));
    default: return record(name, gen_double());
  }
}
template<class T>
inline void fill_any(std::vector<T>& v, const char* name, std::size_t n, T lo = std::numeric_limits<T>::lowest(), T hi = std::numeric_limits<T>::max())
{
  v.clear();
  if (n > 1UL << 20) throw Reject{};
  for (std::size_t i = 0; i < n; i++) v.push_back(any<T>(name, lo, hi));
}
// real arithmetic contracts: small dyadic numbers, for which double arithmetic is (nearly) exact; others are outside what the native run can judge
inline double nice(const char* name, double lo = -1e300, double hi = 1e300)
{
  std::string s;
  double d;
  if (replayed(name, s)) d = std::strtod(s.c_str(), nullptr);
  else {
    d = (double)((long)pick(129) - 64);
    switch (pick(4)) { case 0: d /= 8; break; case 1: d /= 4; break; case 2: d = (double)(long)(d / 8); break; default: break; }
    if (d < lo || d > hi) d = -d;
    if (d < lo || d > hi) d = hi <= 1 ? (double)pick(9) / 8 : lo + (double)pick(9) / 8;
  }
  record(name, d);
  if (!(d >= lo && d <= hi) || std::abs(d) > 4096 || d * 64 != std::floor(d * 64)) throw Reject{};
  return d;
}
inline void fill_nice(std::vector<double>& v, const char* name, std::size_t n, double lo = -1e300, double hi = 1e300)
{
  v.clear();
  for (std::size_t i = 0; i < n; i++) v.push_back(nice(name, lo, hi));
}
inline void assume(bool c) { if (!c) throw Reject{}; }
inline void check(bool c, const char* label) { ctx().reached[label]++; if (!c) throw Fail{ label }; }
[[noreturn]] inline void stop() { throw Stop{}; }
template<class F> inline void check_all(std::size_t n, const char* label, F&& f) { for (std::size_t k = 0; k < n; k++) check(f(k), label); }
template<class F> inline void check_exists(std::size_t n, const char* label, F&& f) { bool b = false; for (std::size_t k = 0; k < n; k++) b = b || f(k); check(b, label); }
template<class F> inline void assume_all(std::size_t n, F&& f) { for (std::size_t k = 0; k < n; k++) assume(f(k)); }
template<class F> inline void hint(F&&) {}
inline void clear_hints() {}
inline void focus(long) {}
inline void focus2(long, long) {}
template<class T> inline void use(T) {}
template<class F> inline void hint2(F&&) {}
template<class T> struct Tup { T v[4]; T& operator[](int i) { return v[i]; } T operator[](int i) const { return v[i]; } };
template<class T, int N>
struct Rec
{
  mutable std::vector<Tup<T>> memo;
  std::function<Tup<T>(Tup<T>, long)> step;
  T operator()(int j, long k) const
  {
    while ((long)memo.size() <= k) memo.push_back(step(memo.back(), (long)memo.size() - 1));
    return memo[k][j];
  }
  T operator()(long k) const { return (*this)(0, k); }
};
template<class T, int N, class S> inline Rec<T, N> rec(Tup<T> init, S&& step) { return Rec<T, N>{ { init }, step }; }
inline double ite(bool c, double a, double b) { return c ? a : b; }
inline long ite(bool c, long a, long b) { return c ? a : b; }
template<class P> inline void induct(long n, const char* label, P&& p) { for (long k = 0; k <= n; k++) check(p(k), label); }
inline bool eqr(double a, double b, double tol = 1e-9) { return a == b || std::abs(a - b) <= tol * (1 + std::abs(a) + std::abs(b)); }
inline bool ler(double a, double b) { return a <= b || eqr(a, b); }
struct Reg {
  using H = void (*)();
  static std::map<std::string, H>& all() { static std::map<std::string, H> m; return m; }
  Reg(const char* n, H h) { all()[n] = h; }
};
inline std::string cur_harness;
inline std::string cur_dump()
{
  std::string r;
  for (auto& kv : ctx().log) r += kv.first + "=" + kv.second + "\n";
  return r;
}
extern "C" inline void vf_death()
{
  fprintf(stderr, "VF-FAIL harness=%s label=sanitizer-or-abort\nVF-INPUT\n%sVF-END\n", cur_harness.c_str(), cur_dump().c_str());
  fflush(stderr);
}
} // namespace vf
#define VF_HARNESS(name)                                                       \
  static void h_##name();                                                      \
  static vf::Reg reg_##name(#name, h_##name);                                  \
  static void h_##name()
