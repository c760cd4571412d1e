// Contract language shared by the verifier (VF_SYM: compiled to LLVM IR and
// executed symbolically by /verif/vcg) and by the concrete run-time contract
// checker (VF_NATIVE: used for non-vacuity, replay and falsification).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cmath>
#include <limits>
#include <string>
#include <type_traits>
#include <vector>
#include <utility>

#ifdef VF_SYM
extern "C" {
long vf_any_i64(const char* name, long lo, long hi) noexcept;
unsigned long vf_any_u64(const char* name, unsigned long lo, unsigned long hi) noexcept;
double vf_any_f64(const char* name, double lo, double hi, bool finite) noexcept;
bool vf_any_bool(const char* name) noexcept;
// kind: 0 signed int, 1 unsigned int, 2 double, 3 bool;  fills *v (a vector header)
void vf_vec_i(void* v, const char* name, unsigned long n, long esz, long lo, long hi) noexcept;
void vf_vec_f(void* v, const char* name, unsigned long n, double lo, double hi) noexcept;
void vf_vec_bits(void* v, const char* name, unsigned long n) noexcept;
bool vf_same_f(double a, double b) noexcept;
void vf_assume(bool c) noexcept;
void vf_check(bool c, const char* label) noexcept;
[[noreturn]] void vf_stop() noexcept;
long vf_skolem() noexcept;
long vf_q_begin(long lo, long hi) noexcept;
void vf_q_end(long k, bool body) noexcept;
long vf_h_begin() noexcept;
void vf_h_i64(long k, long v) noexcept;
void vf_h_f64(long k, double v) noexcept;
void vf_h_bool(long k, bool v) noexcept;
void vf_h_clear() noexcept;
void vf_focus2(long r, long i) noexcept; // the same for element i of row r, worked out in iteration r of an outer loop
void vf_focus(long i) noexcept; // invariants are to speak about the element i of arrays
long vf_h2_begin() noexcept;
long vf_h2_second() noexcept;
void vf_h2_i64(long k, long v) noexcept;
void vf_h2_f64(long k, double v) noexcept;
void vf_h2_bool(long k, bool v) noexcept;
long vf_rec_new() noexcept;
void vf_rec_init_f(long id, long j, double v) noexcept;
void vf_rec_init_i(long id, long j, long v) noexcept;
long vf_rec_begin(long id) noexcept;
double vf_rec_at_f(long id, long j, long k) noexcept;
long vf_rec_at_i(long id, long j, long k) noexcept;
void vf_rec_step_f(long id, long j, long k, double v) noexcept;
void vf_rec_step_i(long id, long j, long k, long v) noexcept;
void vf_rec_end(long id) noexcept;
void vf_rec_unfold(long k) noexcept;
double vf_ite_f(bool c, double a, double b) noexcept;
long vf_ite_i(bool c, long a, long b) noexcept;
void vf_use_i(long t) noexcept;   // make a term available for instantiation
void vf_use_f(double t) noexcept;
void vf_use_b(bool t) noexcept;
}
namespace vf {
inline constexpr bool symbolic = true;
template<class T>
inline T any(const char* name,
             T lo = std::numeric_limits<T>::lowest(),
             T hi = std::numeric_limits<T>::max())
{
  if constexpr (std::is_same_v<T, bool>)
    return vf_any_bool(name);
  else if constexpr (std::is_floating_point_v<T>)
    return static_cast<T>(vf_any_f64(name, lo, hi, true));
  else if constexpr (std::is_unsigned_v<T>)
    return static_cast<T>(vf_any_u64(name, lo, hi));
  else
    return static_cast<T>(vf_any_i64(name, lo, hi));
}
// any bit pattern of a double (including infinities and NaN)
inline double any_double(const char* name) { return vf_any_f64(name, 0., 0., false); }
template<class T>
inline void fill_any(std::vector<T>& v, const char* name, std::size_t n,
                     T lo = std::numeric_limits<T>::lowest(),
                     T hi = std::numeric_limits<T>::max())
{
  if constexpr (std::is_floating_point_v<T>)
    vf_vec_f(&v, name, n, lo, hi);
  else
    vf_vec_i(&v, name, n, sizeof(T), static_cast<long>(lo),
             static_cast<long>(hi));
}
// any real number (run natively on small dyadic numbers only)
inline unsigned long pick(unsigned long) { return 0; } // native runs only
inline double nice(const char* name, double lo = std::numeric_limits<double>::lowest(), double hi = std::numeric_limits<double>::max()) { return vf_any_f64(name, lo, hi, true); }
inline void fill_nice(std::vector<double>& v, const char* name, std::size_t n, double lo = std::numeric_limits<double>::lowest(), double hi = std::numeric_limits<double>::max()) { vf_vec_f(&v, name, n, lo, hi); }
inline void assume(bool c) { vf_assume(c); }
inline void check(bool c, const char* label) { vf_check(c, label); }
[[noreturn]] inline void stop() { vf_stop(); }
// every k in [0,n): f(k) holds  (f branch free if possible)
template<class F>
inline void check_all(std::size_t n, const char* label, F&& f)
{
  long k = vf_skolem();
  if (k >= 0 && k < static_cast<long>(n)) {
    vf_check(f(static_cast<std::size_t>(k)), label);
    vf_stop();
  }
}
template<class F>
inline void assume_all(std::size_t n, F&& f)
{
  long k = vf_q_begin(0, static_cast<long>(n));
  bool b = f(static_cast<std::size_t>(k));
  vf_q_end(k, b);
}
// some k in [0,n): f(k) holds
template<class F>
inline void check_exists(std::size_t n, const char* label, F&& f)
{
  if (vf_skolem() == 0) {
    long k = vf_q_begin(0, static_cast<long>(n));
    bool b = !f(static_cast<std::size_t>(k));
    vf_q_end(k, b);
    vf_check(false, label);
    vf_stop();
  }
}
// invariant hints: templates from which candidate loop invariants are built.
// They are only candidates: nothing is assumed that is not proved inductive.
template<class F>
inline void hint(F&& f)
{
  long k = vf_h_begin();
  auto x = f(k);
  using X = decltype(x);
  if constexpr (std::is_same_v<X, bool>)
    vf_h_bool(k, x);
  else if constexpr (std::is_floating_point_v<X>)
    vf_h_f64(k, x);
  else
    vf_h_i64(k, static_cast<long>(x));
}
inline void clear_hints() { vf_h_clear(); }
inline void focus(long i) { vf_focus(i); }
inline void focus2(long r, long i) { vf_focus2(r, i); }
// hint with a row parameter: f(row, counter)
template<class F>
inline void hint2(F&& f)
{
  long i = vf_h2_begin(), k = vf_h2_second();
  auto x = f(i, k);
  using X = decltype(x);
  if constexpr (std::is_same_v<X, bool>)
    vf_h2_bool(k, x);
  else if constexpr (std::is_floating_point_v<X>)
    vf_h2_f64(k, x);
  else
    vf_h2_i64(k, static_cast<long>(x));
}
// recursively defined specification function(s): at(0) = init, at(k+1) = step(at(k), k)
template<class T, int N>
struct Rec
{
  long id = 0;
  T operator()(int j, long k) const
  {
    if constexpr (std::is_floating_point_v<T>) return vf_rec_at_f(id, j, k);
    else return vf_rec_at_i(id, j, k);
  }
  T operator()(long k) const { return (*this)(0, k); }
};
template<class T>
struct Tup { T v[4]; T& operator[](int i) { return v[i]; } T operator[](int i) const { return v[i]; } };
template<class T, int N, class S>
inline Rec<T, N> rec(Tup<T> init, S&& step)
{
  Rec<T, N> r{ vf_rec_new() };
  auto set = [&](int j, T v) { if constexpr (std::is_floating_point_v<T>) vf_rec_init_f(r.id, j, v); else vf_rec_init_i(r.id, j, v); };
  set(0, init[0]); if constexpr (N > 1) set(1, init[1]); if constexpr (N > 2) set(2, init[2]); if constexpr (N > 3) set(3, init[3]);
  long k = vf_rec_begin(r.id);
  Tup<T> c{};
  c[0] = r(0, k); if constexpr (N > 1) c[1] = r(1, k); if constexpr (N > 2) c[2] = r(2, k); if constexpr (N > 3) c[3] = r(3, k);
  Tup<T> n = step(c, k);
  auto put = [&](int j, T v) { if constexpr (std::is_floating_point_v<T>) vf_rec_step_f(r.id, j, k, v); else vf_rec_step_i(r.id, j, k, v); };
  put(0, n[0]); if constexpr (N > 1) put(1, n[1]); if constexpr (N > 2) put(2, n[2]); if constexpr (N > 3) put(3, n[3]);
  vf_rec_end(r.id);
  return r;
}
inline double ite(bool c, double a, double b) { return vf_ite_f(c, a, b); }
inline long ite(bool c, long a, long b) { return vf_ite_i(c, a, b); }
// lemma by induction: p(0), p(k) -> p(k+1) for 0 <= k < n;  afterwards p(k) is available for 0 <= k <= n
template<class P>
inline void induct(long n, const char* label, P&& p)
{
  vf_check(p(0L), label);
  long k = vf_skolem();
  if (k >= 0 && k < n) {
    vf_rec_unfold(k);
    vf_assume(p(k));
    vf_check(p(k + 1), label);
    vf_stop();
  }
  long q = vf_q_begin(0, n + 1);
  vf_q_end(q, p(q));
}
inline void use(long t) { vf_use_i(t); }
inline void use(unsigned long t) { vf_use_i(static_cast<long>(t)); }
inline void use(int t) { vf_use_i(t); }
inline void use(double t) { vf_use_f(t); }
inline void use(bool t) { vf_use_b(t); }
// equality of values computed in (modelled) real arithmetic
inline bool eqr(double a, double b) { return a == b; }
inline bool eqr(double a, double b, double) { return a == b; }
inline bool ler(double a, double b) { return a <= b; }
} // namespace vf
#define VF_HARNESS(name) extern "C" void h_##name()

#else // ---------------------------------------------------------------- native
#include "vf_native.hpp"
#endif

namespace vf {
constexpr long B62 = 1L << 62;
inline bool imp(bool a, bool b) { return !a | b; }
inline bool both(bool a, bool b) { return a & b; }
} // namespace vf
