// Containers: element-wise operations and reductions, of any length; doubles bit for bit.
//@mode uf
#include "vf.hpp"
#include "acc_common.hpp"
#include <bwsl/MathUtils.hpp>
using namespace bwsl;
using L = vf::Tup<long>;
constexpr long H = 1L << 61;
static std::vector<long> any_longs(const char* nm, size_t n, long lo, long hi)
{
  std::vector<long> v;
  vf::fill_any<long>(v, nm, n, lo, hi);
  return v;
}
static std::vector<double> bits(const char* nm, size_t n)
{
  std::vector<double> v;
#ifdef VF_SYM
  vf_vec_bits(&v, nm, n);
#else
  for (size_t i = 0; i < n; i++) v.push_back(vf::any_double(nm));
#endif
  return v;
}
static size_t any_len(const char* nm = "n") { return vf::any<size_t>(nm, 0, vf::symbolic ? (1L << 58) : 12); }
VF_HARNESS(sum_into_f)
{
  auto n = any_len();
  auto x = bits("x", n), y = bits("y", n), x0 = x, y0 = y;
  auto& r = sum_into(x, y);
  vf::check(&r == &x && x.size() == n && y.size() == n, "the first container is changed in place");
  vf::check_all(n, "each element is the sum of the elements", [&](size_t k) { return same(x[k], x0[k] + y0[k]) & same(y[k], y0[k]); });
}
VF_HARNESS(sum_into_i)
{
  auto n = any_len();
  auto x = any_longs("x", n, -H, H), y = any_longs("y", n, -H, H), x0 = x, y0 = y;
  auto& r = sum_into(x, y);
  vf::check(&r == &x && x.size() == n && y.size() == n, "the first container is changed in place");
  vf::check_all(n, "each element is the sum of the elements", [&](size_t k) { return (x[k] == x0[k] + y0[k]) & (y[k] == y0[k]); });
}
VF_HARNESS(subtract_into_f)
{
  auto n = any_len();
  auto x = bits("x", n), y = bits("y", n), x0 = x, y0 = y;
  auto& r = subtract_into(x, y);
  vf::check(&r == &x && x.size() == n && y.size() == n, "the first container is changed in place");
  vf::check_all(n, "each element is the difference of the elements", [&](size_t k) { return same(x[k], x0[k] - y0[k]) & same(y[k], y0[k]); });
}
VF_HARNESS(subtract_into_i)
{
  auto n = any_len();
  auto x = any_longs("x", n, -H, H), y = any_longs("y", n, -H, H), x0 = x, y0 = y;
  auto& r = subtract_into(x, y);
  vf::check(&r == &x && x.size() == n && y.size() == n, "the first container is changed in place");
  vf::check_all(n, "each element is the difference of the elements", [&](size_t k) { return (x[k] == x0[k] - y0[k]) & (y[k] == y0[k]); });
}
// a container used as both operands
VF_HARNESS(alias)
{
  auto n = any_len();
  auto x = any_longs("x", n, -H, H), x0 = x, z = x;
  sum_into(x, x);
  subtract_into(z, z);
  vf::check_all(n, "adding a container to itself doubles it", [&](size_t k) { return x[k] == 2 * x0[k]; });
  vf::check_all(n, "subtracting a container from itself gives zero", [&](size_t k) { return z[k] == 0; });
}
VF_HARNESS(invert_f)
{
  auto n = any_len();
  auto x = bits("x", n), x0 = x;
  auto g = get_inverted(x);
  vf::check(g.size() == n && x.size() == n, "an element for each element");
  vf::check_all(n, "each element is negated, in a copy", [&](size_t k) { return same(g[k], -x0[k]) & same(x[k], x0[k]); });
}
VF_HARNESS(invert_in_place)
{
  auto n = any_len();
  auto x = bits("x", n), x0 = x;
  auto& r = invert(x);
  vf::check(&r == &x && x.size() == n, "the container is changed in place");
  vf::check_all(n, "each element is negated in place", [&](size_t k) { return same(x[k], -x0[k]); });
}
VF_HARNESS(invert_i)
{
  auto n = any_len();
  auto x = any_longs("x", n, -vf::B62, vf::B62), x0 = x;
  auto g = get_inverted(x);
  vf::check_all(n, "each integer is negated, in a copy", [&](size_t k) { return (g[k] == -x0[k]) & (x[k] == x0[k]); });
  auto& r = invert(x);
  vf::check(&r == &x && x.size() == n && g.size() == n, "the container of integers is changed in place");
  vf::check_all(n, "each integer is negated in place", [&](size_t k) { return x[k] == -x0[k]; });
}
// sums and products, from the first element on
VF_HARNESS(sum_i)
{
  auto n = any_len();
  auto v = any_longs("x", n, vf::symbolic ? -H : -(1L << 57), vf::symbolic ? H : 1L << 57);
  auto s = vf::rec<long, 1>(L{ 0 }, [&](L s, long k) { return L{ s[0] + v[k] }; });
  vf::assume_all(n + 1, [&](size_t k) { return (s((long)k) <= vf::B62) & (s((long)k) >= -vf::B62); });
  vf::hint([&](long k) { return s(k); });
  vf::check(accumulate_sum(v) == s((long)n), "sum of the elements");
}
VF_HARNESS(sum_f)
{
  auto n = any_len();
  auto v = bits("x", n);
  auto s = vf::rec<double, 1>(D{ 0. }, [&](D s, long k) { return D{ s[0] + v[k] }; });
  vf::hint([&](long k) { return s(k); });
  vf::check(same(accumulate_sum(v), s((long)n)), "sum of the elements, in order");
}
VF_HARNESS(product_f)
{
  auto n = any_len();
  auto v = bits("x", n);
  auto s = vf::rec<double, 1>(D{ 1. }, [&](D s, long k) { return D{ s[0] * v[k] }; });
  vf::hint([&](long k) { return s(k); });
  vf::check(same(accumulate_product(v), s((long)n)), "product of the elements, in order");
}
VF_HARNESS(squares_f)
{
  auto n = any_len();
  auto v = bits("x", n);
  auto s = vf::rec<double, 1>(D{ 0. }, [&](D s, long k) { return D{ s[0] + v[k] * v[k] }; });
  vf::hint([&](long k) { return s(k); });
  double ss = sum_squared<std::vector<double>, double>(v);
  vf::check(same(ss, s((long)n)), "sum of the squares, in order");
  vf::check(same(l2norm(v), sqrt(s((long)n))), "the norm is the square root of the sum of the squares");
}
VF_HARNESS(squares_i)
{
  auto n = any_len();
  auto v = any_longs("x", n, vf::symbolic ? -3000000000L : -600000000L, vf::symbolic ? 3000000000L : 600000000L);
  auto s = vf::rec<long, 1>(L{ 0 }, [&](L s, long k) { return L{ s[0] + v[k] * v[k] }; });
  vf::assume_all(n + 1, [&](size_t k) { return s((long)k) <= vf::B62; });
  vf::induct((long)n, "lemma: sums of squares", [&](long k) { return s(k) >= 0; });
  vf::hint([&](long k) { return s(k); });
  long ss = sum_squared<std::vector<long>, long>(v);
  vf::check(ss == s((long)n), "sum of the squares of integers");
  vf::check(same(l2norm(v), sqrt((double)s((long)n))), "the norm of integers is the square root of the sum of the squares");
}
VF_HARNESS(extremes_i)
{
  auto n = vf::any<size_t>("n", 1, vf::symbolic ? (1L << 58) : 12);
  auto v = any_longs("x", n, std::numeric_limits<long>::min(), std::numeric_limits<long>::max());
  long a = bwsl::max(v), b = bwsl::min(v);
  vf::check_all(n, "no element is above the largest or below the smallest", [&](size_t k) { return (v[k] <= a) & (v[k] >= b); });
}
