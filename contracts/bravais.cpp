// Bravais lattices in one, two and three dimensions: any basis, any coordinates.
//@mode real
#include "vf.hpp"
#include <bwsl/Bravais.hpp>
using namespace bwsl;
constexpr long BIG = 1L << 40;
struct B
{
  size_t d;
  std::vector<double> v, w;
  double& a(size_t k, size_t i) { return v[k * d + i]; } // component i of the k-th basis vector
  double& r(size_t k, size_t i) { return w[k * d + i]; } // component i of the k-th reciprocal vector (over 2 pi)
};
static B any_basis(size_t d)
{
  B b{ d, std::vector<double>(d * d, 0.), std::vector<double>(d * d, 0.) };
  for (size_t i = 0; i < d * d; i++) b.v[i] = vf::nice("basis");
  for (size_t i = 0; i < d * d; i++) b.w[i] = vf::nice("inverse");
  if (!vf::symbolic) { // the inverse of a product of shears is exact
    long m[3][3], n[3][3];
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m[i][j] = n[i][j] = i == j;
    for (size_t s = 0; s < 3 * (d - 1); s++) {
      size_t i = (size_t)std::abs((long)b.v[s % (d * d)]) % d, j = (i + 1 + (size_t)std::abs((long)b.w[s % (d * d)]) % (d > 1 ? d - 1 : 1)) % d;
      long t = (long)b.w[(s + 1) % (d * d)] % 3;
      if (i == j) continue;
      for (size_t k = 0; k < d; k++) m[i][k] += t * m[j][k];  // basis row i += t * row j
      for (size_t k = 0; k < d; k++) n[j][k] -= t * n[i][k];  // reciprocal row j -= t * row i
    }
    double s = d == 1 ? 2. : 1.;
    for (size_t i = 0; i < d; i++) for (size_t j = 0; j < d; j++) { b.a(i, j) = s * (double)m[i][j]; b.r(i, j) = (double)n[i][j] / s; }
  }
  return b;
}
static Bravais make(B const& b) { return Bravais(b.d, 2 * b.d, b.v, b.w, std::vector<long>(b.d * b.d, 0)); }
static std::vector<long> any_coords(size_t d, const char* name)
{
  std::vector<long> c(d, 0);
  for (size_t i = 0; i < d; i++) c[i] = vf::any<long>(name, -BIG, BIG);
  if (!vf::symbolic) { bool far = d == 1 && vf::pick(4) == 0; for (auto& x : c) x %= far ? 1L << 34 : 1000; }
  return c;
}
static double point(B& b, std::vector<long> const& c, size_t i)
{
  double s = 0.;
  for (size_t j = 0; j < b.d; j++) s += (double)c[j] * b.a(j, i);
  return s;
}
static void position(size_t d)
{
  auto b = any_basis(d);
  auto L = make(b);
  auto c = any_coords(d, "c"), e = any_coords(d, "e");
  auto p = L.GetRealSpace(c), v = L.GetVector(c, e);
  vf::check((p.size() == d) & (v.size() == d) & (L.GetDim() == d) & (L.GetGamma() == 2 * d), "one component per dimension");
  for (size_t i = 0; i < d; i++) {
    vf::check(vf::eqr(p[i], point(b, c, i)), "a point is the combination of the basis given by its coordinates");
    vf::check(vf::eqr(v[i], point(b, e, i) - point(b, c, i)), "vector between two points is the difference of their positions");
  }
}
static void distance(size_t d)
{
  auto b = any_basis(d);
  auto L = make(b);
  auto c = any_coords(d, "c"), e = any_coords(d, "e");
  double n = L.GetDistance(c, e), s = 0.;
  auto p = L.GetDistanceVector(c, e);
  for (size_t i = 0; i < d; i++) {
    double x = point(b, e, i) - point(b, c, i);
    s += x * x;
    vf::check(vf::eqr(p.second[i], x), "vector reported with the distance");
  }
  vf::check(p.second.size() == d, "one component per dimension");
  vf::check((n >= 0.) & vf::eqr(n * n, s), "distance is the length of the vector between the points");
  vf::check((p.first >= 0.) & vf::eqr(p.first * p.first, s), "distance reported with the vector");
}
static void inverse(B& b, std::vector<long> const& c)
{
  for (size_t j = 0; j < b.d; j++)
    for (size_t k = 0; k < b.d; k++) {
      double s = 0., t = 0.;
      for (size_t i = 0; i < b.d; i++) s += b.a(j, i) * b.r(k, i);
      vf::assume(s == (j == k ? 1. : 0.));
      for (size_t i = 0; i < b.d; i++) t += (double)c[j] * b.a(j, i) * b.r(k, i);
      vf::check(vf::eqr(t, j == k ? (double)c[j] : 0.), "lemma: duality times a coordinate");
    }
}
static void inverse_vector(size_t d)
{
  auto b = any_basis(d);
  auto L = make(b);
  auto c = any_coords(d, "c");
  inverse(b, c);
  auto q = L.GetInverseVector(L.GetRealSpace(c));
  auto k = L.GetReciprocalSpace(c);
  vf::check((q.size() == d) & (k.size() == d), "one component per dimension");
  for (size_t j = 0; j < d; j++) {
    vf::check(vf::eqr(q[j], (double)c[j]), "coordinates of a point are recovered from its position");
    double s = 0.;
    for (size_t i = 0; i < d; i++) s += k[i] * b.a(j, i);
    vf::check(vf::eqr(s, (2 * M_PI) * (double)c[j]), "reciprocal vectors are dual to the basis");
  }
}
static void neighbor(size_t d)
{
  size_t g = vf::any<size_t>("pairs", 1, vf::symbolic ? (1UL << 40) : 6);
  std::vector<long> n;
  vf::fill_any<long>(n, "n", g * d, -BIG, BIG);
  auto b = any_basis(d);
  Bravais L(d, 2 * g, b.v, b.w, n);
  auto c = any_coords(d, "c");
  size_t m = vf::any<size_t>("m");
  if (!vf::symbolic) m %= g;
  vf::assume(m < g);
  auto p = L.GetNeighbor(c, 2 * m), q = L.GetNeighbor(c, 2 * m + 1), r = L.GetNeighbor(p, 2 * m + 1);
  vf::check((p.size() == d) & (q.size() == d) & (r.size() == d), "one coordinate per dimension");
  for (size_t i = 0; i < d; i++) {
    vf::check(p[i] == c[i] + n[m * d + i], "even neighbours lie along their direction");
    vf::check(q[i] == c[i] - n[m * d + i], "odd neighbours lie opposite to it");
    vf::check(r[i] == c[i], "the opposite neighbour of a neighbour is the point itself");
  }
}
#define DIM(d)                                               \
  VF_HARNESS(position_##d) { position(d); }                  \
  VF_HARNESS(distance_##d) { distance(d); }                  \
  VF_HARNESS(inverse_##d) { inverse_vector(d); }             \
  VF_HARNESS(neighbor_##d) { neighbor(d); }
DIM(1)
DIM(2)
DIM(3)
