// The lattices the library predefines: chain, square, cubic and triangular.
//@mode real
//@ctors 1
#include "vf.hpp"
#include <bwsl/Bravais.hpp>
using namespace bwsl;
using coords = Bravais::coords_t;
static coords any_point(size_t d, const char* nm)
{
  coords c(d, 0);
  for (size_t i = 0; i < d; i++) c[i] = vf::any<long>(nm, vf::symbolic ? -(1L << 40) : -20, vf::symbolic ? 1L << 40 : 20);
  return c;
}
static bool near(double a, double b, double tol) { return (a - b <= tol) & (b - a <= tol); }
static double size(coords const& c)
{
  double s = 1.;
  for (long x : c) s += vf::ite(x >= 0, (double)x, -(double)x);
  return s;
}
// the second matrix is the inverse of the first
static void inverse(Bravais const& l, size_t d)
{
  auto c = any_point(d, "c");
  auto r = l.GetRealSpace(c), b = l.GetInverseVector(r);
  vf::check((r.size() == d) & (b.size() == d), "one component per dimension");
  for (size_t i = 0; i < d; i++) vf::check(near(b[i], (double)c[i], 1e-12 * size(c)), "the coordinates are recovered from the position");
  coords e(d, 0);
  e[0] = 1;
  auto x = l.GetRealSpace(e);
  for (size_t i = 0; i < d; i++) vf::check(near(x[i], i == 0 ? 1. : 0., 1e-12), "the first basis vector is the first unit vector");
}
static void neighbors(Bravais const& l, size_t d, size_t gamma)
{
  vf::check((l.GetDim() == d) & (l.GetGamma() == gamma), "dimension and number of neighbours");
  auto p = any_point(d, "p");
  std::vector<coords> n;
  for (size_t i = 0; i < gamma; i++) n.push_back(l.GetNeighbor(p, i));
  for (size_t i = 0; i < gamma; i++) {
    vf::check(near(l.GetDistance(p, n[i]), 1., 1e-12), "neighbours are at distance one");
    for (size_t j = 0; j < i; j++) {
      bool same = true;
      for (size_t k = 0; k < d; k++) same &= n[i][k] == n[j][k];
      vf::check(!same, "neighbours are different points");
    }
  }
}
static void nearest(Bravais const& l, size_t d, size_t gamma)
{
  auto p = any_point(d, "p"), q = p;
  bool same = true, neighbor = false;
  for (size_t k = 0; k < d; k++) {
    long j = vf::any<long>("jump", vf::symbolic ? -(1L << 40) : -3, vf::symbolic ? 1L << 40 : 3);
    q[k] += j;
    same &= j == 0;
  }
  for (size_t i = 0; i < gamma; i++) {
    auto n = l.GetNeighbor(p, i);
    bool s = true;
    for (size_t k = 0; k < d; k++) s &= n[k] == q[k];
    neighbor |= s;
  }
  vf::check(same | neighbor | (l.GetDistance(p, q) > 1.4), "no other point is as close as the neighbours");
}
#define LATTICE(name, lattice, d, gamma) \
  VF_HARNESS(name##_inverse) { inverse(lattice, d); } \
  VF_HARNESS(name##_neighbors) { neighbors(lattice, d, gamma); } \
  VF_HARNESS(name##_nearest) { nearest(lattice, d, gamma); }
LATTICE(chain, ChainLattice, 1, 2)
LATTICE(square, SquareLattice, 2, 4)
LATTICE(cubic, CubicLattice, 3, 6)
LATTICE(triangular, TriangularLattice, 2, 6)
