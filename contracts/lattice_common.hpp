// Lattices: grids of arbitrary extents in d dimensions, stand-ins for the parts under contract elsewhere.
#pragma once
#include "spec_grid.hpp"
#include <bwsl/Lattice.hpp>
using namespace bwsl;
using Grid = HyperCubicGrid;
using L = vf::Tup<long>;
using D = vf::Tup<double>;
using coords = Grid::coords_t;
using sizes = Grid::gridsize_t;
using realvec = Lattice::realvec_t;
#ifdef VF_SYM
extern "C" {
double vf_uf(long id, long a, long b, long c) noexcept;
long vf_uf_i(long id, long a, long b, long c) noexcept;
void vf_table_f(void* v, size_t n, size_t d, long id) noexcept;
void vf_table_i(void* v, size_t n, long id) noexcept;
}
static size_t Dim;
static bool Building; // the extents of the grid: proved in grid_index.cpp (extents_product)
extern "C" size_t stub_product(sizes const& v)
{
  if (!Building) { size_t r = 1; for (size_t i = 0; i < Dim; i++) r *= v[i]; return r; }
  vf::positive(v);
  vf::check(vf::SP(v, 0) < vf::B62, "pre: number of sites");
  return (size_t)vf::SP(v, 0);
}
extern "C" coords stub_index_to_array(size_t index, sizes const& size)
{
  vf::positive(size);
  vf::check(vf::SP(size, 0) < vf::B62, "pre: number of sites");
  vf::check(index < (size_t)vf::SP(size, 0), "pre: index_to_array needs a valid index");
  coords c;
  vf::fill_any<long>(c, "c", size.size());
  vf::assume_all(size.size(), [&](size_t k) { return c[k] == vf::COORD(size, (long)index, (long)k); });
  return c;
}
extern "C" size_t stub_array_to_index(coords const& a, sizes const& size)
{
  vf::positive(size);
  vf::check(vf::SP(size, 0) < vf::B62, "pre: number of sites");
  vf::check(a.size() == size.size(), "pre: one coordinate per dimension");
  vf::ongrid(size, a);
  return (size_t)vf::DIG(size, a, 0);
}
#endif
static sizes any_extents(size_t d)
{
  sizes s;
#ifdef VF_SYM
  vf::fill_any<size_t>(s, "extents", d, 1, vf::B62 - 1);
  vf::positive(s);
  vf::assume(vf::SP(s, 0) < vf::B62);
  Dim = d;
#else
  for (size_t i = 0; i < d; i++) s.push_back(vf::any<size_t>("extent", 1, d == 1 ? 20 : d == 2 ? 6 : 4));
#endif
  return s;
}
static Bravais any_bravais(size_t d, size_t gamma)
{
  std::vector<double> v(d * d, 0.), w(d * d, 0.);
  std::vector<long> n(gamma / 2 * d, 0);
  if (!vf::symbolic) {
    if (d == 1) { v[0] = 2.; w[0] = .5; }
    else { // shears of the cubic basis: exact inverse
      double t = (double)vf::any<long>("shear", -2, 2), u = d > 2 ? (double)vf::any<long>("shear", -2, 2) : 0.;
      for (size_t i = 0; i < d; i++) v[i * d + i] = w[i * d + i] = 1.;
      v[1 * d + 0] = t; w[0 * d + 1] = -t;
      if (d > 2) { v[2 * d + 1] = u; w[1 * d + 2] = -u; w[0 * d + 2] = t * u; }
    }
    for (auto& x : n) x = vf::any<long>("direction", -2, 2);
  }
  return Bravais(d, gamma, v, w, n);
}
static Bravais any_bravais(size_t d) { return any_bravais(d, 2 * d); }
static Grid any_grid(sizes const& s, bool closed)
{
#ifdef VF_SYM
  Building = true;
#endif
  Grid g(s, closed ? Grid::boundaries_t::Closed : Grid::boundaries_t::Open);
#ifdef VF_SYM
  Building = false;
#endif
  return g;
}
static long coord(sizes const& s, long i, size_t k) { return k < s.size() ? vf::COORD(s, i, (long)k) : 0; }
static size_t any_site(size_t n, const char* nm)
{
#ifdef VF_SYM
  auto a = vf::any<size_t>(nm);
  vf::assume(a < n);
  return a;
#else
  return vf::any<size_t>(nm, 0, n - 1);
#endif
}
