// Lattices whose computed tables are arbitrary (each computation is under contract in its own unit).
#pragma once
#include "lattice_common.hpp"
#ifdef VF_SYM
static size_t sites(Lattice const* l)
{
  vf::check(l->GetDim() == Dim && l->GetNumSites() < (1UL << 62), "pre: the grid is set up first");
  return l->GetNumSites();
}
extern "C" std::vector<realvec> stub_positions(Lattice const* l, Bravais const&) { std::vector<realvec> p; vf_table_f(&p, sites(l), Dim, 0); return p; }
extern "C" std::vector<realvec> stub_vectors(Lattice const* l, Bravais const&) { std::vector<realvec> p; vf_table_f(&p, sites(l), Dim, 10); return p; }
extern "C" std::vector<realvec> stub_momenta(Lattice const* l, Bravais const&) { std::vector<realvec> p; if (l->HasClosedBoundaries()) vf_table_f(&p, sites(l), Dim, 30); return p; }
extern "C" Lattice::neighbors_t stub_neighbors(Lattice const* l, Bravais const&) { Lattice::neighbors_t p; vf_table_i(&p, sites(l), 20); return p; }
//@stub accumulate_product<std::vector<unsigned long => stub_product
//@stub bwsl::Lattice::ComputePositions\( => stub_positions
//@stub bwsl::Lattice::ComputeVectors\( => stub_vectors
//@stub bwsl::Lattice::ComputeMomenta\( => stub_momenta
//@stub bwsl::Lattice::ComputeNeighbors\( => stub_neighbors
#endif
static Lattice any_lattice(Bravais const& b, sizes const& s, bool closed)
{
#ifdef VF_SYM
  Building = true;
#endif
  Lattice l(b, s, closed ? Grid::boundaries_t::Closed : Grid::boundaries_t::Open);
#ifdef VF_SYM
  Building = false;
#endif
  return l;
}
struct Probe : Lattice
{
  using Lattice::ComputePositions;
  using Lattice::ComputeVectors;
  using Lattice::ComputeNeighbors;
  using Lattice::ComputeMomenta;
  Probe(Lattice const& l) : Lattice(l) {}
};
// the computed tables: natively by calling the same functions again
struct Tables
{
#ifdef VF_SYM
  Tables(Lattice const&, Bravais const&) {}
  double pos(size_t i, size_t k) const { return vf_uf((long)k, (long)i, 0, 0); }
  double vec(size_t i, size_t k) const { return vf_uf((long)k + 10, (long)i, 0, 0); }
  double mom(size_t i, size_t k) const { return vf_uf((long)k + 30, (long)i, 0, 0); }
  size_t coordination(size_t i) const { return (size_t)vf_uf_i(20, (long)i, 0, 0); }
  size_t neighbor(size_t i, size_t j) const { return (size_t)vf_uf_i(21, (long)i, (long)j, 0); }
#else
  std::vector<realvec> p, v, m;
  Lattice::neighbors_t n;
  Tables(Lattice const& l, Bravais const& b) { Probe x(l); p = x.ComputePositions(b); v = x.ComputeVectors(b); m = x.ComputeMomenta(b); n = x.ComputeNeighbors(b); }
  double pos(size_t i, size_t k) const { return p[i][k]; }
  double vec(size_t i, size_t k) const { return v[i][k]; }
  double mom(size_t i, size_t k) const { return m[i][k]; }
  size_t coordination(size_t i) const { return n[i].size(); }
  size_t neighbor(size_t i, size_t j) const { return n[i][j]; }
#endif
};
