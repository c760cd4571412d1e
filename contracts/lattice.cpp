// The tables of a lattice: any basis, any extents in one to three dimensions, both boundary conditions.
//@mode real
//@rlimit 600000
#include "lattice_common.hpp"
struct Probe : Lattice
{
  using Lattice::ComputePositions;
  using Lattice::ComputeVectors;
  using Lattice::ComputeNeighbors;
  using Lattice::ComputeMomenta;
  Probe(Grid const& g) { static_cast<Grid&>(*this) = g; }
};
#ifdef VF_SYM
// component k of the point with these coordinates
static double point(Bravais const&, long k, long a, long b, long c) { return vf_uf(k, a, b, c); }
extern "C" Lattice::realvec_t stub_get_vector(Bravais const* b, coords const& x, coords const& y)
{
  vf::check(x.size() == Dim && y.size() == Dim, "pre: Bravais::GetVector needs points of its dimension");
  Lattice::realvec_t v(Dim, 0.);
  long c[3] = { 0, 0, 0 };
  for (size_t i = 0; i < Dim; i++) c[i] = y[i] - x[i];
  for (size_t i = 0; i < Dim; i++) v[i] = vf_uf((long)i, c[0], c[1], c[2]);
  return v;
}
static double recip(Bravais const&, long k, long a, long b, long c) { return vf_uf(k + 10, a, b, c); }
extern "C" Lattice::realvec_t stub_reciprocal(Bravais const* b, coords const& x)
{
  vf::check(x.size() == Dim, "pre: Bravais::GetReciprocalSpace needs a point of its dimension");
  Lattice::realvec_t v(Dim, 0.);
  long c[3] = { 0, 0, 0 };
  for (size_t i = 0; i < Dim; i++) c[i] = x[i];
  for (size_t i = 0; i < Dim; i++) v[i] = recip(*b, (long)i, c[0], c[1], c[2]);
  return v;
}
// the coordinates of a site (grid_index.cpp), one by one
extern "C" coords stub_coordinates(Grid const* g, size_t i)
{
  vf::check(g->IndexIsValid(i), "pre: GetCoordinates needs a valid index");
  coords c(Dim, 0);
  for (size_t k = 0; k < Dim; k++) {
    long v = vf::COORD(g->GetSize(), (long)i, (long)k);
    c[k] = v;
    vf::assume((v >= 0) & (v < (long)g->GetSize()[k]));
  }
  return c;
}
//@stub bwsl::Bravais::GetReciprocalSpace\( => stub_reciprocal
//@stub accumulate_product<std::vector<unsigned long => stub_product
//@stub bwsl::Bravais::GetVector\( => stub_get_vector
//@stub bwsl::HyperCubicGrid::GetCoordinates\( => stub_coordinates
//@stub bwsl::index_to_array<std::vector<long => stub_index_to_array
//@stub bwsl::array_to_index<std::vector<long => stub_array_to_index
#else
static double point(Bravais const& l, long k, long a, long b, long c)
{
  coords x{ a, b, c };
  x.resize(l.GetDim());
  return l.GetRealSpace(x)[(size_t)k];
}
static double recip(Bravais const& l, long k, long a, long b, long c)
{
  coords x{ a, b, c };
  x.resize(l.GetDim());
  return l.GetReciprocalSpace(x)[(size_t)k];
}
#endif
static void positions(size_t d)
{
  auto s = any_extents(d);
  auto b = any_bravais(d);
  Probe p(any_grid(s, vf::any<bool>("closed")));
  auto n = p.GetNumSites();
  vf::hint2([&](long i, long k) { return point(b, k, coord(s, i, 0), coord(s, i, 1), coord(s, i, 2)); });
  auto x = p.ComputePositions(b);
  vf::check(x.size() == n, "a position for each site");
  for (size_t k = 0; k < d; k++)
    vf::check_all(n, "the position of a site is the real space point with its coordinates", [&](size_t i) {
      return (x[i].size() == d) & vf::eqr(x[i][k], point(b, (long)k, coord(s, (long)i, 0), coord(s, (long)i, 1), coord(s, (long)i, 2)));
    });
}
VF_HARNESS(positions_1) { positions(1); }
VF_HARNESS(positions_2) { positions(2); }
VF_HARNESS(positions_3) { positions(3); }
static void momenta(size_t d)
{
  auto s = any_extents(d);
  auto b = any_bravais(d);
  bool closed = vf::any<bool>("closed");
  Probe p(any_grid(s, closed));
  auto n = p.GetNumSites();
  // the coordinates of the site, counted from the middle of the lattice, in units of the reciprocal vectors over the extents
  auto of = [&](long i, size_t k) {
    double r = 0.;
    for (size_t j = 0; j < d; j++) r += (double)(coord(s, i, j) - (long)(s[j] / 2)) * recip(b, (long)k, j == 0, j == 1, j == 2) / (double)s[j];
    return r;
  };
  auto x = any_site(n, "site");
  for (size_t k = 0; k < d; k++) {
    vf::focus2((long)x, (long)k);
    vf::hint([&](long) { return of((long)x, k); });
  }
  auto m = p.ComputeMomenta(b);
  vf::check(m.size() == (closed ? n : 0), "periodic: as many momenta as sites; open: none");
  if (closed) {
    vf::check(m[x].size() == d, "one component per dimension");
    for (size_t k = 0; k < d; k++) vf::check(vf::eqr(m[x][k], of((long)x, k)), "the momenta are those allowed by the periods of the lattice");
  }
}
VF_HARNESS(momenta_1) { momenta(1); }
VF_HARNESS(momenta_2) { momenta(2); }
VF_HARNESS(momenta_3) { momenta(3); }
