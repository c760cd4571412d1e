// The neighbours of the sites of a lattice: any directions, any extents in one to three dimensions.
//@mode real
#include "lattice_common.hpp"
struct Probe : Lattice
{
  using Lattice::ComputeNeighbors;
  Probe(Grid const& g) { static_cast<Grid&>(*this) = g; }
};
#ifdef VF_SYM
// direction j of the Bravais lattice, component k
static long direction(Bravais const&, long j, long k) { return vf_uf_i(50, j, k, 0); }
// index of the site with these coordinates
static long site(sizes const&, long a, long b, long c) { return vf_uf_i(51, a, b, c); }
// coordinate k of the site i; the coordinate c of direction k brought back to the grid
static long place(sizes const&, long i, long k) { return vf_uf_i(52, i, k, 0); }
static long wrapped(sizes const&, long c, long k) { return vf_uf_i(53, c, k, 0); }
extern "C" coords stub_coordinates(Grid const* g, size_t i)
{
  vf::check(g->IndexIsValid(i), "pre: GetCoordinates needs a valid index");
  coords c(Dim, 0);
  for (size_t k = 0; k < Dim; k++) {
    c[k] = place(g->GetSize(), (long)i, (long)k);
    vf::assume((c[k] >= 0) & (c[k] < (long)g->GetSize()[k]));
  }
  return c;
}
extern "C" coords stub_neighbor(Bravais const* b, coords const& x, size_t j)
{
  vf::check(x.size() == Dim, "pre: Bravais::GetNeighbor needs a point of its dimension");
  vf::check(j < b->GetGamma(), "pre: Bravais::GetNeighbor needs one of its directions");
  coords n(Dim, 0);
  for (size_t i = 0; i < Dim; i++) {
    long v = direction(*b, (long)j, (long)i);
    vf::assume((v > -vf::B62) & (v < vf::B62));
    n[i] = x[i] + v;
  }
  return n;
}
extern "C" size_t stub_index(Grid const* g, coords const& a)
{
  vf::check(a.size() == Dim, "pre: one coordinate per dimension");
  for (size_t i = 0; i < Dim; i++) vf::check((a[i] >= 0) & (a[i] < (long)g->GetSize()[i]), "pre: GetIndex needs a point on the grid");
  return (size_t)site(g->GetSize(), a[0], Dim > 1 ? a[1] : 0, Dim > 2 ? a[2] : 0);
}
extern "C" void stub_enforce(Lattice const* l, coords& a)
{
  vf::check(a.size() == Dim, "pre: one coordinate per dimension");
  for (size_t i = 0; i < Dim; i++) {
    a[i] = wrapped(l->GetSize(), a[i], (long)i);
    vf::assume((a[i] >= 0) & (a[i] < (long)l->GetSize()[i]));
  }
}
//@stub accumulate_product<std::vector<unsigned long => stub_product
//@stub bwsl::Bravais::GetNeighbor\( => stub_neighbor
//@stub bwsl::Lattice::EnforceBoundaries\( => stub_enforce
//@stub bwsl::HyperCubicGrid::GetIndex\( => stub_index
//@stub bwsl::HyperCubicGrid::GetCoordinates\( => stub_coordinates
#else
static long direction(Bravais const& b, long j, long k) { return b.GetNeighbor(coords(b.GetDim(), 0), (size_t)j)[(size_t)k]; }
static long place(sizes const& s, long i, long k) { return vf::COORD(s, i, k); }
static long wrapped(sizes const& s, long c, long k) { return vf::mod(c, (long)s[(size_t)k]); }
static long site(sizes const& s, long a, long b, long c)
{
  coords x{ a, b, c };
  x.resize(s.size());
  return vf::DIG(s, x, 0);
}
#endif
static void neighbors(size_t d)
{
  auto s = any_extents(d);
  auto g = vf::any<size_t>("gamma", 0, vf::symbolic ? 1L << 40 : 3);
  if (!vf::symbolic) g *= 2;
  auto b = any_bravais(d, g);
  bool closed = vf::any<bool>("closed");
  Probe p(any_grid(s, closed));
  auto n = p.GetNumSites();
  auto x = any_site(n, "site");
  auto to = [&](long j, size_t k) { return k < d ? place(s, (long)x, (long)k) + direction(b, j, (long)k) : 0; }; // where direction j leads to
  auto on = [&](long j) {
    bool r = true;
    for (size_t k = 0; k < d; k++) { long t = to(j, k); r = r & (t >= 0) & (t < (long)s[k]); }
    return r | closed;
  };
  auto target = [&](long j) { return site(s, wrapped(s, to(j, 0), 0), d > 1 ? wrapped(s, to(j, 1), 1) : 0, d > 2 ? wrapped(s, to(j, 2), 2) : 0); };
  // how many of the first directions lead to a site, and which site is the m-th of them
  auto m = vf::any<long>("m", 0, vf::symbolic ? vf::B62 : 6);
  auto c = vf::rec<long, 2>(L{ 0, 0 }, [&](L v, long j) { return L{ v[0] + vf::ite(on(j), 1L, 0L), vf::ite(on(j) & (v[0] == m), target(j), v[1]) }; });
  vf::focus2((long)x, m);
  vf::hint([&](long j) { return c(0, j); });
  vf::hint([&](long j) { return c(1, j); });
  vf::hint([&](long) { return c(0, (long)g); });
  vf::hint([&](long) { return c(1, (long)g); });
  auto q = p.ComputeNeighbors(b);
  vf::check(q.size() == n, "a list of neighbours for each site");
  vf::check((long)q[x].size() == c(0, (long)g), "one neighbour for each direction that leads to a site");
  if (m < (long)q[x].size()) vf::check((long)q[x][(size_t)m] == c(1, (long)g), "the neighbours in the order of the directions");
}
VF_HARNESS(neighbors_1) { neighbors(1); }
VF_HARNESS(neighbors_2) { neighbors(2); }
VF_HARNESS(neighbors_3) { neighbors(3); }
