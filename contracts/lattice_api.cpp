// The parts of a lattice, and what its accessors report of them.
//@mode real
#include "lattice_tables.hpp"
#ifdef VF_SYM
extern "C" size_t stub_mapped(Grid const* g, size_t a, size_t b)
{
  vf::check(g->IndexIsValid(a) && g->IndexIsValid(b) && g->HasClosedBoundaries(), "pre: GetMappedSite needs two sites of a periodic grid");
  long r = vf_uf_i(40, (long)a, (long)b, 0);
  vf::assume((r >= 0) & (r < (long)g->GetNumSites()));
  return (size_t)r;
}
extern "C" const size_t* stub_find(const size_t* f, const size_t* l, size_t const& v)
{
  long n = l - f;
  vf::check(n >= 0, "pre: std::find needs a valid range");
  long r = vf::any<long>("r", 0, vf::B62);
  vf::assume(r <= n);
  vf::assume_all((size_t)r, [&](size_t k) { return f[k] != v; });
  vf::assume(r == n || f[r] == v);
  return f + r;
}
//@stub bwsl::HyperCubicGrid::GetMappedSite\( => stub_mapped
//@stub std::find<__gnu_cxx::__normal_iterator<unsigned long const\*, .*unsigned long>\( => stub_find
#endif
static void displacements(size_t d)
{
  auto s = any_extents(d);
  auto b = any_bravais(d);
  bool closed = vf::any<bool>("closed");
  auto l = any_lattice(b, s, closed);
  Tables t(l, b);
  auto n = l.GetNumSites();
  auto x = any_site(n, "a"), y = any_site(n, "b");
  auto v = l.GetVector(x, y), p = l.GetPosition(x);
  double r = l.GetDistance(x, y), q = 0.;
  vf::check((v.size() == d) & (p.size() == d), "one component per dimension");
  size_t z = closed ? l.GetMappedSite(x, y) : 0;
  for (size_t k = 0; k < d; k++) {
    vf::check(vf::eqr(p[k], t.pos(x, k)), "the position computed for the site");
    vf::check(vf::eqr(v[k], closed ? t.vec(z, k) : t.pos(y, k) - t.pos(x, k)), "periodic: the vector of the site seen from the other one; open: the difference of the positions");
    q += v[k] * v[k];
  }
  vf::check(vf::eqr(r, sqrt(q)), "the distance is the length of the vector");
}
VF_HARNESS(displacements_1) { displacements(1); }
VF_HARNESS(displacements_2) { displacements(2); }
VF_HARNESS(displacements_3) { displacements(3); }
static void tables(size_t d)
{
  auto s = any_extents(d);
  auto b = any_bravais(d);
  bool closed = vf::any<bool>("closed");
  auto l = any_lattice(b, s, closed);
  Tables t(l, b);
  auto n = l.GetNumSites();
  auto x = any_site(n, "a"), y = any_site(n, "b");
  vf::check(l.GetDim() == d && l.GetSize().size() == d && l.HasClosedBoundaries() == closed && l.HasOpenBoundaries() == !closed, "dimension, extents and boundaries as given");
  for (size_t i = 0; i < d; i++) vf::check(l.GetSize()[i] == s[i], "the extents as given");
  auto nb = l.GetNeighbors(x);
  vf::check(nb.size() == t.coordination(x) && l.GetCoordination(x) == nb.size(), "as many neighbours as computed for the site");
  vf::check_all(nb.size(), "the neighbours computed for the site", [&](size_t j) { return nb[j] == t.neighbor(x, j); });
  vf::check(l.GetCoordination() == t.coordination(0), "the coordination is that of the first site");
  if (closed) {
    auto k = l.GetMomentum(x);
    vf::check(k.size() == d, "one component of momentum per dimension");
    for (size_t i = 0; i < d; i++) vf::check(vf::eqr(k[i], t.mom(x, i)), "the momentum computed for the index");
  }
  if (l.AreNeighbors(x, y)) vf::check_exists(nb.size(), "neighbours are in the list of neighbours", [&](size_t j) { return nb[j] == y; });
  else vf::check_all(nb.size(), "sites in the list of neighbours are neighbours", [&](size_t j) { return nb[j] != y; });
}
VF_HARNESS(tables_1) { tables(1); }
VF_HARNESS(tables_2) { tables(2); }
VF_HARNESS(tables_3) { tables(3); }
static void winding(size_t d)
{
  auto s = any_extents(d);
  auto b = any_bravais(d);
  auto l = any_lattice(b, s, vf::any<bool>("closed"));
  coords j;
#ifdef VF_SYM
  vf::fill_any<long>(j, "jumps", d, -vf::B62, vf::B62);
#else
  for (size_t i = 0; i < d; i++) j.push_back(vf::any<long>("jump", -40, 40));
#endif
  auto w = l.GetWinding(j);
  vf::check(w.size() == d, "one winding per dimension");
  for (size_t i = 0; i < d; i++) {
    long n = (long)s[i], r = j[i] - w[i] * n; // what is left of the jump after whole turns
    vf::check((r > -n) & (r < n) & vf::imp(j[i] >= 0, r >= 0) & vf::imp(j[i] <= 0, r <= 0), "the winding is the number of whole turns around the lattice");
  }
}
VF_HARNESS(winding_1) { winding(1); }
VF_HARNESS(winding_2) { winding(2); }
VF_HARNESS(winding_3) { winding(3); }
