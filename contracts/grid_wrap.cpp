// Contracts of the periodic arithmetic of HyperCubicGrid
//@hide def
#include "spec_grid.hpp"
#include <bwsl/HyperCubicGrid.hpp>
using namespace bwsl;
using Grid = HyperCubicGrid;

#ifdef VF_SYM
// contracts of the two conversion functions (discharged by grid_index.cpp)
//@stub bwsl::index_to_array<std::vector<long => stub_index_to_array
extern "C" Grid::coords_t stub_index_to_array(size_t index, Grid::gridsize_t const& size)
{
  vf::positive(size);
  vf::check(vf::SP(size, 0) < vf::B62, "pre: number of sites");
  vf::check(index < (size_t)vf::SP(size, 0), "pre: index_to_array needs a valid index");
  Grid::coords_t c;
  vf::fill_any<long>(c, "c", size.size());
  vf::assume_all(size.size(), [&](size_t k) { return c[k] == vf::COORD(size, (long)index, (long)k); });
  return c;
}
//@stub bwsl::array_to_index<std::vector<long => stub_array_to_index
extern "C" size_t stub_array_to_index(Grid::coords_t const& a, Grid::gridsize_t const& size)
{
  vf::positive(size);
  vf::check(vf::SP(size, 0) < vf::B62, "pre: number of sites");
  vf::check(a.size() == size.size(), "pre: one coordinate per dimension");
  vf::ongrid(size, a);
  return (size_t)vf::DIG(size, a, 0);
}
#endif

static Grid any_grid(std::vector<size_t> const& s, bool closed)
{
  vf::hint([&](long k) { return vf::PP(s, k); });
  vf::hint([&](long k) { return vf::SP(s, k); });
  return Grid(s, closed ? Grid::boundaries_t::Closed : Grid::boundaries_t::Open);
}

static void index_hints(std::vector<size_t> const& s, long i)
{
  vf::hint([&](long k) { return vf::mod(i, vf::SP(s, k)); });
  vf::hint([&](long k) { return vf::COORD(s, i, k); });
}

static void any_coords(Grid::coords_t& c, std::vector<size_t> const& s, const char* name)
{
#ifdef VF_SYM
  vf::fill_any<long>(c, name, s.size());
#else
  for (auto x : s) { long b = (long)x < (1L << 50) ? 1000 * (long)x : (1L << 62); c.push_back(vf::any<long>(name, -b, b)); }
#endif
}

VF_HARNESS(enforce_closed)
{
  auto s = vf::any_sizes();
  auto g = any_grid(s, true);
  Grid::coords_t c;
  any_coords(c, s, "coords");
  auto c0 = c;
  vf::hint([&](long k) { return vf::mod(c0[k], (long)s[k]); });
  g.EnforceBoundaries(c);
  vf::check(c.size() == s.size(), "dimension kept");
  vf::check_all(s.size(), "coordinate reduced modulo the extent", [&](size_t k) { return c[k] == vf::mod(c0[k], (long)s[k]); });
}

VF_HARNESS(enforce_open)
{
  auto s = vf::any_sizes();
  auto g = any_grid(s, false);
  Grid::coords_t c;
  any_coords(c, s, "coords");
  auto c0 = c;
  g.EnforceBoundaries(c);
  vf::check(c.size() == s.size(), "dimension kept");
  vf::check_all(s.size(), "open boundaries: coordinates untouched", [&](size_t k) { return c[k] == c0[k]; });
}

static size_t any_site(Grid const& g, std::vector<size_t> const& s, const char* name)
{
#ifdef VF_SYM
  auto a = vf::any<size_t>(name, 0, vf::B62);
  vf::assume(a < g.GetNumSites());
#else
  auto a = vf::any<size_t>(name, 0, vf::SP(s, 0) - 1);
#endif
  index_hints(s, (long)a);
  return a;
}

VF_HARNESS(mapped)
{
  auto s = vf::any_sizes();
  auto g = any_grid(s, true);
  auto a = any_site(g, s, "a"), b = any_site(g, s, "b");
  vf::hint([&](long k) { return vf::COORD(s, b, k) - vf::COORD(s, a, k); });
  auto m = [&](long k) { long d = vf::COORD(s, b, k) - vf::COORD(s, a, k); return d + (d < 0) * (long)s[k]; };
  vf::hint(m);
  auto r = g.GetMappedSite(a, b);
  vf::check(r < g.GetNumSites(), "mapped site is valid");
  vf::check_all(s.size(), "mapped site is the periodic difference", [&](size_t k) { return vf::COORD(s, r, k) == m((long)k); });
}

VF_HARNESS(unmapped)
{
  auto s = vf::any_sizes();
  auto g = any_grid(s, true);
  auto a = any_site(g, s, "a"), b = any_site(g, s, "b");
  vf::hint([&](long k) { return vf::COORD(s, b, k) + vf::COORD(s, a, k); });
  auto m = [&](long k) { long d = vf::COORD(s, b, k) + vf::COORD(s, a, k); return d - (d >= (long)s[k]) * (long)s[k]; };
  vf::hint(m);
  auto r = g.GetUnMappedSite(b, a);
  vf::check(r < g.GetNumSites(), "translated site is valid");
  vf::check_all(s.size(), "translated site is the periodic sum", [&](size_t k) { return vf::COORD(s, r, k) == m((long)k); });
}

VF_HARNESS(jump_closed)
{
  auto s = vf::any_sizes();
  auto g = any_grid(s, true);
  auto a = any_site(g, s, "a"), b = any_site(g, s, "b");
  vf::hint([&](long k) { return vf::COORD(s, b, k) - vf::COORD(s, a, k); });
  vf::hint([&](long k) { long d = vf::COORD(s, b, k) - vf::COORD(s, a, k), n = (long)s[k]; return d - (2 * d > n) * n + (2 * d <= -n) * n; });
  auto r = g.GetJump(a, b);
  vf::check(r.size() == s.size(), "one component per dimension");
  vf::check_all(s.size(), "jump leads from a to b on the torus", [&](size_t k) { long d = r[k] - (vf::COORD(s, b, k) - vf::COORD(s, a, k)); return (d == 0) | (d == (long)s[k]) | (d == -(long)s[k]); });
  vf::check_all(s.size(), "jump is the shortest one, ties positive", [&](size_t k) { return (2 * r[k] <= (long)s[k]) & (2 * r[k] > -(long)s[k]); });
}

VF_HARNESS(jump_open)
{
  auto s = vf::any_sizes();
  auto g = any_grid(s, false);
  auto a = any_site(g, s, "a"), b = any_site(g, s, "b");
  vf::hint([&](long k) { return vf::COORD(s, b, k) - vf::COORD(s, a, k); });
  auto r = g.GetJump(a, b);
  vf::check(r.size() == s.size(), "one component per dimension");
  vf::check_all(s.size(), "open boundaries: plain coordinate difference", [&](size_t k) { return r[k] == vf::COORD(s, b, k) - vf::COORD(s, a, k); });
}

// index -> coordinates -> index and back, as lemmas over the two conversion contracts
VF_HARNESS(roundtrip_index)
{
  auto s = vf::any_sizes();
  auto g = any_grid(s, vf::any<bool>("closed"));
  auto i = any_site(g, s, "i");
  auto c = g.GetCoordinates(i);
  vf::check(c.size() == s.size(), "one coordinate per dimension");
  vf::check(g.IsOnGrid(c), "coordinates of a valid index are on the grid");
  auto j = g.GetIndex(c);
  vf::check(j < g.GetNumSites(), "index valid");
  vf::same_site(s, (long)j, (long)i);
  vf::check(j == i, "index -> coordinates -> index");
}

VF_HARNESS(roundtrip_coords)
{
  auto s = vf::any_sizes();
  auto g = any_grid(s, vf::any<bool>("closed"));
  Grid::coords_t c;
#ifdef VF_SYM
  vf::fill_any<long>(c, "coords", s.size());
  vf::assume_all(s.size(), [&](size_t k) { return (c[k] >= 0) & (c[k] < (long)s[k]); });
  vf::ongrid(s, c);
#else
  for (auto x : s) c.push_back(vf::any<long>("coords", 0, (long)x - 1));
#endif
  auto i = g.GetIndex(c);
  vf::check(i < g.GetNumSites(), "index valid");
  vf::check(g.IndexIsValid(i), "index valid (IndexIsValid)");
  index_hints(s, (long)i);
  auto r = g.GetCoordinates(i);
  vf::check(r.size() == c.size(), "same dimension");
  vf::check_all(s.size(), "coordinates -> index -> coordinates", [&](size_t k) { return r[k] == c[k]; });
}

// translating by a and mapping back by a are inverse
VF_HARNESS(map_unmap)
{
  auto s = vf::any_sizes();
  auto g = any_grid(s, true);
  auto a = any_site(g, s, "a"), b = any_site(g, s, "b");
  vf::hint([&](long k) { return vf::COORD(s, b, k) - vf::COORD(s, a, k); });
  auto m = [&](long k) { long d = vf::COORD(s, b, k) - vf::COORD(s, a, k); return d + (d < 0) * (long)s[k]; };
  vf::hint(m);
  auto r = g.GetMappedSite(a, b);
  index_hints(s, (long)r);
  vf::hint([&](long k) { return vf::COORD(s, r, k) + vf::COORD(s, a, k); });
  auto t = [&](long k) { long d = vf::COORD(s, r, k) + vf::COORD(s, a, k); return d - (d >= (long)s[k]) * (long)s[k]; };
  vf::hint(t);
  auto q = g.GetUnMappedSite(r, a);
  vf::check(q < g.GetNumSites(), "valid site");
  vf::same_site(s, (long)q, (long)b);
  vf::check(q == b, "translating the mapped site back gives the site");
}
