// Contracts of the index <-> coordinate maps (MathUtils, HyperCubicGrid)
#include "spec_grid.hpp"
#include <bwsl/HyperCubicGrid.hpp>
using namespace bwsl;
using Grid = HyperCubicGrid;

static Grid any_grid(std::vector<size_t> const& s)
{
  vf::hint([&](long k) { return vf::PP(s, k); });
  bool closed = vf::any<bool>("closed");
  return Grid(s, closed ? Grid::boundaries_t::Closed : Grid::boundaries_t::Open);
}

VF_HARNESS(ctor)
{
  auto s = vf::any_sizes();
  auto g = any_grid(s);
  vf::check(g.GetNumSites() == (size_t)vf::SP(s, 0), "number of sites is the product of the extents");
  vf::check(g.GetDim() == s.size(), "dimension");
  vf::check(g.GetSize().size() == s.size(), "size length");
  vf::check_all(s.size(), "sizes stored", [&](size_t k) { return g.GetSize()[k] == s[k]; });
  auto i = vf::any<size_t>("i");
  vf::check(g.IndexIsValid(i) == (i < (size_t)vf::SP(s, 0)), "IndexIsValid");
}

VF_HARNESS(coordinates)
{
  auto s = vf::any_sizes();
  auto g = any_grid(s);
  auto i = vf::any<size_t>("i", 0, vf::B62);
  vf::assume(i < g.GetNumSites());
  vf::hint([&](long k) { return vf::SP(s, k); });
  vf::hint([&](long k) { return vf::mod((long)i, vf::SP(s, k)); });
  vf::hint([&](long k) { return vf::COORD(s, (long)i, k); });
  auto c = g.GetCoordinates(i);
  vf::check(c.size() == s.size(), "one coordinate per dimension");
  vf::check_all(s.size(), "k-th coordinate", [&](size_t k) { return c[k] == vf::COORD(s, (long)i, (long)k); });
}

// arbitrary coordinates on the grid
static Grid::coords_t any_ongrid(std::vector<size_t> const& s, const char* name = "coords")
{
  Grid::coords_t c;
#ifdef VF_SYM
  vf::fill_any<long>(c, name, s.size());
  vf::assume_all(s.size(), [&](size_t k) { return (c[k] >= 0) & (c[k] < (long)s[k]); });
  vf::ongrid(s, c);
#else
  for (auto x : s) c.push_back(vf::any<long>(name, 0, (long)x - 1));
#endif
  return c;
}

// the library functions the methods are built on (their contracts replace them in grid_wrap.cpp)
VF_HARNESS(index_to_array)
{
  auto s = vf::any_sizes();
  auto i = vf::any<size_t>("i", 0, vf::B62);
  vf::hint([&](long k) { return vf::PP(s, k); });
  vf::hint([&](long k) { return vf::SP(s, k); });
  vf::assume(i < (size_t)vf::SP(s, 0));
  vf::hint([&](long k) { return vf::mod((long)i, vf::SP(s, k)); });
  vf::hint([&](long k) { return vf::COORD(s, (long)i, k); });
  auto c = index_to_array<Grid::coords_t, Grid::gridsize_t>(i, s);
  vf::check(c.size() == s.size(), "one coordinate per dimension");
  vf::check_all(s.size(), "k-th coordinate", [&](size_t k) { return c[k] == vf::COORD(s, (long)i, (long)k); });
}

VF_HARNESS(array_to_index)
{
  auto s = vf::any_sizes();
  auto c = any_ongrid(s);
  vf::hint([&](long k) { return vf::PP(s, k); });
  vf::hint([&](long k) { return vf::SP(s, k); });
  vf::hint([&](long k) { return vf::DIG(s, c, 0) - vf::DIG(s, c, k); });
  auto i = array_to_index(c, s);
  vf::check(i == (size_t)vf::DIG(s, c, 0), "index is the mixed-radix value of the coordinates");
}

VF_HARNESS(index)
{
  auto s = vf::any_sizes();
  auto g = any_grid(s);
  auto c = any_ongrid(s);
  vf::hint([&](long k) { return vf::SP(s, k); });
  vf::hint([&](long k) { return vf::DIG(s, c, 0) - vf::DIG(s, c, k); });
  auto i = g.GetIndex(c);
  vf::check(i == (size_t)vf::DIG(s, c, 0), "index is the mixed-radix value of the coordinates");
  vf::check(i < g.GetNumSites(), "index below the number of sites");
  vf::check(g.IndexIsValid(i), "index valid");
}

VF_HARNESS(isongrid)
{
  auto s = vf::any_sizes();
  auto g = any_grid(s);
  Grid::coords_t c;
  vf::fill_any<long>(c, "coords", s.size());
  if (g.IsOnGrid(c))
    vf::check_all(s.size(), "on the grid: every coordinate within its extent", [&](size_t k) { return (c[k] >= 0) & (c[k] < (long)s[k]); });
}

VF_HARNESS(isongrid_all)
{
  auto s = vf::any_sizes();
  auto g = any_grid(s);
  auto c = any_ongrid(s);
  vf::check(g.IsOnGrid(c), "accepted when every coordinate is within its extent");
}

VF_HARNESS(extents_product)
{
  auto s = vf::any_sizes();
  vf::hint([&](long k) { return vf::PP(s, k); });
  vf::check(accumulate_product(s) == (size_t)vf::SP(s, 0), "product of the extents");
}

// the images of the first shell: a grid of three sites along each dimension (the stand-in stub_image of lattice_vec.cpp)
static void first_shell(size_t d)
{
  Grid::gridsize_t s(d, 3);
  size_t n = accumulate_product(s);
  vf::check(n == (d == 1 ? 3U : d == 2 ? 9U : 27U), "number of images");
  auto i = vf::any<size_t>("i", 0, 26), j = vf::any<size_t>("j", 0, 26);
  vf::assume((i < n) & (j < n));
  auto a = index_to_array<Grid::coords_t, Grid::gridsize_t>(i, s), b = index_to_array<Grid::coords_t, Grid::gridsize_t>(j, s);
  vf::check(a.size() == d, "one digit per dimension");
  bool same = true;
  for (size_t k = 0; k < d; k++) {
    vf::check((a[k] >= 0) & (a[k] <= 2), "digits are 0, 1 or 2");
    vf::check(vf::imp(i == n / 2, a[k] == 1), "the site itself is half way");
    same &= a[k] == b[k];
  }
  vf::check(vf::imp(same, i == j), "each image has a number of its own");
}
VF_HARNESS(first_shell_1) { first_shell(1); }
VF_HARNESS(first_shell_2) { first_shell(2); }
VF_HARNESS(first_shell_3) { first_shell(3); }
