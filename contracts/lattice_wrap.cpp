// Wrapping of coordinates on a lattice: any extents in one to three dimensions, both boundary conditions.
//@mode real
#include "lattice_common.hpp"
struct Probe : Lattice
{
  using Lattice::EnforceBoundaries;
  Probe(Grid const& g) { static_cast<Grid&>(*this) = g; }
};
//@stub accumulate_product<std::vector<unsigned long => stub_product
static void enforce(size_t d)
{
  auto s = any_extents(d);
  Probe p(any_grid(s, vf::any<bool>("closed")));
  coords c;
  for (size_t i = 0; i < d; i++) c.push_back(vf::any<long>("c", vf::symbolic ? -vf::B62 : -50, vf::symbolic ? vf::B62 : 50));
  auto c0 = c;
  vf::hint([&](long k) { return vf::mod(c0[(size_t)k], (long)s[(size_t)k]); });
  p.EnforceBoundaries(c);
  for (size_t i = 0; i < d; i++) vf::check(c[i] == vf::mod(c0[i], (long)s[i]), "coordinates modulo the extents");
}
VF_HARNESS(enforce_1) { enforce(1); }
VF_HARNESS(enforce_2) { enforce(2); }
VF_HARNESS(enforce_3) { enforce(3); }
// stepping along a direction and back, on a periodic lattice (the opposite direction of each is listed: bravais.cpp)
static void back(size_t d)
{
  auto s = any_extents(d);
  Probe p(any_grid(s, true));
  coords c, v;
  for (size_t i = 0; i < d; i++) {
    c.push_back(vf::any<long>("c", 0, vf::symbolic ? vf::B62 : (long)s[i] - 1));
    v.push_back(vf::any<long>("direction", vf::symbolic ? -vf::B62 : -50, vf::symbolic ? vf::B62 : 50));
    vf::assume(c[i] < (long)s[i]);
  }
  auto e = c;
  for (size_t i = 0; i < d; i++) e[i] += v[i];
  auto t = e;
  vf::hint([&](long k) { return vf::mod(t[(size_t)k], (long)s[(size_t)k]); });
  p.EnforceBoundaries(e);
  for (size_t i = 0; i < d; i++) vf::check(e[i] == vf::mod(t[i], (long)s[i]), "coordinates modulo the extents");
  for (size_t i = 0; i < d; i++) e[i] -= v[i];
  auto u = e;
  vf::clear_hints();
  vf::hint([&](long k) { return vf::mod(u[(size_t)k], (long)s[(size_t)k]); });
  p.EnforceBoundaries(e);
  for (size_t i = 0; i < d; i++) {
    vf::mod_shift(t[i], -v[i], (long)s[i]);
    vf::check(e[i] == c[i], "a step along a direction and a step against it lead back");
  }
}
VF_HARNESS(back_1) { back(1); }
VF_HARNESS(back_2) { back(2); }
VF_HARNESS(back_3) { back(3); }
