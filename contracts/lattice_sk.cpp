// The structure factor of a periodic lattice: any basis, any extents in one to three dimensions.
//@mode real
//@rlimit 1500000
//@nra 0
#include "lattice_common.hpp"
#ifdef VF_SYM
static size_t sites(Lattice const* l)
{
  vf::check(l->GetDim() == Dim && l->GetNumSites() < (1UL << 62), "pre: the grid is set up first");
  return l->GetNumSites();
}
extern "C" std::vector<realvec> stub_positions(Lattice const* l, Bravais const&) { std::vector<realvec> p; vf_table_f(&p, sites(l), Dim, 0); return p; }
extern "C" std::vector<realvec> stub_vectors(Lattice const* l, Bravais const&) { std::vector<realvec> p; vf_table_f(&p, sites(l), Dim, 10); return p; }
extern "C" std::vector<realvec> stub_momenta(Lattice const* l, Bravais const&) { std::vector<realvec> p; if (l->HasClosedBoundaries()) vf_table_f(&p, sites(l), Dim, 30); return p; }
extern "C" Lattice::neighbors_t stub_neighbors(Lattice const* l, Bravais const&) { Lattice::neighbors_t p; vf_table_i(&p, sites(l), 20); return p; }
static double mom(Lattice const&, long i, size_t k) { return vf_uf((long)k + 30, i, 0, 0); }
// component k of the vector from one site to another
static double vec(Lattice const&, long a, long b, size_t k) { return vf_uf((long)k + 40, a, b, 0); }
extern "C" realvec stub_vector(Lattice const* l, size_t a, size_t b)
{
  vf::check(l->IndexIsValid(a) && l->IndexIsValid(b), "pre: GetVector needs two sites");
  realvec v(Dim, 0.);
  for (size_t k = 0; k < Dim; k++) v[k] = vec(*l, (long)a, (long)b, k);
  return v;
}
//@stub accumulate_product<std::vector<unsigned long => stub_product
//@stub bwsl::Lattice::ComputePositions\( => stub_positions
//@stub bwsl::Lattice::ComputeVectors\( => stub_vectors
//@stub bwsl::Lattice::ComputeMomenta\( => stub_momenta
//@stub bwsl::Lattice::ComputeNeighbors\( => stub_neighbors
//@stub bwsl::Lattice::GetVector\( => stub_vector
#else
static double mom(Lattice const& l, long i, size_t k) { return l.GetMomentum((size_t)i)[k]; }
static double vec(Lattice const& l, long a, long b, size_t k) { return l.GetVector((size_t)a, (size_t)b)[k]; }
#endif
static Lattice any_lattice(Bravais const& b, sizes const& s, bool closed)
{
#ifdef VF_SYM
  Building = true;
#endif
  Lattice l(b, s, closed ? Grid::boundaries_t::Closed : Grid::boundaries_t::Open);
#ifdef VF_SYM
  Building = false;
#endif
  return l;
}
static void structure(size_t d, bool accumulate)
{
  auto s = any_extents(d);
  auto b = any_bravais(d);
  bool closed = vf::any<bool>("closed");
  auto l = any_lattice(b, s, closed);
  auto n = l.GetNumSites();
  vf::assume(n < (1UL << 31)); // the square of the number of sites is a number
  constexpr double lo = std::numeric_limits<double>::lowest();
  std::vector<double> occ, sk, old;
  vf::fill_nice(occ, "occupations", n, vf::symbolic ? lo : -100., vf::symbolic ? -lo : 100.);
  if (accumulate) { vf::fill_nice(sk, "sk", n, vf::symbolic ? lo : -100., vf::symbolic ? -lo : 100.); old = sk; }
  auto mult = vf::nice("mult", vf::symbolic ? lo : -100., vf::symbolic ? -lo : 100.);
  auto x = any_site(n, "momentum");
  auto phase = [&](long j) {
    double r = 0.;
    for (size_t k = 0; k < d; k++) r += mom(l, (long)x, k) * vec(l, 0, j, k);
    return r;
  };
  auto sum = vf::rec<double, 2>(D{ 0., 0. }, [&](D c, long j) { return D{ c[0] + std::sin(phase(j)) * occ[(size_t)j], c[1] + std::cos(phase(j)) * occ[(size_t)j] }; });
  double before = accumulate ? old[x] : 0.;
  auto result = [&] {
    double im = sum(0, (long)n), re = sum(1, (long)n);
    return before + mult * (im * im + re * re) / (double)(n * n);
  };
  vf::focus2((long)x, (long)x);
  vf::hint([&](long j) { return sum(0, j); });
  vf::hint([&](long j) { return sum(1, j); });
  vf::hint([&](long) { return result(); });
  vf::hint([&](long) { return before; });
  if (accumulate) l.AccumulateSk(occ, sk, mult);
  else sk = l.ComputeSk(occ, mult);
  vf::check(sk.size() == n, "a value for each momentum");
  double scale = 0.; // rounding is relative to the terms
  if (!vf::symbolic) {
    for (auto o : occ) scale += std::abs(o);
    scale = std::abs(before) + std::abs(mult) * scale * scale;
  }
  vf::check(vf::eqr(sk[x] + scale, (closed ? result() : before) + scale), "periodic: the squared modulus of the Fourier transform of the occupations over the square of the number of sites; open: nothing");
}
VF_HARNESS(accumulate_1) { structure(1, true); }
VF_HARNESS(accumulate_2) { structure(2, true); }
VF_HARNESS(accumulate_3) { structure(3, true); }
VF_HARNESS(compute_1) { structure(1, false); }
VF_HARNESS(compute_2) { structure(2, false); }
VF_HARNESS(compute_3) { structure(3, false); }
