// The vectors between the sites of a periodic lattice: the nearest of the periodic images; any basis, any extents in one to three dimensions.
//@mode real
//@rlimit 1500000
//@nra 0
#include "lattice_common.hpp"
struct Probe : Lattice
{
  using Lattice::ComputeVectors;
  Probe(Grid const& g) { static_cast<Grid&>(*this) = g; }
};
static long pow3(size_t d) { return d == 1 ? 3 : d == 2 ? 9 : 27; }
#ifdef VF_SYM
// coordinate k of the site i (coordinates of distinct sites: grid_index.cpp)
static long place(sizes const&, long i, long k) { return vf_uf_i(52, i, k, 0); }
// images are numbered by the indices of a grid of three sites along each dimension; digit m of the number says in which cell along m the image is.
// That this numbers each image of the first shell once, and the site itself half way, is proved in grid_index.cpp (first_shell).
static long digit(long q, size_t, size_t m) { return vf_uf_i(54, q, (long)m, 0); }
// component k of the vector to the point with these coordinates; its length
static double vec(Bravais const&, long k, long a, long b, long c) { return vf_uf(k, a, b, c); }
static double len(Bravais const&, long a, long b, long c) { return vf_uf(3, a, b, c); }
extern "C" coords stub_coordinates(Grid const* g, size_t i)
{
  vf::check(g->IndexIsValid(i), "pre: GetCoordinates needs a valid index");
  coords c(Dim, 0);
  for (size_t k = 0; k < Dim; k++) {
    c[k] = place(g->GetSize(), (long)i, (long)k);
    vf::assume((c[k] >= 0) & (c[k] < (long)g->GetSize()[k]) & vf::imp(i == 0, c[k] == 0));
  }
  return c;
}
extern "C" std::pair<double, realvec> stub_distance_vector(Bravais const* b, coords const& x, coords const& y)
{
  vf::check(x.size() == Dim && y.size() == Dim, "pre: Bravais::GetDistanceVector needs points of its dimension");
  realvec v(Dim, 0.);
  long c[3] = { 0, 0, 0 };
  for (size_t i = 0; i < Dim; i++) c[i] = y[i] - x[i];
  for (size_t i = 0; i < Dim; i++) v[i] = vec(*b, (long)i, c[0], c[1], c[2]);
  return std::make_pair(len(*b, c[0], c[1], c[2]), v);
}
extern "C" coords stub_image(size_t index, sizes const& size)
{
  size_t n = 1;
  for (size_t i = 0; i < size.size(); i++) { vf::check(size[i] == 3, "pre: images of the first shell"); n *= 3; }
  vf::check(index < n, "pre: index_to_array needs a valid index");
  coords c(size.size(), 0);
  for (size_t k = 0; k < size.size(); k++) {
    long g = digit((long)index, Dim, k);
    vf::assume((g >= 0) & (g <= 2) & vf::imp((long)index == pow3(Dim) / 2, g == 1));
    c[k] = vf::ite(g == 0, 0L, vf::ite(g == 1, 1L, 2L));
  }
  return c;
}
extern "C" size_t stub_images(sizes const& v)
{
  size_t r = stub_product(v);
  if (Building) return r;
  auto n = vf::any<size_t>("images", 0, 27); // a name for the number of images: the loop over them is cut, not unrolled
  vf::assume(n == r);
  return n;
}
//@stub accumulate_product<std::vector<unsigned long => stub_images
//@stub bwsl::Bravais::GetDistanceVector\( => stub_distance_vector
//@stub bwsl::HyperCubicGrid::GetCoordinates\( => stub_coordinates
//@stub bwsl::index_to_array<std::vector<long => stub_image
#else
static long place(sizes const& s, long i, long k) { return vf::COORD(s, i, k); }
static long digit(long q, size_t d, size_t m) { return vf::mod(vf::div(q, pow3(d) / pow3(m + 1)), 3); }
static double vec(Bravais const& l, long k, long a, long b, long c)
{
  coords x{ a, b, c };
  x.resize(l.GetDim());
  return l.GetRealSpace(x)[(size_t)k];
}
static double len(Bravais const& l, long a, long b, long c)
{
  double r = 0.;
  for (size_t k = 0; k < l.GetDim(); k++) r += vec(l, (long)k, a, b, c) * vec(l, (long)k, a, b, c);
  return std::sqrt(r);
}
#endif
static void vectors(size_t d)
{
  auto s = any_extents(d);
  auto b = any_bravais(d);
  bool closed = vf::any<bool>("closed");
  Probe p(any_grid(s, closed));
  auto n = p.GetNumSites();
  auto x = any_site(n, "site");
  long images = pow3(d);
  // coordinate k of the image q of the site
  auto at = [&](long q, size_t k) { return k < d ? place(s, (long)x, (long)k) + vf::ite(digit(q, d, k) == 0, -(long)s[k], vf::ite(digit(q, d, k) == 1, 0L, (long)s[k])) : 0; };
  auto v = [&](long q, size_t k) { return vec(b, (long)k, at(q, 0), at(q, 1), at(q, 2)); };
  auto r = [&](long q) { return len(b, at(q, 0), at(q, 1), at(q, 2)); };
#ifdef VF_SYM
  for (size_t k = 0; k < d; k++) vf::assume((place(s, (long)x, (long)k) >= 0) & (place(s, (long)x, (long)k) < (long)s[k]));
  for (size_t k = 0; k < d; k++) vf::assume(digit(images / 2, d, k) == 1);
  // the nearest of the first images, starting from the site itself
  auto best = vf::rec<long, 1>(L{ images / 2 }, [&](L c, long q) { return L{ vf::ite(r(q) < r(c[0]), q, c[0]) }; });
  long m = vf::ite(closed, best(images), images / 2);
  for (size_t k = 0; k < d; k++) vf::focus2((long)x, (long)k);
  vf::hint([&](long q) { return r(best(q)); });
  for (size_t k = 0; k < d; k++) {
    vf::hint([&](long q) { return v(best(q), k); });
    vf::hint([&](long) { return v(m, k); });
  }
#endif
  auto t = p.ComputeVectors(b);
  vf::check(t.size() == n, "a vector for each site");
  vf::check(t[x].size() == d, "one component per dimension");
#ifdef VF_SYM
  // best is one of the images, and none is nearer
  vf::induct(images, "lemma: the nearest image is an image", [&](long q) { return (best(q) >= 0) & (best(q) < images); });
  auto o = vf::any<long>("other", 0, images - 1);
  vf::induct(images, "lemma: no image is nearer", [&](long q) { return vf::imp(o < q, r(best(q)) <= r(o)); });
  vf::check(vf::imp(closed, r(m) <= r(o)), "periodic: no image in the first shell is nearer");
  bool is = (m >= 0) & (m < images) & vf::imp(!closed, m == images / 2);
  for (size_t k = 0; k < d; k++) is = is & (t[x][k] == v(m, k));
  vf::check(is, "the vector to an image of the site, the nearest one (periodic), or to the site itself (open)");
#else
  double y = 0.;
  for (auto c : t[x]) y += c * c;
  auto is = [&](long q) { for (size_t k = 0; k < d; k++) if (!vf::eqr(t[x][k], v(q, k))) return false; return true; };
  if (!closed) vf::check(is(images / 2), "the vector to an image of the site, the nearest one (periodic), or to the site itself (open)");
  else {
    vf::check_all((size_t)images, "periodic: no image in the first shell is nearer", [&](size_t q) { return vf::ler(std::sqrt(y), r((long)q)); });
    vf::check_exists((size_t)images, "the vector to an image of the site, the nearest one (periodic), or to the site itself (open)", [&](size_t q) { return is((long)q); });
  }
#endif
}
VF_HARNESS(vectors_1) { vectors(1); }
VF_HARNESS(vectors_2) { vectors(2); }
VF_HARNESS(vectors_3) { vectors(3); }
