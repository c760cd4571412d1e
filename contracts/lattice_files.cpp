// The tables a lattice writes to files.
//@mode real
#include "lattice_tables.hpp"
#include "out.hpp"
#ifdef VF_SYM
extern "C" realvec stub_vector(Lattice const* l, size_t a, size_t b)
{
  vf::check(l->IndexIsValid(a) && l->IndexIsValid(b), "pre: GetVector needs two sites");
  realvec v(Dim, 0.);
  for (size_t k = 0; k < Dim; k++) v[k] = vf_uf((long)k + 50, (long)a, (long)b, 0);
  return v;
}
extern "C" size_t stub_pair_index(size_t a, size_t b, size_t n)
{
  vf::check((a < n) & (b < n), "pre: GetPairIndex needs two indices");
  return (size_t)vf_uf_i(62, (long)a, (long)b, 0);
}
extern "C" std::pair<size_t, size_t> stub_pair(size_t i, size_t n)
{
  vf::check(i < n * n, "pre: GetPair needs the index of a pair");
  long a = vf_uf_i(60, (long)i, 0, 0), b = vf_uf_i(61, (long)i, 0, 0);
  vf::assume((a >= 0) & (a < (long)n) & (b >= 0) & (b < (long)n) & (vf_uf_i(62, a, b, 0) == (long)i));
  return { (size_t)a, (size_t)b };
}
//@stub bwsl::Lattice::GetVector\(unsigned long, unsigned long\) => stub_vector
//@stub bwsl::pairs::GetPairIndex\( => stub_pair_index
//@stub bwsl::pairs::GetPair\( => stub_pair
static const long Plain = 3; // a real number in the default format
struct Cell { long kind, value; double real; };
static Cell none() { return { 0, 0, 0. }; }
static Cell pick(bool c, Cell a, Cell b) { return { vf::ite(c, a.kind, b.kind), vf::ite(c, a.value, b.value), vf::ite(c, a.real, b.real) }; }
static Cell character(char c) { return { 1, c, 0. }; }
static Cell real(double x) { return { Plain, 0, x }; }
static Cell integer(long v) { bool digit = (v >= 0) & (v <= 9); return { vf::ite(digit, 1L, 2L), vf::ite(digit, vf::ite(digit, v, 0L) + '0', v), 0. }; }
// the file: a header, then rows of width cells; the cell under the spot is as given
static void hints(Cell x, long header, long width, long rows)
{
  auto at = [](auto l, Cell x) {
    vf::hint(l);
    vf::hint([=](long k) { return vf::ite(l(k) > Spot, x.kind, 0L); });
    vf::hint([=](long k) { return vf::ite(l(k) > Spot, x.value, 0L); });
    vf::hint([=](long k) { return vf::ite(l(k) > Spot, x.real, 0.); });
  };
  at([=](long k) { return header + width * k; }, x);
}
static void files(std::string const& name, long length)
{
  vf::check((Files == 1) & (File == 77), "the file asked for is written");
  vf::check((Mode & (std::ios::app | std::ios::ate | std::ios::in)) == 0, "the file starts afresh");
  vf::check(Length == length, "a header and one line for each");
}
// which of the files
enum Which { positions, distances, momenta, pairs_ };
static void save(Lattice const& l, Which w, std::string const& f)
{
  switch (w) {
    case positions: l.SavePositions(f); break;
    case distances: l.SaveDistances(f); break;
    case momenta: l.SaveMomenta(f); break;
    case pairs_: l.SavePairs(f); break;
  }
}
// the header: the names of the columns
static long title(size_t d, Which w, char* t)
{
  long n = 0;
  auto names = [&](char c) { for (size_t i = 0; i < d; i++) { t[n++] = ','; t[n++] = c; t[n++] = (char)('0' + i); } };
  t[n++] = 'i';
  if (w == pairs_) {
    t[n++] = ','; t[n++] = 'a'; t[n++] = ','; t[n++] = 'b';
    names('x'); names('y'); names('d');
  } else names(w == positions ? 'x' : w == distances ? 'd' : 'k');
  t[n++] = '\n';
  return n;
}
static long rows_of(Lattice const& l, Which w)
{
  long n = (long)l.GetNumSites();
  return w == pairs_ ? (long)((size_t)n * (size_t)n) : w == momenta && l.HasOpenBoundaries() ? 0 : n;
}
static Cell cell(Lattice const& l, size_t d, Which w, long r, long c)
{
  Tables t(l, *(Bravais const*)nullptr);
  Cell x = integer(r);
  long j = 1;
  auto add = [&](Cell v) { x = pick(c == j, character(','), x); x = pick(c == j + 1, v, x); j += 2; };
  long a = vf_uf_i(60, r, 0, 0), b = vf_uf_i(61, r, 0, 0);
  if (w == pairs_) { add(integer(a)); add(integer(b)); }
  auto vec = [&](long from, long to) { for (size_t k = 0; k < d; k++) add(real(vf_uf((long)k + 50, from, to, 0))); };
  switch (w) {
    case positions: for (size_t k = 0; k < d; k++) add(real(t.pos((size_t)r, k))); break;
    case distances: vec(0, r); break;
    case momenta: for (size_t k = 0; k < d; k++) add(real(t.mom((size_t)r, k))); break;
    case pairs_: vec(0, a); vec(0, b); vec(a, b); break;
  }
  return pick(c == j, character('\n'), x);
}
static void saved(size_t d, Which w, bool head)
{
  auto s = any_extents(d);
  auto b = any_bravais(d);
  auto l = any_lattice(b, s, vf::any<bool>("closed"));
  if (w == pairs_) vf::assume((l.GetNumSites() < (1UL << 28)) & (l.GetNumSites() * l.GetNumSites() < (1UL << 56)));
  char text[40];
  long h = title(d, w, text), width = 2 + 2 * (long)d + (w == pairs_ ? 4 + 4 * (long)d : 0), rows = rows_of(l, w);
  long r = vf::any<long>("row", 0, vf::B62), c = vf::any<long>("column", 0, head ? h - 1 : width - 1);
  Cell x = none();
  if (head) {
    Spot = c;
    for (long i = 0; i < h; i++) x = pick(c == i, character(text[i]), x);
  } else {
    vf::assume((r < rows) & (r < (1L << 58)));
    Spot = h + width * r + c;
    x = cell(l, d, w, r, c);
  }
  std::string name;
  *(long*)&name = 77;
  hints(x, h, width, rows);
  save(l, w, name);
  vf::clear_hints();
  vf::check((Kind == x.kind) & (Value == x.value) & (Real == x.real), head ? "the names of the columns" : "the numbers of the row");
  files(name, h + width * rows);
}
#else
enum Which { positions, distances, momenta, pairs_ };
static void saved(size_t d, Which w, bool)
{
  auto s = any_extents(d);
  std::vector<double> basis(d * d), inverse(d * d);
  for (auto& x : basis) x = (double)vf::any<long>("basis", -(1L << 22), 1L << 22) / 0x1p20;
  for (auto& x : inverse) x = (double)vf::any<long>("inverse", -(1L << 22), 1L << 22) / 0x1p20;
  Bravais b(d, 2 * d, basis, inverse, std::vector<long>(d * d, 1));
  auto l = any_lattice(b, s, vf::any<bool>("closed"));
  Scratch f;
  std::string t = "i";
  auto names = [&](const char* c) { for (size_t i = 0; i < d; i++) t += std::string(",") + c + std::to_string(i); };
  auto vec = [&](realvec const& v) { for (double x : v) t += fmt::format(",{}", x); };
  size_t n = l.GetNumSites();
  switch (w) {
    case positions:
      names("x");
      for (size_t i = 0; i < n; i++) { t += "\n" + std::to_string(i); vec(l.GetPosition(i)); }
      l.SavePositions(f.name);
      break;
    case distances:
      names("d");
      for (size_t i = 0; i < n; i++) { t += "\n" + std::to_string(i); vec(l.GetVector(0, i)); }
      l.SaveDistances(f.name);
      break;
    case momenta:
      names("k");
      if (l.HasClosedBoundaries()) for (size_t i = 0; i < n; i++) { t += "\n" + std::to_string(i); vec(l.GetMomentum(i)); }
      l.SaveMomenta(f.name);
      break;
    case pairs_:
      t += ",a,b";
      names("x");
      names("y");
      names("d");
      for (size_t i = 0; i < n * n; i++) {
        auto p = bwsl::pairs::GetPair(i, n);
        t += "\n" + std::to_string(i) + "," + std::to_string(p.first) + "," + std::to_string(p.second);
        vec(l.GetVector(0, p.first));
        vec(l.GetVector(0, p.second));
        vec(l.GetVector(p.first, p.second));
      }
      l.SavePairs(f.name);
  }
  vf::check(f.text() == t + "\n", "the file");
}
#endif
#define SAVED(name, w) \
  VF_HARNESS(name##_head_1) { saved(1, w, true); } \
  VF_HARNESS(name##_head_2) { saved(2, w, true); } \
  VF_HARNESS(name##_head_3) { saved(3, w, true); } \
  VF_HARNESS(name##_rows_1) { saved(1, w, false); } \
  VF_HARNESS(name##_rows_2) { saved(2, w, false); } \
  VF_HARNESS(name##_rows_3) { saved(3, w, false); }
SAVED(positions, positions)
SAVED(distances, distances)
SAVED(momenta, momenta)
SAVED(pairs, pairs_)
