// Groups of observables: which accumulator a measurement reaches, and the lines written for a group.
//@mode uf
#include "acc_common.hpp"
#include <fmt/format.h>
#include <bwsl/ObservableGroup.hpp>
#include "out.hpp"
using Kahan = bwsl::accumulators::KahanAccumulator;
using Group = bwsl::ObservableGroup<long>;
using Pair = std::pair<const long, Kahan>;
static Kahan any_kahan()
{
  Tape t;
  t.d[0] = vf::any_double("sum");
  t.d[1] = vf::any_double("carry");
  t.u[0] = vf::any<unsigned long>("count", 0, vf::B62);
  Kahan k;
  t.rewind();
  boost::serialization::access::serialize(t, k, 0u);
  return k;
}
static bool equal(Kahan& a, Kahan& b)
{
  Tape s, t;
  boost::serialization::access::serialize(s, a, 0u);
  boost::serialization::access::serialize(t, b, 0u);
  return same(s.d[0], t.d[0]) & same(s.d[1], t.d[1]) & (s.u[0] == t.u[0]) & (s.nd == 2) & (t.nd == 2);
}
// an archive that keeps a string and a map
struct Store
{
  long order = 0;
  std::string name;
#ifndef VF_SYM
  std::map<long, Kahan> map;
#endif
  bool saving = true;
  Store& operator&(std::string& x)
  {
    order = order * 10 + 1;
    if (saving) name = x;
    else x = name;
    return *this;
  }
  template<class T> Store& operator&(T& x)
  {
    static_assert(std::is_same_v<T, std::map<long, Kahan>>);
    order = order * 10 + 2;
#ifndef VF_SYM
    if (saving) map = x;
    else x = map;
#endif
    return *this;
  }
  template<class T> Store& operator<<(T const& x) { return *this & const_cast<T&>(x); }
  template<class T> Store& operator>>(T& x) { return *this & x; }
};
#ifdef VF_SYM
// std::map as the C++ standard describes it, seen through one arbitrary key: the group holds Size keys in increasing order,
// the watched one at place Place if it is Present; the other elements are arbitrary whenever they are looked at.
static Pair *Watched, *Other;
static long Key, Size, Place;
static long Present;
static bool Known; // Known: is the other key asked for present
static char* Spots;
static long FoundAt = -1, FoundKey; // another element that was looked for, and found
extern "C" {
char* stub_begin(const void*) { return Spots; }
char* stub_end(const void*) { return Spots + Size; }
Pair* stub_deref(char** it)
{
  long i = *it - Spots;
  vf::check((i >= 0) & (i < Size), "pre: an iterator to an element");
  if (Present && i == Place) return Watched;
  long k = vf::any<long>("key");
  vf::assume((k != Key) & (i != FoundAt || k == FoundKey));
  vf::assume(!Present | ((i < Place) == (k < Key)));
  new (Other) Pair(k, any_kahan());
  return Other;
}
char** stub_next(char** it)
{
  vf::check(*it - Spots < Size, "pre: no step past the end");
  *it = *it + 1;
  return it;
}
char* stub_next_post(char** it, int) { char* i = *it; stub_next(it); return i; }
bool stub_same(char* const* a, char* const* b) { return *a == *b; }
bool stub_differ(char* const* a, char* const* b) { return *a != *b; }
char* stub_find(void*, const long* k)
{
  if (*k == Key) return Present ? Spots + Place : Spots + Size;
  if (!Known) return Spots + Size;
  long i = vf::any<long>("found", 0, 1L << 40);
  vf::assume((i < Size) & (!Present | ((i != Place) & ((i < Place) == (*k < Key)))));
  FoundAt = i;
  FoundKey = *k;
  return Spots + i;
}
size_t stub_count(const void*, const long* k) { return *k == Key ? Present != 0 : Known; }
Kahan* stub_at(void*, const long* k)
{
  if (*k == Key && Present) return &Watched->second;
  if (*k == Key || !Known) throw std::out_of_range("map::at");
  new (Other) Pair(*k, any_kahan());
  return &Other->second;
}
struct Place_ { char* it; bool made; };
Place_ stub_emplace(void*, const long* k)
{
  if (*k != Key) { Size += vf::any<bool>("new"); return { Spots, false }; }
  bool made = !Present;
  if (made) { new (Watched) Pair(Key, Kahan()); Present = true; Size++; }
  return { Spots, made };
}
Place_ stub_insert(void*, const Pair* p)
{
  if (p->first != Key) { Size += vf::any<bool>("new"); return { Spots, false }; }
  bool made = !Present;
  if (made) { new (Watched) Pair(*p); Present = true; Size++; }
  return { Spots, made };
}
Place_ stub_emplace_value(void* m, const long* k, const Kahan* v)
{
  Pair p(*k, *v);
  return stub_insert(m, &p);
}
Place_ stub_assign_value(void* m, const long* k, const Kahan* v)
{
  Place_ r = stub_emplace_value(m, k, v);
  if (*k == Key) Watched->second = *v;
  return r;
}
Kahan* stub_index(void* m, const long* k)
{
  stub_emplace(m, k);
  if (*k == Key) return &Watched->second;
  new (Other) Pair(*k, any_kahan());
  return &Other->second;
}
void stub_map_end(void*) {}
bool stub_empty(const void*) { return Size == 0; }
size_t stub_size(const void*) { return (size_t)Size; }
}
//@stub ^std::map<.*::c?begin\(\) => stub_begin
//@stub ^std::map<.*::c?end\(\) => stub_end
//@stub ^std::map<.*::empty\(\) => stub_empty
//@stub ^std::map<.*::size\(\) => stub_size
//@stub ^std::map<.*::at\( => stub_at
//@stub ^std::map<.*::operator\[\]\( => stub_index
//@stub ^(std::pair<.*> )?std::map<.*::try_emplace<>\( => stub_emplace
//@stub ^(std::_Rb_tree_(const_)?iterator<.*> )?std::map<.*::find\( => stub_find
//@stub ^(unsigned long )?std::map<.*::(count|contains)\( => stub_count
//@stub ^(std::pair<.*> )?std::map<.*::(insert|insert<.*>)\(std::pair<.*>( const)?&&?\) => stub_insert
//@stub ^(std::pair<.*> )?std::map<.*::(emplace|try_emplace)<.*>\( => stub_emplace_value
//@stub ^(std::pair<.*> )?std::map<.*::insert_or_assign<.*>\( => stub_assign_value
//@stub ^(bool )?std::operator==\(std::_Rb_tree_(const_)?iterator => stub_same
//@stub ^(bool )?std::operator!=\(std::_Rb_tree_(const_)?iterator => stub_differ
//@stub ^std::map<.*::~map\( => stub_map_end
//@stub ^std::_Rb_tree_(const_)?iterator<.*>::operator(->|\*)\( => stub_deref
//@stub ^std::_Rb_tree_(const_)?iterator<.*>::operator\+\+\(\) => stub_next
//@stub ^std::_Rb_tree_(const_)?iterator<.*>::operator\+\+\(int\) => stub_next_post
// an arbitrary group, the watched observable in it
struct Any
{
  Kahan before = any_kahan();
  Pair watched{ vf::any<long>("key"), before }, other{ 0, Kahan() };
  std::string name;
  std::vector<char> spots;
  Any()
  {
    vf::fill_any<char>(spots, "spot", 1L << 44);
    Spots = spots.data();
    Watched = &watched;
    Other = &other;
    Key = watched.first;
    Size = vf::any<long>("size", 1, 1L << 40);
    Place = vf::any<long>("place", 0, 1L << 40);
    vf::assume(Place < Size);
    Present = true;
    *(long*)&name = 77;
  }
};
static Tape state(Kahan& k) { Tape t; boost::serialization::access::serialize(t, k, 0u); return t; }
// the text so far, and the watched accumulator, as functions of the number of elements the loop has dealt with
static void hints(Any& a, long kind, long value, double real, bool reset)
{
  Tape t = state(a.before);
  auto at = [&](auto l) {
    vf::hint(l);
    vf::hint([=](long k) { return vf::ite(l(k) > Spot, kind, 0L); });
    vf::hint([=](long k) { return vf::ite(l(k) > Spot, value, 0L); });
    vf::hint([=](long k) { return vf::ite(l(k) > Spot, real, 0.); });
  };
  vf::hint([](long k) { return k < Size; });
  vf::hint([](long k) { return k <= Size; });
  at([](long k) { return 2 * k + 1; });
  at([](long k) { return 2 * k; });
  at([](long k) { return vf::ite(k == 0, 0L, 2 * k - 1); });
  if (reset)
    for (long first = 0; first < 2; first++) {
      vf::hint([=](long k) { return vf::ite(k + first > Place, 0., t.d[0]); });
      vf::hint([=](long k) { return vf::ite(k + first > Place, 0., t.d[1]); });
      vf::hint([=](long k) { return vf::ite(k + first > Place, 0L, (long)t.u[0]); });
    }
}
static void written(long kind, long value, double real, const char* what)
{
  vf::check((Kind == kind) & (Value == value) & vf_same_f(Real, real), what);
}
static void file(bool append)
{
  vf::check((Files == 1) & (File == 77), "the file of the group is written");
  vf::check(append ? (Mode & std::ios::app) != 0 && (Mode & std::ios::trunc) == 0 : (Mode & (std::ios::app | std::ios::ate | std::ios::in)) == 0,
            append ? "the results are appended" : "the headers start the file afresh");
}
static void results(Any& a, long spot, long kind, long value, double real, size_t precision, const char* what)
{
  Group g(a.name);
  Spot = spot;
  hints(a, kind, value, real, true);
  g.PrintAndReset(precision);
  vf::clear_hints();
  written(kind, value, real, what);
  vf::check(Length == 2 * Size + 2, "one mean for each observable, the count and the end of the line");
  file(true);
  Kahan fresh;
  vf::check(equal(a.watched.second, fresh), "every observable is reset");
}
static const long E = 3 + 16 * 'e';
VF_HARNESS(results_mean)
{
  Any a;
  auto precision = vf::any<size_t>("precision", 0, 1000);
  results(a, 2 * Place, E + 65536 * ((long)precision + 1), 0, a.before.Mean(), precision, "the mean of each observable, in order");
}
VF_HARNESS(results_separators)
{
  Any a;
  auto precision = vf::any<size_t>("precision", 0, 1000);
  long c = vf::any<long>("column", 0, 1L << 40);
  vf::assume(c <= Size);
  results(a, 2 * c + 1, 1, vf::ite(c == Size, (long)'\n', (long)','), 0., precision, "commas between and a newline after");
}
VF_HARNESS(results_count)
{
  Any a;
  vf::assume(Place == 0);
  long n = (long)a.before.Count();
  bool digit = n < 10;
  results(a, 2 * Size, vf::ite(digit, 1L, 2L), vf::ite(digit, vf::ite(digit, n, 0L) + '0', n), 0., 10, "the number of measurements");
}
static void headers(Any& a, long spot, long kind, long value, const char* what)
{
  Group g(a.name);
  Spot = spot;
  hints(a, kind, value, 0., false);
  g.PrintHeaders();
  vf::clear_hints();
  written(kind, value, 0., what);
  vf::check(Length == 2 * Size + 6, "one name for each observable, Count and the end of the line");
  file(false);
  vf::check(equal(a.watched.second, a.before), "the headers change no observable");
}
VF_HARNESS(headers_names)
{
  Any a;
  bool digit = (Key >= 0) & (Key <= 9);
  headers(a, 2 * Place, vf::ite(digit, 1L, 2L), vf::ite(digit, vf::ite(digit, Key, 0L) + '0', Key), "the name of each observable, in order");
}
VF_HARNESS(headers_separators)
{
  Any a;
  long c = vf::any<long>("column", 0, 1L << 40);
  vf::assume(c < Size);
  headers(a, 2 * c + 1, 1, ',', "commas between");
}
VF_HARNESS(headers_count)
{
  Any a;
  const char* text = "Count\n";
  for (long i = 0; i < 6; i++)
    if (vf::any<bool>("this one") || i == 5) {
      headers(a, 2 * Size + i, 1, text[i], "Count and a newline");
      break;
    }
}
VF_HARNESS(nothing)
{
  Any a;
  Size = 0;
  Present = false;
  Group g(a.name);
  Spot = 0;
  bool heads = vf::any<bool>("headers");
  if (heads) g.PrintHeaders();
  else g.PrintAndReset();
  vf::check(Length == 0, "nothing is written for a group without observables");
}
VF_HARNESS(measure)
{
  Any a;
  Present = vf::any<bool>("present");
  Known = vf::any<bool>("known");
  auto idx = vf::any<long>("idx");
  double v = vf::any_double("value");
  Group g(a.name);
  bool refused = false;
  try { g.Measure(idx, v); } catch (std::out_of_range const&) { refused = true; }
  vf::check(refused == !vf::ite(idx == Key, (long)Present, (long)Known), "an unknown observable is refused");
  Kahan after = a.before;
  if (Present && idx == Key) after.Add(v);
  vf::check(equal(a.watched.second, after), "a measurement reaches its observable and no other");
}
VF_HARNESS(add)
{
  Any a;
  Present = vf::any<bool>("present");
  bool was = Present != 0;
  auto idx = vf::any<long>("idx");
  Group g(a.name);
  auto& r = g.AddObservable(idx);
  vf::check(&r == &g, "the group is returned");
  vf::check((Present != 0) == (was | (idx == Key)), "the group contains the observable, and the ones it contained before");
  Kahan fresh;
  vf::check(was | !Present | equal(a.watched.second, fresh), "a new observable is empty");
  vf::check(!was | equal(a.watched.second, a.before), "the others keep their measurements");
}
VF_HARNESS(construct)
{
  Any a;
  Present = false;
  Size = 0;
  std::vector<long> idx;
  auto n = vf::any<size_t>("n", 0, 1L << 40);
  vf::fill_any<long>(idx, "indices", n);
  auto in = vf::rec<long, 1>(vf::Tup<long>{ 0 }, [&](vf::Tup<long> s, long k) { return vf::Tup<long>{ vf::ite(idx[k] == Key, 1L, s[0]) }; });
  Kahan fresh;
  Tape t = state(fresh), o = state(a.before);
  vf::hint([&](long k) { return in(k); });
  vf::hint([&](long k) { return vf::ite(in(k) == 1, t.d[0], o.d[0]); });
  vf::hint([&](long k) { return vf::ite(in(k) == 1, t.d[1], o.d[1]); });
  vf::hint([&](long k) { return vf::ite(in(k) == 1, (long)t.u[0], (long)o.u[0]); });
  Group g(a.name, idx);
  vf::clear_hints();
  vf::check(Present == in((long)n), "the group contains exactly the observables it was given");
  vf::check(!Present | equal(a.watched.second, fresh), "they are empty");
}
VF_HARNESS(stored)
{
  Any a;
  std::string other;
  Group g(a.name), h(other);
  Store s;
  boost::serialization::access::serialize(s, g, 0u);
  long order = s.order;
  s.order = 0;
  s.saving = false;
  boost::serialization::access::serialize(s, h, 0u);
  vf::check((order == 12) | (order == 21), "the file and the observables are stored");
  vf::check(s.order == order, "they are loaded in the same order");
  Spot = 0;
  h.PrintHeaders();
  vf::check(File == 77, "the restored group writes to the same file");
}
#else
// any history of a group, against a map of accumulators kept by the contract
struct Any
{
  Scratch file;
  std::map<long, Kahan> kept;
  std::vector<long> idx;
  Group g{ "" };
  Any()
  {
    auto n = vf::any<size_t>("n", 0, 6);
    vf::fill_any<long>(idx, "indices", n, -3, 12);
    for (auto i : idx) kept.emplace(i, Kahan());
    g = Group(file.name, idx);
    measure();
  }
  void measure()
  {
    for (long m = vf::any<long>("m", 0, 30); m > 0; m--) {
      long i = vf::any<long>("idx", -4, 13);
      double v = vf::any<double>("value", -1e3, 1e3);
      bool refused = false;
      try { g.Measure(i, v); } catch (std::out_of_range const&) { refused = true; }
      vf::check(refused == (kept.count(i) == 0), "an unknown observable is refused");
      if (!refused) kept.at(i).Add(v);
    }
  }
  std::string line(size_t precision)
  {
    std::string t;
    for (auto& k : kept) t += (t.empty() ? "" : ",") + fmt::format("{:.{}e}", k.second.Mean(), precision);
    if (!kept.empty()) t += fmt::format(",{}\n", kept.begin()->second.Count());
    for (auto& k : kept) k.second = Kahan();
    return t;
  }
  std::string heads()
  {
    std::string t;
    for (auto& k : kept) t += (t.empty() ? "" : ",") + std::to_string(k.first);
    return kept.empty() ? "" : t + ",Count\n";
  }
};
static void history(const char* what)
{
  Any a;
  size_t precision = vf::any<size_t>("precision", 0, 20);
  a.g.PrintHeaders();
  std::string text = a.heads();
  vf::check(a.file.text() == text, what);
  text += a.line(precision);
  a.g.PrintAndReset(precision);
  vf::check(a.file.text() == text, what);
  a.measure();
  long more = vf::any<long>("more", -4, 13);
  a.g.AddObservable(more);
  a.kept.emplace(more, Kahan());
  a.measure();
  text += a.line(10);
  a.g.PrintAndReset();
  vf::check(a.file.text() == text, what);
}
VF_HARNESS(results_mean) { history("the mean of each observable, in order"); }
VF_HARNESS(results_separators) { history("commas between and a newline after"); }
VF_HARNESS(results_count) { history("the number of measurements"); }
VF_HARNESS(headers_names) { history("the name of each observable, in order"); }
VF_HARNESS(headers_separators) { history("commas between"); }
VF_HARNESS(headers_count) { history("Count and a newline"); }
VF_HARNESS(nothing)
{
  Scratch f;
  Group g(f.name);
  g.PrintHeaders();
  g.PrintAndReset();
  vf::check(f.text().empty(), "nothing is written for a group without observables");
}
VF_HARNESS(measure) { history("a measurement reaches its observable and no other"); }
VF_HARNESS(add) { history("the others keep their measurements"); }
VF_HARNESS(construct) { history("the group contains exactly the observables it was given"); }
VF_HARNESS(stored)
{
  Any a;
  Store s;
  Group h("");
  boost::serialization::access::serialize(s, a.g, 0u);
  s.saving = false;
  boost::serialization::access::serialize(s, h, 0u);
  std::string text = a.line(10);
  h.PrintAndReset();
  vf::check(a.file.text() == text, "the restored group writes to the same file");
}
#endif
