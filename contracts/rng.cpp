// Random number generators stored in an archive and restored.
//@mode real
#include "vf.hpp"
#include <bwsl/RNGUtils.hpp>
#include <boost/mpl/bool.hpp>
#ifdef VF_SYM
// What the C++ standard says of generators, streams and strings: writing a generator to a stream that is good appends the text of its
// state, or fails; reading such a text into a generator gives it that state; reading anything else fails and spoils the generator.
// A text is known by the state it holds, seen through one word of it, which stands for any of them (the position in the sequence is one).
struct Text { long kind, word, unused[2]; }; // kind: 0 nothing written, 1 a state and nothing else, 2 anything else
struct Record { long failed; Text text; };   // of a stream, in the place of its std::ios
static bool Bad;                             // writing fails
static long Table[8];                        // stands in for the virtual tables: where the std::ios is
static Record* record(void* s) { return (Record*)((char*)s + ((long*)*(char**)s)[-3]); }
static void make(void* s, Text t)
{
  Table[0] = 24;
  Table[4] = 8;
  ((long**)s)[0] = Table + 3;
  ((long**)s)[2] = Table + 7;
  *record(s) = { 0, t };
}
static void write(void* s, const unsigned long* e)
{
  Record* r = record(s);
  r->failed |= Bad;
  r->text.kind = vf::ite(r->failed != 0, 2L, vf::ite(r->text.kind == 0, 1L, 2L));
  r->text.word = (long)e[0];
}
static void read(void* s, unsigned long* e)
{
  Record* r = record(s);
  long spoiled = vf::any<long>("spoiled");
  if (r->failed) return;
  r->failed = r->text.kind != 1;
  e[0] = (unsigned long)vf::ite(r->failed != 0, spoiled, r->text.word);
  r->text.kind = 0;
}
extern "C" {
void* stub_write(void* s, const void* e) { write(s, (const unsigned long*)e); return s; }
void* stub_read(void* s, void* e) { read(s, (unsigned long*)e); return s; }
void stub_stream(void* s) { make(s, { 0, 0 }); }
void stub_stream_text(void* s, const Text* t, int) { make(s, *t); }
void stub_stream_end(void*) {}
void stub_str(Text* t, void* s) { *t = record(s)->text; }
void stub_set_str(void* s, const Text* t) { record(s)->text = *t; }
bool stub_fail(const Record* r) { return r->failed != 0; }
bool stub_good(const Record* r) { return r->failed == 0; }
void stub_empty(Text* t) { *t = { 0, 0 }; }
void stub_copy(Text* t, const Text* o) { *t = *o; }
Text* stub_assign(Text* t, const Text* o) { *t = *o; return t; }
void stub_end(Text* t) { *t = { 2, 0 }; }
}
//@stub std::operator<<<unsigned long, .*std::mersenne_twister_engine< => stub_write
//@stub std::operator>><unsigned long, .*std::mersenne_twister_engine< => stub_read
//@stub ^std::(__cxx11::)?(basic_[io]?stringstream<char.*>|[io]?stringstream)::basic_[io]?stringstream\((std::_Ios_Openmode)?\) => stub_stream
//@stub ^std::(__cxx11::)?(basic_[io]?stringstream<char.*>|[io]?stringstream)::basic_[io]?stringstream\(std::(__cxx11::)?(basic_string<[^()]*>|string) const&, std::_Ios_Openmode\) => stub_stream_text
//@stub ^std::(__cxx11::)?(basic_[io]?stringstream<char.*>|[io]?stringstream)::~basic_[io]?stringstream\(\) => stub_stream_end
//@stub ^std::(__cxx11::)?(basic_[io]?stringstream<char.*>|[io]?stringstream)::str\(\) => stub_str
//@stub ^std::(__cxx11::)?(basic_[io]?stringstream<char.*>|[io]?stringstream)::str\(std:: => stub_set_str
//@stub ^std::basic_ios<char, std::char_traits<char>>::(fail|operator!)\( => stub_fail
//@stub ^std::basic_ios<char, std::char_traits<char>>::(good|operator bool)\( => stub_good
//@stub ^std::(__cxx11::)?(basic_string<char.*>|string)::basic_string\(\) => stub_empty
//@stub ^std::(__cxx11::)?(basic_string<char.*>|string)::basic_string\(std::(__cxx11::)?(basic_string<[^()]*>|string)( const&|&&)\) => stub_copy
//@stub ^std::(__cxx11::)?(basic_string<char.*>|string)::operator=\(std::(__cxx11::)?(basic_string<[^()]*>|string)( const&|&&)\) => stub_assign
//@stub ^std::(__cxx11::)?(basic_string<char.*>|string)::~basic_string\(\) => stub_end
template<class E> struct Any
{
  unsigned long words[E::state_size + 1];
  E& rng;
  Any() : rng((E&)words) { words[0] = vf::any<unsigned long>("word"); }
};
template<class E> static void start() { Bad = false; }
template<class E> static bool same(Any<E> const& a, Any<E> const& b) { return a.words[0] == b.words[0]; }
#else
template<class E> struct Any
{
  E rng{ (typename E::result_type)vf::any<long>("seed", 0, 1L << 40) };
  Any() { rng.discard((unsigned long long)vf::any<long>("discard", 0, 2000)); }
};
template<class E> static void start() {}
template<class E> static bool same(Any<E> const& a, Any<E> const& b)
{
  E x = a.rng, y = b.rng;
  bool s = a.rng == b.rng;
  for (int i = 0; i < 1500; i++) s &= x() == y();
  return s;
}
#endif
template<bool SAVING> struct Archive
{
  using is_saving = boost::mpl::bool_<SAVING>;
  using is_loading = boost::mpl::bool_<!SAVING>;
  std::string text;
  long count = 0;
  Archive& operator&(std::string& t)
  {
    count++;
    if (SAVING) text = t;
    else t = text;
    return *this;
  }
  Archive& operator&(std::string const& t) { return *this & const_cast<std::string&>(t); }
  Archive& operator<<(std::string const& t) { return *this & t; }
  Archive& operator>>(std::string& t) { return *this & t; }
};
template<class E> static void stored()
{
  start<E>();
  Any<E> g, before = g, h;
#ifdef VF_SYM
  Bad = vf::any<bool>("bad");
  before.words[0] = g.words[0];
  bool bad = Bad;
#else
  before.rng = g.rng;
  bool bad = false;
#endif
  Archive<true> a;
  bool refused = false;
  try { boost::serialization::serialize(a, g.rng, 0u); } catch (std::invalid_argument const&) { refused = true; }
  vf::check(refused == bad, "refused when the state cannot be written");
  vf::check(same(before, g), "saving leaves the generator as it was");
  if (refused) return;
  vf::check(a.count == 1, "one text is stored");
  Archive<false> b;
  b.text = a.text;
  boost::serialization::serialize(b, h.rng, 0u);
  vf::check((b.count == 1) & same(g, h), "the restored generator continues the sequence");
}
VF_HARNESS(stored_64) { stored<std::mt19937_64>(); }
VF_HARNESS(stored_32) { stored<std::mt19937>(); }
template<class E> static void garbage()
{
  start<E>();
  Any<E> g;
  Archive<false> b;
#ifdef VF_SYM
  *(Text*)&b.text = { vf::any<long>("kind", 0, 2), vf::any<long>("word") };
  bool valid = ((Text*)&b.text)->kind == 1;
#else
  std::ostringstream o;
  o << g.rng;
  b.text = o.str();
  bool valid = vf::pick(2) == 0;
  if (!valid) switch (vf::pick(3)) {
    case 0: b.text = b.text.substr(0, b.text.rfind(' ')); break;
    case 1: b.text = ""; break;
    default: b.text[vf::pick((long)b.text.size() / 2)] = 'x';
  }
#endif
  bool refused = false;
  try { boost::serialization::serialize(b, g.rng, 0u); } catch (std::invalid_argument const&) { refused = true; }
  vf::check(refused == !valid, "a text that is no state is refused");
}
VF_HARNESS(garbage_64) { garbage<std::mt19937_64>(); }
VF_HARNESS(garbage_32) { garbage<std::mt19937>(); }
