// Enumerations with string conversions: names and enumerators correspond one to one.
//@mode real
// (functions defined by the macro of /repo)
//@macro ToString FromString what EnumStringConversionFailed_One EnumStringConversionFailed_Color EnumStringConversionFailed_Prefix
#include "vf.hpp"
#include <bwsl/EnumString.hpp>
BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(One, (only))
BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Color, (Red)(Green)(Blue))
BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Prefix, (Ab)(A)(a)(ABc)(Ab_)(Abc)(AAAAAAAAAAAAAAAAAAAAAAAA)(AAAAAAAAAAAAAAAAAAAAAAAB))
static const char* const NAMES[3][8] = { { "only" }, { "Red", "Green", "Blue" }, { "Ab", "A", "a", "ABc", "Ab_", "Abc", "AAAAAAAAAAAAAAAAAAAAAAAA", "AAAAAAAAAAAAAAAAAAAAAAAB" } };
#ifdef VF_SYM
// Strings: which text (a number; the same text has the same number), and whether the text contains the watched one.
struct Str { long text, mentions; };
static const char* Texts[32];
static long NTexts, Watched;
static long number(const char* t)
{
  for (long i = 0; i < NTexts; i++) {
    long k = 0;
    while (Texts[i][k] == t[k] && t[k]) k++;
    if (Texts[i][k] == t[k]) return i;
  }
  Texts[NTexts] = t;
  return NTexts++;
}
static Str of(const char* t) { long n = number(t); return { n, n == Watched }; }
static Str cat(Str a, Str b) { return { vf::any<long>("text", 0, 1L << 40), (a.mentions != 0) | (b.mentions != 0) }; }
extern "C" {
void stub_none(Str* s) { *s = of(""); }
void stub_text(Str* s, const char* t, const void*) { *s = of(t); }
void stub_copy(Str* s, const Str* o) { *s = *o; }
Str* stub_assign(Str* s, const Str* o) { *s = *o; return s; }
Str* stub_assign_text(Str* s, const char* t) { *s = of(t); return s; }
void stub_end(Str* s) { *s = { -1, 0 }; }
const char* stub_c_str(const Str* s) { return (const char*)s; }
bool stub_equal_text(const Str* s, const char* t) { return s->text == number(t); }
bool stub_text_equal(const char* t, const Str* s) { return s->text == number(t); }
bool stub_differ_text(const Str* s, const char* t) { return s->text != number(t); }
bool stub_text_differ(const char* t, const Str* s) { return s->text != number(t); }
bool stub_differ(const Str* s, const Str* t) { return s->text != t->text; }
bool stub_equal(const Str* s, const Str* t) { return s->text == t->text; }
int stub_compare_text(const Str* s, const char* t) { int r = vf::any<int>("order"); vf::assume((r == 0) == (s->text == number(t))); return r; }
int stub_compare(const Str* s, const Str* t) { int r = vf::any<int>("order"); vf::assume((r == 0) == (s->text == t->text)); return r; }
void stub_plus(Str* r, const Str* a, const Str* b) { *r = cat(*a, *b); }
void stub_plus_text(Str* r, const Str* a, const char* b) { *r = cat(*a, of(b)); }
void stub_text_plus(Str* r, const char* a, const Str* b) { *r = cat(of(a), *b); }
Str* stub_append(Str* s, const Str* o) { *s = cat(*s, *o); return s; }
Str* stub_append_text(Str* s, const char* o) { *s = cat(*s, of(o)); return s; }
}
//@stub ^std::(__cxx11::)?(basic_string<char.*>|string)::basic_string\(\) => stub_none
//@stub ^std::(__cxx11::)?(basic_string<char.*>|string)::basic_string(<.*>)?\(char const\*, std::allocator<char> const&\) => stub_text
//@stub ^std::(__cxx11::)?(basic_string<char.*>|string)::basic_string\(std::(__cxx11::)?(basic_string<[^()]*>|string)( const&|&&)\) => stub_copy
//@stub ^std::(__cxx11::)?(basic_string<char.*>|string)::operator=\(std::(__cxx11::)?(basic_string<[^()]*>|string)( const&|&&)\) => stub_assign
//@stub ^std::(__cxx11::)?(basic_string<char.*>|string)::operator=\(char const\*\) => stub_assign_text
//@stub ^std::(__cxx11::)?(basic_string<char.*>|string)::~basic_string\(\) => stub_end
//@stub ^std::(__cxx11::)?(basic_string<char.*>|string)::(c_str|data)\(\) => stub_c_str
//@stub ^std::(__cxx11::)?(basic_string<char.*>|string)::compare\(char const\*\) => stub_compare_text
//@stub ^std::(__cxx11::)?(basic_string<char.*>|string)::compare\(std::(__cxx11::)?(basic_string<[^()]*>|string) const&\) => stub_compare
//@stub ^std::(__cxx11::)?(basic_string<char.*>|string)::(operator\+=|append)\(char const\*\) => stub_append_text
//@stub ^std::(__cxx11::)?(basic_string<char.*>|string)::(operator\+=|append)\(std::(__cxx11::)?(basic_string<[^()]*>|string) const&\) => stub_append
//@stub ^bool std::operator==<char.*>\(std::[^()]*basic_string<[^()]*> const&, char const\*\) => stub_equal_text
//@stub ^bool std::operator==<char.*>\(std::[^()]*basic_string<[^()]*> const&, std::[^()]*basic_string<[^()]*> const&\) => stub_equal
//@stub ^bool std::operator==<char.*>\(char const\*, std::[^()]*basic_string<[^()]*> const&\) => stub_text_equal
//@stub ^bool std::operator!=<char.*>\(std::[^()]*basic_string<[^()]*> const&, char const\*\) => stub_differ_text
//@stub ^bool std::operator!=<char.*>\(char const\*, std::[^()]*basic_string<[^()]*> const&\) => stub_text_differ
//@stub ^bool std::operator!=<char.*>\(std::[^()]*basic_string<[^()]*> const&, std::[^()]*basic_string<[^()]*> const&\) => stub_differ
//@stub std::operator\+<char.*>\(std::[^()]*basic_string<[^()]*>( const&|&&), std::[^()]*basic_string<[^()]*>( const&|&&)\) => stub_plus
//@stub std::operator\+<char.*>\(std::[^()]*basic_string<[^()]*>( const&|&&), char const\*\) => stub_plus_text
//@stub std::operator\+<char.*>\(char const\*, std::[^()]*basic_string<[^()]*>( const&|&&)\) => stub_text_plus
static std::string any_string() { std::string s; Watched = vf::any<long>("text", 0, 1L << 40); *(Str*)&s = { Watched, 1 }; return s; }
static bool is(std::string const& s, const char* t) { return ((const Str*)&s)->text == number(t); }
static bool mentions(const char* what, std::string const&) { return ((const Str*)what)->mentions != 0; }
#else
static std::string any_string()
{
  static const char* some[] = { "only", "Red", "Green", "Blue", "Ab", "A", "a", "ABc", "Ab_", "Abc", "", "red", "Re", "Redd", "[ Unknown Color ]", "AAAAAAAAAAAAAAAAAAAAAAAA", "AAAAAAAAAAAAAAAAAAAAAAAB", "AAAAAAAAAAAAAAAAAAAAAAA" };
  if (vf::pick(4)) return some[vf::pick(18)];
  std::string s;
  for (long n = vf::any<long>("n", 0, 40); n > 0; n--) s += (char)vf::any<long>("c", 32, 126);
  return s;
}
static bool is(std::string const& s, const char* t) { return s == t; }
static bool mentions(const char* what, std::string const& t) { return std::string(what).find(t) != std::string::npos; }
#endif
template<class E> static void names(long count, const char* const* names, bool more)
{
  auto unknown = more ? ToString((E)count) : std::string("?");
  for (long i = 0; i < count; i++) {
    auto s = ToString((E)i);
    vf::check(is(s, names[i]), "an enumerator is written as its name");
    vf::check(!is(unknown, names[i]), "a value that is no enumerator is written as the name of none");
    auto n = (E)vf::any<int>("before", 0, (int)count - 1);
    FromString(n, s);
    vf::check(n == (E)i, "the name of an enumerator is read as the enumerator");
  }
}
template<class E, class F> static void reading(long count, const char* const* names)
{
  auto s = any_string();
  auto before = (E)vf::any<int>("before", 0, (int)count - 1), n = before;
  long which = -1;
  for (long i = 0; i < count; i++)
    if (is(s, names[i])) which = i;
  bool refused = false;
  try { FromString(n, s); }
  catch (F const& f) {
    refused = true;
    vf::check(mentions(f.what(), s), "the message names the text");
  }
  vf::check(refused == (which < 0), "a text is refused exactly when it is no name");
  vf::check(n == (refused ? before : (E)which), "a name is read as its enumerator; a refused text changes nothing");
}
#define ENUM(name, e, count, index, more) \
  VF_HARNESS(name##_names) { names<e>(count, NAMES[index], more); } \
  VF_HARNESS(name##_reading) { reading<e, EnumStringConversionFailed_##e>(count, NAMES[index]); }
ENUM(one, One, 1, 0, true)
ENUM(color, Color, 3, 1, true)
ENUM(prefix, Prefix, 8, 2, false)
