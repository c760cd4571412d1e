// Text files written by the code under contract, seen through one arbitrary position.
// The text is a sequence of pieces: characters, integers and real numbers (with their format). The contracts fix an arbitrary
// position Spot; Piece says what was written there. Nothing is said about how the text is cut into print calls.
#pragma once
#include <fstream>
#include <ostream>
#ifdef VF_SYM
struct Piece { long kind = 0, value = 0; double real = 0; };
// kinds: 0 nothing, 1 character (also an integer of one digit), 2 integer, otherwise real: 3 + 16 type + 65536 (precision + 1)
static long Spot, Length, Kind, Value;
static double Real;
static long File, Mode, Files; // the file written last, how it was opened, how many were opened
static void* Stream;
static void put(long kind, long value, double real)
{
  bool here = Length == Spot;
  Kind = vf::ite(here, kind, Kind);
  Value = vf::ite(here, value, Value);
  Real = vf::ite(here, real, Real);
  Length++;
}
static void put_char(char c) { put(1, c, 0.); }
static void put_int(long v) { bool digit = (v >= 0) & (v <= 9); put(vf::ite(digit, 1L, 2L), vf::ite(digit, vf::ite(digit, v, 0L) + '0', v), 0.); }
static void put_real(double v, long type, long precision) { put(3 + 16 * type + 65536 * (precision + 1), 0, v); }
struct Arg { int type; long i; double r; }; // 0 none, 1 integer, 2 real
static void put_format(void* s, const char* p, long n, Arg a, Arg b, Arg c)
{
  vf::check(s == Stream, "pre: written to the open file");
  Arg args[3] = { a, b, c };
  int next = 0;
  for (long i = 0; i < n; i++) {
    if (p[i] != '{') { put_char(p[i]); continue; }
    if (p[i + 1] == '{') { put_char(p[i]); i++; continue; }
    Arg v = args[next++];
    long precision = -1, type = 0;
    for (i++; p[i] != '}'; i++) {
      if (p[i] == ':') continue;
      if (p[i] == '.') precision = 0;
      else if (p[i] == '{') { precision = args[next++].i; i++; }
      else if (p[i] >= '0' && p[i] <= '9') precision = precision * 10 + (p[i] - '0');
      else type = p[i];
    }
    vf::check(v.type != 0, "pre: an argument for every field");
    if (v.type == 1) put_int(v.i);
    else put_real(v.r, type, precision);
  }
}
static Arg in(long v) { return { 1, v, 0. }; }
static Arg re(double v) { return { 2, 0, v }; }
static Arg no() { return { 0, 0, 0. }; }
extern "C" {
void stub_print(void* s, const char* p, long n) { put_format(s, p, n, no(), no(), no()); }
void stub_print_i(void* s, const char* p, long n, const long* a) { put_format(s, p, n, in(*a), no(), no()); }
void stub_print_r(void* s, const char* p, long n, const double* a) { put_format(s, p, n, re(*a), no(), no()); }
void stub_print_ii(void* s, const char* p, long n, const long* a, const long* b) { put_format(s, p, n, in(*a), in(*b), no()); }
void stub_print_ir(void* s, const char* p, long n, const long* a, const double* b) { put_format(s, p, n, in(*a), re(*b), no()); }
void stub_print_ri(void* s, const char* p, long n, const double* a, const long* b) { put_format(s, p, n, re(*a), in(*b), no()); }
void stub_print_iii(void* s, const char* p, long n, const long* a, const long* b, const long* c) { put_format(s, p, n, in(*a), in(*b), in(*c)); }
void* stub_put_char(void* s, char c) { vf::check(s == Stream, "pre: written to the open file"); put_char(c); return s; }
void* stub_put_text(void* s, const char* t) { vf::check(s == Stream, "pre: written to the open file"); for (long i = 0; t[i]; i++) put_char(t[i]); return s; }
void* stub_put_int(void* s, long v) { vf::check(s == Stream, "pre: written to the open file"); put_int(v); return s; }
// files; the name of a file is known by the number kept in the string
void stub_open(void* s, const char* name, int mode) { Stream = s; File = *(const long*)name; Mode = mode | std::ios::out; Files++; }
void stub_close(void*) {}
// strings, known by a number
void stub_string(long* s) { *s = 0; }
void stub_string_copy(long* s, const long* o) { *s = *o; }
long* stub_string_assign(long* s, const long* o) { *s = *o; return s; }
void stub_string_end(long*) {}
const char* stub_string_text(const long* s) { return (const char*)s; }
}
//@stub void fmt::v9::print<>\(std::ostream& => stub_print
//@stub void fmt::v9::print<(unsigned )?long( const)?&?>\(std::ostream& => stub_print_i
//@stub void fmt::v9::print<double( const)?&?>\(std::ostream& => stub_print_r
//@stub void fmt::v9::print<(unsigned )?long( const)?&?, (unsigned )?long( const)?&?>\(std::ostream& => stub_print_ii
//@stub void fmt::v9::print<(unsigned )?long( const)?&?, double( const)?&?>\(std::ostream& => stub_print_ir
//@stub void fmt::v9::print<double( const)?&?, (unsigned )?long( const)?&?>\(std::ostream& => stub_print_ri
//@stub void fmt::v9::print<(unsigned )?long( const)?&?, (unsigned )?long( const)?&?, (unsigned )?long( const)?&?>\(std::ostream& => stub_print_iii
//@stub std::operator<<<std::char_traits<char>>\(std::basic_ostream.*, char\) => stub_put_char
//@stub std::operator<<<std::char_traits<char>>\(std::basic_ostream.*, char const\*\) => stub_put_text
//@stub ^std::ostream::operator<<\((unsigned )?long\) => stub_put_int
//@stub ^std::(basic_ofstream<char, std::char_traits<char>>|ofstream)::(basic_ofstream|open)\((char const\*|std::__cxx11::basic_string.*|std::string const&), std::_Ios_Openmode\) => stub_open
//@stub ^std::(basic_ofstream<char, std::char_traits<char>>|ofstream)::(~basic_ofstream|close|basic_ofstream)\(\) => stub_close
//@stub ^std::(__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>|string)::basic_string\(\) => stub_string
//@stub ^std::(__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>|string)::basic_string\(std::(__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>|string)( const&|&&)\) => stub_string_copy
//@stub ^std::(__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>|string)::operator=\(std::(__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>|string)( const&|&&)\) => stub_string_assign
//@stub ^std::(__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>|string)::~basic_string\(\) => stub_string_end
//@stub ^std::(__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>|string)::(c_str|data)\(\) => stub_string_text
#else
#include <cstdio>
#include <cstdlib>
#include <iterator>
#include <unistd.h>
// a scratch file, removed afterwards
struct Scratch
{
  char name[40] = "/tmp/vf_out_XXXXXX";
  Scratch() { int f = mkstemp(name); if (f >= 0) close(f); }
  ~Scratch() { std::remove(name); }
  std::string text() const { std::ifstream f(name, std::ios::binary); return { std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>() }; }
};
#endif
