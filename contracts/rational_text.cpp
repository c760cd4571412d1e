// Rationals written as text and read back: any text, well-formed or not.
//@mode real
#include "rational_common.hpp"
//@stub ^(?:[^(]*\s)?bwsl::get_gcd<long>\( => stub_gcd_long
//@stub ^(?:[^(]*\s)?bwsl::get_gcd<int>\( => stub_gcd_int
#include <climits>
#include <sstream>
#ifdef VF_SYM
// The text of a stream: numbers (kind 0), characters (kind 1) and numbers no integer can hold (kind 2), in sequence.
// The operations of the C++ standard on it: extraction does nothing on a failed stream; it fails at the end and on text of another kind,
// leaving zero (no number there) or the largest number (too large), and reaching the end sets eofbit.
static long Kind[8], Val[8], Len, Pos;
static bool Failed, End, Other; // failbit, eofbit, badbit
static long take(long lo, long hi, long old)
{
  if (Failed | End | Other) { Failed = true; return old; }
  if (Pos >= Len) { Failed = End = true; return 0; }
  if (Kind[Pos] == 1) { Failed = true; return 0; }
  long v = Val[Pos];
  bool high = (Kind[Pos] == 2) | (v > hi), low = !high & (v < lo);
  Pos++;
  End = Pos == Len;
  Failed = high | low;
  return vf::ite(high, hi, vf::ite(low, lo, v));
}
extern "C" std::istream* stub_in_long(std::istream* s, long* v) { *v = take(LONG_MIN, LONG_MAX, *v); return s; }
extern "C" std::istream* stub_in_int(std::istream* s, int* v) { *v = (int)take(INT_MIN, INT_MAX, *v); return s; }
extern "C" std::istream* stub_in_char(std::istream* s, char* c)
{
  if (Failed | End | Other) { Failed = true; return s; }
  if (Pos >= Len) { Failed = End = true; return s; }
  long v = Val[Pos];
  if (Kind[Pos] == 1) { *c = (char)v; Pos++; return s; }
  // the first character of a number; what is left of it is another text
  int digit = vf::any<int>("digit", '+', '9');
  vf::assume(digit != '/');
  *c = (char)digit;
  Kind[Pos] = vf::any<long>("left", 0, 2);
  Val[Pos] = vf::any<long>("rest", '0', '9');
  return s;
}
static int state()
{
  int s = 0;
  if (Failed) s |= std::ios_base::failbit;
  if (End) s |= std::ios_base::eofbit;
  if (Other) s |= std::ios_base::badbit;
  return s;
}
static void set(int s) { Failed = (s & std::ios_base::failbit) != 0; End = (s & std::ios_base::eofbit) != 0; Other = (s & std::ios_base::badbit) != 0; }
extern "C" int stub_rdstate(const void*) { return state(); }
extern "C" void stub_setstate(void*, int s)
{
  Failed |= (s & std::ios_base::failbit) != 0;
  End |= (s & std::ios_base::eofbit) != 0;
  Other |= (s & std::ios_base::badbit) != 0;
}
extern "C" void stub_clear(void*, int s) { set(s); }
extern "C" bool stub_fail(const void*) { return Failed | Other; }
extern "C" bool stub_ok(const void*) { return !(Failed | Other); }
extern "C" bool stub_good(const void*) { return !(Failed | Other | End); }
extern "C" bool stub_eof(const void*) { return End; }
extern "C" std::ostream* stub_out_long(std::ostream* s, long v) { Kind[Len] = 0; Val[Len] = v; Len++; return s; }
extern "C" std::ostream* stub_out_int(std::ostream* s, int v) { Kind[Len] = 0; Val[Len] = v; Len++; return s; }
extern "C" std::ostream* stub_out_char(std::ostream* s, char c) { Kind[Len] = 1; Val[Len] = c; Len++; return s; }
extern "C" std::ostream* stub_out_text(std::ostream* s, const char* t) { for (long i = 0; t[i]; i++) { Kind[Len] = 1; Val[Len] = t[i]; Len++; } return s; }
//@stub ^std::istream::operator>>\(long&\) => stub_in_long
//@stub ^std::istream::operator>>\(int&\) => stub_in_int
//@stub std::operator>><char, std::char_traits<char>>\(std::basic_istream.*, char&\) => stub_in_char
//@stub ^std::basic_ios<char, std::char_traits<char>>::rdstate\( => stub_rdstate
//@stub ^std::basic_ios<char, std::char_traits<char>>::setstate\( => stub_setstate
//@stub ^std::basic_ios<char, std::char_traits<char>>::clear\( => stub_clear
//@stub ^std::basic_ios<char, std::char_traits<char>>::(fail|operator!)\( => stub_fail
//@stub ^std::basic_ios<char, std::char_traits<char>>::operator bool\( => stub_ok
//@stub ^std::basic_ios<char, std::char_traits<char>>::good\( => stub_good
//@stub ^std::basic_ios<char, std::char_traits<char>>::eof\( => stub_eof
//@stub ^std::ostream::operator<<\(long\) => stub_out_long
//@stub ^std::ostream::operator<<\(int\) => stub_out_int
//@stub std::operator<<<std::char_traits<char>>\(std::basic_ostream.*, char\) => stub_out_char
//@stub std::operator<<<std::char_traits<char>>\(std::basic_ostream.*, char const\*\) => stub_out_text
#endif
struct Text
{
  std::stringstream s;
#ifdef VF_SYM
  Text() { Len = 0; Pos = 0; Failed = End = Other = false; }
  void fill(long n, const long* k, const long* v)
  {
    for (long i = 0; i < 5; i++) {
      Kind[i] = k[i];
      Val[i] = vf::ite(k[i] == 1, vf::ite(v[i] == 0, (long)'/', vf::ite(v[i] == 1, (long)'.', vf::ite(v[i] == 2, (long)'x', (long)':'))), v[i]);
    }
    Len = n;
  }
  bool ok() { return !Failed; }
#else
  void fill(long n, const long* k, const long* v)
  {
    for (long i = 0; i < n; i++)
      if (k[i] == 0) s << v[i] << ' ';
      else if (k[i] == 1) s << "/.x:"[v[i]];
      else s << "99999999999999999999 ";
  }
  bool ok() { return !s.fail(); }
#endif
};
template<class T> static void read()
{
  auto hi = std::numeric_limits<T>::max();
  RationalNum<T> r = any_rational<T>("n", "d"), before = r;
  long n = vf::any<long>("pieces", 0, 5), k[5], v[5];
  if (!vf::symbolic && vf::pick(2)) n = 4 + vf::pick(2); 
  bool fair = !vf::symbolic && vf::pick(2);
  Text t;
  for (long i = 0; i < 5; i++) {
    k[i] = fair && i < 4 ? (i == 1) | (i == 2) : vf::any<long>("kind", 0, 2);
    v[i] = vf::ite(k[i] == 1, vf::any<long>("char", 0, 3), vf::any<long>("number", -(long)hi, (long)hi));
    if (fair && i < 3 && k[i] == 1) v[i] = 0;
  }
  t.fill(n, k, v);
  t.s >> r;
  bool well = (n >= 4) & (k[0] == 0) & (k[1] == 1) & (k[2] == 1) & (v[1] == 0) & (v[2] == 0) & (k[3] == 0) & (v[3] != 0);
  vf::check(t.ok() == well, "reading fails exactly when the text is not a fraction");
  if (well) is(r, v[0], v[3]);
  else vf::check((r.GetNum() == before.GetNum()) & (r.GetDen() == before.GetDen()), "a failed reading leaves the number alone");
}
VF_HARNESS(read_long) { read<long>(); }
VF_HARNESS(read_int) { read<int>(); }
template<class T> static void write()
{
  auto r = any_rational<T>("n", "d");
  Text t;
  t.s << r;
#ifdef VF_SYM
  vf::check(Len == 4, "a number, two characters and a number");
  vf::check((Kind[0] == 0) & (Kind[1] == 1) & (Kind[2] == 1) & (Kind[3] == 0) & (Val[0] == r.GetNum()) & (Val[1] == '/') & (Val[2] == '/') & (Val[3] == r.GetDen()), "numerator//denominator");
#else
  vf::check(t.s.str() == std::to_string(r.GetNum()) + "//" + std::to_string(r.GetDen()), "numerator//denominator");
#endif
  RationalNum<T> q(1, 7);
  t.s >> q;
  vf::check(t.ok(), "the text can be read");
  vf::check((q.GetNum() == r.GetNum()) & (q.GetDen() == r.GetDen()), "reading gives the number back");
}
VF_HARNESS(write_long) { write<long>(); }
VF_HARNESS(write_int) { write<int>(); }
