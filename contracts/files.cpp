// Comparing files.
//@mode real
//@once bwsl::[a-z_]+
#include "vf.hpp"
#include <algorithm>
#include <iterator>
#include <bwsl/FileUtils.hpp>
#ifdef VF_SYM
// Two files, known by the numbers 0 and 1 kept in their names: whether they can be opened, and what they contain. A stream reads
// a file from a position, which is the end if it was opened with ate.
static const char *Content0, *Content1;
static long Size[2];
static bool Exists[2];
struct Record { long failed, file, at, open; }; // in the place of the std::ios of a stream and of its buffer
static long Table[4];
static Record* record(void* s) { return (Record*)((char*)s + 24); }
static void open(void* s, long file, int mode)
{
  long at = 0;
  if (mode & std::ios::ate) at = Size[file];
  vf::check((mode & (std::ios::trunc | std::ios::app | std::ios::out)) == 0, "the files are not written");
  *record(s) = { !Exists[file], file, at, Exists[file] };
}
static int at(Record* r)
{
  vf::check(r != nullptr, "pre: an iterator that is not at the end");
  vf::assume(r != nullptr);
  if (!r->open || r->at >= Size[r->file]) return -1;
  return (int)(unsigned char)(r->file == 0 ? Content0[r->at] : Content1[r->at]);
}
extern "C" {
struct Fpos { long at, state; };
void stub_stream(void* s) { Table[0] = 24; *(long**)s = Table + 3; *record(s) = { 0, 0, 0, 0 }; }
void stub_stream_file(void* s, const long* name, int mode) { stub_stream(s); open(s, *name, mode); }
void stub_open(void* s, const long* name, int mode) { open(s, *name, mode); }
void stub_close(void* s) { record(s)->open = 0; }
bool stub_is_open(void* s) { return record(s)->open != 0; }
bool stub_fail(const Record* r) { return r->failed != 0; }
bool stub_good(const Record* r) { return r->failed == 0; }
void* stub_buffer(void* s) { return record(s); }
Fpos stub_tell(void* s) { Record* r = record(s); return { vf::ite(r->failed != 0, -1L, r->at), 0 }; }
void* stub_seek(void* s, long off, int dir)
{
  Record* r = record(s);
  long to = dir == (int)std::ios::beg ? off : dir == (int)std::ios::cur ? r->at + off : Size[r->file] + off;
  vf::check((to >= 0) & (to <= Size[r->file]), "pre: a position in the file");
  r->at = vf::ite(r->failed != 0, r->at, to);
  return s;
}
void* stub_seek_to(void* s, long off, long) { return stub_seek(s, off, (int)std::ios::beg); }
int stub_getc(Record* r) { return at(r); }
int stub_bumpc(Record* r) { int c = at(r); if (c >= 0) r->at++; return c; }
int stub_nextc(Record* r) { if (at(r) >= 0) r->at++; return at(r); }
void stub_name(long* t) { *t = -1; }
void stub_name_end(long*) {}
const char* stub_name_text(const long* t) { return (const char*)t; }
}
//@stub ^std::(basic_ifstream<char.*>|ifstream)::basic_ifstream\(\) => stub_stream
//@stub ^std::(basic_ifstream<char.*>|ifstream)::basic_ifstream\([^)]+, std::_Ios_Openmode\) => stub_stream_file
//@stub ^std::(basic_ifstream<char.*>|ifstream)::open\(.*, std::_Ios_Openmode\) => stub_open
//@stub ^std::(basic_ifstream<char.*>|ifstream)::(~basic_ifstream|close)\(\) => stub_close
//@stub ^std::(basic_ifstream<char.*>|ifstream)::is_open\(\) => stub_is_open
//@stub ^std::(basic_ifstream<char.*>|ifstream)::rdbuf\(\) => stub_buffer
//@stub ^std::(basic_istream<char.*>|istream)::tellg\(\) => stub_tell
//@stub ^std::(basic_istream<char.*>|istream)::seekg\(long, std::_Ios_Seekdir\) => stub_seek
//@stub ^std::(basic_istream<char.*>|istream)::seekg\(std::fpos<.*>\) => stub_seek_to
//@stub ^std::(basic_streambuf<char.*>|streambuf)::sgetc\(\) => stub_getc
//@stub ^std::(basic_streambuf<char.*>|streambuf)::sbumpc\(\) => stub_bumpc
//@stub ^std::(basic_streambuf<char.*>|streambuf)::snextc\(\) => stub_nextc
//@stub ^std::basic_ios<char, std::char_traits<char>>::(fail|operator!)\( => stub_fail
//@stub ^std::basic_ios<char, std::char_traits<char>>::(good|operator bool)\( => stub_good
//@stub ^std::(__cxx11::)?(basic_string<char.*>|string)::basic_string\(\) => stub_name
//@stub ^std::(__cxx11::)?(basic_string<char.*>|string)::~basic_string\(\) => stub_name_end
//@stub ^std::(__cxx11::)?(basic_string<char.*>|string)::(c_str|data)\(\) => stub_name_text
struct Files
{
  std::string name0, name1;
  std::vector<char> data0, data1;
  Files(bool copy)
  {
    Exists[0] = vf::any<bool>("exists");
    Exists[1] = vf::any<bool>("exists");
    vf::fill_any<char>(data0, "one", vf::any<size_t>("n", 0, 1L << 40));
    vf::fill_any<char>(data1, "other", vf::any<size_t>("m", 0, 1L << 40));
    Content0 = data0.data();
    Content1 = copy ? data0.data() : data1.data();
    Size[0] = (long)data0.size();
    Size[1] = copy ? Size[0] : (long)data1.size();
    *(long*)&name0 = 0;
    *(long*)&name1 = 1;
  }
  bool exists(int i) const { return Exists[i]; }
  size_t size(int i) const { return (size_t)Size[i]; }
};
#else
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
struct Files
{
  std::string name0, name1;
  std::vector<char> data0, data1;
  bool there[2];
  Files(bool copy)
  {
    auto n = vf::any<size_t>("n", 0, 40);
    vf::fill_any<char>(data0, "one", n);
    data1 = data0;
    if (!copy)
      switch (vf::pick(4)) {
        case 0: if (n) data1[vf::pick(n)] ^= 1 << vf::pick(8); break;
        case 1: data1.push_back((char)vf::pick(256)); break;
        case 2: vf::fill_any<char>(data1, "other", vf::any<size_t>("m", 0, 40)); break;
        default: if (n) data1.pop_back();
      }
    for (int i = 0; i < 2; i++) {
      char t[] = "/tmp/vf_cmp_XXXXXX";
      int f = mkstemp(t);
      if (f >= 0) close(f);
      (i ? name1 : name0) = t;
      there[i] = vf::pick(8) != 0;
      if (there[i]) std::ofstream(t, std::ios::binary).write((i ? data1 : data0).data(), (long)size(i));
      else std::remove(t);
    }
  }
  ~Files() { std::remove(name0.c_str()); std::remove(name1.c_str()); }
  bool exists(int i) const { return there[i]; }
  size_t size(int i) const { return (i ? data1 : data0).size(); }
};
#endif
VF_HARNESS(copies)
{
  Files f(true);
  bool r = bwsl::compare_files(f.name0, f.name1);
  vf::check(r == (f.exists(0) && f.exists(1)), "files with the same contents are equal, unless one cannot be opened");
}
VF_HARNESS(same_file)
{
  Files f(true);
  vf::check(bwsl::compare_files(f.name0, f.name0) == f.exists(0), "a file is equal to itself");
}
VF_HARNESS(sizes)
{
  Files f(false);
  bool r = bwsl::compare_files(f.name0, f.name1);
  vf::check(!r | ((f.size(0) == f.size(1)) & f.exists(0) & f.exists(1)), "equal files can be opened and have the same size");
}
VF_HARNESS(contents)
{
  Files f(false);
  auto w = vf::any<size_t>("where", 0, vf::symbolic ? 1UL << 40 : 40);
  vf::assume((w < f.size(0)) & (w < f.size(1)));
  bool here = f.data0[w] == f.data1[w];
  vf::hint([=](long k) -> bool { return here | (k <= (long)w); });
  bool r = bwsl::compare_files(f.name0, f.name1);
  vf::clear_hints();
  vf::check(!r | here, "equal files have the same byte at every position");
}
