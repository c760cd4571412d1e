// driver of the concrete contract checker: run HARNESS N SEED SECONDS [replayfile]
#define VF_NATIVE
#include "vf.hpp"
#include <csignal>
#include <fstream>
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
static void on_abort(int) { vf::vf_death(); _Exit(77); }
int vf_main(int argc, char** argv)
{
  using namespace vf;
  if (argc < 5) { for (auto& h : Reg::all()) printf("%s\n", h.first.c_str()); return 0; }
  std::string want = argv[1];
  long N = atol(argv[2]);
  unsigned long seed = strtoul(argv[3], nullptr, 10);
  double secs = atof(argv[4]);
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(vf_death);
  signal(SIGABRT, on_abort); signal(SIGFPE, on_abort); signal(SIGSEGV, on_abort);
  if (argc > 5) {
    std::ifstream f(argv[5]);
    std::string l;
    while (std::getline(f, l)) { auto p = l.find('='); if (p != std::string::npos) ctx().replay[l.substr(0, p)].push_back(l.substr(p + 1)); }
  }
  auto it = Reg::all().find(want);
  if (it == Reg::all().end()) { fprintf(stderr, "no harness %s\n", want.c_str()); return 3; }
  cur_harness = want;
  auto t0 = std::chrono::steady_clock::now();
  long ok = 0, rej = 0, i = 0;
  for (i = 0; i < N; i++) {
    if ((i & 15) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
    ctx().rng.seed(seed * 1000003 + i);
    ctx().log.clear();
    ctx().pos.clear();
    std::string fail;
    try { it->second(); ok++; }
    catch (Reject const&) { rej++; }
    catch (Stop const&) { ok++; }
    catch (Fail const& f) { fail = f.label; }
    catch (std::exception const& e) { fail = std::string("unexpected exception: ") + e.what(); }
    catch (...) { fail = "unexpected exception"; }
    if (!fail.empty()) {
      printf("VF-FAIL harness=%s label=%s\nVF-INPUT\n%sVF-END\n", want.c_str(), fail.c_str(), cur_dump().c_str());
      return 1;
    }
  }
  printf("VF-OK harness=%s runs=%ld accepted=%ld rejected=%ld\n", want.c_str(), i, ok, rej);
  for (auto& r : ctx().reached) printf("VF-REACHED %ld %s\n", r.second, r.first.c_str());
  return 0;
}
int main(int argc, char** argv) { return vf_main(argc, argv); }
