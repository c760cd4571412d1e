// Binomial coefficients
//@mode uf
//@nra 1
#include "acc_common.hpp"
#include <bwsl/MathUtils.hpp>
using namespace bwsl;
// binomial coefficients: b[0]=1 and b[k+1](k+1) = b[k](n-k);  symmetric (textbook fact).  n up to nmax: no product formed on the way overflows
template<class T> static void binomial(long nmax)
{
  auto n = vf::any<T>("n", 0, (T)nmax), k = vf::any<T>("k", 0, (T)nmax * 2);
  if (k > n) { vf::check(same(cbinomial<T>(n, k), 0.), "nothing can be chosen from too few"); return; }
  std::vector<long> b;
#ifdef VF_SYM
  vf::fill_any<long>(b, "b", (size_t)n + 1, 0, sizeof(T) == 4 ? 1L << 26 : 1L << 55);
#else
  b.push_back(1);
  for (long i = 0; i < (long)n; i++) b.push_back((long)((__int128)b.back() * ((long)n - i) / (i + 1)));
#endif
  vf::assume(b[0] == 1);
  vf::assume(b[k] == b[n - k]);
  vf::assume_all((size_t)n, [&](size_t i) { return (b[i + 1] == b[i] * ((long)n - (long)i) / (long)(i + 1)) & (b[i] * ((long)n - (long)i) % (long)(i + 1) == 0); });
  vf::hint([&](long i) { return b[i]; });
  vf::check(same(cbinomial<T>(n, k), (double)b[k]), "number of ways to choose k of n");
}
VF_HARNESS(binomial_long) { binomial<long>(58); }
VF_HARNESS(binomial_int) { binomial<int>(28); }
VF_HARNESS(binomial_unsigned) { binomial<unsigned long>(58); }
