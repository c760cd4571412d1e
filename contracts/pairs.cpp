// Pairs of indices <-> index of the pair
#include "vf.hpp"
#include <bwsl/Pairs.hpp>
#include <bwsl/HyperCubicGrid.hpp>
using namespace bwsl::pairs;
static constexpr size_t M32 = (size_t(1) << 32) - 1; // the number of pairs fits 64 bits
VF_HARNESS(pair_roundtrip)
{
  auto n = vf::any<size_t>("n", 1, M32), a = vf::any<size_t>("a"), b = vf::any<size_t>("b");
  if (!vf::symbolic) { a %= n; b %= n; }
  vf::assume((a < n) & (b < n));
  auto i = GetPairIndex(a, b, n);
  vf::check(i < GetNumPairs(n), "index of a pair is below the number of pairs");
  auto p = GetPair(i, n);
  vf::check((p.first == a) & (p.second == b), "pair -> index -> pair");
  vf::check(GetPairIndex(std::make_pair(a, b), n) == i, "pair given as one argument");
}
VF_HARNESS(pair_inverse)
{
  auto n = vf::any<size_t>("n", 1, M32), i = vf::any<size_t>("i");
  vf::check(GetNumPairs(n) == n * n, "number of pairs is the square of the number of indices");
  if (!vf::symbolic) i %= n * n;
  vf::assume(i < GetNumPairs(n));
  auto p = GetPair(i, n);
  vf::check((p.first < n) & (p.second < n), "both indices of a pair are valid");
  vf::check(GetPairIndex(p.first, p.second, n) == i, "index -> pair -> index");
  vf::check(GetPairIndex(p, n) == i, "index -> pair -> index (one argument)");
}
VF_HARNESS(pair_injective)
{
  auto n = vf::any<size_t>("n", 1, M32), a = vf::any<size_t>("a"), b = vf::any<size_t>("b"), c = vf::any<size_t>("c"), d = vf::any<size_t>("d");
  if (!vf::symbolic) { a %= n; b %= n; c %= n; d %= n; }
  vf::assume((a < n) & (b < n) & (c < n) & (d < n));
  vf::check((GetPairIndex(a, b, n) == GetPairIndex(c, d, n)) == ((a == c) & (b == d)), "different pairs have different indices");
}
VF_HARNESS(pair_grid)
{
  std::vector<size_t> s{ vf::any<size_t>("s", 1, M32) };
  bwsl::HyperCubicGrid g(s, bwsl::HyperCubicGrid::boundaries_t::Closed);
  auto a = vf::any<size_t>("a"), b = vf::any<size_t>("b");
  if (!vf::symbolic) { a %= s[0]; b %= s[0]; }
  vf::assume((a < s[0]) & (b < s[0]));
  auto p = g.GetIndividualIndices(g.GetPairIndex(a, b));
  vf::check((p.first == a) & (p.second == b), "pairs of sites of a grid");
}
