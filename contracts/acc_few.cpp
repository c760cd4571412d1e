// Statistics that are undefined for fewer than two measurements are reported as NaN, never as a number.
//@mode uf
#include "acc_common.hpp"
using namespace bwsl;
using namespace bwsl::accumulators;
static bool nan_(double x) { return x != x; }
VF_HARNESS(few_welford)
{
  KnuthWelfordAccumulator acc;
  if (vf::any<bool>("one")) acc.Add(vf::any_double("x"));
  if (vf::any<bool>("reset")) acc.Reset();
  bool c = vf::any<bool>("corrected");
  vf::check(nan_(acc.Variance(c)) & nan_(acc.ScaledVariance()) & nan_(acc.StandardDeviation(c)) & nan_(acc.Error(c)), "undefined below two measurements");
}
VF_HARNESS(few_integer)
{
  NaiveInteger acc;
  if (vf::any<bool>("one")) acc.Add(vf::any<long>("x", -3000000000L, 3000000000L));
  if (vf::any<bool>("reset")) acc.Reset();
  bool c = vf::any<bool>("corrected");
  vf::check(nan_(acc.Variance(c)) & nan_(acc.ScaledVariance()) & nan_(acc.StandardDeviation(c)), "undefined below two measurements");
}
VF_HARNESS(few_west)
{
  WestAccumulator acc;
  if (vf::any<bool>("one")) acc.Add(vf::any_double("x"), vf::any_double("w"));
  acc.Add(vf::any_double("y"), 0.);
  if (vf::any<bool>("reset")) acc.Reset();
  vf::check(nan_(acc.PopulationVariance()) & nan_(acc.SampleFrequencyVariance()) & nan_(acc.SampleReliabilityVariance()), "undefined below two measurements");
}
