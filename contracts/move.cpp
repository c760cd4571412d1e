// Statistics of Monte Carlo moves: every history of operations, valid or not.
//@mode real
#include "acc_common.hpp"
#include <bwsl/MonteCarloUtils.hpp>
using namespace bwsl::montecarlo;
using L = vf::Tup<long>;
// operations: 0 propose, 1 accept, 2 reject, 3 impossible, 4 reset, 5 6 7 add a whole accepted/rejected/impossible move
struct History { std::vector<long> op; std::vector<double> p; };
static History any_history(const char* no, const char* np, const char* len)
{
  History h;
  auto n = vf::any<size_t>(len, 0, vf::symbolic ? (1L << 58) : 14);
  vf::fill_any<long>(h.op, no, n, 0, 7);
  vf::fill_nice(h.p, np, n, 0., 1000.);
  return h;
}
static bool adds(long op) { return op >= 5; }
static bool valid(long op, long flag) { return (op == 4) | ((flag == 1) & (op >= 1) & (op <= 3)) | ((flag == 0) & ((op == 0) | (op >= 5))); }
static bool ends(long op, long flag) { return valid(op, flag) & (op != 4) & (op != 0); }
static long kind(long op) { return vf::ite(op >= 5, op - 4, op); }
static auto counts(History const& h, L i = L{ 0, 0, 0, 0 })
{ // 0: a proposal is pending, 1: proposed, 2: accepted, 3: rejected  (the remaining ones were impossible)
  return vf::rec<long, 4>(i, [&](L s, long k) {
    long op = h.op[k], f = s[0];
    bool v = valid(op, f), e = ends(op, f), r = op == 4;
    return L{ vf::ite(r, 0L, vf::ite(v, vf::ite(op == 0, 1L, 0L), f)), vf::ite(r, 0L, s[1] + vf::ite(v & ((op == 0) | adds(op)), 1L, 0L)),
              vf::ite(r, 0L, s[2] + vf::ite(e & (kind(op) == 1), 1L, 0L)), vf::ite(r, 0L, s[3] + vf::ite(e & (kind(op) == 2), 1L, 0L)) };
  });
}
template<class C> static long impossible(C const& c, long k) { return c(1, k) - c(0, k) - c(2, k) - c(3, k); }
template<class C> static auto probs(History const& h, C const& c, double i = 0.)
{ // sum of the probabilities of the moves concluded since the last reset
  return vf::rec<double, 1>(D{ i }, [&](D s, long k) {
    long op = h.op[k];
    return D{ vf::ite(op == 4, 0., s[0] + vf::ite(ends(op, c(0, k)) & (kind(op) != 3), h.p[k], 0.)) };
  });
}
// performs the operation; true if it was refused
static bool apply(MoveStats& m, long op, double p)
{
  try {
    switch (op) {
      case 0: m.Propose(); break;
      case 1: m.Accept(p); break;
      case 2: m.Reject(p); break;
      case 3: m.Impossible(); break;
      case 4: m.Reset(); break;
      case 5: m.Add(MoveResult::Accept(p)); break;
      case 6: m.Add(MoveResult::Reject(p)); break;
      default: m.Add(MoveResult::Impossible()); break;
    }
  } catch (exception::MoveInvalidSequence const&) {
    return true;
  }
  return false;
}
static bool eq(double a, double b) { return vf::eqr(a, b, 1e-9); }
template<class C, class S> static void hints(C const& c, S const& s)
{
  vf::hint([&](long k) { return c(0, k); });
  vf::hint([&](long k) { return c(0, k) == 1; });
  vf::hint([&](long k) { return c(1, k); });
  vf::hint([&](long k) { return c(2, k); });
  vf::hint([&](long k) { return c(3, k); });
  vf::hint([&](long k) { return impossible(c, k); });
  vf::hint([&](long k) { return c(1, k) - c(0, k); });
  vf::hint([&](long k) { return s(k); });
}
template<class C> static void lemma(C const& c, long n, long B = 0)
{
  vf::induct(n, "lemma: tallies are small", [&](long k) {
    return ((c(0, k) == 0) | (c(0, k) == 1)) & (c(1, k) >= c(0, k)) & (c(1, k) <= B + k) & (c(2, k) >= 0) & (c(2, k) <= B + k) & (c(3, k) >= 0) & (c(3, k) <= B + k);
  });
  vf::induct(n, "lemma: tallies add up", [&](long k) { return impossible(c, k) >= 0; });
}
template<class C, class S> static void result(MoveStats const& m, C const& c, S const& s, long n)
{
  long P = c(1, n), done = P - c(0, n);
  if (P > 0) {
    vf::check(eq(m.GetAcceptedRatio() * (double)P, (double)c(2, n)), "accepted ratio");
    vf::check(eq(m.GetRejectedRatio() * (double)P, (double)c(3, n)), "rejected ratio");
    vf::check(eq(m.GetImpossibleRatio() * (double)P, (double)impossible(c, n)), "impossible ratio");
    vf::check(vf::ler(m.GetAcceptedRatio() + m.GetRejectedRatio() + m.GetImpossibleRatio(), 1.) & vf::ler(0., m.GetAcceptedRatio()) & vf::ler(0., m.GetRejectedRatio()) & vf::ler(0., m.GetImpossibleRatio()), "ratios are fractions of the proposals");
    if (c(0, n) == 0) vf::check(eq(m.GetAcceptedRatio() + m.GetRejectedRatio() + m.GetImpossibleRatio(), 1.), "with nothing pending the ratios add up to one");
  } else {
    vf::check(m.GetAcceptedRatio() == 0., "accepted ratio without proposals is zero");
  }
  if (done > 0) vf::check(eq(m.GetAverageProbability() * (double)done, s(n)), "average probability of the concluded moves");
}
VF_HARNESS(move_history)
{
  auto h = any_history("op", "p", "n");
  auto n = (long)h.op.size();
  auto c = counts(h);
  auto s = probs(h, c);
  lemma(c, n);
  hints(c, s);
  MoveStats m;
  for (size_t i = 0; i < h.op.size(); i++) {
    bool refused = apply(m, h.op[i], h.p[i]);
    vf::check(refused == !valid(h.op[i], c(0, (long)i)), "refused exactly when out of sequence");
  }
  result(m, c, s, n);
}
VF_HARNESS(move_stored)
{
  auto h = any_history("op", "p", "n"), g = any_history("oq", "q", "m");
  auto n = (long)h.op.size(), m = (long)g.op.size();
  auto c = counts(h);
  auto s = probs(h, c);
  lemma(c, n);
  hints(c, s);
  MoveStats a, b;
  for (size_t i = 0; i < h.op.size(); i++) apply(a, h.op[i], h.p[i]);
  b.Propose();
  if (vf::any<bool>("other")) b.Accept(0.5);
  transfer(a, b);
  auto c2 = counts(g, L{ c(0, n), c(1, n), c(2, n), c(3, n) });
  auto s2 = probs(g, c2, s(n));
  lemma(c2, m, n);
  vf::clear_hints();
  hints(c2, s2);
  for (size_t i = 0; i < g.op.size(); i++) {
    bool refused = apply(b, g.op[i], g.p[i]);
    vf::check(refused == !valid(g.op[i], c2(0, (long)i)), "refused exactly when out of sequence");
  }
  result(b, c2, s2, m);
}
VF_HARNESS(move_result)
{
  double p = vf::nice("p");
  auto a = MoveResult::Accept(p), r = MoveResult::Reject(p), i = MoveResult::Impossible();
  MoveResult d;
  vf::check(a.IsAccepted() & !a.IsRejected() & !a.IsImpossible() & (a.GetStatus() == MoveStatus::Accepted), "accepted result");
  vf::check(!r.IsAccepted() & r.IsRejected() & !r.IsImpossible() & (r.GetStatus() == MoveStatus::Rejected), "rejected result");
  vf::check(!i.IsAccepted() & !i.IsRejected() & i.IsImpossible() & (i.GetStatus() == MoveStatus::Impossible), "impossible result");
  vf::check(!d.IsAccepted() & !d.IsRejected() & d.IsImpossible(), "default result is impossible");
  vf::check((a.Probability() == p) & (r.Probability() == p) & (i.Probability() == 0.) & (d.Probability() == 0.), "probability carried");
  MoveResult q(MoveStatus::Rejected, p);
  q = a;
  vf::check(q.IsAccepted() & (q.Probability() == p), "assignment copies status and probability");
}
