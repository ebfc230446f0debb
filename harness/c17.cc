// C17: implicit learning.  The decisions of the branching heuristics that use conjectures, on every reachable kind of
// assignment state, for all conjectures: legal, against the conjectures, within their budgets, otherwise the default ones.
#include "candy_common.h"
#include "families.h"
#include "candy/core/Solver.h"
#include "candy/systems/propagate/StaticPropagate.h"
#include "candy/systems/branching/rsil/BranchingHeuristics.h"
#include "candy/systems/branching/VSIDS.h"
using namespace cd;
enum { K_DEC, K_ADVISED, K_SIGNED, K_DEFAULT, K_NONE, K_EXHAUSTED, K_VANISHED, K_CONFL, K_F0 };
typedef std::vector<std::vector<int>> Classes; // literals conjectured to be equal
struct Conj { Classes eq; std::vector<int> bb; };
static std::string show(const Conj& q) { std::ostringstream o; for (auto& e : q.eq) { o << "{ "; for (int l : e) o << l << ' '; o << "} "; } for (int b : q.bb) o << "constant " << b << ' '; return o.str(); }
static std::unique_ptr<Conjectures> make(const Conj& q) { auto r = std::unique_ptr<Conjectures>(new Conjectures()); for (auto& e : q.eq) { EquivalenceConjecture x; for (int l : e) x.addLit(lit(l)); r->addEquivalence(x); } for (int b : q.bb) r->addBackbone(BackboneConjecture(lit(b))); return r; }
// the specification
struct Spec {
    Conj q; unsigned max; bool bb; long budget; std::map<std::pair<int, int>, long> used; // (variable on the trail or 0, advised variable) -> uses
    struct Adv { int key, lit; };
    std::vector<Adv> advice(Trail& t) { std::vector<Adv> r; if (t.decisionLevel() == 0) return r;
        for (unsigned i = t.trail_lim.back(); i < t.size(); i++) { int a = dim(t[i]); for (auto& e : q.eq) { if (e.size() > max) continue; int k = 0; for (int l : e) if (std::abs(l) == std::abs(a)) k = l == a ? 1 : -1; if (!k) continue;
            for (int l : e) { int d = -k * l; if (std::abs(l) == std::abs(a) || t.value(lit(d).var()) != l_Undef || !t.isDecisionVar(lit(d).var()) || used[{std::abs(a), std::abs(d)}] >= budget) continue; r.push_back({std::abs(a), d}); } } }
        return r; }
    int constant(int v) { if (!bb) return 0; for (int b : q.bb) if (std::abs(b) == v && used[{0, v}] < budget) return b; return 0; }
};
enum Mode { ALWAYS, BUDGETED, VANISHING };
static std::string state(Trail& t) { std::ostringstream o; o << "trail"; unsigned lv = 0; for (unsigned i = 0; i < t.size(); i++) { while (lv < t.decisionLevel() && t.trail_lim[lv] <= i) { o << " |"; lv++; } o << ' ' << dim(t[i]); } while (lv++ < t.decisionLevel()) o << " |"; for (Var v = 0; v < (Var)t.nVars(); v++) if (!t.isDecisionVar(v)) o << " (not " << v + 1 << ")"; return o.str(); }
// what the heuristic may return in this state; def: what the default heuristic would return (0: not known)
static int judge(mc::Ctx& c, Spec& s, Trail& t, Lit r, bool may, bool must, int def, const std::string& log) { // 2 advised, 1 sign advised, 0 default
    int n = t.nVars(); std::string at = " in " + state(t) + " after " + log; c.count(K_DEC);
    bool any = false; for (Var v = 0; v < (Var)n; v++) any |= t.isDecisionVar(v) && t.value(v) == l_Undef;
    if (r == lit_Undef) { if (any) c.fail("no-decision", "no decision although a variable is left" + at); c.count(K_NONE); return 0; }
    int d = dim(r); if (std::abs(d) > n) c.fail("unknown-variable", "decides the unknown variable " + std::to_string(std::abs(d)) + at);
    if (t.value(r.var()) != l_Undef) c.fail("assigned-variable", "decides " + std::to_string(d) + ", which has a value" + at);
    if (!t.isDecisionVar(r.var())) c.fail("excluded-variable", "decides " + std::to_string(d) + ", which is not eligible" + at);
    auto A = s.advice(t); bool in = false; for (auto& a : A) if (a.lit == d) { in = true; if (may) s.used[{a.key, std::abs(d)}]++; break; }
    if (must && !A.empty() && !in) c.fail("advice-ignored", "decides " + std::to_string(d) + ", not the negation of a literal conjectured to equal one of the last level" + at);
    if (may && !A.empty() && in) { c.count(K_ADVISED); return 2; }
    if (def && std::abs(d) != std::abs(def)) c.fail("default-replaced", "decides " + std::to_string(d) + " without a conjecture about it, the default heuristic decides " + std::to_string(def) + at);
    int b = s.constant(std::abs(d)); if (must && b && d == b) c.fail("constant-confirmed", "decides " + std::to_string(d) + ", conjectured to be constant: the conjecture is to be refuted" + at);
    if (must && b) { s.used[{0, std::abs(d)}]++; c.count(K_SIGNED); return 1; }
    if (!b && def && d != def) c.fail("sign-changed", "decides " + std::to_string(d) + " without a conjecture, the default heuristic decides " + std::to_string(def) + at);
    c.count(K_DEFAULT); return 0;
}
// drives one heuristic through histories of decisions, implications and backtracking on a trail
template <class H> static void setup(H& h, const Conj& q, bool bb, long budget, RSILBudgetBranchingHeuristic<2>*) { h.init(make(q), bb, (unsigned)budget); }
template <class H> static void setup(H& h, const Conj& q, bool bb, long budget, RSILBudgetBranchingHeuristic<3>*) { h.init(make(q), bb, (unsigned)budget); }
template <class H> static void setup(H& h, const Conj& q, bool bb, long hl, RSILVanishingBranchingHeuristic2*) { h.init(make(q), bb, (unsigned)hl); }
template <class H> static void setup(H& h, const Conj& q, bool bb, long hl, RSILVanishingBranchingHeuristic3*) { h.init(make(q), bb, (unsigned)hl); }
template <class H> static void setup(H& h, const Conj& q, bool bb, long, void*) { h.init(make(q), bb); }
struct Event { int kind, arg; }; // 0 decide as advised, 1 imply a literal, 2 backtrack to level, 3 decide a literal (an assumption), 4 exclude / include a variable
template <class H> static void drive(mc::Ctx& c, int n, const Conj& q, bool bb, long budget, Mode mode, unsigned max, int steps, int fam, const std::string& name) {
    ClauseDatabase db; Trail t; CNFProblem p; while ((int)p.nVars() < n) p.newVar(); db.init(p); t.init(n); H h(db, t); VSIDS def(db, t);
    { RSILOptions::opt_rsil_minGateFraction = 1.0; h.init(p); } setup(h, q, bb, budget, (H*)nullptr); def.init(p);
    Spec s; s.q = q; s.max = max; s.bb = bb; s.budget = mode == BUDGETED ? budget : 1L << 40;
    std::ostringstream log; log << name << " " << show(q) << (bb ? "" : "(constants off) ") << "budget " << budget << ": "; uint64_t hsh = max + 8 * mode; long calls = 0; bool same = mode != VANISHING;
    for (int i = 0; i < steps; i++) {
        c.describe(log.str()); h.reset(); def.reset(); // as at a restart, so that both heuristics know all variables again
        Lit r = h.pickBranchLit(); Lit dd = lit_Undef; c.step(); calls += 2;
        bool gone = mode == VANISHING && calls / 2 > 64 * budget; bool must = mode != VANISHING || calls <= budget, may = !gone;
        { auto A = s.advice(t); if (A.empty() || gone) { dd = def.pickBranchLit(); } }
        int k = judge(c, s, t, r, may, must, dd == lit_Undef ? 0 : dim(dd), log.str()); if (gone) c.count(K_VANISHED); (void)same;
        if (r == lit_Undef) { log << "none "; } else { log << "pick " << dim(r) << (k == 2 ? "! " : k == 1 ? "- " : " "); hsh = mc::mix(hsh, dim(r) + 100 * k); }
        // the explorer goes on
        std::vector<Event> ev; if (r != lit_Undef) ev.push_back({0, 0}); std::vector<int> un; for (int v = 1; v <= n; v++) if (t.value(Var(v - 1)) == l_Undef) un.push_back(v);
        for (int v : un) { ev.push_back({3, v}); ev.push_back({3, -v}); if (t.decisionLevel()) { ev.push_back({1, v}); ev.push_back({1, -v}); } }
        for (unsigned l = 0; l < t.decisionLevel(); l++) ev.push_back({2, (int)l}); for (int v : un) ev.push_back({4, v});
        if (i + 1 == steps) break; if (mode == VANISHING && fam == 3) ev.resize(std::min<size_t>(ev.size(), r == lit_Undef ? 0 : 1));
        if (ev.empty()) { t.backtrack(0); continue; }
        Event e = ev[c.choose(ev.size())]; if (i == 0) c.split();
        switch (e.kind) { case 0: t.newDecisionLevel(); t.decide(r); break; case 1: t.propagate(lit(e.arg), nullptr); log << "imply " << e.arg << ' '; break; case 2: t.backtrack(e.arg); log << "back " << e.arg << ' '; break;
        case 3: t.newDecisionLevel(); t.decide(lit(e.arg)); log << "assume " << e.arg << ' '; break; case 4: t.setDecisionVar(e.arg - 1, !t.isDecisionVar(e.arg - 1)); log << "toggle " << e.arg << ' '; break; }
    }
    RSILOptions::opt_rsil_minGateFraction = 0.1; c.count(K_F0 + fam); c.outcome(hsh); if (hsh % 64 == 1) c.sample(log.str());
}
static void drive(mc::Ctx& c, int h, int n, const Conj& q, bool bb, long budget, int steps, int fam) {
    if (h >= 4) RSILOptions::opt_rsil_vanHalfLife = (int)budget;
    switch (h) { case 0: drive<RSILBranchingHeuristic2>(c, n, q, bb, budget, ALWAYS, 2, steps, fam, "unrestricted 2"); break; case 1: drive<RSILBranchingHeuristic3>(c, n, q, bb, budget, ALWAYS, 3, steps, fam, "unrestricted 3"); break;
    case 2: drive<RSILBudgetBranchingHeuristic2>(c, n, q, bb, budget, BUDGETED, 2, steps, fam, "budgeted 2"); break; case 3: drive<RSILBudgetBranchingHeuristic3>(c, n, q, bb, budget, BUDGETED, 3, steps, fam, "budgeted 3"); break;
    case 4: drive<RSILVanishingBranchingHeuristic2>(c, n, q, bb, budget, VANISHING, 2, steps, fam, "vanishing 2"); break; default: drive<RSILVanishingBranchingHeuristic3>(c, n, q, bb, budget, VANISHING, 3, steps, fam, "vanishing 3"); }
}
// all ways to put n variables into classes (with signs) or constants: class number per variable, 0 none, -1 constant
static Conj conj(mc::Ctx& c, int n) {
    Conj q; std::vector<std::vector<int>> cls; for (int v = 1; v <= n; v++) { int k = c.choose(3 + cls.size()); if (k == 0) continue; if (k == 1) { q.bb.push_back(c.flag() ? -v : v); continue; } if (k == 2) { cls.push_back({v}); continue; } cls[k - 3].push_back(c.flag() ? -v : v); }
    for (auto& x : cls) { if (x.size() < 2) throw mc::Prune(); q.eq.push_back(x); } return q;
}
// inside the solver: a heuristic that looks over the shoulder of the real one
static struct Probe { mc::Ctx* c = nullptr; Conj q; long budget = 0; std::ostringstream log; } P;
template <class H, int MODE, unsigned MAX> struct Watched : H {
    Spec s; bool done = false; long calls = 0; Watched(ClauseDatabase& d, Trail& t) : H(d, t) {}
    void init(const CNFProblem& p) override { this->blockInitialization = true; this->defaultBranchingHeuristic.init(p); if (!done) { done = true; setup(*(H*)this, P.q, true, P.budget, (H*)nullptr); s.q = P.q; s.max = MAX; s.bb = true; s.budget = MODE == BUDGETED ? P.budget : 1L << 40; } }
    Lit pickBranchLit() { Lit r = H::pickBranchLit(); calls += 2; P.c->step(); int k = judge(*P.c, s, this->trail, r, true, MODE != VANISHING || calls <= P.budget, 0, P.log.str()); if (r != lit_Undef) P.log << dim(r) << (k == 2 ? "! " : k == 1 ? "- " : " "); P.c->describe(P.log.str()); return r; }
};
template <class W> static CandySolverInterface* solver(bool st) { if (st) return new Solver<StaticPropagate, ConflictAnalysis, W>(); return new Solver<Propagate, ConflictAnalysis, W>(); }
static CandySolverInterface* solver(int h, bool st) {
    switch (h) { case 0: return solver<Watched<RSILBranchingHeuristic2, ALWAYS, 2>>(st); case 1: return solver<Watched<RSILBranchingHeuristic3, ALWAYS, 3>>(st); case 2: return solver<Watched<RSILBudgetBranchingHeuristic2, BUDGETED, 2>>(st);
    case 3: return solver<Watched<RSILBudgetBranchingHeuristic3, BUDGETED, 3>>(st); case 4: return solver<Watched<RSILVanishingBranchingHeuristic2, VANISHING, 2>>(st); default: return solver<Watched<RSILVanishingBranchingHeuristic3, VANISHING, 3>>(st); }
}
static void inside(mc::Ctx& c, const std::vector<std::pair<ref::Cnf, ref::Clause>>& rounds, const Conj& q, int h, bool st, int pr, long budget, int fam) {
    defaults(); profiles()[pr].set(); RSILOptions::opt_rsil_vanHalfLife = (int)budget; P.c = &c; P.q = q; P.budget = budget; P.log.str(""); static const char* nm[] = {"unrestricted 2", "unrestricted 3", "budgeted 2", "budgeted 3", "vanishing 2", "vanishing 3"};
    P.log << nm[h] << (st ? " static" : "") << " [" << profiles()[pr].name << "] " << show(q) << "budget " << budget << ": "; c.describe(P.log.str());
    std::unique_ptr<CandySolverInterface> s(solver(h, st)); CNFProblem p; ref::Cnf f; int n = 0; for (auto& r : rounds) { n = std::max(n, ref::maxvar(r.first)); for (int a : r.second) n = std::max(n, std::abs(a)); } for (auto& e : q.eq) for (int l : e) n = std::max(n, std::abs(l)); for (int b : q.bb) n = std::max(n, std::abs(b));
    while ((int)p.nVars() < n) p.newVar();
    for (auto& r : rounds) { load(p, r.first); f.insert(f.end(), r.first.begin(), r.first.end()); std::vector<Lit> a; for (int l : r.second) a.push_back(lit(l)); P.log << "solve(" << ref::show(f) << "under"; for (int l : r.second) P.log << ' ' << l; P.log << ") "; c.describe(P.log.str());
        s->init(p); s->getAssignment().setAssumptions(a); lbool v = s->solve(); p.clear(); c.step(2); bool sat = ref::sat_under(f, r.second); if (v == l_Undef || (v == l_True) != sat) c.fail("verdict-wrong", std::string(sat ? "satisfiable" : "unsatisfiable") + ", but the solver says otherwise: " + P.log.str()); P.log << (sat ? "= SAT ; " : "= UNSAT ; "); if (sat) { auto m = model(s.get(), n); for (auto& cl : f) { bool taut = false; for (int l : cl) for (int k : cl) taut |= l == -k; if (!taut && !ref::satisfied(cl, m)) c.fail("model-wrong", "the model violates " + ref::show(cl) + ": " + P.log.str()); } } }
    c.count(K_F0 + fam); c.outcome(mc::mixs(fam, P.log.str())); if (P.log.str().size() > 200) c.sample(P.log.str());
}
static void body(mc::Ctx& c) {
    bool T = c.opt->thorough(); int fam = c.choose(7), only = c.opt->num("family", -1); if (only >= 0 && fam != only) throw mc::Prune(); defaults();
    switch (fam) {
    case 0: { int h = c.choose(6); Conj q = conj(c, 3); drive(c, h, 3, q, c.flag(), h >= 4 ? 1000 : 1 + c.choose(2), T ? 5 : 4, fam); break; }                     // every history over 3 variables
    case 1: { int h = c.choose(6); Conj q = conj(c, 4); drive(c, h, 4, q, true, h >= 4 ? 1000 : 1, T ? 4 : 3, fam); break; }                                         // 4 variables: two classes, classes of up to 4
    case 2: { int h = 2 + c.choose(2); Conj q; q.eq.push_back({1, c.flag() ? 2 : -2}); if (c.flag()) q.eq[0].push_back(c.flag() ? 3 : -3); else q.bb.push_back(3); drive(c, h, 3, q, true, 1 + c.choose(T ? 4 : 3), T ? 7 : 6, fam); break; } // budgets run out
    case 3: { int h = 4 + c.choose(2); Conj q; q.eq.push_back({1, -2}); q.bb.push_back(c.flag() ? 3 : -3); int hl = 1 + c.choose(T ? 6 : 3); drive(c, h, 4, q, true, hl, 64 * hl + 60, fam); break; }                              // vanishing: after 64 half-lives nothing is advised any more
    case 4: { // inside the solver on small formulas, two rounds
        static const std::vector<ref::Clause> m = ref::all_clauses(3, 2, 3); ref::Cnf f = ref::choose_set(c, m, T ? 4 : 3); Conj q = conj(c, 3); static const int hp[][3] = {{1, 0, 4}, {0, 1, 2}, {3, 0, 2}, {2, 1, 0}, {5, 0, 4}, {4, 1, 3}}; int k = c.choose(6); c.split();
        inside(c, {{f, {}}, {{{-1, 2}}, {c.flag() ? 3 : -3}}}, q, hp[k][0], hp[k][1], hp[k][2], 1 + (k & 1), fam); break; }
    case 5: { // inside the solver on structured formulas: conjectures about pairs and triples of their variables
        int b = c.choose(ref::NBASE); ref::Cnf f = ref::base(b); int n = ref::maxvar(f); if (n > 13) throw mc::Prune(); int i = 1 + c.choose(n), j = 1 + c.choose(n); if (i >= j) throw mc::Prune(); c.split(); int l = c.choose(T ? n + 1 : 2); if (!T && l) l = (i * 7 + j * 3) % n + 1; if (l == i || l == j) l = 0; Conj q; int sg = c.choose(4);
        std::vector<int> e = {i, sg & 1 ? -j : j}; if (l && (sg & 2)) e.push_back(l); else if (l) q.bb.push_back(sg & 1 ? l : -l); q.eq.push_back(e); int h = c.choose(6), pr = T ? c.choose(8) : std::vector<int>{2, 4, 7}[(i + j) % 3];
        inside(c, {{f, {}}, {{{-i, j}}, {-j}}, {{}, {i, -j}}}, q, h, (h + sg) & 1, pr, h >= 4 ? 3 : 2, fam); break; }
    case 6: { // the heuristic that the options name is the one that is built, and it behaves like it
        static const char* const modes[] = {"unrestricted", "implicationbudgeted", "vanishing"}; int mode = c.choose(3), st = c.flag(), size = 2 + c.choose(2), budget = 1 + c.choose(3); std::string at = std::string("mode ") + modes[mode] + " size " + std::to_string(size) + (st ? " static" : "") + " budget " + std::to_string(budget); c.describe(at);
        RSILOptions::opt_rsil_mode = modes[mode]; RSILOptions::opt_rsil_impBudgets = budget; RSILOptions::opt_rsil_vanHalfLife = budget; std::unique_ptr<CandySolverInterface> s(createSolver(st, false, false, true, size)); BranchingDiversificationInterface* b = s->getBranchingUnit();
        bool ok = false; switch (2 * mode + size - 2) { case 0: ok = dynamic_cast<RSILBranchingHeuristic2*>(b) && !dynamic_cast<RSILVanishingBranchingHeuristic2*>(b); break; case 1: ok = dynamic_cast<RSILBranchingHeuristic3*>(b) && !dynamic_cast<RSILVanishingBranchingHeuristic3*>(b); break; case 2: ok = dynamic_cast<RSILBudgetBranchingHeuristic2*>(b); break; case 3: ok = dynamic_cast<RSILBudgetBranchingHeuristic3*>(b); break; case 4: ok = dynamic_cast<RSILVanishingBranchingHeuristic2*>(b); break; case 5: ok = dynamic_cast<RSILVanishingBranchingHeuristic3*>(b); }
        if (!ok) c.fail("wrong-mode", "the solver that is built does not use the heuristic of " + at); c.split(); c.step(); c.count(K_F0 + fam); c.outcome(mc::mixs(fam, at)); break; }
    }
}
int main(int argc, char** argv) {
    mc::Explorer e("C17"); e.counter_names = {"decisions", "advised", "sign_advised", "default_decisions", "no_variable_left", "budget_exhausted", "after_vanishing", "conflicts", "histories_3v", "histories_4v", "budget_histories", "vanishing_histories", "solver_small", "solver_structured", "built_by_mode"};
    return e.main(argc, argv, body);
}
