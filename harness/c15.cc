// C15: the search core under every sequence of decisions.  The branching heuristic, a template parameter of the solver,
// is replaced by the explorer: each decision is a choice.  Propagation, conflict analysis, clause database, restarts,
// reduction and simplification are the real code.
#include "candy_common.h"
#include "families.h"
#include "candy/core/Solver.h"
#include "candy/systems/propagate/StaticPropagate.h"
using namespace cd;
enum { K_DEC, K_CONFL, K_SAT, K_UNSAT, K_ASSUM, K_UNITS, K_F0 };

static struct Probe { mc::Ctx* c = nullptr; ref::Cnf f; std::unique_ptr<ref::Table> T; int n = 0, budget = 0, policy = 0; bool intact = false; uint64_t h = 0; std::ostringstream log; } P;
static std::string ctx() { return " after " + P.log.str(); }

static void trail_ok(Trail& t) {
    std::vector<int> at(P.n + 1, -1); unsigned last = 0;
    for (unsigned i = 0; i < t.size(); i++) { Lit l = t[i]; int v = l.var() + 1; if (v > P.n || at[v] >= 0) P.c->fail("trail", "variable " + std::to_string(v) + " is on the trail twice or unknown" + ctx()); at[v] = i;
        if (t.value(l) != l_True) P.c->fail("trail", "literal " + std::to_string(dim(l)) + " on the trail is not true" + ctx());
        if (t.level(l.var()) < last || t.level(l.var()) > t.decisionLevel()) P.c->fail("trail", "wrong level of variable " + std::to_string(v) + ctx()); last = t.level(l.var()); }
    for (int v = 1; v <= P.n && v <= (int)t.nVars(); v++) {
        if ((t.value(Var(v - 1)) != l_Undef) != (at[v] >= 0)) P.c->fail("trail", "variable " + std::to_string(v) + " has a value but is not on the trail, or the reverse" + ctx());
        if (at[v] < 0 || t.level(Var(v - 1)) == 0 || !t.reason(Var(v - 1))) continue;
        bool self = false; for (Lit l : *t.reason(Var(v - 1))) { int w = l.var() + 1; if (w == v) { self = t.value(l) == l_True; continue; } if (t.value(l) != l_False || at[w] > at[v]) P.c->fail("reason", "the reason of variable " + std::to_string(v) + " does not imply it" + ctx()); }
        if (!self) P.c->fail("reason", "the reason of variable " + std::to_string(v) + " does not contain it" + ctx());
    }
}
template <class C> static int state(Trail& t, const C& cl) { int undef = 0; for (Lit l : cl) { lbool x = t.value(l); if (x == l_True) return 2; if (x == l_Undef) undef++; } return undef == 0 ? 0 : undef == 1 ? 1 : 2; }

class Oracle : public BranchingDiversificationInterface {
    ClauseDatabase& db; Trail& t;
public:
    Oracle(ClauseDatabase& d, Trail& tr) : db(d), t(tr) {}
    void clear() {} void init(const CNFProblem&) {} void reset() {} void process_reduce() {}
    void setPolarity(Var, bool) override {} Lit getLastDecision() override { return t[t.trail_lim.back()]; }
    void process_conflict() {
        auto& L = db.result.learnt_clause; P.c->count(K_CONFL); trail_ok(t);
        ref::Clause cl; std::set<int> vars; for (Lit l : L) { cl.push_back(dim(l)); vars.insert(std::abs(dim(l))); }
        P.log << "learn(" << ref::show(cl) << ") "; P.h = mc::mix(P.h, cl.size()); for (int l : cl) P.h = mc::mix(P.h, l + 1000);
        if (cl.empty() || vars.size() != cl.size()) P.c->fail("learnt-shape", "learnt clause " + ref::show(cl) + " is empty or repeats a variable" + ctx());
        for (Lit l : L) if (t.value(l) != l_False) P.c->fail("learnt-not-false", "literal " + std::to_string(dim(l)) + " of the learnt clause is not false in the conflict" + ctx());
        if (!P.T->implies(cl)) P.c->fail("learnt-not-implied", "learnt clause " + ref::show(cl) + " does not follow from the formula" + ctx());
        unsigned top = 0; std::set<unsigned> lv; for (size_t i = 0; i < L.size(); i++) { unsigned x = t.level(L[i].var()); lv.insert(x); if (i == 0) { if (x != t.decisionLevel()) P.c->fail("learnt-asserting", "first literal of the learnt clause is not of the conflict level" + ctx()); } else { if (x >= t.decisionLevel() || x == 0) P.c->fail("learnt-asserting", "the learnt clause has two literals of the conflict level, or one of level 0" + ctx()); top = std::max(top, x); } }
        if (db.result.backtrack_level != top) P.c->fail("backtrack-level", "backtrack level " + std::to_string(db.result.backtrack_level) + ", but the learnt clause asserts at " + std::to_string(top) + ctx());
        if (db.result.lbd != lv.size()) P.c->fail("lbd", "lbd " + std::to_string(db.result.lbd) + " for " + std::to_string(lv.size()) + " levels" + ctx());
        if (cl.size() == 1) P.c->count(K_UNITS);
        P.c->describe(P.log.str());
    }
    Lit pickBranchLit() {
        trail_ok(t);
        for (Clause* cl : db) if (!cl->isDeleted()) { int s = state(t, *cl); if (s < 2) { ref::Clause x; for (Lit l : *cl) x.push_back(dim(l)); P.c->fail("propagation", "clause " + ref::show(x) + (s == 0 ? " is falsified" : " is unit") + " when the next decision is made" + ctx()); } }
        if (P.intact) for (auto& cl : P.f) { std::vector<Lit> x; bool taut = false; for (int l : cl) { x.push_back(lit(l)); for (int q : cl) taut |= q == -l; } if (!taut && state(t, x) < 2 && std::set<int>(cl.begin(), cl.end()).size() == cl.size()) P.c->fail("propagation", "clause " + ref::show(cl) + " of the formula is falsified or unit when the next decision is made" + ctx()); }
        std::vector<int> u; for (Var v = 0; v < (Var)t.nVars(); v++) if (t.isDecisionVar(v) && t.value(v) == l_Undef) u.push_back(v + 1);
        if (u.empty()) return lit_Undef;
        int l; if (P.budget > 0) { P.budget--; int k = P.c->choose(2 * u.size()); l = k % 2 ? -u[k / 2] : u[k / 2]; } else { int v = P.policy & 2 ? u.back() : u.front(); l = P.policy & 1 ? v : -v; }
        P.log << l << "@" << t.decisionLevel() + 1 << ' '; P.c->count(K_DEC); P.c->step(); P.c->describe(P.log.str()); P.h = mc::mix(P.h, l + 500);
        return lit(l);
    }
};
struct Round { ref::Cnf add; ref::Clause as; };
// budget: how many decisions of each solve() are free; the later ones follow a fixed order
static void run(mc::Ctx& c, const std::vector<Round>& rounds, int cfg, int budget, int later, int fam) {
    static const int pro[] = {1, 2, 3, 4, 5, 0, 6}; // profiles
    defaults(); profiles()[pro[cfg >> 1]].set(); bool pre = SolverOptions::opt_preprocessing, inp = SolverOptions::opt_inprocessing > 0;
    P.c = &c; P.f.clear(); P.h = cfg; P.log.str(""); P.log << (cfg & 1 ? "static " : "") << "[" << profiles()[pro[cfg >> 1]].name << "] "; P.intact = !pre && !inp;
    P.n = 0; for (auto& r : rounds) { P.n = std::max(P.n, ref::maxvar(r.add)); for (int a : r.as) P.n = std::max(P.n, std::abs(a)); }
    std::unique_ptr<CandySolverInterface> s; if (cfg & 1) s.reset(new Solver<StaticPropagate, ConflictAnalysis, Oracle>()); else s.reset(new Solver<Propagate, ConflictAnalysis, Oracle>());
    P.T.reset(new ref::Table(P.n)); CNFProblem p;
    for (auto& r : rounds) {
        for (auto& cl : r.add) { P.T->and_clause(cl); P.f.push_back(cl); P.log << "add(" << ref::show(cl) << ") "; } load(p, r.add);
        std::vector<Lit> a; P.log << "solve("; for (int l : r.as) { a.push_back(lit(l)); P.log << l << ' '; while ((int)p.nVars() < std::abs(l)) p.newVar(); } P.log << ") "; c.describe(P.log.str());
        P.budget = &r == &rounds[0] ? budget : std::min(budget, later); s->init(p); s->getAssignment().setAssumptions(a); lbool v = s->solve(); p.clear(); c.step(2);
        ref::Table t = *P.T; for (int l : r.as) t.and_lit(l); bool sat = !t.empty();
        if (v == l_Undef) c.fail("verdict-undef", "no verdict" + ctx()); if ((v == l_True) != sat) c.fail("verdict-wrong", std::string(sat ? "satisfiable formula answered UNSAT" : "unsatisfiable formula answered SAT") + ctx());
        c.count(sat ? K_SAT : K_UNSAT); if (r.as.size()) c.count(K_ASSUM);
        if (sat) { auto m = model(s.get(), P.n); for (auto& cl : P.f) { bool taut = false; for (int l : cl) for (int q : cl) taut |= l == -q; if (!taut && !ref::satisfied(cl, m)) c.fail("model-wrong", "model " + showmodel(m) + "violates " + ref::show(cl) + ctx()); } for (int l : r.as) if (!ref::satisfied({l}, m)) c.fail("model-assumption", "model violates assumption " + std::to_string(l) + ctx()); }
        else { ref::Table t2 = *P.T; for (Lit l : s->getCandySolverResult().getConflict()) { int d = dim(l); if (!std::count(r.as.begin(), r.as.end(), -d) && !std::count(r.as.begin(), r.as.end(), d)) c.fail("core-foreign", "final conflict mentions " + std::to_string(d) + ctx()); t2.and_lit(std::count(r.as.begin(), r.as.end(), -d) ? -d : d); } if (!t2.empty()) c.fail("core-insufficient", "the final conflict does not explain the answer" + ctx()); }
        P.log << "= " << (sat ? "SAT ; " : "UNSAT ; ");
    }
    c.count(K_F0 + fam); c.outcome(P.h); if (P.log.str().size() > 150) c.sample(P.log.str());
}
static ref::Clause inc(mc::Ctx& c, int n, int upto) { ref::Clause a; int last = 0; for (int i = 0; i < upto; i++) { int left = n - last; if (!left) break; int k = c.choose(2 * left + 1); if (!k) break; k--; last += k / 2 + 1; a.push_back(k % 2 ? -last : last); } return a; }
static const int NF = 7;
static void body(mc::Ctx& c) {
    bool T = c.opt->thorough(); int fam = c.choose(NF), only = c.opt->num("family", -1); if (only >= 0 && fam != only) throw mc::Prune();
    static const std::vector<ref::Clause> m3 = ref::all_clauses(3, 1, 3), m3b = ref::all_clauses(3, 2, 3), m4 = ref::all_clauses(4, 4, 4), m4s = ref::all_clauses(4, 2, 3); std::vector<Round> R(1); int budget = 99, later = T ? 4 : 1, cfg; P.policy = 0;
    static const int few[] = {0, 3, 4, 7, 8, 10}; // both propagators, every profile that matters
    switch (fam) {
    case 0: R[0].add = ref::choose_set(c, m3, T ? 5 : 4); cfg = T ? c.choose(14) : few[c.choose(3)]; budget = 99; break;
    case 1: { // all but a few of the full-width clauses over 4 variables: conflicts below every sequence of decisions
        std::set<int> miss; int k = c.choose(T ? 3 : 2); for (int i = 0, last = -1; i < k; i++) { int left = 15 - last; if (left <= 0) throw mc::Prune(); last += 1 + c.choose(left); miss.insert(last); } 
        cfg = T ? c.choose(14) : few[c.choose(6)]; c.split(); for (int i = 0; i < 16; i++) if (!miss.count(i)) R[0].add.push_back(m4[i]); budget = T ? 6 : 5; break; }
    case 2: { // structured bases, the first decisions free, the others in four fixed orders
        int b = c.choose(ref::NBASE); R[0].add = ref::base(b); int n = ref::maxvar(R[0].add); if (n > 14) throw mc::Prune(); int d = c.choose(3); if (d) R[0].add.erase(R[0].add.begin() + (d == 1 ? 0 : R[0].add.size() / 2)); cfg = T ? c.choose(14) : few[c.choose(6)]; P.policy = T ? c.choose(4) : 3 * c.choose(2); c.split(); budget = T ? 4 : 3; break; }
    case 3: { // assumptions (also repeated and contradictory ones) and decisions
        R[0].add = ref::choose_set(c, m3b, T ? 4 : 3); int k = c.choose(4); for (int i = 0; i < k; i++) { int l = c.choose(6); R[0].as.push_back(l % 2 ? -(l / 2 + 1) : l / 2 + 1); } cfg = T ? c.choose(10) : few[c.choose(2)]; break; }
    case 4: { // two solves with a clause in between: learnt clauses survive
        R.resize(2); R[0].add = ref::choose_set(c, m3b, T ? 3 : 2); R[0].as = inc(c, 3, 1); R[1].add.push_back(m3[c.choose(m3.size())]); R[1].as = inc(c, 3, 1); cfg = T ? c.choose(14) : few[c.choose(2)]; budget = T ? 99 : 2; break; }
    case 5: { // structured, assumptions over selectors, two solves
        int b = c.choose(3); ref::Cnf f = b == 0 ? ref::php(3, 2) : b == 1 ? ref::xor_ring(4, 1, 2, 1) : ref::Cnf{{1, 2}, {-1, 3}, {-2, 3}, {-3, 4}, {-4, -1}, {-4, -2}, {4, 5}, {-5, 1, 2}};
        int n = ref::maxvar(f); for (size_t i = 0; i < f.size(); i++) f[i].push_back(-(n + 1 + (int)i % 2)); R.resize(2); R[0].add = f; for (int r = 0; r < 2; r++) { int m = c.choose(4); if (m & 1) R[r].as.push_back(n + 1); if (m & 2) R[r].as.push_back(n + 2); } cfg = T ? c.choose(14) : few[c.choose(4)]; c.split(); budget = T ? 4 : 2; break; }
    case 6: R[0].add = ref::choose_set(c, m4s, T ? 4 : 3); cfg = T ? c.choose(14) : few[1]; budget = T ? 99 : 3; break;
    }
    c.split(); run(c, R, cfg, budget, later, fam);
}
int main(int argc, char** argv) {
    mc::Explorer e("C15");
    e.counter_names = {"decisions", "conflicts", "sat", "unsat", "solves_under_assumptions", "learnt_units", "clause_sets_3v", "full_width_4v", "structured", "assumption_sequences", "two_solves", "selectors", "clause_sets_4v"};
    return e.main(argc, argv, body);
}
