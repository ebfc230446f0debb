// C11: abstraction refinement: answers stay right whatever is conjectured; approximations are exactly the remaining conjectures.
#include "candy_common.h"
#include "families.h"
#include "gatefam.h"
#include "candy/gates/GateAnalyzer.h"
#include "candy/gates/GateProblem.h"
#include "candy/rsar/ARSolver.h"
#include "candy/rsar/ApproximationState.h"
#include "candy/rsar/Heuristics.h"
#include "candy/rsar/Refinement.h"
#include "candy/randomsimulation/Conjectures.h"
#include "candy/frontend/SolverFactory.h"
using namespace cd;
enum { K_SAT, K_UNSAT, K_FALSE, K_STEPS, K_ENABLED, K_PATCH, K_HEUR, K_FACTORY, K_FALLBACK, K_F0 };
enum { NFAM = 7 };
// a refinement heuristic whose decisions are the explorer's
struct Chosen : RefinementHeuristic {
    std::function<uint64_t(int)> pick; int round = 0; uint64_t now = 0;
    explicit Chosen(std::function<uint64_t(int)> p) : pick(p) {}
    void beginRefinementStep() override { now = pick(round++); }
    void markRemovals(EquivalenceImplications& e) override { for (int v = 0; v < 64; v++) if (now >> v & 1) for (auto i : e) if (i.first.var() == v || i.second.var() == v) { e.addVariableRemovalToWorkQueue(v); break; } }
    void markRemovals(Backbones& b) override { for (Lit l : b) if (now >> l.var() & 1) b.addVariableRemovalToWorkQueue(l.var()); }
};
typedef std::vector<std::vector<int>> Classes;
static std::unique_ptr<Conjectures> conj(const Classes& eq, const std::vector<int>& bb) {
    auto r = std::unique_ptr<Conjectures>(new Conjectures()); for (auto& e : eq) { EquivalenceConjecture c; for (int l : e) c.addLit(lit(l)); r->addEquivalence(c); } for (int l : bb) r->addBackbone(BackboneConjecture(lit(l))); return r; }
static std::string show(const Classes& eq, const std::vector<int>& bb) { std::ostringstream o; for (auto& e : eq) { o << "{"; for (int l : e) o << l << " "; o << "} "; } o << "backbones"; for (int l : bb) o << ' ' << l; return o.str(); }
// the meaning of the conjectures that are left when the variables in 'gone' are removed
static ref::Table meaning(const Classes& eq, const std::vector<int>& bb, uint64_t gone, int n) {
    ref::Table t(n); for (auto& e : eq) { int last = 0; for (int l : e) if (!(gone >> (std::abs(l) - 1) & 1)) { if (last) { t.and_clause({-last, l}); t.and_clause({last, -l}); } last = l; } }
    for (int l : bb) if (!(gone >> (std::abs(l) - 1) & 1)) t.and_lit(l); return t; }
// conjectures over n variables: each variable is in no class, or in class 1/2 with a sign, or a backbone with a sign
static void choose_conj(mc::Ctx& c, int n, Classes& eq, std::vector<int>& bb, int nclasses) {
    Classes e(nclasses); for (int v = 1; v <= n; v++) { int k = c.choose(1 + 2 * nclasses + 2); if (k == 0) continue; k--; int l = k % 2 ? -v : v; if (k / 2 < nclasses) e[k / 2].push_back(l); else bb.push_back(l); }
    int rev = c.choose(2); for (auto& x : e) { if (rev) std::reverse(x.begin(), x.end()); if (!x.empty()) eq.push_back(x); } }
// follows the deltas of a refinement strategy as a solver would
struct Monitor {
    int n; std::map<int, Cl> clause; std::vector<Lit> assum; mc::Ctx& c; int next;
    Monitor(mc::Ctx& c_, int n_) : n(n_), c(c_), next(n_) {}
    std::function<Var()> creator() { return [this] { return (Var)next++; }; }
    void take(EncodedApproximationDelta& d, const char* when) {
        std::set<Var> fresh; for (const Cl& cl : d.getNewClauses()) { Lit a = getAssumptionLit(cl); if (a.var() < n) c.fail("no-assumption-literal", std::string(when) + ": a new clause carries no fresh literal"); if (clause.count(a.var()) || !fresh.insert(a.var()).second) c.fail("assumption-shared", std::string(when) + ": two clauses share their assumption variable"); clause[a.var()] = cl; }
        assum = d.getAssumptionLiterals(); std::set<Var> seen; for (Lit a : assum) if (!seen.insert(a.var()).second) c.fail("assumption-twice", std::string(when) + ": assumption variable listed twice");
        for (auto& x : clause) if (!seen.count(x.first)) c.fail("assumption-missing", std::string(when) + ": the assumption list does not control clause of variable " + std::to_string(x.first));
        size_t en = 0; for (Lit a : assum) { if (!clause.count(a.var())) c.fail("assumption-unused", std::string(when) + ": assumption without a clause"); if (enabled(a)) en++; }
        if (d.countEnabledClauses() != en) c.fail("enabled-count", std::string(when) + ": countEnabledClauses is " + std::to_string(d.countEnabledClauses()) + ", " + std::to_string(en) + " clauses are enabled");
        c.count(K_ENABLED, en); }
    bool enabled(Lit a) { const Cl& cl = clause[a.var()]; for (Lit l : cl) if (l == a) return false; return true; }
    ref::Table table() { ref::Table t(n); for (Lit a : assum) if (enabled(a)) { ref::Clause k; for (Lit l : clause[a.var()]) if (l.var() != a.var()) k.push_back(dim(l)); t.and_clause(k); } return t; }
};
// which variables does a (gate output) depend on
static std::set<Var> inputs(const GateProblem& gp, Var v, std::map<Var, std::set<Var>>& memo) { auto it = memo.find(v); if (it != memo.end()) return it->second; std::set<Var> r; const Gate& g = gp[v]; for (Lit l : g.inp) { if (gp[l.var()].isDefined()) { auto s = inputs(gp, l.var(), memo); r.insert(s.begin(), s.end()); } else r.insert(l.var()); } return memo[v] = r; }
static void reached(const GateProblem& gp, Var v, std::set<Var>& outs) { if (!gp[v].isDefined() || !outs.insert(v).second) return; for (Lit l : gp[v].inp) reached(gp, l.var(), outs); }

static void answers(mc::Ctx& c, const ref::Cnf& f, int n, const Kind& k, const Config& cfg, int steps, const Classes& eq, const std::vector<int>& bb, const std::function<uint64_t(int)>* pick) {
    defaults(); cfg.set(); RSAROptions::opt_rsar_maxRefinementSteps = steps;
    std::ostringstream o; o << k.name << " / " << cfg.name << " steps " << steps << (pick ? " extra heuristic " : " ") << show(eq, bb) << " : " << ref::show(f); c.describe(o.str());
    CNFProblem p; load(p, f); while ((int)p.nVars() < n) p.newVar();
    CandySolverInterface* inner = build(k); std::unique_ptr<ARSolver> s(pick ? new ARSolver(conj(eq, bb), std::unique_ptr<RefinementHeuristic>(new Chosen(*pick)), inner) : new ARSolver(conj(eq, bb), inner));
    s->init(p); lbool r = s->solve(); c.step(); bool want = ref::sat(f, n);
    if (meaning(eq, bb, 0, n).w != ref::Table(n).w) { ref::Table m = meaning(eq, bb, 0, n), t = ref::table(f, n); bool all = true; for (size_t i = 0; i < t.w.size(); i++) if (t.w[i] & ~m.w[i]) all = false; if (!all) c.count(K_FALSE); }
    if (r == l_Undef) c.fail("undefined", "solve ended without an answer"); if ((r == l_True) != want) c.fail(want ? "unsat-of-sat" : "sat-of-unsat", std::string("the answer is ") + (r == l_True ? "SAT" : "UNSAT") + ", the formula is " + (want ? "satisfiable" : "unsatisfiable"));
    if (want) { std::vector<int> m = model(s.get(), n); for (auto& cl : f) if (!ref::satisfied(cl, m)) c.fail("model", "the model " + showmodel(m) + " violates clause " + ref::show(cl)); }
    c.count(want ? K_SAT : K_UNSAT); c.outcome(mc::mixs(7, o.str())); delete inner;
}

int main(int argc, char** argv) {
    mc::Explorer e("C11"); e.counter_names = {"satisfiable", "unsatisfiable", "false_conjectures", "refinement_steps", "enabled_clauses", "patched_classes", "heuristic_steps", "solvers_from_factory", "factory_declined"}; for (int i = 0; i < NFAM; i++) e.counter_names.push_back("family_" + std::to_string(i)); for (auto& n : e.counter_names) (void)n;
    return e.main(argc, argv, [](mc::Ctx& c) {
        bool T = c.opt->thorough(); int only = c.opt->num("family", -1); int fam = only >= 0 ? only : c.choose(NFAM); c.count(K_F0 + fam);
        switch (fam) {
        case 0: { // small formulas x all conjectures over their variables
            static const std::vector<ref::Clause> menu = ref::all_clauses(3, 1, 3); ref::Cnf f = ref::choose_set(c, menu, T ? 4 : 3); Classes eq; std::vector<int> bb; choose_conj(c, 3, eq, bb, 1); int st = c.choose(T ? 3 : 2); static const int ST[] = {1, 10, 2};
            for (int k = 0; k < (T ? 4 : 1); k++) answers(c, f, 3, kinds()[k], profiles()[0], ST[st], eq, bb, nullptr); break; }
        case 1: { // structured bases x conjectures about gate variables, every profile
            ref::Cnf f = ref::base(c.choose(ref::NBASE)); int n = ref::maxvar(f); if (n > 13) throw mc::Prune(); ref::edit(c, f, n, 2); c.split(); int a = c.choose(n), b = c.choose(n), sg = c.choose(2); Classes eq; std::vector<int> bb; if (a == b) bb.push_back(sg ? -(a + 1) : a + 1); else { std::vector<int> e = {a + 1, sg ? -(b + 1) : b + 1}; for (int i = 1; i <= 2; i++) { int v = (a + b + i) % n + 1; if (v != a + 1 && v != b + 1) e.push_back(v); } eq.push_back(e); }
            int pr = T ? c.choose((int)profiles().size()) : (a + b) % (int)profiles().size(); if (!T && (b + sg + f.size()) % 3) throw mc::Prune(); answers(c, f, n, kinds()[(a + b + sg) % 4], profiles()[pr], (a + b) % 3 ? 10 : 1 + a % 3, eq, bb, nullptr); break; }
        case 2: { // explorer-controlled heuristic inside the solver
            ref::Cnf f = ref::choose_set(c, ref::all_clauses(3, 2, 3), T ? 3 : 2); int eqk = c.choose(4); static const Classes E[] = {{{1, 2, 3}}, {{1, -2, 3}}, {{-1, 2}}, {{1, -3}}}; Classes eq = E[eqk]; std::vector<int> bb; if (eq[0].size() == 2 && c.flag()) bb.push_back(eqk == 2 ? 3 : -2);
            std::vector<uint64_t> plan; for (int i = 0; i < 2; i++) plan.push_back(c.choose(8)); std::function<uint64_t(int)> pick = [plan](int r) { return r < (int)plan.size() ? plan[r] : 7ull; }; answers(c, f, 3, kinds()[0], profiles()[c.choose(2)], 3, eq, bb, &pick); break; }
        case 3: { // the approximation after every refinement step is what is left of the conjectures
            int ncl = 1 + c.choose(2); int n = T ? (ncl == 2 ? 5 : 6) : (ncl == 2 ? 4 : 5); Classes eq; std::vector<int> bb; choose_conj(c, n, eq, bb, ncl); c.split(); int rounds = 3; uint64_t gone = 0; std::vector<uint64_t> rem(rounds);
            Monitor m(c, n); int round = 0; std::ostringstream o; o << show(eq, bb) << " removed:"; std::string base = o.str(), log;
            uint64_t used = 0; for (auto& x : eq) for (int l : x) used |= 1ull << (std::abs(l) - 1); for (int l : bb) used |= 1ull << (std::abs(l) - 1);
            std::vector<std::unique_ptr<RefinementHeuristic>> hs; int split = c.choose(2); // one heuristic, or two that share the work
            auto pick1 = [&](int r) -> uint64_t { uint64_t left = used & ~gone, s = 0; std::vector<int> vs; for (int v = 0; v < n; v++) if (left >> v & 1) vs.push_back(v); if (vs.empty()) return rem[r] = 0; if (r == rounds - 1 && !T) s = left & 0x15; else { int k = c.choose(1 << vs.size()); for (size_t i = 0; i < vs.size(); i++) if (k >> i & 1) s |= 1ull << vs[i]; } rem[r] = s; log += " {"; for (int v = 0; v < n; v++) if (s >> v & 1) log += std::to_string(v + 1) + " "; log += "}"; c.describe(base + log); return split ? s & 0x2a : s; };
            auto pick2 = [&](int r) -> uint64_t { return rem[r] & 0x15; };
            hs.emplace_back(new Chosen(pick1)); if (split) hs.emplace_back(new Chosen(pick2));
            auto cj = conj(eq, bb); auto st = createDefaultRefinementStrategy(*cj, std::move(hs), m.creator());
            for (round = 0; round < rounds; round++) {
                auto d = round == 0 ? st->init() : st->refine(); c.step(); c.count(K_STEPS); gone |= rem[round]; m.take(*d, round == 0 ? "init" : "refine");
                if (round && d->getNewClauses().size()) c.count(K_PATCH);
                if (!(m.table() == meaning(eq, bb, gone, n))) c.fail("approximation", "after step " + std::to_string(round) + " the enabled clauses do not say what is left of the conjectures");
                if (gone == used && d->countEnabledClauses()) c.fail("enabled-when-empty", "no conjecture is left but clauses are enabled");
            }
            c.outcome(mc::mixs(3, base + log)); break; }
        case 4: { // longer classes: which part of the cycle goes in which step
            int n = T ? 7 : 6; std::vector<int> cls; int signs = c.choose(4); for (int v = 1; v <= n; v++) cls.push_back((signs == 1 && v % 2) || (signs == 2 && v > n / 2) || (signs == 3 && v == 1) ? -v : v); int perm = c.choose(3); if (perm == 1) std::reverse(cls.begin(), cls.end()); if (perm == 2) { std::vector<int> q; for (int i = 0; i < n; i += 2) q.push_back(cls[i]); for (int i = 1; i < n; i += 2) q.push_back(cls[i]); cls = q; }
            Classes eq{cls}; uint64_t gone = 0; std::vector<uint64_t> rem(3); std::string base = show(eq, {}), log; rem[0] = c.choose(1 << n); c.split(); rem[1] = c.choose(1 << n); if (rem[1] & rem[0]) throw mc::Prune(); rem[2] = T || n < 7 ? c.choose(1 << n) : 0; if (rem[2] & (rem[0] | rem[1])) throw mc::Prune(); log = " removed " + std::to_string(rem[0]) + " " + std::to_string(rem[1]) + " " + std::to_string(rem[2]); c.describe(base + log);
            Monitor m(c, n); std::vector<std::unique_ptr<RefinementHeuristic>> hs; hs.emplace_back(new Chosen([&](int r) { return rem[r]; })); auto cj = conj(eq, {}); auto st = createDefaultRefinementStrategy(*cj, std::move(hs), m.creator());
            for (int r = 0; r < 3; r++) { auto d = r == 0 ? st->init() : st->refine(); c.step(); c.count(K_STEPS); gone |= rem[r]; m.take(*d, "step"); if (r && d->getNewClauses().size()) c.count(K_PATCH); if (!(m.table() == meaning(eq, {}, gone, n))) c.fail("approximation", "after step " + std::to_string(r) + " the enabled clauses do not say what is left of the class"); }
            c.outcome(mc::mixs(4, base + log)); break; }
        case 5: { // input dependency heuristic: step i removes the outputs that depend on more than limit i inputs, later steps all
            static const int FM[] = {2, 3, 4, 1, 0}; ref::Cnf f = gatefam::gen(c, FM[c.choose(5)], false, 1); defaults(); CNFProblem p; load(p, f); GateAnalyzer ga(p); ga.analyze(); std::unique_ptr<GateProblem> own(&ga.getResult()); GateProblem& gp = *own; if (gp.getGateCount() == 0) throw mc::Prune();
            std::set<Var> outs; for (Cl* r : gp.roots) for (Lit l : *r) reached(gp, l.var(), outs); if (outs.empty() || f.size() == 0) throw mc::Prune(); std::map<Var, std::set<Var>> memo; int n = ref::maxvar(f); if (n > 14) throw mc::Prune();
            static const std::vector<std::vector<size_t>> LIM = {{2}, {3, 2}, {2, 1}, {1}, {4, 3, 2}, {0}, {1, 1}, {5, 1}}; for (size_t li = 0; li < (T ? LIM.size() : 5); li++) for (int asbb = 0; asbb < 2; asbb++) {
                auto& lim = LIM[li]; std::ostringstream o; o << "limits"; for (auto x : lim) o << ' ' << x; o << (asbb ? " backbones: " : " one class: ") << ref::show(f); c.describe(o.str());
                std::vector<int> all; for (Var v : outs) all.push_back(v + 1); Classes eq; std::vector<int> bb; if (asbb) bb = all; else eq.push_back(all); auto cj = conj(eq, bb); Monitor m(c, n); std::vector<std::unique_ptr<RefinementHeuristic>> hs; hs.push_back(createInputDepCountRefinementHeuristic(ga, lim)); auto st = createDefaultRefinementStrategy(*cj, std::move(hs), m.creator());
                uint64_t gone = 0; for (size_t s = 0; s <= lim.size(); s++) { auto d = s == 0 ? st->init() : st->refine(); c.step(); c.count(K_HEUR); for (Var v : outs) if (s == lim.size() || inputs(gp, v, memo).size() > lim[s]) gone |= 1ull << v; m.take(*d, "dependency step"); if (!(m.table() == meaning(eq, bb, gone, n))) c.fail("dependency-heuristic", "after step " + std::to_string(s) + " the remaining conjectures are not those about outputs with at most the allowed number of inputs"); } }
            c.outcome(mc::mixs(5, ref::show(f))); break; }
        case 6: { // the front end's factory on real gate structure
            static const int FM[] = {2, 3, 4}; ref::Cnf f = gatefam::gen(c, FM[c.choose(3)], false, 1); int n = ref::maxvar(f); if (n > 14 || f.empty()) throw mc::Prune(); int mode = c.choose(3); defaults(); RSAROptions::opt_rsar_minGateCount = 1; RSAROptions::opt_rsar_maxRefinementSteps = mode == 2 ? 2 : 10; RSAROptions::opt_rsar_inputDepCountHeurConf = mode == 1 ? "3 2" : "";
            { std::ostringstream o; o << "factory mode " << mode << ": " << ref::show(f); c.describe(o.str()); }
            CNFProblem p; load(p, f); std::unique_ptr<CandySolverInterface> s(createRSARSolver(p)); RSAROptions::opt_rsar_inputDepCountHeurConf = ""; if (!s) { c.count(K_FALLBACK); break; } c.count(K_FACTORY);
            s->init(p); lbool r = s->solve(); c.step(); bool want = ref::sat(f, n); if (r == l_Undef || (r == l_True) != want) c.fail("factory-answer", std::string("the answer is ") + (r == l_True ? "SAT" : r == l_False ? "UNSAT" : "UNDEF") + ", the formula is " + (want ? "satisfiable" : "unsatisfiable")); if (want) { auto m = model(s.get(), n); for (auto& cl : f) if (!ref::satisfied(cl, m)) c.fail("model", "the model violates clause " + ref::show(cl)); } c.count(want ? K_SAT : K_UNSAT); break; }
        }
    });
}
