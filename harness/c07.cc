// C07: gate recognition: recognised gates are really gates, and roots + gates + remainder are exactly the clauses of the formula.
#include "candy_common.h"
#include "gatefam.h"
#include "candy/gates/GateAnalyzer.h"
#include "candy/gates/GateProblem.h"
using namespace cd;
enum { K_RUNS, K_GATES, K_MONO, K_NONMONO, K_SEM, K_HOL, K_REM, K_F0 };
static ref::Clause cl_of(Cl* p) { ref::Clause x; for (Lit l : *p) x.push_back(dim(l)); return x; }
static const int methods[] = {0, 1, 10, 2, 11};
static void run(mc::Ctx& c, const ref::Cnf& f, int method, int tries, int fam) {
    defaults(); c.describe("method " + std::to_string(method) + " tries " + std::to_string(tries) + ": " + ref::show(f));
    CNFProblem problem; load(problem, f); int n = problem.nVars();
    std::map<Cl*, ref::Clause> all; for (Cl* p : problem) all[p] = cl_of(p);
    std::unique_ptr<GateProblem> res;
    { GateAnalyzer ga(problem, (GateRecognitionMethod)method, tries, 0); ga.analyze(); c.step(2); res.reset(&ga.getResult()); if (ga.hasTimeout()) c.fail("timeout", "unlimited analysis reports a timeout"); }
    c.count(K_RUNS); c.count(K_F0 + fam); c.count(K_SEM, res->stat_semantic); c.count(K_HOL, res->stat_holistic); c.count(K_REM, res->remainder.size());
    // the problem itself is untouched
    { size_t i = 0; for (Cl* p : problem) { auto it = all.find(p); if (it == all.end() || it->second != cl_of(p)) c.fail("formula-changed", "analysis changed clause " + std::to_string(i) + " of the formula"); i++; } }
    // partition
    std::map<Cl*, int> uses; 
    for (Cl* p : res->roots) uses[p]++; for (Cl* p : res->remainder) uses[p]++;
    uint64_t h = fam; size_t ng = 0;
    for (const Gate& g : *res) if (g.isDefined()) { ng++; for (Cl* p : g.fwd) uses[p]++; for (Cl* p : g.bwd) uses[p]++; }
    for (auto& a : all) { int k = uses.count(a.first) ? uses[a.first] : 0; if (k == 0 ) c.fail("clause-lost", "clause " + ref::show(a.second) + " is neither a root, part of a gate, nor in the remainder"); if (k > 1) c.fail("clause-twice", "clause " + ref::show(a.second) + " is used " + std::to_string(k) + " times"); }
    for (auto& u : uses) if (!all.count(u.first)) c.fail("clause-foreign", "a reported clause is not one of the formula");
    if (ng != res->nGates()) c.fail("gate-count", "gate count " + std::to_string(res->nGates()) + " but " + std::to_string(ng) + " gates");
    for (int v = 0; v < n; v++) { const Gate& g = (*res)[v]; if (!g.isDefined()) continue;
        int o = dim(g.out); if (std::abs(o) != v + 1) c.fail("gate-output", "gate stored under the wrong output");
        c.count(K_GATES); c.count(g.notMono ? K_NONMONO : K_MONO);
        ref::Cnf fwd, bwd; for (Cl* p : g.fwd) fwd.push_back(cl_of(p)); for (Cl* p : g.bwd) bwd.push_back(cl_of(p));
        std::string what = "gate " + std::to_string(o) + (g.notMono ? "" : " (monotonic)") + " fwd {" + ref::show(fwd) + "} bwd {" + ref::show(bwd) + "}";
        h = mc::mixs(h, what);
        std::set<int> in; for (Lit l : g.inp) in.insert(dim(l));
        std::set<int> want; for (auto& x : fwd) { bool has = false; for (int l : x) if (l == -o) has = true; else want.insert(l); if (!has) c.fail("gate-fwd", what + ": a forward clause does not contain the negated output"); }
        for (auto& x : bwd) if (!std::count(x.begin(), x.end(), o)) c.fail("gate-bwd", what + ": a backward clause does not contain the output");
        if (in != want) c.fail("gate-inputs", what + ": the inputs are not the literals of the forward clauses");
        // every assignment of the other variables leaves a value for the output; exactly one if the gate may be used in both polarities
        ref::Table t0(n), t1(n), env(n); t1.and_lit(o); t0.and_lit(-o);
        for (auto& x : fwd) { t0.and_clause(x); t1.and_clause(x); } for (auto& x : bwd) { t0.and_clause(x); t1.and_clause(x); }
        if (method == 2 || method == 11) for (auto& x : f) env.and_clause(x);
        for (uint64_t a = 0; a < (1ull << n); a++) { if (a >> v & 1) continue; uint64_t b = a | 1ull << v; uint64_t at = o > 0 ? b : a, af = o > 0 ? a : b; // assignment with output true / false
            bool pt = t1.get(at), pf = t0.get(af);
            if (!pt && !pf) c.fail("gate-partial", what + ": some assignment of the other variables allows no value of the output");
            if (g.notMono && pt && pf) { if ((method == 2 || method == 11) && !(env.get(at) && env.get(af))) continue; c.fail("gate-not-functional", what + ": the output is not determined by the inputs, though it is used in both polarities"); } }
    }
    // a gate recorded as monotonic has its output used in one polarity only: nowhere outside its definition with the opposite one
    // (consequence checked on the whole formula): dropping the backward clauses keeps the set of satisfying assignments of the rest
    ref::Cnf pr; ref::Table full(n), red(n); for (auto& a : all) full.and_clause(a.second);
    { std::set<Cl*> drop; for (const Gate& g : *res) if (g.isDefined() && !g.notMono) for (Cl* p : g.bwd) drop.insert(p); for (auto& a : all) if (!drop.count(a.first)) red.and_clause(a.second); }
    if (full.empty() && !red.empty()) c.fail("monotonic-wrong", "without the backward clauses of the monotonic gates the unsatisfiable formula becomes satisfiable: some gate is not monotonic");
    c.outcome(h); if (ng > 1) c.sample("method " + std::to_string(method) + ": " + ref::show(f).substr(0, 700) + "  -> gates " + std::to_string(ng));
}
static void body(mc::Ctx& c) {
    int fam = c.choose(gatefam::NFAM);
    int only = c.opt->num("family", -1); if (only >= 0 && fam != only) throw mc::Prune();
    int method = methods[c.choose(5)]; int tries = c.choose(3);
    ref::Cnf f = gatefam::gen(c, fam, c.opt->thorough());
    if (f.empty()) throw mc::Prune();
    run(c, f, method, tries, fam);
}
int main(int argc, char** argv) {
    mc::Explorer e("C07"); e.counter_names = {"analyses", "gates", "monotonic", "non_monotonic", "semantic", "holistic", "remainder_clauses", "clause_sets_3v", "definitions_in_context", "edit_distance_1", "circuits", "truth_tables", "layouts"};
    return e.main(argc, argv, body);
}
