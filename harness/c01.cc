// C01: for every formula and every solver configuration, solve() gives the right verdict and a satisfying model.
#include "candy_common.h"
#include "families.h"
#include "gatefam.h"
using namespace cd;
enum { K_SAT, K_UNSAT, K_CONFL, K_RUNS0 };

static void run(mc::Ctx& c, const ref::Cnf& f, int n, int expected /* -1 unknown, 0 unsat, 1 sat */, int fam, const Kind& k, const Config& p) {
    defaults(); p.set();
    c.describe(std::string("solver ") + k.name + " [" + p.name + "]: " + ref::show(f));
    std::unique_ptr<CandySolverInterface> s(build(k));
    CNFProblem problem; load(problem, f);
    s->init(problem);
    lbool r = s->solve(); c.step(2);
    bool sat = expected < 0 ? ref::sat(f, n) : expected == 1;
    if (r == l_Undef) c.fail("verdict-undef", "solve() gave no verdict although nothing interrupted it");
    if (sat && r != l_True) c.fail("verdict-wrong", "satisfiable formula reported UNSAT");
    if (!sat && r != l_False) c.fail("verdict-wrong", "unsatisfiable formula reported SAT");
    c.count(sat ? K_SAT : K_UNSAT); c.count(K_CONFL, s->nConflicts()); c.count(K_RUNS0 + fam);
    uint64_t h = mc::mix(mc::mix(fam, sat), s->nConflicts());
    if (sat) {
        std::vector<int> m = model(s.get(), n);
        for (auto& cl : f) { bool t = false; for (int l : cl) for (int q : cl) if (l == -q) t = true; if (!t && !ref::satisfied(cl, m)) c.fail("model-wrong", "reported model " + showmodel(m) + " does not satisfy clause " + ref::show(cl)); }
        for (int x : m) h = mc::mix(h, x + 3);
        if (!problem.checkResult(s->getCandySolverResult())) c.fail("model-check", "the built-in model test rejects a model that satisfies the formula");
    }
    c.outcome(h);
    if (fam > 0 && s->nConflicts() > 3) c.sample(std::string("solver ") + k.name + " [" + p.name + "] " + (sat ? "SAT" : "UNSAT") + " conflicts=" + std::to_string(s->nConflicts()) + " : " + ref::show(f).substr(0, 600));
}

static const Kind& pick_kind(mc::Ctx& c, int from = 0, int to = 4) { return kinds()[from + c.choose(to - from)]; }
static const Config& pick_profile(mc::Ctx& c) { return profiles()[c.choose(profiles().size())]; }

// one clause around the limits of 16 bits, alone or with units that falsify all (or all but one) of its literals
static void long_clause(mc::Ctx& c, bool T) {
    static const int L[] = {255, 256, 65534, 65535, 65536, 65537, 65540, 70000, 131072, 196608}; int len = L[c.choose(T ? 10 : 8)], style = c.choose(T ? 5 : 4); const Kind& k = pick_kind(c); static const int PR[] = {0, 1, 4}; int pi = c.choose(3); if (style && pi) throw mc::Prune(); /* simplification is quadratic here */ const Config& p = profiles()[style ? 1 : PR[pi]]; c.split();
    defaults(); p.set(); int keep = style == 2 ? len / 2 : style == 3 ? len - 1 : -1;      // the literal left over
    std::string what = std::string("solver ") + k.name + " [" + p.name + "]: a clause of " + std::to_string(len) + " literals, " + (style == 0 ? "alone" : style == 1 ? "all falsified by units" : style == 4 ? "half of them falsified by units" : "all but literal " + std::to_string(keep) + " falsified by units"); c.describe(what);
    std::unique_ptr<CandySolverInterface> s(build(k)); CNFProblem problem; Cl cl; for (int i = 1; i <= len; i++) cl.push_back(lit(i % 3 ? i : -i)); problem.readClause(cl);
    if (style) for (int i = 1; i <= len; i++) if (i - 1 != keep && (style != 4 || i % 2)) { Cl u{~cl[i - 1]}; problem.readClause(u); }
    s->init(problem); lbool r = s->solve(); c.step(2); bool want = style != 1;
    if ((r == l_True) != want || r == l_Undef) c.fail("long-clause", std::string("wrong answer ") + (r == l_True ? "SAT" : r == l_False ? "UNSAT" : "none") + " for " + what);
    if (want) { bool t = false; for (int i = 1; i <= len; i++) { int d = i % 3 ? i : -i; bool y = s->getCandySolverResult().satisfies(lit(d)); t |= y; if (y && style && i - 1 != keep && (style != 4 || i % 2)) c.fail("long-clause", "the model violates a unit: " + what); } if (!t) c.fail("long-clause", "the model violates the clause: " + what); if (!problem.checkResult(s->getCandySolverResult())) c.fail("long-clause", "the built-in model test fails: " + what); }
    c.count(want ? K_SAT : K_UNSAT); c.count(K_RUNS0 + 12); c.outcome(mc::mix(len, style));
}
static void body(mc::Ctx& c) {
    bool T = c.opt->thorough();
    int fam = c.choose(14);
    int only = c.opt->num("family", -1); if (only >= 0 && fam != only) throw mc::Prune();
    ref::Cnf f; int n = 0, expected = -1;
    if (fam < fam::NFAM) { fam::Inst i = fam::gen(c, fam, T ? 2 : 1); f = i.f; n = i.n; expected = i.expected; }
    if (fam == 11) { // the centrality heuristics (slow to construct: few formulas)
        int b = c.choose(T ? 6 : 3); static const int B[] = {0, 2, 6, 1, 4, 7}; f = ref::base(B[b]); n = ref::maxvar(f); int d = c.choose(T ? f.size() + 1 : 2); if (d) f.erase(f.begin() + (T ? d - 1 : f.size() / 2));
        const Kind& k = pick_kind(c, 4, 6); const Config& p = profiles()[c.choose(T ? profiles().size() : 4)]; c.split(); run(c, f, n, -1, fam, k, p); return; }
    if (fam == 12) { long_clause(c, T); return; }
    if (fam == 13) { // implicit learning heuristics on formulas with gates (conjectures from real random simulation, right or wrong)
        int g = 2 + c.choose(3); f = gatefam::gen(c, g, T, 2); n = ref::maxvar(f); if (n == 0) throw mc::Prune(); 
        const Kind& k = pick_kind(c, 6, 12); static const int PR[] = {1, 4, 2}; const Config& p = profiles()[PR[T ? c.choose(3) : c.choose(2)]]; c.split();
        static const Config rsil{"", [] { RandomSimulationOptions::opt_rs_nrounds = 2048; RSILOptions::opt_rsil_minGateFraction = 0; RSILOptions::opt_rsil_impBudgets = 2; RSILOptions::opt_rsil_vanHalfLife = 2; }};
        Config both{p.name, [&] { p.set(); rsil.set(); }}; run(c, f, n, -1, fam, k, both); RSILOptions::opt_rsil_impBudgets = 1 << 20; RSILOptions::opt_rsil_vanHalfLife = 1 << 24; return; }
    const Kind& k = pick_kind(c);
    if (fam == 8) { const Config& p = pick_profile(c); c.split(); run(c, f, n, expected, fam, k, p); return; }
    const Config& p = pick_profile(c);
    run(c, f, n, expected, fam, k, p);
}

int main(int argc, char** argv) {
    mc::Explorer e("C01");
    e.counter_names = {"sat", "unsat", "conflicts"};
    for (auto n : fam::names) e.counter_names.push_back(n); e.counter_names.push_back("centrality"); e.counter_names.push_back("long_clauses"); e.counter_names.push_back("implicit_learning");
    return e.main(argc, argv, body);
}
