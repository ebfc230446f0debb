// C09: model minimisation: what is reported is part of the model, still implies the formula, and is minimal in the requested sense.
#include "candy_common.h"
#include "gatefam.h"
#include "candy/gates/GateAnalyzer.h"
#include "candy/minimizer/Minimizer.h"
using namespace cd;
enum { K_RUNS, K_SMALLER, K_MINIMUM_BELOW, K_PRUNED_LESS, K_PROJ, K_COMPLETIONS, K_F0 };
typedef uint32_t M;
static bool hits(const std::vector<std::pair<M, M>>& cl, M pos, M neg) { for (auto& x : cl) if (!((x.first & pos) | (x.second & neg))) return false; return true; }
static void run(mc::Ctx& c, const ref::Cnf& f, int n, int fam, int modes, bool before = false) {
    ref::Table full = ref::table(f, n); if (full.empty()) throw mc::Prune();
    // which of the models
    std::vector<M> models; for (M a = 0; a < (1u << n); a++) if (full.get(a)) models.push_back(a);
    M m = models[c.choose(models.size())]; int mode = c.choose(modes); bool prune = mode & 1, project = mode & 2, minimal = mode & 4;
    defaults(); GateRecognitionOptions::method = 10; GateRecognitionOptions::tries = fam & 1 ? 1 : 0;
    { std::ostringstream o; o << "mode" << (prune ? " pruned" : "") << (minimal ? " minimal" : "") << (project ? " project" : "") << " model " << m << ": " << ref::show(f); c.describe(o.str()); }
    CNFProblem problem; load(problem, f); while ((int)problem.nVars() < n) problem.newVar();
    auto mkmodel = [&] { CandySolverResult r; for (int v = 0; v < n; v++) r.setModelValue(Lit(v, !(m >> v & 1))); return r; };
    // what was done before with the same result and minimizer must not matter
    int hist = before ? 1 + c.choose(3) : 0, mode0 = before ? c.choose(modes) : 0; M m0 = hist == 2 ? models[c.choose(models.size())] : m;
    auto ask = [&](bool p, bool mi, bool pr) { CandySolverResult r; if (hist == 2) { for (int v = 0; v < n; v++) r.setModelValue(Lit(v, !(m0 >> v & 1))); Minimizer y(problem, r); y.mimimizeModel(mode0 & 1, mode0 & 4, mode0 & 2); r.clear(); if (!r.getMinimizedModelLiterals().empty()) c.fail("stale", "a cleared result has a minimised model"); } 
        for (int v = 0; v < n; v++) r.setModelValue(Lit(v, !(m >> v & 1))); if (hist == 3) { Minimizer y(problem, r); y.mimimizeModel(mode0 & 1, mode0 & 4, mode0 & 2); } Minimizer x(problem, r); if (hist == 1) x.mimimizeModel(mode0 & 1, mode0 & 4, mode0 & 2); x.mimimizeModel(p, mi, pr); c.step(); std::vector<Lit> l = r.getMinimizedModelLiterals(); 
        for (Lit q : l) { if (q.var() >= n) c.fail("foreign-variable", "literal " + std::to_string(dim(q)) + " is not about a variable of the formula"); if (!r.satisfies(q)) c.fail("not-in-model", "literal " + std::to_string(dim(q)) + " is not part of the model"); }
        for (int v = 0; v < n; v++) if (!r.satisfies(Lit(v, !(m >> v & 1)))) c.fail("model-changed", "the model itself was changed");
        return l; };
    std::vector<Lit> res = ask(prune, minimal, project);
    auto sets = [&](const std::vector<Lit>& l, M& pos, M& neg) { pos = neg = 0; for (Lit q : l) (q.sign() ? neg : pos) |= 1u << q.var(); };
    M pos, neg; sets(res, pos, neg); std::string shown; for (Lit q : res) shown += std::to_string(dim(q)) + " ";
    c.count(K_RUNS); c.count(K_F0 + fam); if ((int)res.size() < n) c.count(K_SMALLER);
    M outs = 0; std::vector<std::pair<M, M>> all, kept; auto masks = [](Cl* p) { M a = 0, b = 0; for (Lit l : *p) (l.sign() ? b : a) |= 1u << l.var(); return std::make_pair(a, b); };
    for (Cl* p : problem) all.push_back(masks(p));
    if (prune || project) { GateAnalyzer ga(problem); ga.analyze(); std::unique_ptr<GateProblem> gp(&ga.getResult()); for (const Gate& g : *gp) if (g.isDefined()) outs |= 1u << g.out.var(); CandySolverResult r = mkmodel(); For k = gp->getPrunedProblem(r); for (Cl* p : k) kept.push_back(masks(p)); if (kept.size() < all.size()) c.count(K_PRUNED_LESS); }
    if (project) {
        c.count(K_PROJ); std::vector<Lit> un = ask(prune, minimal, false); std::vector<Lit> want; for (Lit q : un) if (!(outs >> q.var() & 1)) want.push_back(q);
        if (res != want) c.fail("projection", "projected result " + shown + " is not the unprojected one without the gate outputs");
        res = un; sets(res, pos, neg); shown.clear(); for (Lit q : res) shown += std::to_string(dim(q)) + " ";
    }
    const auto& target = prune ? kept : all;
    if (!prune && !hits(all, pos, neg)) c.fail("not-implicant", "the reported part " + shown + "of the model leaves a clause unsatisfied");
    if (prune) { // every choice for the other variables that are not gate outputs extends to a model
        M fixed = pos | neg, freev = ((1u << n) - 1) & ~fixed, fo = freev & outs, fi = freev & ~outs; uint64_t k = 0;
        for (M a = fi;; a = (a - 1) & fi) { bool ok = false; for (M o = fo;; o = (o - 1) & fo) { if (full.get(pos | a | o)) { ok = true; break; } if (!o) break; } k++; if (!ok) c.fail("pruned-not-implicant", "the reported part " + shown + "of the model does not extend to a model for some choice of the other inputs"); if (!a) break; }
        c.count(K_COMPLETIONS, k); if (!hits(kept, pos, neg)) c.fail("not-hitting", "the reported part " + shown + "does not satisfy the relevant clauses"); }
    for (Lit q : res) { M b = 1u << q.var(); if (hits(target, pos & ~b, neg & ~b)) c.fail("not-minimal", "literal " + std::to_string(dim(q)) + " of " + shown + "is not needed"); }
    if (minimal) { unsigned best = n + 1, subsetmin = 0; (void)subsetmin; for (M s = 0; s < (1u << n); s++) { unsigned k = __builtin_popcount(s); if (k < best && hits(target, s & m, s & ~m)) best = k; } if (best < res.size()) c.fail("not-minimum", "a part of the model of size " + std::to_string(best) + " suffices, reported: " + shown);
        std::vector<Lit> plain = ask(prune, false, false); if (plain.size() > res.size()) c.count(K_MINIMUM_BELOW); }
    c.outcome(mc::mixs(mc::mix(fam, mode), shown)); if (minimal && n > 5) c.sample(ref::show(f).substr(0, 500) + " model " + std::to_string(m) + " -> " + shown);
}
static void body(mc::Ctx& c) {
    bool T = c.opt->thorough(); int fam = c.choose(9);
    int only = c.opt->num("family", -1); if (only >= 0 && fam != only) throw mc::Prune();
    ref::Cnf f; int n, modes = c.opt->num("modes", 8);
    switch (fam) {
    case 0: f = ref::choose_set(c, ref::all_clauses(3, 1, 3), T ? 4 : 3); n = 3 + c.choose(2); break;
    case 1: f = gatefam::gen(c, 1, T, T ? 1 : 2); n = std::max(1, ref::maxvar(f)); break;
    case 2: { static std::vector<ref::Clause> m = ref::all_clauses(4, 2, 2); f = ref::choose_set(c, m, T ? 6 : 4); n = 4; break; }
    case 3: f = gatefam::gen(c, 3, T); n = 6; if (!T && c.choose(8)) throw mc::Prune(); break;
    case 4: { // every graph on 5 (6) vertices as a vertex cover, any model
        int k = T ? 6 : 5; for (int i = 1; i <= k; i++) for (int j = i + 1; j <= k; j++) if (c.flag()) f.push_back({i, j}); n = k; c.split(); break; }
    case 5: { int k = 6 + c.choose(T ? 3 : 2); int t = c.choose(3); n = k; // rings, stars, ladders: minimum and minimal differ
        for (int i = 0; i < k; i++) { if (t == 0) f.push_back({i + 1, (i + 1) % k + 1}); if (t == 1) f.push_back({1, i + 1}); if (t == 2) f.push_back({i % 2 ? -(i + 1) : i + 1, (i + 2) % k + 1, (i + 1) % k + 1}); } int e = c.choose(2 * k + 1); if (e) f.push_back({(e - 1) % 2 ? -((e - 1) / 2 + 1) : (e - 1) / 2 + 1}); c.split(); break; }
    case 6: f = gatefam::gen(c, 4, T); n = ref::maxvar(f); break;
    case 8: { // a minimisation after another one
        if (c.flag()) { f = ref::choose_set(c, ref::all_clauses(3, 1, 3), T ? 3 : 1); n = 3; } else { n = 4; for (int i = 1; i <= n; i++) for (int j = i + 1; j <= n; j++) if (c.flag()) f.push_back({i, j}); if (c.flag()) { f.push_back({-5, 1}); f.push_back({-5, 2}); f.push_back({5, -1, -2}); f.push_back({5, 3}); n = 5; } c.split(); } break; }
    default: f = gatefam::gen(c, 5, T); n = std::max(2, ref::maxvar(f)); break;
    }
    run(c, f, n, fam, modes, fam == 8);
}
int main(int argc, char** argv) {
    mc::Explorer e("C09"); e.counter_names = {"minimisations", "smaller_than_model", "minimum_below_subset_minimal", "pruning_effective", "projections", "completions_checked", "clause_sets_3v", "definitions_in_context", "binary_clause_sets_4v", "circuits", "vertex_covers", "rings_stars_ladders", "truth_tables", "layouts", "repeated_minimisations"};
    return e.main(argc, argv, body);
}
