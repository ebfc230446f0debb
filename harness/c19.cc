// C19: decisions follow the scores that the configured branching heuristic defines.  The real heuristics run inside the real
// solver, wrapped so that every decision is compared with scores kept by an independent model of the heuristic.
#include "candy_common.h"
#include "families.h"
#include "candy/core/Solver.h"
#include "candy/systems/propagate/StaticPropagate.h"
#include "candy/systems/branching/VSIDS.h"
#include "candy/systems/branching/LRB.h"
#include "candy/systems/branching/VSIDSC.h"
using namespace cd;
enum { K_DEC, K_DISTINCT, K_NONE, K_CONFL, K_SOLVES, K_CENTRALITY, K_POLSET, K_GRAPHS, K_F0 };
enum Which { IS_VSIDS, IS_LRB, IS_VSIDSC };
typedef long double Real;

// betweenness centrality by definition: over all pairs s, t the share of shortest paths from s to t that pass through v
struct Graphs {
    std::map<int, int> id; std::vector<std::set<int>> adj; // nodes in the order of their first appearance
    int node(int v) { auto it = id.find(v); if (it != id.end()) return it->second; int k = (int)adj.size(); id[v] = k; adj.emplace_back(); return k; }
    void edge(int a, int b) { int x = node(a), y = node(b); adj[x].insert(y); adj[y].insert(x); }
    std::vector<char> largest() { int n = (int)adj.size(); std::vector<int> comp(n, -1); int best = -1; size_t size = 0; for (int s = 0; s < n; s++) if (comp[s] < 0) { std::vector<int> q = {s}; comp[s] = s; for (size_t i = 0; i < q.size(); i++) for (int w : adj[q[i]]) if (comp[w] < 0) { comp[w] = s; q.push_back(w); } if (q.size() > size) { size = q.size(); best = s; } } std::vector<char> r(n); for (int i = 0; i < n; i++) r[i] = comp[i] == best; return r; }
    std::vector<Real> betweenness(bool lwcc) {
        int n = (int)adj.size(); std::vector<std::vector<int>> d(n, std::vector<int>(n, 1 << 20)); std::vector<std::vector<Real>> cnt(n, std::vector<Real>(n, 0));
        for (int s = 0; s < n; s++) { std::vector<int> q = {s}; d[s][s] = 0; cnt[s][s] = 1; for (size_t i = 0; i < q.size(); i++) { int v = q[i]; for (int w : adj[v]) { if (d[s][w] == 1 << 20) { d[s][w] = d[s][v] + 1; q.push_back(w); } if (d[s][w] == d[s][v] + 1) cnt[s][w] += cnt[s][v]; } } }
        std::vector<char> in = lwcc ? largest() : std::vector<char>(n, 1); std::vector<Real> r(n, 0); Real top = 0;
        for (int v = 0; v < n; v++) { for (int s = 0; s < n; s++) for (int t = 0; t < n; t++) if (s != t && s != v && t != v && in[s] && in[v] && d[s][t] < 1 << 20 && d[s][v] + d[v][t] == d[s][t]) r[v] += cnt[s][v] * cnt[v][t] / cnt[s][t]; top = std::max(top, r[v]); }
        if (top > 0) for (Real& x : r) x /= top; return r;
    }
};

static struct Probe { std::string key, msg, log; mc::Ctx* c = nullptr; uint64_t h = 0; long decisions = 0; std::vector<std::pair<int, bool>> setpol; bool quiet = false;
    void fail(const std::string& k, const std::string& m) { if (key.empty()) { key = k; msg = m; } } } P;

template <class B, Which K> class Watched : public B {
    ClauseDatabase& db; Trail& tr;
    std::vector<Real> score; std::vector<char> pol, known; Real inc = 1, decay = SolverOptions::opt_vsids_var_decay, step = SolverOptions::opt_lrb_step_size; const Real maxdecay = SolverOptions::opt_vsids_max_var_decay, minstep = SolverOptions::opt_lrb_min_step_size;
    std::vector<long> part, assigned; std::map<int, Real> cent; bool centred = false;
    const bool extra = SolverOptions::opt_vsids_extra_bump, cbump = SolverOptions::opt_vsidsc_bump, lwcc = SolverOptions::opt_vsidsc_scope; const int mult = SolverOptions::opt_vsidsc_mult;
    void bump(int v) { Real by = inc; if (K == IS_VSIDSC && cbump) { auto it = cent.find(v); if (it != cent.end()) by *= 1 + it->second * mult; } score[v] += by; }
public:
    Watched(ClauseDatabase& d, Trail& t) : B(d, t), db(d), tr(t) {}
    void clear() { B::clear(); score.clear(); pol.clear(); known.clear(); part.clear(); assigned.clear(); }
    void setPolarity(Var v, bool sign) override { B::setPolarity(v, sign); if (v < (Var)pol.size()) { pol[v] = sign; known[v] = true; } }
    void init(const CNFProblem& p) {
        B::init(p); size_t n = tr.nVars(); if (n > score.size()) { score.resize(n, 0); pol.resize(n, true); known.resize(n, true); part.resize(n, 0); assigned.resize(n, 0); }
        if (K != IS_VSIDSC && SolverOptions::opt_sort_variables) { std::vector<Real> occ(2 * n, 0); for (Clause* cl : db) for (Lit l : *cl) occ[2 * l.var() + l.sign()] += 1.0L / cl->size(); Real top = 0; for (Real o : occ) top = std::max(top, o); for (size_t v = 0; v < n; v++) { score[v] = top > 0 ? (occ[2 * v] + occ[2 * v + 1]) / top : 0; known[v] = false; } }
    }
    void process_reduce() {
        B::process_reduce(); if (K != IS_VSIDSC || centred) return; centred = true; P.c->count(K_CENTRALITY);
        Graphs g; for (const Clause* cl : db) if (!cl->isDeleted()) for (unsigned i = 0; i + 1 < cl->size(); i++) for (unsigned j = i + 1; j < cl->size(); j++) g.edge((*cl)[i].var(), (*cl)[j].var());
        if (g.adj.empty()) return; auto b = g.betweenness(lwcc); for (auto& e : g.id) { cent[e.first] = b[e.second]; score[e.first] = b[e.second] * mult; }
    }
    void process_conflict() {
        auto& r = db.result; P.c->count(K_CONFL); std::set<int> in; for (const Clause* cl : r.involved_clauses) for (Lit l : *cl) in.insert(l.var());
        unsigned from = tr.trail_lim[r.backtrack_level];
        if (K == IS_LRB) {
            for (int v : in) part[v]++; if (step > minstep) step -= 10e-6L; for (unsigned i = 0; i < tr.size(); i++) assigned[tr[i].var()]++;
            for (unsigned i = from; i < tr.size(); i++) { int v = tr[i].var(); if (assigned[v] > 0) { score[v] = (1 - step) * score[v] + step * part[v] / assigned[v]; assigned[v] = part[v] = 0; } }
        } else {
            if (r.nConflicts % 5000 == 0 && decay < maxdecay) decay += 0.01L;
            for (int v : in) bump(v);
            if (extra) for (unsigned i = tr.trail_lim[tr.decisionLevel() - 1]; i < tr.size(); i++) { int v = tr[i].var(); Clause* why = tr.reason(tr[i].var()); if (!in.count(v) && why && why->isLearnt() && why->getLBD() < r.lbd) bump(v); }
            inc /= decay;
        }
        for (unsigned i = from; i < tr.size(); i++) { int v = tr[i].var(); pol[v] = tr[i].sign(); known[v] = true; }
        B::process_conflict();
    }
    Lit pickBranchLit() {
        Lit r = B::pickBranchLit(); P.c->count(K_DEC); P.decisions++; P.h = mc::mix(P.h, r == lit_Undef ? 0 : dim(r) + 1000);
        auto open = [&](Var v) { return tr.isDecisionVar(v) && tr.value(v) == l_Undef; }; std::string at = ", decision " + std::to_string(P.decisions) + " after " + std::to_string((long)db.result.nConflicts) + " conflicts";
        if (r == lit_Undef) { P.c->count(K_NONE); for (Var v = 0; v < (Var)tr.nVars(); v++) if (open(v)) P.fail("no-decision", "no decision although variable " + std::to_string(v + 1) + " is left" + at); return r; }
        Var d = r.var(); if (d < 0 || d >= (Var)tr.nVars()) { P.fail("unknown-variable", "decides an unknown variable" + at); return r; }
        if (!open(d)) { P.fail("not-eligible", "decides variable " + std::to_string(d + 1) + ", which has a value or was excluded" + at); return r; }
        Real mine = score[d]; bool distinct = false;
        for (Var v = 0; v < (Var)tr.nVars(); v++) if (v != d && open(v)) { distinct |= score[v] < mine * (1 - 1e-9L); if (score[v] > mine * (1 + 1e-9L) && (K == IS_LRB ? score[v] > 1e-12L : score[v] > inc * 1e-150L)) { std::ostringstream o; o << "decides variable " << d + 1 << " with score " << (double)(mine / (K == IS_LRB ? 1 : inc)) << ", but variable " << v + 1 << " has score " << (double)(score[v] / (K == IS_LRB ? 1 : inc)) << at; P.fail("not-the-best", o.str()); } }
        if (distinct) P.c->count(K_DISTINCT);
        if (known[d] && r.sign() != (bool)pol[d]) P.fail("phase", "decides " + std::to_string(dim(r)) + ", but the saved value of that variable is the other one" + at);
        return r;
    }
};
template <template <class, class, class> class S, class B, Which K> static CandySolverInterface* make(bool stat) { if (stat) return new S<StaticPropagate, ConflictAnalysis, Watched<B, K>>(); return new S<Propagate, ConflictAnalysis, Watched<B, K>>(); }

struct Round { ref::Cnf add; ref::Clause as; std::vector<int> pol; };
struct Tune { const char* name; Which k; std::function<void()> set; };
static const std::vector<Tune>& tunes() { static const std::vector<Tune> t = { // the centrality heuristics, last, take long to build
    {"vsids", IS_VSIDS, [] {}}, {"lrb", IS_LRB, [] {}},
    {"vsids, extra bump, decay .5", IS_VSIDS, [] { SolverOptions::opt_vsids_extra_bump = true; SolverOptions::opt_vsids_var_decay = 0.5; }},
    {"vsids, sorted", IS_VSIDS, [] { SolverOptions::opt_sort_variables = true; }}, {"lrb, sorted, step .9", IS_LRB, [] { SolverOptions::opt_sort_variables = true; SolverOptions::opt_lrb_step_size = 0.9; }},
    {"vsids, decay .6", IS_VSIDS, [] { SolverOptions::opt_vsids_var_decay = 0.6; }}, {"lrb, step .06", IS_LRB, [] { SolverOptions::opt_lrb_step_size = 0.06; }},
    {"vsidsc", IS_VSIDSC, [] {}}, {"vsidsc, multiplier 7", IS_VSIDSC, [] { SolverOptions::opt_vsidsc_mult = 7; }},
    {"vsidsc, largest component, no centrality bump", IS_VSIDSC, [] { SolverOptions::opt_vsidsc_scope = true; SolverOptions::opt_vsidsc_bump = false; }},
    {"vsidsc, largest component, multiplier 3, extra bump", IS_VSIDSC, [] { SolverOptions::opt_vsidsc_scope = true; SolverOptions::opt_vsidsc_mult = 3; SolverOptions::opt_vsids_extra_bump = true; }}};
    return t; }
static void run(mc::Ctx& c, const std::vector<Round>& rounds, int tune, bool stat, int profile, int fam, int expected = -1) {
    defaults(); profiles()[profile].set(); const Tune& t = tunes()[tune]; t.set(); std::ostringstream log; log << (stat ? "static " : "") << t.name << " [" << profiles()[profile].name << "] ";
    P.key = P.msg = ""; P.c = &c; P.h = 0; P.decisions = 0;
    std::unique_ptr<CandySolverInterface> s(t.k == IS_VSIDS ? make<Solver, VSIDS, IS_VSIDS>(stat) : t.k == IS_LRB ? make<Solver, LRB, IS_LRB>(stat) : make<Solver, VSIDSC, IS_VSIDSC>(stat));
    CNFProblem p; ref::Cnf f; int n = 0; for (auto& r : rounds) { n = std::max(n, ref::maxvar(r.add)); for (int a : r.as) n = std::max(n, std::abs(a)); }
    for (auto& r : rounds) {
        f.insert(f.end(), r.add.begin(), r.add.end()); if (ref::maxvar(r.add) < 17 && r.add.size() < 60) for (auto& cl : r.add) log << "add(" << ref::show(cl) << ") "; else log << "add " << r.add.size() << " clauses "; load(p, r.add);
        std::vector<Lit> a; for (int l : r.as) { a.push_back(lit(l)); while ((int)p.nVars() < std::abs(l)) p.newVar(); } s->init(p);
        for (int l : r.pol) if (std::abs(l) <= (int)s->getAssignment().nVars()) { s->getBranchingUnit()->setPolarity(Var(std::abs(l) - 1), l < 0); log << "polarity(" << l << ") "; c.count(K_POLSET); }
        log << "solve("; for (int l : r.as) log << l << ' '; log << ") "; c.describe(log.str()); s->getAssignment().setAssumptions(a); lbool v = s->solve(); p.clear(); c.step(2); c.count(K_SOLVES);
        if (P.key.size()) c.fail(P.key, P.msg + " in " + log.str());
        int sat = expected; if (sat < 0) { if (n <= 16) { ref::Table T = ref::table(f, n); for (int l : r.as) T.and_lit(l); sat = !T.empty(); } }
        if (v == l_Undef || (sat >= 0 && (v == l_True) != (bool)sat)) c.fail("verdict", "wrong verdict in " + log.str()); log << (v == l_True ? "= SAT ; " : "= UNSAT ; ");
    }
    c.count(K_F0 + fam); c.outcome(mc::mix(P.h, tune)); if (P.decisions > 20) c.sample(log.str());
}
static void graphs(mc::Ctx& c, int n, bool lwcc) { // the centrality of every node of every graph
    std::vector<std::pair<int, int>> pairs; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) pairs.push_back({i, j}); int rot = c.choose(3); int m = c.choose(1 << pairs.size()); if (!m) throw mc::Prune(); c.split();
    Graphs mine; Graph g(n); std::ostringstream log; log << "graph" << (lwcc ? " (largest component)" : ""); 
    for (size_t k = 0; k < pairs.size(); k++) { size_t i = rot == 1 ? pairs.size() - 1 - k : rot == 2 ? (k * 7 + 3) % pairs.size() : k; if (rot == 2 && pairs.size() % 7 == 0) i = k; if (!(m >> i & 1)) continue; auto e = pairs[i]; mine.edge(e.first, e.second); g.addEdge(g.mapNode(e.first), g.mapNode(e.second)); log << ' ' << e.first << '-' << e.second; }
    c.describe(log.str()); g.makeUndirected(); if (lwcc) g.computeWCC(); auto b = g.betweennessCentrality(lwcc ? LWCC : FULL, 1.0); auto r = mine.betweenness(lwcc); c.step(); c.count(K_GRAPHS); uint64_t h = n;
    for (auto& e : mine.id) { size_t k = g.mapNode(e.first); double x = k < b.size() ? b[k] : -1, y = (double)r[e.second]; h = mc::mix(h, (uint64_t)(y * 1e6)); if (!(std::abs(x - y) < 1e-9)) c.fail("centrality", "betweenness of node " + std::to_string(e.first) + " is " + std::to_string(x) + ", by definition " + std::to_string(y) + ": " + log.str()); }
    c.outcome(h); if (m % 97 == 0) c.sample(log.str());
}
static const int NF = 9;
static void body(mc::Ctx& c) {
    bool T = c.opt->thorough(), S = c.opt->num("small", 0); int fam = c.choose(NF), only = c.opt->num("family", -1); if (only >= 0 && fam != only) throw mc::Prune();
    static const std::vector<ref::Clause> m3 = ref::all_clauses(3, 1, 3), m3b = ref::all_clauses(3, 2, 3), m4 = ref::all_clauses(4, 4, 4); std::vector<Round> R(1);
    static const int few[] = {1, 2, 3, 0, 4, 6}; int tune = 0, pro = 1; bool stat = false; int expected = -1;
    auto config = [&](int n, int pros) { tune = c.choose(T ? 7 : n); pro = few[c.choose(T ? 6 : pros)]; stat = T ? c.flag() : (tune + pro) & 1; };
    switch (fam) {
    case 0: R[0].add = ref::choose_set(c, m3, T ? 5 : S ? 2 : 4); config(5, S ? 1 : 2); c.split(); break;
    case 1: { std::set<int> miss; int k = c.choose(T ? 5 : S ? 2 : 4); for (int i = 0, last = -1; i < k; i++) { int left = 15 - last; if (left <= 0) throw mc::Prune(); last += 1 + c.choose(left); miss.insert(last); } config(5, S ? 1 : 3); c.split(); for (int i = 0; i < 16; i++) if (!miss.count(i)) R[0].add.push_back(m4[i]); break; }
    case 2: { int b = c.choose(ref::NBASE); R[0].add = ref::base(b); int n = ref::maxvar(R[0].add); if (n > 14) throw mc::Prune(); config(5, S ? 1 : 3); c.split(); ref::edit(c, R[0].add, n, T ? 5 : S ? 2 : 4); break; }
    case 3: { int p = 4 + c.choose(T ? 4 : 3); R[0].add = ref::php(p, p - 1); int d = c.choose(1 + (int)R[0].add.size()); config(7, 3); c.split(); expected = d ? 1 : 0; if (d) R[0].add.erase(R[0].add.begin() + d - 1); if (S && d % 5) throw mc::Prune(); break; }
    case 4: { // rounds: clauses, variables, assumptions and preferred values arrive between the solves
        R.resize(T ? 3 : 2); for (size_t r = 0; r < R.size(); r++) { R[r].add = r ? ref::Cnf{{1, 2 + (int)r}, {-1, 4 + (int)r, 2}, {-4 - (int)r, 3}} : ref::base(c.choose(3)); int k = c.choose(3); if (k) R[r].as.push_back(k == 1 ? -1 : 3); int q = c.choose(4); if (q & 1) R[r].pol = {1, -2, 3, -4, 5}; if (q & 2) R[r].pol = {-1, 2, -3, 4, 6, -7}; } config(5, S ? 1 : 3); c.split(); if (c.flag()) R[1].add.push_back(m3[c.choose(m3.size())]); break; }
    case 5: { // searches long enough for the scores to be rescaled
        static const int tn[] = {2, 5, 0, 1, 4, 10, 6}; int which = c.choose(T ? 4 : 3); tune = tn[c.choose(T ? 7 : S ? 1 : 6)]; pro = few[T ? c.choose(6) : c.choose(2)]; stat = T ? c.flag() : which & 1; c.split();
        int n = 14; if (which == 0) R[0].add = ref::php(7, 6), expected = 0; else if (which == 3) R[0].add = ref::php(8, 7), expected = 0; else { for (int i = 0; i < n; i++) ref::add_xor(R[0].add, {i + 1, (i + (which == 1 ? 1 : 3)) % n + 1, (i + 5) % n + 1}, i == 3); } break; }
    case 6: graphs(c, T ? 7 : S ? 4 : 6, c.flag()); c.count(K_F0 + fam); return;
    case 7: { // graphs as formulas: centrality orders the decisions
        int n = T ? 5 : 4, m = c.choose(1 << (n * (n - 1) / 2)), shape = c.choose(3); tune = 7 + c.choose(4); if (S && m % 9) throw mc::Prune(); stat = T ? c.flag() : tune & 1; pro = 1; c.split(); for (int i = 1, k = 0; i <= n; i++) for (int j = i + 1; j <= n; j++, k++) if (m >> k & 1) R[0].add.push_back({i, j}); if (shape) { R[0].add.push_back({n + 1, n + 2}); R[0].add.push_back({-n - 2, n + 3}); if (shape == 2) R[0].add.push_back({n + 3, n + 4, -n - 1}), std::reverse(R[0].add.begin(), R[0].add.end()); } if (R[0].add.empty()) throw mc::Prune(); break; }
    case 8: { // structured bases and the centrality heuristics
        int b = c.choose(ref::NBASE), d = c.choose(T ? 7 : 3); R[0].add = ref::base(b); int n = ref::maxvar(R[0].add); if (n > 14) throw mc::Prune(); tune = 7 + c.choose(4); pro = few[c.choose(T ? 6 : 2)]; stat = T ? c.flag() : (tune + pro) & 1; if (S && d) throw mc::Prune(); c.split(); if (d) R[0].add.erase(R[0].add.begin() + (R[0].add.size() - 1) * (d - 1) / (T ? 5 : 1)); break; }
    }
    run(c, R, tune, stat, pro, fam, expected);
}
int main(int argc, char** argv) {
    mc::Explorer e("C19");
    e.counter_names = {"decisions", "decisions_with_a_better_and_a_worse_candidate", "ends_without_decision", "conflicts", "solves", "centralities", "polarities_set", "graphs", "clause_sets_3v", "full_width_4v", "structured", "pigeonholes", "rounds", "long_searches", "graph_centralities", "graph_formulas", "structured_centrality"};
    return e.main(argc, argv, body);
}
