// C02 / C03: every history of add / assume / solve calls, through the IPASIR functions and through the solver
// interface for the other engines.  C02: verdict and model after each solve.  C03: the failed assumptions.
#include "candy_common.h"
extern "C" {
#include "candy/ipasir/ipasir.h"
}
using namespace cd;
enum { K_SOLVES, K_SAT, K_UNSAT, K_UNSAT_ASS, K_CORE_SMALLER, K_H0 };
enum { NFAM = 8 };
static bool want_model = true, want_core = true;

// the engine under test: either the C interface or the C++ one
struct Engine {
    virtual ~Engine() {}
    virtual void add(const ref::Clause& c) = 0;
    virtual int solve(const ref::Clause& assumptions) = 0;
    virtual void clear() {}
    virtual int value(int v, mc::Ctx& c) = 0;      // 1 / -1 / 0
    virtual ref::Clause core(const ref::Clause& assumptions, mc::Ctx& c) = 0;
};
struct Ipasir : Engine {
    void* s; Ipasir() { s = ipasir_init(); }
    ~Ipasir() { ipasir_release(s); }
    void add(const ref::Clause& c) { for (int l : c) ipasir_add(s, l); ipasir_add(s, 0); }
    int solve(const ref::Clause& as) { for (int l : as) ipasir_assume(s, l); return ipasir_solve(s); }
    int value(int v, mc::Ctx& c) {
        int a = ipasir_val(s, v), b = ipasir_val(s, -v);
        if ((a != v && a != -v && a != 0) || (b != v && b != -v && b != 0)) c.fail("val-range", "ipasir_val(" + std::to_string(v) + ") = " + std::to_string(a) + ", for the negation " + std::to_string(b));
        if (a != b) return 0;      // no consistent value
        return a == 0 ? 0 : a == v ? 1 : -1;
    }
    ref::Clause core(const ref::Clause& as, mc::Ctx&) { ref::Clause o; for (int l : as) if (ipasir_failed(s, l)) o.push_back(l); return o; }
};
struct Raw : Engine {
    std::unique_ptr<CandySolverInterface> s; CNFProblem p; 
    Raw(const Kind& k) : s(build(k)) {}
    void add(const ref::Clause& c) { Cl cl; for (int l : c) cl.push_back(lit(l)); p.readClause(cl); }
    int solve(const ref::Clause& as) {
        std::vector<Lit> a; for (int l : as) { a.push_back(lit(l)); while ((int)p.nVars() < std::abs(l)) p.newVar(); }
        s->init(p); s->getAssignment().setAssumptions(a); lbool r = s->solve(); p.clear();
        return r == l_True ? 10 : r == l_False ? 20 : 0;
    }
    void clear() { s->clear(); p = CNFProblem(); }
    int value(int v, mc::Ctx& c) { bool a = s->getCandySolverResult().satisfies(lit(v)), b = s->getCandySolverResult().satisfies(lit(-v)); if (a && b) c.fail("val-range", "both polarities true"); return a ? 1 : b ? -1 : 0; }
    ref::Clause core(const ref::Clause& as, mc::Ctx& c) {
        ref::Clause o; for (Lit l : s->getCandySolverResult().getConflict()) {
            int d = dim(l); bool pos = std::count(as.begin(), as.end(), d), neg = std::count(as.begin(), as.end(), -d);
            if (!pos && !neg) c.fail("core-foreign", "final conflict mentions " + std::to_string(d) + ", which was not assumed");
            if (neg) o.push_back(-d); else o.push_back(d);   // the conflict clause consists of negated assumptions
        }
        return o;
    }
};

struct History {
    mc::Ctx& c; Engine& e; ref::Cnf f; std::ostringstream log; std::set<int> vars; bool taut_only = false; int solves = 0; uint64_t h = 0;
    History(mc::Ctx& c_, Engine& e_, const std::string& what) : c(c_), e(e_) { log << what << ": "; }
    static bool tautology(const ref::Clause& cl) { for (int l : cl) for (int q : cl) if (l == -q) return true; return false; }
    void add(const ref::Clause& cl) { log << "add(" << ref::show(cl) << ") "; c.describe(log.str()); e.add(cl); c.step(); f.push_back(cl); }
    void clear() { log << "clear() "; c.describe(log.str()); e.clear(); c.step(); f.clear(); }
    void solve(const ref::Clause& as) {
        log << "solve(assume"; for (int a : as) log << ' ' << a; log << ") "; c.describe(log.str());
        int r = e.solve(as); c.step(1 + as.size()); solves++; c.count(K_SOLVES);
        log << "= " << r << " ; ";
        bool sat = ref::sat_under(f, as);
        if (want_model) {
            if (r != 10 && r != 20) c.fail("verdict-undef", "solve returned " + std::to_string(r) + " in: " + log.str());
            if (r == 20 && sat) c.fail("verdict-wrong", "UNSAT reported, but the formula is satisfiable under the assumptions: " + log.str());
            if (r == 10 && !sat) c.fail("verdict-wrong", "SAT reported, but there is no model under the assumptions: " + log.str());
        } else if (r != (sat ? 10 : 20)) throw mc::Prune();
        h = mc::mix(h, r);
        if (r == 10) {
            c.count(K_SAT);
            if (want_model) {
                int n = ref::maxvar(f); for (int a : as) n = std::max(n, std::abs(a));
                std::vector<int> v(n + 1, 0); for (int i = 1; i <= n; i++) { v[i] = e.value(i, c); h = mc::mix(h, v[i] + 2); }
                for (auto& cl : f) if (!tautology(cl) && !ref::satisfied(cl, v)) c.fail("model-wrong", "model " + showmodel(v) + "violates clause " + ref::show(cl) + " in: " + log.str());
                for (int a : as) if (!ref::satisfied({a}, v)) c.fail("model-assumption", "model " + showmodel(v) + "violates the assumption " + std::to_string(a) + " in: " + log.str());
            }
        } else {
            c.count(K_UNSAT);
            if (want_core) {
                ref::Clause core = e.core(as, c);
                if (!as.empty()) c.count(K_UNSAT_ASS);
                if (core.size() < as.size()) c.count(K_CORE_SMALLER);
                for (int l : core) h = mc::mix(h, l + 100);
                if (ref::sat_under(f, core)) c.fail("core-insufficient", "the reported failed assumptions {" + ref::show(core) + "} are consistent with the clauses: " + log.str());
            }
        }
    }
};

// all sequences of at most 'upto' assumption literals over variables 1..n
static ref::Clause choose_assumptions(mc::Ctx& c, int n, int upto) { ref::Clause a; for (int i = 0; i < upto; i++) { int k = c.choose(2 * n + 1); if (!k) break; k--; a.push_back(k % 2 ? -(k / 2 + 1) : k / 2 + 1); } return a; }
static ref::Clause choose_increasing(mc::Ctx& c, int n, int upto) { ref::Clause a; int last = 0; for (int i = 0; i < upto; i++) { int left = n - last; if (!left) break; int k = c.choose(2 * left + 1); if (!k) break; k--; last += k / 2 + 1; a.push_back(k % 2 ? -last : last); } return a; }

static std::vector<ref::Clause> menu3, menu3b;
static void body(mc::Ctx& c) {
    bool T = c.opt->thorough();
    int fam = c.choose(NFAM);
    int only = c.opt->num("family", -1); if (only >= 0 && fam != only) throw mc::Prune();
    int npro = profiles().size();
    // which engine (0 ipasir, 1..4 the solver kinds 0..3) under which profile; the quick tier takes pairs that cover every
    // engine and every profile, the thorough tier the full product
    static const int pairs[][2] = {{0, 4}, {0, 0}, {0, 7}, {0, 8}, {3, 2}, {0, 3}, {2, 4}, {0, 5}, {4, 7}, {0, 1}, {0, 6}, {1, 4}, {3, 0}, {0, 2}};
    static const int npairs[NFAM] = {9, 9, 5, 5, 9, 14, 14, 12};
    int which, pr;
    static const int clr[] = {1, 2, 3, 4, 7, 11, 5, 8, 9, 10, 12}; if (fam == 7) { which = clr[c.choose(T ? 11 : 6)]; if (c.opt->num("kind", which) != which) throw mc::Prune(); pr = T ? c.choose(npro) : std::vector<int>{0, 2, 4}[c.choose(3)]; } else if (T) { which = c.choose(5); pr = c.choose(npro); } else { int k = c.choose(npairs[fam]); which = pairs[k][0]; pr = pairs[k][1]; }
    defaults(); profiles()[pr].set();
    std::unique_ptr<Engine> e;
    auto mk = [&] { if (which == 0) e.reset(new Ipasir()); else e.reset(new Raw(kinds()[which - 1])); };
    std::string what = std::string(which == 0 ? "ipasir" : kinds()[which - 1].name) + " [" + profiles()[pr].name + "]";
    int maxr = T ? 4 : 3;
    switch (fam) {
    case 0: { // rounds of at most one clause and one assumption over 2 variables growing to 3
        int rounds = maxr; std::vector<std::pair<ref::Clause, ref::Clause>> ops; std::vector<bool> hasc;
        static std::vector<ref::Clause> m2 = [] { auto m = ref::all_clauses(2, 1, 2); m.push_back({3}); m.push_back({-3, 1}); m.push_back({3, -2}); m.push_back({-1, 2, 3}); m.push_back({4, -3, 2}); m.push_back({-4, -2}); return m; }();
        ops.resize(rounds); hasc.resize(rounds);
        for (int i = 0; i < rounds; i++) { int k = c.choose(m2.size() + 1); hasc[i] = k > 0; if (k) ops[i].first = m2[k - 1]; if (T || i < 2) ops[i].second = choose_assumptions(c, 3, 1); if (i == 0) c.split(); }
        mk(); History H(c, *e, what);
        for (int i = 0; i < rounds; i++) { if (hasc[i]) H.add(ops[i].first); H.solve(ops[i].second); }
        c.count(K_H0 + fam); c.outcome(H.h); c.sample(H.log.str()); break; }
    case 1: { // all ordered assumption sequences (repeated and complementary ones too) on small formulas, twice
        ref::Cnf f = ref::choose_set(c, menu3b, T ? 4 : 3); ref::Clause a = choose_assumptions(c, 3, T || f.size() < 3 ? 3 : 2);
        mk(); History H(c, *e, what); for (auto& cl : f) H.add(cl); H.solve(a); ref::Clause r(a.rbegin(), a.rend()); H.solve(r); H.solve({}); ref::Clause neg; for (int l : a) neg.push_back(-l); H.solve(neg);
        c.count(K_H0 + fam); c.outcome(H.h); break; }
    case 2: { // small formula, solve, one more clause, solve under assumptions, solve
        ref::Cnf f = ref::choose_set(c, menu3, T ? 3 : 2); ref::Clause a0 = choose_assumptions(c, 3, 1); int k = c.choose(menu3.size()); ref::Clause a = choose_increasing(c, 3, T ? 3 : f.size() < 2 ? 2 : 1);
        mk(); History H(c, *e, what); for (auto& cl : f) H.add(cl); H.solve(a0); H.add(menu3[k]); H.solve(a); H.solve({});
        c.count(K_H0 + fam); c.outcome(H.h); break; }
    case 3: { // structured formula, assumptions, then a clause over eliminated / new variables, assumptions
        int b = c.choose(ref::NBASE); ref::Cnf f = ref::base(b); int n = ref::maxvar(f);
        if (b == 0 || b == 3) f.erase(f.begin() + (b == 0 ? 5 : 9)); // make it satisfiable
        if (b == 2) f.pop_back();
        ref::Clause a0 = choose_assumptions(c, n, 1); c.split();
        ref::Clause cl; int kind = c.choose(3);
        if (kind == 1) cl = choose_increasing(c, n + 2, 1); if (kind == 2) cl = choose_increasing(c, n + 1, 2);
        if (kind && cl.empty()) throw mc::Prune();
        ref::Clause a1; int l = c.choose(2 * (n + 1) + 1); if (l) { l--; a1.push_back(l % 2 ? -(l / 2 + 1) : l / 2 + 1); }
        if (!T && kind == 2 && (a1.size() && (std::abs(a1[0]) % 3 != 1))) throw mc::Prune();
        if (!T && kind == 2 && a0.size() && std::abs(a0[0]) % 5 != 1) throw mc::Prune();
        mk(); History H(c, *e, what); for (auto& x : f) H.add(x); H.solve(a0); if (kind) H.add(cl); H.solve(a1); H.solve({});
        c.count(K_H0 + fam); c.outcome(H.h); if (a0.size() && a1.size() && kind) c.sample(H.log.str()); break; }
    case 4: { // structured formula loaded in two halves with a solve between, then pairs of assumptions
        int b = c.choose(ref::NBASE); ref::Cnf f = ref::base(b); int n = ref::maxvar(f); int cut = c.choose(f.size()); c.split();
        ref::Clause a = choose_increasing(c, n, 2);
        mk(); History H(c, *e, what); for (int i = 0; i < (int)f.size(); i++) { if (i == cut) H.solve({}); H.add(f[i]); } H.solve(a); H.solve({});
        c.count(K_H0 + fam); c.outcome(H.h); break; }
    case 5: { // selector literals: clauses activated by assumptions, every activation pattern in sequence
        int b = c.choose(3); ref::Cnf f = b == 0 ? ref::php(3, 2) : b == 1 ? ref::xor_ring(4, 1, 2, 1) : ref::Cnf{{1, 2}, {-1, 3}, {-2, 3}, {-3, 4}, {-4, -1}, {-4, -2}, {4, 5}, {-5, 1, 2}};
        int n = ref::maxvar(f), groups = T ? 4 : 3; ref::Cnf g; for (size_t i = 0; i < f.size(); i++) { ref::Clause x = f[i]; x.push_back(-(n + 1 + (int)i % groups)); g.push_back(x); }
        std::vector<int> pat; for (int r = 0; r < 3; r++) { pat.push_back(c.choose(1 << groups)); if (r == 0) c.split(); }
        int l = c.choose(2 * n + 1); 
        mk(); History H(c, *e, what); for (auto& x : g) H.add(x);
        for (int r = 0; r < 3; r++) { ref::Clause a; for (int i = 0; i < groups; i++) if (pat[r] >> i & 1) a.push_back(n + 1 + i); if (l && r == 1) a.push_back((l - 1) % 2 ? -((l - 1) / 2 + 1) : (l - 1) / 2 + 1); H.solve(a); }
        H.solve({}); c.count(K_H0 + fam); c.outcome(H.h); break; }
    case 6: { // assumptions over variables that no clause mentions (yet)
        ref::Cnf f = ref::choose_set(c, menu3b, 1); int v1 = 3 + c.choose(T ? 70 : 6), s = c.choose(4); int v2 = v1 + c.choose(3) - 1; ref::Clause a; int k = c.choose(3); 
        if (k >= 1) a.push_back(s & 1 ? -v1 : v1); if (k == 2) a.push_back(s & 2 ? -v2 : v2); int second = c.choose(4);
        mk(); History H(c, *e, what); for (auto& cl : f) H.add(cl); H.solve(a);
        if (second & 1) H.add({-v1, v2 + 1}); if (second & 2) H.add({s & 1 ? v1 : -v1, v2, -(v2 + 2)});
        H.solve(a); H.solve({}); ref::Clause b{-(v2 + 1)}; H.solve(b); for (int x : a) b.push_back(x); H.solve(b); c.count(K_H0 + fam); c.outcome(H.h); break; }
    case 7: { // one solver object, cleared and used for another formula (as the semantic gate checks do)
        auto pick = [&](ref::Cnf& f) { int b = c.choose(ref::NBASE + (T ? 2 : 1)); if (b < ref::NBASE) f = ref::base(b); else f = ref::choose_set(c, menu3, b - ref::NBASE + 1); };
        static const std::vector<ref::Cnf> gates = [] { std::vector<ref::Cnf> v; for (int i = 0; i < 4; i++) { ref::Cnf f; int o = 3 + (i & 1); // outputs equal, opposite, constant: there is something to conjecture
            ref::def_xor(f, o, 1, 2); ref::def_xor(f, o + 1, 2, i & 2 ? -1 : 1); ref::def_and(f, o + 2, {o, -(o + 1)}); ref::def_and(f, -(o + 3), {o + 1, 1}); ref::def_and(f, -(o + 4), {o, 1}); ref::def_xor(f, o + 5, o + 3, o + 4); ref::def_xor(f, o + 6, o + 5, o + 2); ref::def_and(f, -(o + 7), {o + 6, o}); f.insert(f.begin(), {o + 7}); v.push_back(f); } return v; }();
        auto pickg = [&](ref::Cnf& f) { int b = c.choose(T ? 8 : 4); f = gates[b % 4]; if (b >= 4) f.erase(f.begin() + 5); };
        bool rsil = which >= 7;
        ref::Cnf f, g; if (rsil) pickg(f); else pick(f); ref::Clause a0, a1; if (int k = c.choose(3)) a0.push_back(k == 1 ? 1 : -2); c.split(); if (rsil && c.flag()) pickg(g); else if (rsil && !T) g = ref::choose_set(c, menu3, 1); else pick(g);
        int n = std::max(1, ref::maxvar(g)); int k = c.choose(2 * n + 1); if (k) { k--; a1.push_back(k % 2 ? -(k / 2 + 1) : k / 2 + 1); }
        int again = T ? c.choose(3) : rsil ? 1 : c.choose(2);
        mk(); History H(c, *e, what); for (auto& x : f) H.add(x); H.solve(a0); if (again == 2) H.solve({}); H.clear(); for (auto& x : g) H.add(x); H.solve(a1); if (again) { H.clear(); for (auto& x : f) H.add(x); H.solve({}); }
        c.count(K_H0 + fam); c.outcome(H.h); break; }
    }
}
int main(int argc, char** argv) {
    menu3 = ref::all_clauses(3, 1, 3); menu3b = ref::all_clauses(3, 2, 3);
    std::string prop = "C02"; for (int i = 1; i < argc; i++) if (!strncmp(argv[i], "--prop=", 7)) prop = argv[i] + 7;
    want_model = prop == "C02"; want_core = prop == "C03";
    mc::Explorer e(prop);
    e.counter_names = {"solves", "sat", "unsat", "unsat_under_assumptions", "cores_smaller_than_assumptions", "one_clause_rounds", "assumption_sequences", "add_between_solves", "structured_then_clause", "split_loading", "selectors", "unseen_assumption_variables", "cleared_solver"};
    return e.main(argc, argv, body);
}
