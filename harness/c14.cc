// C14: the callbacks of the incremental interface.  A solve asked to terminate at any moment ends soon and leaves a usable
// solver; every clause passed to the learnt-clause callback follows from the clauses given so far.
#include "candy_common.h"
#include "families.h"
extern "C" {
#include "candy/ipasir/ipasir.h"
}
using namespace cd;
enum { K_SOLVES, K_INTERRUPTED, K_ANSWERED, K_POLLS, K_CLAUSES, K_UNITS, K_MINCALLS, K_RAW, K_SAT, K_UNSAT, K_F0 };
enum { NFAM = 6 };

// what the user's callbacks see and do
struct Env {
    long polls = 0, learnt = 0, fired = 0, after = 0; bool flag = false;
    std::function<bool(long)> when;                    // poll index -> ask to terminate
    std::vector<ref::Clause> got; bool bad = false; std::string badwhat; int maxlen = -1; long request_at = -1; int nvars = 0;
};
static int on_term(void* p) { Env* e = (Env*)p; long i = e->polls++; if (e->fired) e->after++; bool t = e->flag || (e->when && e->when(i)); if (t) e->fired++; return t ? 1 : 0; }
static void on_learn(void* p, int* cl) { Env* e = (Env*)p; e->learnt++; ref::Clause c; for (int i = 0; cl[i] != 0; i++) { if (i > 100000) { e->bad = true; e->badwhat = "a clause without terminating zero"; return; } c.push_back(cl[i]); } e->got.push_back(c); if (e->learnt == e->request_at) e->flag = true; }

struct Engine { virtual ~Engine() {} virtual void add(const ref::Clause&) = 0; virtual int solve(const ref::Clause&) = 0; virtual int value(int) = 0; virtual void term(void*, int (*)(void*)) = 0; virtual void learn(void*, int, void (*)(void*, int*)) = 0; virtual long conflicts() { return -1; } };
struct Ipasir : Engine {
    void* s; Ipasir() { s = ipasir_init(); } ~Ipasir() { ipasir_release(s); }
    void add(const ref::Clause& c) { for (int l : c) ipasir_add(s, l); ipasir_add(s, 0); }
    int solve(const ref::Clause& as) { for (int l : as) ipasir_assume(s, l); return ipasir_solve(s); }
    int value(int v) { int a = ipasir_val(s, v); return a == v ? 1 : a == -v ? -1 : 0; }
    void term(void* d, int (*f)(void*)) { ipasir_set_terminate(s, d, f); } void learn(void* d, int m, void (*f)(void*, int*)) { ipasir_set_learn(s, d, m, f); }
};
struct Raw : Engine {
    std::unique_ptr<CandySolverInterface> s; CNFProblem p; Raw(const Kind& k) : s(build(k)) {}
    void add(const ref::Clause& c) { Cl cl; for (int l : c) cl.push_back(lit(l)); p.readClause(cl); }
    int solve(const ref::Clause& as) { std::vector<Lit> a; for (int l : as) { a.push_back(lit(l)); while ((int)p.nVars() < std::abs(l)) p.newVar(); } s->init(p); s->getAssignment().setAssumptions(a); lbool r = s->solve(); p.clear(); return r == l_True ? 10 : r == l_False ? 20 : 0; }
    int value(int v) { return s->getCandySolverResult().satisfies(lit(v)) ? 1 : s->getCandySolverResult().satisfies(lit(-v)) ? -1 : 0; }
    void term(void* d, int (*f)(void*)) { s->setTermCallback(d, f); } void learn(void* d, int m, void (*f)(void*, int*)) { s->setLearntCallback(d, m, f); }
    long conflicts() { return s->nConflicts(); }
};

struct History {
    mc::Ctx& c; Engine& e; Env& v; ref::Cnf f; std::ostringstream log; uint64_t h = 0; int n = 0;
    History(mc::Ctx& c_, Engine& e_, Env& v_, const std::string& what) : c(c_), e(e_), v(v_) { log << what << ": "; }
    void say(const std::string& s) { log << s; c.describe(log.str()); }
    void add(const ref::Clause& cl) { say("add(" + ref::show(cl) + ") "); e.add(cl); c.step(); f.push_back(cl); }
    void addall(const ref::Cnf& g) { for (auto& cl : g) add(cl); }
    // every clause reported since the last call follows from f and is well formed
    void clauses(int maxlen) {
        if (v.bad) c.fail("learnt-malformed", v.badwhat + ": " + log.str());
        if (v.got.empty()) return; int m = std::max(n, ref::maxvar(f)); ref::Table t = ref::table(f, m);
        for (auto& cl : v.got) {
            if ((int)cl.size() > maxlen) c.fail("learnt-too-long", "clause " + ref::show(cl) + " is longer than the maximum " + std::to_string(maxlen) + ": " + log.str());
            std::set<int> seen; for (int l : cl) { if (std::abs(l) > m) c.fail("learnt-unknown-variable", "clause " + ref::show(cl) + " mentions an unknown variable: " + log.str()); if (!seen.insert(l).second) c.fail("learnt-repeated", "clause " + ref::show(cl) + " repeats a literal: " + log.str()); }
            if (!t.implies(cl)) c.fail("learnt-not-implied", "learnt clause " + ref::show(cl) + " does not follow from the clauses added so far: " + log.str());
            c.count(K_CLAUSES); if (cl.size() == 1) c.count(K_UNITS); for (int l : cl) h = mc::mix(h, l + 1000);
        }
        v.got.clear();
    }
    int solve(const ref::Clause& as, int maxlen = 1 << 30) {
        for (int a : as) n = std::max(n, std::abs(a));
        std::ostringstream o; o << "solve(assume"; for (int a : as) o << ' ' << a; o << ") "; say(o.str());
        long f0 = v.fired; v.after = 0; int r = e.solve(as); c.step(1 + as.size()); c.count(K_SOLVES);
        log << "= " << r << " ; ";
        bool sat = ref::sat_under(f, as);
        if (r != 0 && r != 10 && r != 20) c.fail("verdict", "solve returned " + std::to_string(r) + ": " + log.str());
        if (r == 0 && v.fired == f0) c.fail("interrupted-without-request", "solve ended without an answer although the callback never asked it to: " + log.str());
        if (r == 10 && !sat) c.fail("verdict-wrong", "SAT reported, there is no model under the assumptions: " + log.str());
        if (r == 20 && sat) c.fail("verdict-wrong", "UNSAT reported, there is a model under the assumptions: " + log.str());
        c.count(r == 0 ? K_INTERRUPTED : K_ANSWERED); if (r == 10) c.count(K_SAT); if (r == 20) c.count(K_UNSAT);
        if (r == 10) { std::vector<int> m(std::max(n, ref::maxvar(f)) + 1, 0); for (size_t i = 1; i < m.size(); i++) m[i] = e.value(i); for (auto& cl : f) if (!ref::satisfied(cl, m)) c.fail("model-wrong", "model " + showmodel(m) + "violates " + ref::show(cl) + ": " + log.str()); for (int a : as) if (!ref::satisfied({a}, m)) c.fail("model-assumption", "model violates the assumption " + std::to_string(a) + ": " + log.str()); }
        clauses(maxlen); h = mc::mix(h, r + 1);
        return r;
    }
};
static Engine* make(int which) { return which == 0 ? (Engine*)new Ipasir() : new Raw(kinds()[which - 1]); }
static std::string name(int which, int pr) { return std::string(which ? kinds()[which - 1].name : "ipasir") + " [" + profiles()[pr].name + "]"; }
static int litno(int k) { return k % 2 ? -(k / 2 + 1) : k / 2 + 1; }

static void body(mc::Ctx& c) {
    bool T = c.opt->thorough(); int fam = c.choose(NFAM); int only = c.opt->num("family", -1); if (only >= 0 && fam != only) throw mc::Prune();
    static const int pairs[][2] = {{0, 4}, {0, 0}, {0, 3}, {0, 7}, {1, 2}, {2, 4}, {3, 3}, {4, 7}, {0, 5}, {2, 0}, {4, 4}, {1, 6}};
    int which, pr; if (T) { which = c.choose(5); pr = c.choose((int)profiles().size()); } else { int k = c.choose(fam == 2 ? 1 : fam == 5 ? 4 : fam == 3 ? 12 : 6); which = pairs[k][0]; pr = pairs[k][1]; }
    defaults(); profiles()[pr].set();
    switch (fam) {
    case 0: case 1: { // interrupted at every poll (once, from then on, or twice), then used on: assumptions, another clause
        ref::Cnf f; if (fam == 0) { static const std::vector<ref::Clause> menu = ref::all_clauses(3, 2, 3); f = ref::choose_set(c, menu, T ? 4 : 3); } else { f = ref::base(c.choose(ref::NBASE)); ref::edit(c, f, ref::maxvar(f), T ? 5 : 2); }
        if (f.empty()) throw mc::Prune(); int n = std::max(1, ref::maxvar(f)); ref::Clause a0; if (int k = c.choose(fam == 0 || T ? 3 : 2)) a0.push_back(k == 1 ? 1 : -2); c.split();
        long P; { Env v; std::unique_ptr<Engine> e(make(which)); e->term(&v, on_term); for (auto& x : f) e->add(x); e->solve(a0); P = v.polls; }
        defaults(); profiles()[pr].set();
        if (P == 0) throw mc::Prune();
        int style = c.choose(3); long i = c.choose((int)std::min(P, (long)(T ? 40 : 12))), j = i; if (style == 2) j = i + 1 + c.choose(3);
        int next = c.choose(T ? 4 : 3), lit2 = fam == 0 && T ? c.choose(2 * n) : fam == 0 ? (2 * c.choose(2) + (int)(f.size() + i)) % (2 * n) : (int)(f.size() * 7 + i) % (2 * n);
        Env v; v.when = [=](long k) { return style == 0 ? k == i : style == 1 ? k >= i : k == i || k == j; };
        std::unique_ptr<Engine> e(make(which)); History H(c, *e, v, name(which, pr) + " terminate " + (style == 0 ? "at poll " : style == 1 ? "from poll " : "at polls ") + std::to_string(i) + (style == 2 ? "," + std::to_string(j) : ""));
        e->term(&v, on_term); e->learn(&v, 1 << 20, on_learn);
        H.addall(f); int r = H.solve(a0);
        if (style == 1 && !v.fired) c.fail("poll-lost", "the callback was called less often than in the run without termination: " + H.log.str());
        if (style == 1 && v.after > 32) c.fail("request-ignored", "solve polled " + std::to_string(v.after) + " more times after the callback had asked it to terminate: " + H.log.str());
        if (next == 3) { r = H.solve(a0); if (style == 1 && v.after > 32) c.fail("request-ignored", "solve went on although the callback asks it to terminate: " + H.log.str()); }  // still asked to terminate, if sticky
        v.when = nullptr;
        if (next == 1) H.add({litno(lit2)}); if (next == 2) { H.add({litno(lit2), -(lit2 % n + 1), n + 1}); }
        int q = H.solve({}); if (q == 0) c.fail("no-answer", "the solve without any request gave no answer: " + H.log.str());
        ref::Clause as{-litno(lit2)}; H.solve(as); H.solve({}); (void)r;
        c.count(K_F0 + fam); c.count(K_POLLS, v.polls); c.outcome(H.h); if (r == 0 && next) c.sample(H.log.str().substr(0, 900)); break; }
    case 2: { // a request that arrives asynchronously, after the k-th learnt clause: the search ends soon
        static const int P[] = {2, 3, 4}; int pr2 = P[c.choose(3)]; defaults(); profiles()[pr2].set(); int w = T ? which : c.choose(5);
        int b = c.choose(2); ref::Cnf f = b == 0 ? ref::php(6, 5) : ref::php(7, 6); int kind = w == 0 ? 0 : w - 1; (void)kind;
        long N; { Env v; std::unique_ptr<Engine> e(make(w)); e->term(&v, on_term); e->learn(&v, 1 << 20, on_learn); for (auto& x : f) e->add(x); e->solve({}); N = v.learnt; }
        const long GRACE = 200; if (N <= GRACE) { c.count(K_RAW); break; }
        int steps = T ? 40 : 12; long at = 1 + (N - GRACE - 1) * c.choose(steps) / steps; c.split();
        defaults(); profiles()[pr2].set();
        Env v; v.request_at = at; std::unique_ptr<Engine> e(make(w)); std::string what = name(w, pr2) + " terminate requested after learnt clause " + std::to_string(at) + " of " + std::to_string(N) + ": " + ref::show(f);
        c.describe(what); e->term(&v, on_term); e->learn(&v, 1 << 20, on_learn); for (auto& x : f) e->add(x); int r = e->solve({}); c.step(f.size() + 1);
        if (v.learnt > at + GRACE) c.fail("request-ignored", std::to_string(v.learnt - at) + " more clauses were learnt after the request: " + what);
        if (r == 10) c.fail("verdict-wrong", "SAT reported: " + what); c.count(r == 0 ? K_INTERRUPTED : K_ANSWERED);
        v.flag = false; v.request_at = -1; r = e->solve({}); c.step(); if (r != 20) c.fail("no-answer", "solving again gives " + std::to_string(r) + ": " + what);
        c.count(K_F0 + fam); c.outcome(mc::mix(v.learnt, at)); break; }
    case 3: { // learnt clauses: complete up to the length, implied whatever is assumed
        ref::Cnf f; int b = c.choose(2); if (b == 0) { f = ref::base(c.choose(ref::NBASE)); ref::edit(c, f, ref::maxvar(f), T ? 5 : 2); } else { static const std::vector<ref::Clause> menu4 = ref::all_clauses(4, 3, 4); f.clear(); int m = c.choose(64); for (int i = 0; i < 16; i++) if (!(m >> (i % 6) & 1 && i < 6)) { ref::Clause x; for (int q = 0; q < 4; q++) x.push_back(i >> q & 1 ? -(q + 1) : q + 1); f.push_back(x); } for (auto& x : f) x.push_back(-(5 + (int)(x[0] > 0))); }
        int n = std::max(1, ref::maxvar(f)); ref::Clause a0; int k = c.choose(T ? 2 * n + 1 : 5); if (k) a0.push_back(litno(T ? k - 1 : (k - 1 + (int)f.size()) % (2 * n))); if (b == 1) { a0.push_back(5); a0.push_back(6); } c.split();
        int maxlen = c.choose(T ? 8 : 5); if (maxlen == (T ? 7 : 4)) maxlen = n + 5;
        std::vector<ref::Clause> all; long conf = -1;
        { Env v; std::unique_ptr<Engine> e(make(which)); e->learn(&v, 1 << 20, on_learn); for (auto& x : f) e->add(x); e->solve(a0); e->solve({}); all = v.got; conf = e->conflicts(); }
        defaults(); profiles()[pr].set(); Env v; std::unique_ptr<Engine> e(make(which)); History H(c, *e, v, name(which, pr) + " learnt clauses up to " + std::to_string(maxlen));
        e->learn(&v, maxlen, on_learn); H.addall(f); std::vector<ref::Clause> mine; auto keep = [&] { for (auto& x : v.got) mine.push_back(x); };
        { for (int a : a0) H.n = std::max(H.n, std::abs(a)); int r = e->solve(a0); keep(); H.say("solve = " + std::to_string(r) + " "); H.clauses(maxlen); r = e->solve({}); keep(); H.say("solve = " + std::to_string(r)); H.clauses(maxlen); c.step(3); c.count(K_SOLVES, 2); c.count(K_ANSWERED, 2); }
        std::vector<ref::Clause> want; for (auto& x : all) if ((int)x.size() <= maxlen) want.push_back(x);
        if (want != mine) c.fail("learnt-missing", "of the " + std::to_string(want.size()) + " learnt clauses of at most " + std::to_string(maxlen) + " literals " + std::to_string(mine.size()) + " were reported: " + H.log.str());
        if (conf >= 0 && conf != (long)all.size()) c.fail("learnt-count", std::to_string(conf) + " conflicts, " + std::to_string(all.size()) + " learnt clauses reported: " + H.log.str());
        if (conf > 0) c.count(K_RAW); c.count(K_F0 + fam); c.outcome(H.h); break; }
    case 4: { // the callbacks are exchanged and removed between solves
        ref::Cnf f = ref::base(c.choose(ref::NBASE)); int n = ref::maxvar(f); int first = c.choose(3), second = c.choose(3), third = c.choose(3), l = c.choose(T ? 2 * n : 4); c.split();
        Env v, w; v.when = [](long) { return true; }; std::unique_ptr<Engine> e(make(which)); History H(c, *e, v, name(which, pr) + " callbacks exchanged " + std::to_string(first) + std::to_string(second) + std::to_string(third)); H.addall(f);
        auto set = [&](int k) { if (k == 0) { e->term(nullptr, nullptr); e->learn(nullptr, 0, nullptr); H.say("none "); } if (k == 1) { e->term(&v, on_term); e->learn(&v, 1 << 20, on_learn); H.say("always terminate "); } if (k == 2) { e->term(&w, on_term); e->learn(&w, 3, on_learn); H.say("never terminate "); } };
        int kinds3[] = {first, second, third}; for (int i = 0; i < 3; i++) { set(kinds3[i]); long p = v.polls, g = v.learnt, pw = w.polls, gw = w.learnt; int r = H.solve(i == 1 ? ref::Clause{litno(l)} : ref::Clause{}); if (kinds3[i] != 1 && r == 0) c.fail("no-answer", "interrupted without request: " + H.log.str());
            if (kinds3[i] != 1 && (v.polls != p || v.learnt != g)) c.fail("stale-callback", "a removed callback was called: " + H.log.str()); if (kinds3[i] != 2 && (w.polls != pw || w.learnt != gw)) c.fail("stale-callback", "a removed callback was called: " + H.log.str());
            for (auto& x : w.got) v.got.push_back(x); w.got.clear(); H.clauses(1 << 20); }
        c.count(K_F0 + fam); c.outcome(H.h); break; }
    case 5: { // two interruptions in different solves of one history with clauses in between
        ref::Cnf f = ref::base(c.choose(ref::NBASE)); int n = ref::maxvar(f); if (f.size() < 4) throw mc::Prune(); int cut = c.choose(T ? (int)f.size() : 4); if (!T) cut = (cut * (int)f.size()) / 4; long i = c.choose(T ? 8 : 4), j = c.choose(T ? 8 : 4); int l = c.choose(T ? 2 * n : 3); bool sticky = c.flag(); c.split();
        Env v; std::unique_ptr<Engine> e(make(which)); History H(c, *e, v, name(which, pr) + " interrupted at poll " + std::to_string(i) + " and " + std::to_string(j) + (sticky ? " (sticky)" : "")); e->term(&v, on_term); e->learn(&v, 1 << 20, on_learn);
        for (int k = 0; k < cut; k++) H.add(f[k]); v.when = [&](long p) { return sticky ? p >= i : p == i; }; H.solve({litno(l)});
        for (int k = cut; k < (int)f.size(); k++) H.add(f[k]); long base = v.polls; v.when = [&](long p) { return sticky ? p - base >= j : p - base == j; }; H.solve({litno((l + 3) % (2 * n))});
        v.when = nullptr; for (int k = 0; k < 3; k++) if (H.solve(k == 1 ? ref::Clause{litno((l + 5) % (2 * n))} : ref::Clause{}) == 0) c.fail("no-answer", "no answer without a request: " + H.log.str());
        c.count(K_F0 + fam); c.count(K_POLLS, v.polls); c.outcome(H.h); break; }
    }
}
int main(int argc, char** argv) {
    mc::Explorer e("C14"); e.counter_names = {"solves", "interrupted", "answered", "polls", "learnt_clauses", "learnt_units", "min_calls", "native_runs", "sat", "unsat", "interrupted_small", "interrupted_structured", "asynchronous_request", "learnt_clause_callback", "callbacks_exchanged", "two_interruptions"};
    return e.main(argc, argv, body);
}
