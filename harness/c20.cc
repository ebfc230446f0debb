// C20: the data structures that everything is built of behave like their abstract counterparts, for every history of operations.
#include "candy_common.h"
#include "candy/mtl/Heap.h"
#include "candy/mtl/Stamp.h"
#include "candy/mtl/BoundedQueue.h"
#include "candy/mtl/Memory.h"
#include "candy/core/clauses/ClauseAllocatorMemory.h"
#include <list>
#include <deque>
using namespace cd;
enum { K_OPS, K_REMOVED, K_WRAPPED, K_FULL, K_PAGES, K_CHECKS, K_F0 };
struct Less { std::vector<int>& key; bool operator()(int a, int b) const { return key[a] < key[b]; } };
static void heap(mc::Ctx& c, int n, int depth) {
    std::vector<int> key(n, 1); std::set<int> in; Glucose::Heap<Less> h((Less{key})); std::ostringstream log; log << "heap of " << n << ":"; int grown = c.flag() ? n : n - 1; h.grow(grown); bool drained = false; int perm = c.choose(3); for (int i = 0; i < n; i++) key[i] = perm == 0 ? i : perm == 1 ? n - i : (i * 2) % n; if (depth > 3) c.split();
    auto look = [&] { c.describe(log.str()); c.step(); c.count(K_OPS); if (h.size() != (int)in.size() || h.empty() != in.empty()) c.fail("heap-size", "the heap has " + std::to_string(h.size()) + " elements instead of " + std::to_string(in.size()) + ": " + log.str()); for (int i = 0; i < n + 2; i++) if (h.inHeap(i) != (in.count(i) > 0)) c.fail("heap-member", "wrong membership of " + std::to_string(i) + ": " + log.str()); std::set<int> seen; for (int i = 0; i < h.size(); i++) seen.insert(h[i]); if (seen != in) c.fail("heap-elements", "wrong elements: " + log.str()); };
    auto pop = [&] { int x = h.removeMin(); log << " removeMin=" << x; c.count(K_REMOVED); if (!in.count(x)) c.fail("heap-foreign", "removes an element that is not in the heap: " + log.str()); for (int i : in) if (key[i] < key[x]) c.fail("heap-order", "removes " + std::to_string(x) + " although " + std::to_string(i) + " comes before it: " + log.str()); in.erase(x); };
    for (int d = 0; d < depth; d++) {
        if (d == 1) c.split();
        int op = c.choose(7);
        if (op == 0) { std::vector<int> out; for (int i = 0; i < grown; i++) if (!in.count(i)) out.push_back(i); if (out.empty()) throw mc::Prune(); int x = out[c.choose(out.size())]; if (c.flag()) h.insert(x); else h.update(x); in.insert(x); log << " insert " << x; }
        if (op == 1) { if (in.empty()) throw mc::Prune(); pop(); }
        if (op == 2 || op == 3) { if (in.empty()) throw mc::Prune(); std::vector<int> v(in.begin(), in.end()); int x = v[c.choose(v.size())]; bool any = c.flag(); key[x] += op == 2 ? -3 : 3; log << (op == 2 ? " lower " : " raise ") << x; if (any) h.update(x); else if (op == 2) h.decrease(x); else h.increase(x); }
        if (op == 4) { int m = c.choose(1 << grown); bool rev = c.flag(); std::vector<int> v; in.clear(); for (int i = 0; i < grown; i++) if (m >> i & 1) { v.insert(rev ? v.begin() : v.end(), i); in.insert(i); } h.build(v); log << " build " << m; }
        if (op == 5) { if (in.empty()) throw mc::Prune(); h.clear(); in.clear(); log << " clear"; }
        if (op == 6) { if (grown == n) throw mc::Prune(); grown = n; h.grow(n); log << " grow"; }
        look();
    }
    while (!h.empty()) { pop(); look(); drained = true; } (void)drained; c.outcome(mc::mixs(0, log.str().substr(0, 200))); if (log.str().size() > 120) c.sample(log.str());
}
template <class T> static void stamp(mc::Ctx& c, const char* name, long before, int depth) {
    int n = 1 + c.choose(2); bool late = c.flag(); Stamp<T> s(late ? 0 : n); std::vector<bool> in(late ? 0 : n); std::ostringstream log; log << "stamp<" << name << ">(" << (late ? 0 : n) << ") " << before << " clears:"; for (long i = 0; i < before; i++) s.clear(); if (before) c.count(K_WRAPPED);
    for (int d = 0; d < depth; d++) {
        if (d == 1) c.split();
        int op = c.choose(5); log << ' ' << op;
        if (op == 0) { if (in.empty()) throw mc::Prune(); int i = c.choose(in.size()); s.set(i); in[i] = true; log << ':' << i; }
        if (op == 1) { if (in.empty()) throw mc::Prune(); int i = c.choose(in.size()); s.unset(i); in[i] = false; log << ':' << i; }
        if (op == 2) { s.clear(); in.assign(in.size(), false); }
        if (op == 3) { if (in.size() > 3) throw mc::Prune(); s.grow(); in.push_back(false); }
        if (op == 4) { size_t k = c.choose(4); s.grow(k); if (k > in.size()) in.resize(k, false); }
        c.describe(log.str()); c.step(); c.count(K_OPS); if (s.size() != in.size()) c.fail("stamp-size", "wrong size: " + log.str());
        for (size_t i = 0; i < in.size(); i++) if (s[i] != in[i] || s.isStamped(i) != in[i]) c.fail("stamp", "element " + std::to_string(i) + " is " + (in[i] ? "not stamped" : "stamped") + ": " + log.str());
    }
    c.outcome(mc::mixs(1, log.str()));
}
static void bounded(mc::Ctx& c, int depth) {
    unsigned cap = 1 + c.choose(4); bqueue<uint32_t> q(cap); std::deque<uint32_t> m; std::ostringstream log; log << "queue of " << cap << ":";
    for (int d = 0; d < depth; d++) {
        if (d == 1) c.split();
        int op = c.choose(5); static const uint32_t V[] = {1, 7, 4};
        if (op < 3) { q.push(V[op]); m.push_back(V[op]); if (m.size() > cap) m.pop_front(), c.count(K_FULL); log << " push " << V[op]; }
        if (op == 3) { if (m.empty()) throw mc::Prune(); q.pop(); m.pop_front(); log << " pop"; } if (op == 4) { if (m.empty()) throw mc::Prune(); q.fastclear(); m.clear(); log << " clear"; }
        c.describe(log.str()); c.step(); c.count(K_OPS); uint32_t sum = 0; for (uint32_t x : m) sum += x;
        if (q.size() != m.size() || q.maxSize() != cap || q.isvalid() != (m.size() == cap)) c.fail("queue-size", "wrong size: " + log.str()); if (q.getsum() != sum) c.fail("queue-sum", "sum " + std::to_string(q.getsum()) + " instead of " + std::to_string(sum) + ": " + log.str());
        if (m.size() && (q.getavg() != sum / m.size() || q.peek() != m.front())) c.fail("queue-oldest", "average or oldest element is wrong: " + log.str()); if (m.size() == cap && std::abs(q.getavgDouble() - (double)sum / cap) > 1e-9) c.fail("queue-average", "wrong average: " + log.str());
    }
    c.outcome(mc::mixs(2, log.str()));
}
template <int BYTES> struct Block { int key, pad[BYTES / 4 - 1]; Block(int k) : key(k) { pad[0] = ~k; pad[BYTES / 4 - 2] = k * 7; } bool ok() const { return pad[0] == ~key && pad[BYTES / 4 - 2] == key * 7; } };
// paged memory: everything stored stays where it is and is seen by iterators, also by those that are under way when pages are added
template <class B> static void memory(mc::Ctx& c, int depth, int burst) {
    Memory<B> m(1); std::vector<const B*> at; std::vector<int> keys; int next = 0; std::ostringstream log; log << "memory of " << sizeof(B) << " bytes each:"; struct It { typename Memory<B>::const_iterator i; size_t pos, had; }; std::vector<It> its; bool sorted = false;
    auto add = [&](int n) { for (int i = 0; i < n; i++) { int k = next++ * 37 % 101; B* b = new (m.allocate()) B(k); at.push_back(b); keys.push_back(k); } log << " add " << n; };
    for (int d = 0; d < depth; d++) {
        if (d == 1) c.split();
        int op = c.choose(6);
        if (op == 0) add(1); if (op == 1) add(burst);
        if (op == 2) { if (its.size() >= 2 || keys.empty()) throw mc::Prune(); its.push_back({m.begin(), 0, keys.size()}); log << " begin"; }
        if (op == 3) { if (its.empty()) throw mc::Prune(); auto& x = its[c.choose(its.size())]; int steps = 0; while (x.pos + 1 < x.had && steps < burst) { ++x.i; x.pos++; steps++; } if (!steps) throw mc::Prune(); log << " advance " << steps; }
        if (op == 4) { if (keys.empty()) throw mc::Prune(); m.free_all(); at.clear(); keys.clear(); its.clear(); log << " free"; }
        if (op == 5) { if (keys.empty() || sorted) throw mc::Prune(); sorted = true; m.sort([](const B& a, const B& b) { return a.key < b.key; }); std::sort(keys.begin(), keys.end()); its.clear(); log << " sort"; at.clear(); for (const B* b : m) at.push_back(b); if (at.size() != keys.size()) c.fail("memory-sort", "elements are lost: " + log.str()); }
        c.describe(log.str()); c.step(); c.count(K_OPS); size_t k = 0; for (const B* b : m) { if (k >= keys.size() || b != at[k] || b->key != keys[k] || !b->ok()) c.fail("memory", "element " + std::to_string(k) + " is not what was stored: " + log.str()); k++; } if (k != keys.size() || m.used() != k * sizeof(B)) c.fail("memory-count", std::to_string(k) + " of " + std::to_string(keys.size()) + " elements are seen: " + log.str());
        for (auto& x : its) { if ((*x.i) != at[x.pos] || (*x.i)->key != keys[x.pos]) c.fail("memory-iterator", "an iterator that is under way is not at element " + std::to_string(x.pos) + ": " + log.str()); } c.count(K_PAGES, m.used() / (1 << 20));
    }
    // elements that were there when the iterator began are all reached, in order; later ones at most once
    for (auto& x : its) { size_t p = x.pos; auto i = x.i; for (; i != m.end(); ++i, p++) { while (p < at.size() && p >= x.had && *i != at[p]) p++; if (p >= at.size() || *i != at[p]) c.fail("memory-iterator", "an iterator that is under way leaves the elements: " + log.str()); } if (p < x.had) c.fail("memory-iterator", "an iterator that is under way ends early: " + log.str()); }
    c.outcome(mc::mixs(3, log.str()));
}
static int kleene_and(int a, int b) { return a == 1 || b == 1 ? 1 : a == 2 || b == 2 ? 2 : 0; } static int kleene_or(int a, int b) { return a == 0 || b == 0 ? 0 : a == 2 || b == 2 ? 2 : 1; } // 0 true, 1 false, 2 undefined
static void values(mc::Ctx& c) {
    std::vector<lbool> V = {l_True, l_False, l_Undef}; auto is = [&](lbool x, int k) { for (int i = 0; i < 3; i++) { bool e = x == V[i]; if (e != (i == k) || (x != V[i]) == e) return false; } return true; };
    int a = c.choose(3), b = c.choose(3); c.split(); std::string at = std::to_string(a) + "," + std::to_string(b); if (!is(V[a], a)) c.fail("lbool", "equality " + at); if (!is(V[a] && V[b], kleene_and(a, b))) c.fail("lbool", "and " + at); if (!is(V[a] || V[b], kleene_or(a, b))) c.fail("lbool", "or " + at); for (int s = 0; s < 2; s++) { if (!is(V[a] ^ (bool)s, a == 2 ? 2 : a ^ s)) c.fail("lbool", "xor " + at); if (!is((V[a] && V[b]) ^ (bool)s, kleene_and(a, b) == 2 ? 2 : kleene_and(a, b) ^ s)) c.fail("lbool", "xor of and " + at); } if (!is(lbool((bool)(a & 1)), a & 1 ? 0 : 1)) c.fail("lbool", "from bool " + at);
    static const int NV[] = {0, 1, 2, 63, 1000, (1 << 30) - 2}; int v = NV[c.choose(6)], w = NV[c.choose(6)]; bool s = c.flag(), t = c.flag(); Lit p(Var(v), s), q(Var(w), t); c.step(); c.count(K_CHECKS);
    if (p.var() != v || p.sign() != s || (~p).var() != v || (~p).sign() == s || ~~p != p || (p ^ true) != ~p || (p ^ false) != p || (p == q) != (v == w && s == t) || (p != q) == (v == w && s == t)) c.fail("lit", "literal " + std::to_string(dim(p))); if (std::hash<Lit>()(p) == std::hash<Lit>()(q) && p != q) c.fail("lit-hash", "two literals have the same hash");
    if ((p < q) != (v != w ? v < w : (int)s < (int)t)) c.fail("lit-order", "order of " + std::to_string(dim(p)) + " and " + std::to_string(dim(q))); std::ostringstream o; o << p; if (o.str() != std::to_string(dim(p))) c.fail("lit-print", "prints " + o.str() + " for " + std::to_string(dim(p))); if (p == lit_Undef || p == lit_Error) c.fail("lit-undef", "a literal equals the undefined one"); c.outcome(mc::mix(v * 2 + s, w * 2 + t));
}
static void results(mc::Ctx& c, int depth) { // reported models, minimised models and conflicts
    CandySolverResult r; std::vector<int> m, mm; std::vector<int> conf; std::ostringstream log; log << "result:";
    for (int d = 0; d < depth; d++) {
        if (d == 1) c.split();
        int op = c.choose(6);
        if (op < 2) { int v = c.choose(3); bool s = c.flag(); auto& t = op ? mm : m; if (op) r.setMinimizedModelValue(Lit(Var(v), s)); else r.setModelValue(Lit(Var(v), s)); t.resize(std::max<size_t>(t.size(), v + 1), 0); t[v] = s ? -1 : 1; log << (op ? " min" : " set") << (s ? -(v + 1) : v + 1); }
        if (op == 2) { r.clear(); m.clear(); mm.clear(); conf.clear(); log << " clear"; } if (op == 3) { r.setConflict({Lit(Var(d % 3), true)}); conf.push_back(-(d % 3 + 1)); log << " conflict"; }
        if (op == 4) { Trail t(4); t.newDecisionLevel(); int v = c.choose(4); t.decide(Lit(Var(v), d & 1)); t.propagate(Lit(Var((v + 1) % 4), !(d & 1)), nullptr); r.setModel(t); m.resize(std::max<size_t>(m.size(), std::max(v, (v + 1) % 4) + 1), 0); m[v] = d & 1 ? -1 : 1; m[(v + 1) % 4] = d & 1 ? 1 : -1; log << " trail" << v; }
        if (op == 5) { r.clearMinimizedModel(); mm.clear(); log << " clearmin"; }
        c.describe(log.str()); c.step(); c.count(K_OPS);
        for (int v = 0; v < 6; v++) { int x = v < (int)m.size() ? m[v] : 0; if (r.satisfies(Lit(Var(v), false)) != (x > 0) || r.satisfies(Lit(Var(v), true)) != (x < 0)) c.fail("result-value", "wrong value of variable " + std::to_string(v + 1) + ": " + log.str()); Lit l = r.value(Var(v)); if (x == 0 ? l != lit_Undef : l != Lit(Var(v), x < 0)) c.fail("result-value", "wrong literal for variable " + std::to_string(v + 1) + ": " + log.str()); }
        auto lits = [](const std::vector<int>& t) { std::vector<Lit> l; for (size_t v = 0; v < t.size(); v++) if (t[v]) l.push_back(Lit(Var(v), t[v] < 0)); return l; }; if (r.getModelLiterals() != lits(m)) c.fail("result-model", "wrong model: " + log.str()); if (r.getMinimizedModelLiterals() != lits(mm)) c.fail("result-minimised", "wrong minimised model: " + log.str()); std::vector<int> k; for (Lit l : r.getConflict()) k.push_back(dim(l)); if (k != conf) c.fail("result-conflict", "wrong conflict: " + log.str());
    }
    c.outcome(mc::mixs(5, log.str()));
}
static void problems(mc::Ctx& c, int depth) { // the problem as a container; what is stored survives being moved; checkResult
    static const std::vector<std::vector<int>> menu = {{}, {1}, {-2}, {2, 1}, {1, 1, -2}, {1, -1}, {4, -1, 2, 4}, {-3, 3, 3}}; std::unique_ptr<CNFProblem> p(new CNFProblem()); ref::Cnf f; int n = 0; std::ostringstream log; log << "problem:"; std::streambuf* old = std::cout.rdbuf(nullptr);
    for (int d = 0; d < depth; d++) {
        if (d == 1) c.split();
        int op = c.choose(5);
        if (op < 2) { auto& cl = menu[c.choose(menu.size())]; Cl x; for (int l : cl) x.push_back(lit(l)); if (op) { For all = {&x}; p->readClauses(all); } else p->readClause(x); for (int l : cl) n = std::max(n, std::abs(l)); std::set<int> s(cl.begin(), cl.end()); bool taut = false; for (int l : s) taut |= s.count(-l) > 0; if (!taut) f.push_back(ref::Clause(s.begin(), s.end())); log << " read(" << ref::show(cl) << ")"; }
        if (op == 2) { int v = p->newVar(); if (v != n) { std::cout.rdbuf(old); c.fail("problem-newvar", "the new variable is " + std::to_string(v + 1) + ": " + log.str()); } n++; log << " newVar"; } if (op == 3) { if (f.empty()) { std::cout.rdbuf(old); throw mc::Prune(); } p->clear(); f.clear(); log << " clear"; } if (op == 4) { std::unique_ptr<CNFProblem> q(new CNFProblem(std::move(*p))); p = std::move(q); log << " move"; }
        c.describe(log.str()); c.step(); c.count(K_OPS); std::string bad; if ((int)p->nVars() != n || p->nClauses() != f.size()) bad = "wrong number of variables or clauses"; size_t i = 0; for (const Cl* cl : *p) { std::set<int> a, b(f[std::min(i, f.size() - 1)].begin(), f[std::min(i, f.size() - 1)].end()); for (Lit l : *cl) a.insert(dim(l)); if (a != b || a.size() != cl->size() || (*p)[i] != cl) bad = "clause " + std::to_string(i) + " is wrong"; i++; }
        if (bad.empty() && d + 1 == depth && n <= 4) for (int part = 0; part < (n > 3 ? 9 : 1 << n) && bad.empty(); part++) for (int a = 0; a < 1 << n && bad.empty(); a++) { int len = part % (n + 1); CandySolverResult r; for (int v = 0; v < len; v++) r.setModelValue(Lit(Var(v), !(a >> v & 1))); bool want = true; for (auto& cl : f) { bool ok = false; for (int l : cl) ok |= std::abs(l) <= len && ((a >> (std::abs(l) - 1) & 1) == (l > 0)); want &= ok; } if (p->checkResult(r) != want) bad = "checkResult says " + std::string(want ? "no" : "yes") + " to assignment " + std::to_string(a) + " of the first " + std::to_string(len) + " variables"; c.count(K_CHECKS); }
        if (bad.size()) { std::cout.rdbuf(old); c.fail("problem", bad + ": " + log.str()); }
    }
    std::cout.rdbuf(old); c.outcome(mc::mixs(6, log.str()));
}
// clause memory: clauses are found again, deleted ones disappear with the next reallocation, others move unchanged
static void clauses(mc::Ctx& c, int depth, int big) {
    ClauseAllocatorMemory m(1), other(1); struct Ref { ref::Clause lits; unsigned w; }; std::vector<Ref> live, dead; std::ostringstream log; log << "clause memory:"; int next = 0; std::vector<Clause*> ptr; std::vector<bool> gone; int waves = 0;
    auto put = [&](ClauseAllocatorMemory& where, int len, unsigned w) { std::vector<Lit> l; for (int i = 0; i < len; i++) l.push_back(Lit(Var((next + i) % 5000), (next + (unsigned)i * i) % 3 == 0)); next++; return new (where.allocate(len)) Clause(l.begin(), l.end(), w); };
    auto text = [](const Clause* cl) { std::string s((const char*)cl->begin(), cl->size() * sizeof(Lit)); return s + "/" + std::to_string(cl->getLBD()); }; std::multiset<std::string> want, pending; std::vector<std::pair<Clause*, std::string>> cur;
    auto see = [&](const char* what) { std::multiset<std::string> got; auto v = m.collect(); std::vector<std::pair<Clause*, std::string>> now; for (Clause* x : v) { got.insert(text(x)); now.push_back({x, text(x)}); } if (got != want) c.fail("clauses", std::string("wrong clauses after ") + what + ": " + std::to_string(got.size()) + " of " + std::to_string(want.size()) + ": " + log.str()); cur = now; };
    ClauseAllocator killer;
    for (int d = 0; d < depth; d++) {
        if (d == 1) c.split();
        int op = c.choose(6);
        if (op < 2) { int len = op == 0 ? 1 + c.choose(4) : big, k = op == 0 ? 1 : 3; for (int i = 0; i < k; i++) { Clause* x = put(m, len, (next % 4) ? std::min(len, 5) : 0); want.insert(text(x)); cur.push_back({x, text(x)}); } log << " add " << k << "x" << len; }
        if (op == 2) { if (cur.empty()) throw mc::Prune(); size_t i = c.choose(std::min<size_t>(cur.size(), 3)); i = i == 2 ? cur.size() - 1 : i; if (cur[i].first->isDeleted()) throw mc::Prune(); want.erase(want.find(cur[i].second)); killer.deallocate(cur[i].first); log << " delete " << i; cur.erase(cur.begin() + i); }
        if (op == 3) { m.reallocate(); if (c.flag()) m.free_phase_out_pages(); log << " reallocate"; see("reallocation"); waves++; m.free_phase_out_pages(); }
        if (op == 4) { int k = 1 + c.choose(2); for (int i = 0; i < k; i++) { Clause* x = put(other, i ? big : 2, 1); want.insert(text(x)); } m.absorb(other); log << " absorb " << k; see("absorbing"); if (other.collect().size()) c.fail("clauses", "the absorbed memory still has clauses: " + log.str()); }
        if (op == 5) { if (cur.empty()) throw mc::Prune(); m.clear(); want.clear(); cur.clear(); log << " clear"; see("clearing"); }
        c.describe(log.str()); c.step(); c.count(K_OPS); for (auto& x : cur) if (text(x.first) != x.second) c.fail("clauses", "a clause changed in place: " + log.str());
    }
    see("the end"); c.outcome(mc::mixs(7, log.str()));
}
static const int NF = 10;
static void body(mc::Ctx& c) {
    bool T = c.opt->thorough(), S = c.opt->num("small", 0); int fam = c.choose(NF), only = c.opt->num("family", -1); if (only >= 0 && fam != only) throw mc::Prune(); c.count(K_F0 + fam);
    switch (fam) {
    case 0: heap(c, S ? 2 : 3, T ? 6 : S ? 4 : 5); break;
    case 1: heap(c, 5, T ? 4 : 3); break;
    case 2: { static const long B[] = {0, 252, 253, 254, 255, 256, 509, 510}; int k = c.choose(10); if (k < 8) stamp<uint8_t>(c, "uint8", B[k], T ? 6 : 5); else if (k == 8) stamp<bool>(c, "bool", 0, T ? 6 : 5); else stamp<uint32_t>(c, "uint32", 0, T ? 6 : 5); break; }
    case 3: bounded(c, T ? 11 : S ? 6 : 8); break;
    case 4: { int k = c.choose(3); if (k == 0) memory<Block<262144>>(c, T ? 7 : S ? 5 : 6, 4); else if (k == 1) memory<Block<300000>>(c, T ? 7 : S ? 5 : 6, 3); else memory<Block<16>>(c, S ? 3 : 4, 70000); break; }
    case 5: values(c); break;
    case 6: results(c, T ? 5 : S ? 3 : 4); break;
    case 7: problems(c, T ? 5 : S ? 3 : 4); break;
    case 8: clauses(c, T ? 7 : S ? 4 : 5, 40000); break;
    case 9: clauses(c, T ? 4 : S ? 2 : 3, 300000); break; // longer than a page
    }
}
int main(int argc, char** argv) {
    mc::Explorer e("C20"); e.counter_names = {"operations", "heap_minima_removed", "stamps_near_wraparound", "queue_overwrites", "pages_filled", "value_checks", "heap_small", "heap_larger", "stamps", "queues", "paged_memory", "literals_and_truth_values", "results", "problems", "clause_memory", "long_clauses"};
    return e.main(argc, argv, body);
}
