// ref.h - reference semantics used as oracle: CNF as vector<vector<int>> in DIMACS notation,
// decided by complete truth tables (64 assignments per machine word).
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdlib>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include "mc.h"

namespace ref {
typedef std::vector<int> Clause;
typedef std::vector<Clause> Cnf;

inline int maxvar(const Cnf& f) { int n = 0; for (auto& c : f) for (int l : c) n = std::max(n, std::abs(l)); return n; }

inline std::string show(const Clause& c) { std::ostringstream o; for (int l : c) o << l << ' '; o << 0; return o.str(); }
inline std::string show(const Cnf& f) { std::ostringstream o; for (size_t i = 0; i < f.size(); i++) { if (i) o << " ; "; o << show(f[i]); } return o.str(); }
inline std::string dimacs(const Cnf& f, int n = -1) { std::ostringstream o; o << "p cnf " << (n < 0 ? maxvar(f) : n) << ' ' << f.size() << "\n"; for (auto& c : f) o << show(c) << "\n"; return o.str(); }

// truth table over n variables: bit i of the table belongs to the assignment whose bit v-1 is the value of variable v
struct Table {
    int n; std::vector<uint64_t> w;
    explicit Table(int n_, bool ones = true) : n(n_), w(n_ <= 6 ? 1 : (size_t)1 << (n_ - 6), ones ? ~0ull : 0ull) { trim(); }
    void trim() { if (n < 6) w[0] &= ((1ull << (1 << n)) - 1); }
    static uint64_t pat(int v) { static const uint64_t p[6] = {0xAAAAAAAAAAAAAAAAull, 0xCCCCCCCCCCCCCCCCull, 0xF0F0F0F0F0F0F0F0ull, 0xFF00FF00FF00FF00ull, 0xFFFF0000FFFF0000ull, 0xFFFFFFFF00000000ull}; return p[v]; }
    uint64_t word(int lit, size_t i) const { int v = std::abs(lit) - 1; uint64_t x = v < 6 ? pat(v) : (((i >> (v - 6)) & 1) ? ~0ull : 0ull); return lit > 0 ? x : ~x; }
    void and_clause(const Clause& c) { for (size_t i = 0; i < w.size(); i++) { uint64_t x = 0; for (int l : c) x |= word(l, i); w[i] &= x; } trim(); }
    void and_lit(int l) { for (size_t i = 0; i < w.size(); i++) w[i] &= word(l, i); trim(); }
    bool empty() const { for (uint64_t x : w) if (x) return false; return true; }
    bool implies(const Clause& c) const { for (size_t i = 0; i < w.size(); i++) { uint64_t x = 0; for (int l : c) x |= word(l, i); if (w[i] & ~x) return false; } return true; }
    bool get(uint64_t a) const { return (w[a >> 6] >> (a & 63)) & 1; }
    uint64_t count() const { uint64_t k = 0; for (uint64_t x : w) k += __builtin_popcountll(x); return k; }
    bool operator==(const Table& o) const { return n == o.n && w == o.w; }
};
inline Table table(const Cnf& f, int n) { Table t(n); for (auto& c : f) t.and_clause(c); return t; }
inline bool sat(const Cnf& f, int n = -1) { int m = std::max(n, maxvar(f)); return !table(f, m).empty(); }
inline bool sat_under(const Cnf& f, const Clause& assumptions) { int m = maxvar(f); for (int a : assumptions) m = std::max(m, std::abs(a)); Table t = table(f, m); for (int a : assumptions) t.and_lit(a); return !t.empty(); }
inline bool satisfied(const Clause& c, const std::vector<int>& val) { for (int l : c) { int v = std::abs(l); if (v < (int)val.size() && val[v] == (l > 0 ? 1 : -1)) return true; } return false; }

// all non-tautological clauses over n variables with min..max distinct literals, shortest first
inline std::vector<Clause> all_clauses(int n, int mn, int mx) {
    std::vector<Clause> out;
    for (int k = mn; k <= mx; k++) {
        std::vector<int> tern(n, 0);
        long tot = 1; for (int i = 0; i < n; i++) tot *= 3;
        for (long x = 0; x < tot; x++) { long y = x; Clause c; for (int v = 1; v <= n; v++) { int d = y % 3; y /= 3; if (d == 1) c.push_back(v); if (d == 2) c.push_back(-v); } if ((int)c.size() == k) out.push_back(c); }
    }
    return out;
}

// ---------- formula families: every member is reached by some sequence of choices ----------
// 'upto' clauses out of 'menu', strictly increasing indices (sets), chosen one after the other
// --small=1: the bounds of the memory-safety check (C16), one clause less and fewer edits
inline bool small(mc::Ctx& c) { static int r = -1; if (r < 0) r = c.opt->num("small", 0); return r; }
inline Cnf choose_set(mc::Ctx& c, const std::vector<Clause>& menu, int upto) {
    if (small(c) && upto > 1) upto--;
    Cnf f; int last = -1;
    for (int i = 0; i < upto; i++) {
        int left = (int)menu.size() - 1 - last;
        int k = c.choose(left + 1);           // 0 = stop
        if (k == 0) break;
        last += k; f.push_back(menu[last]);
        if (i == 1) c.split();
    }
    c.split();
    return f;
}
// k-colourability of every graph with n vertices
inline Cnf coloring(mc::Ctx& c, int n, int k, bool symbreak, bool amo) {
    Cnf f; std::vector<std::pair<int,int>> E;
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (c.flag()) E.push_back({i, j});
    c.split();
    auto v = [&](int x, int y) { return x * k + y + 1; };
    for (int i = 0; i < n; i++) { Clause d; for (int j = 0; j < k; j++) d.push_back(v(i, j)); f.push_back(d); }
    if (amo) for (int i = 0; i < n; i++) for (int a = 0; a < k; a++) for (int b = a + 1; b < k; b++) f.push_back({-v(i, a), -v(i, b)});
    for (auto& e : E) for (int a = 0; a < k; a++) f.push_back({-v(e.first, a), -v(e.second, a)});
    if (symbreak) f.push_back({v(0, 0)});
    return f;
}
// perfect matching of p pigeons into h holes for every bipartite graph
inline Cnf matching(mc::Ctx& c, int p, int h) {
    std::vector<std::vector<int>> e(p, std::vector<int>(h, 0));
    for (int i = 0; i < p; i++) for (int j = 0; j < h; j++) e[i][j] = c.flag();
    c.split();
    Cnf f; auto v = [&](int x, int y) { return x * h + y + 1; };
    for (int i = 0; i < p; i++) { Clause d; for (int j = 0; j < h; j++) if (e[i][j]) d.push_back(v(i, j)); f.push_back(d); }
    for (int j = 0; j < h; j++) for (int a = 0; a < p; a++) for (int b = a + 1; b < p; b++) if (e[a][j] && e[b][j]) f.push_back({-v(a, j), -v(b, j)});
    return f;
}
inline Cnf php(int p, int h) {
    Cnf f; auto v = [&](int x, int y) { return x * h + y + 1; };
    for (int i = 0; i < p; i++) { Clause d; for (int j = 0; j < h; j++) d.push_back(v(i, j)); f.push_back(d); }
    for (int j = 0; j < h; j++) for (int a = 0; a < p; a++) for (int b = a + 1; b < p; b++) f.push_back({-v(a, j), -v(b, j)});
    return f;
}
inline void add_xor(Cnf& f, std::vector<int> vs, bool rhs) {
    int k = vs.size();
    for (int m = 0; m < (1 << k); m++) if ((__builtin_popcount(m) & 1) != (rhs ? 1 : 0)) { Clause c; for (int i = 0; i < k; i++) c.push_back((m >> i & 1) ? -vs[i] : vs[i]); f.push_back(c); }
}
// a ring/ladder of parity constraints over n variables (each variable in exactly two of them): unsat iff the charges are odd
inline Cnf parity_ladder(mc::Ctx& c, int n, int width) {
    // n constraints, constraint i over variables i .. i+width-1 (cyclic), charge chosen
    Cnf f; std::vector<int> ch; for (int i = 0; i < n; i++) ch.push_back(c.flag());
    c.split();
    for (int i = 0; i < n; i++) { std::vector<int> vs; for (int j = 0; j < width; j++) vs.push_back((i + j * (j + 1) / 2) % n + 1); std::sort(vs.begin(), vs.end()); vs.erase(std::unique(vs.begin(), vs.end()), vs.end()); add_xor(f, vs, ch[i]); }
    return f;
}
inline Cnf renumber(const Cnf& f, int offset);
// every formula within a bounded edit distance of a base formula
inline void edit(mc::Ctx& c, Cnf& f, int n, int kinds /* 5 all, 4 without lengthening, 2 only units and removals */) {
    if (small(c)) kinds = std::min(kinds, 2);
    int kind = c.choose(kinds); if (kinds == 2 && kind == 1) kind = 3;
    if (f.empty()) throw mc::Prune();
    if (kind == 3) { int l = c.choose(2 * n); f.push_back({l % 2 ? -(l / 2 + 1) : l / 2 + 1}); return; }   // a unit clause
    int i = c.choose(f.size());
    if (kind == 0) { f.erase(f.begin() + i); return; }
    if (kind == 4) { int l = c.choose(2 * n); f[i].push_back(l % 2 ? -(l / 2 + 1) : l / 2 + 1); return; }
    if (f[i].empty()) throw mc::Prune();
    int j = c.choose(f[i].size());
    if (kind == 1) f[i][j] = -f[i][j]; else f[i].erase(f[i].begin() + j);
}
inline Cnf xor_ring(int n, int a, int b, int charge) { Cnf f; for (int i = 0; i < n; i++) add_xor(f, {i + 1, (i + a) % n + 1, (i + b) % n + 1}, charge >> i & 1); return f; }
inline void def_and(Cnf& f, int o, Clause in) { Clause b{o}; for (int l : in) { f.push_back({-o, l}); b.push_back(-l); } f.push_back(b); }
inline void def_xor(Cnf& f, int o, int a, int b) { f.push_back({-o, a, b}); f.push_back({-o, -a, -b}); f.push_back({o, -a, b}); f.push_back({o, a, -b}); }
// miter of (a&b)^c computed in two ways: unsatisfiable; 3 inputs
inline Cnf miter() { Cnf f; def_and(f, 4, {1, 2}); def_xor(f, 5, 4, 3); def_and(f, 6, {1, 3}); def_and(f, 7, {2, 3}); def_and(f, 8, {1, 2, 3}); // or of xors via inclusion
    def_and(f, 9, {4, -3}); def_and(f, 10, {-4, 3}); def_and(f, 11, {-9, -10}); def_xor(f, 12, 5, -11); f.push_back({12}); return f; }
inline Cnf base(int i) {
    switch (i) {
    case 0: return php(4, 3);
    case 1: return xor_ring(6, 1, 3, 1);
    case 2: return miter();
    case 3: { Cnf f; int k = 3, n = 4; auto v = [&](int x, int y) { return x * k + y + 1; }; // K4 with 3 colours
        for (int x = 0; x < n; x++) { Clause d; for (int y = 0; y < k; y++) d.push_back(v(x, y)); f.push_back(d); }
        for (int x = 0; x < n; x++) for (int z = x + 1; z < n; z++) for (int y = 0; y < k; y++) f.push_back({-v(x, y), -v(z, y)}); return f; }
    case 4: return {{5, 6, 1}, {7, 8}, {9, 10}, {-3, -5}, {-5, -7}, {-5, -9}, {-4, -6}, {-6, -8}, {-6, -10, 2}, {-8, -10}, {-1, 3, 7}, {-2, 4, 9}};
    case 5: { Cnf f; for (int i = 0; i < 16; i++) { Clause c; for (int b = 0; b < 4; b++) c.push_back((i >> b & 1) ? -(b + 1) : b + 1); c.push_back(i % 2 ? 5 : -6); f.push_back(c); } f.push_back({-5, 7}); f.push_back({6, 7}); f.push_back({-7, 8, 5}); f.push_back({-8, -5, 6}); return f; }
    case 6: { Cnf f; int a = 1; for (int i = 0; i < 5; i++) { def_and(f, a + 2, {a, -(a + 1)}); def_xor(f, a + 3, a + 2, a + 1); a += 2; } f.push_back({a + 1, a}); return f; } // and/xor chain
    default: { Cnf f = xor_ring(5, 1, 2, 3); Cnf g = renumber(php(3, 2), 5); f.insert(f.end(), g.begin(), g.end()); for (int i = 1; i <= 5; i++) f.push_back({-i, 5 + i, 11}); f.push_back({-11, 1, 2}); return f; }
    }
}
enum { NBASE = 8 };
inline Cnf renumber(const Cnf& f, int offset) { Cnf g = f; for (auto& c : g) for (int& l : c) l += l > 0 ? offset : -offset; return g; }
} // namespace ref
