// gatefam.h - formulas with (near) gate structure, shared by the checks about gates
#pragma once
#include "mc.h"
#include "ref.h"
namespace gatefam {
enum { NFAM = 6 };
inline ref::Cnf gen(mc::Ctx& c, int fam, bool T, int cut = 0) {
    static const std::vector<ref::Clause> gmenu = [] { std::vector<ref::Clause> m; for (auto& x : ref::all_clauses(3, 1, 3)) if (std::abs(x[0]) == 1 && x.size() > 1) m.push_back(x); return m; }();
    ref::Cnf f;
    switch (fam) {
    case 0: f = ref::choose_set(c, ref::all_clauses(3, 1, 3), (T ? 5 : 4) - cut); break;
    case 1: { // every set of defining clauses for variable 1, used in both polarities (below an xor) or one (below a unit / an and)
        int ctx = c.choose(4); int k = (T ? 6 : 5) - cut; ref::Cnf d = ref::choose_set(c, gmenu, k);
        if (ctx == 0) f.push_back({1}); if (ctx == 1) { f.push_back({4}); ref::def_xor(f, 4, 1, 5); } if (ctx == 2) { f.push_back({4}); ref::def_and(f, 4, {-1, 5}); } if (ctx == 3) { f.push_back({1, 4}); f.push_back({-1, -4}); }
        f.insert(f.end(), d.begin(), d.end()); break; }
    case 2: { int b = c.choose(ref::NBASE); f = ref::base(b); int n = ref::maxvar(f); if (n > 13) throw mc::Prune(); ref::edit(c, f, n, 4); c.split(); break; }
    case 3: { // circuits: two gates over three inputs feeding a third, all types and polarities, rooted
        int n = 3; auto gate = [&](int o, int a, int b) { int t = c.choose(4); int sa = c.flag() ? -a : a; if (t == 0) ref::def_and(f, o, {sa, b}); else if (t == 1) ref::def_and(f, -o, {sa, b}); else if (t == 2) ref::def_xor(f, o, sa, b); else { f.push_back({-o, sa}); f.push_back({o, -sa}); } };
        gate(4, 1, 2); gate(5, 2, 3); c.split(); gate(6, 4, 5); int r = c.choose(4); f.insert(r & 1 ? f.end() : f.begin(), r & 2 ? ref::Clause{-6} : ref::Clause{6}); int x = c.choose(2 * 6 + 1); if (x) { x--; f.push_back({x % 2 ? -(x / 2 + 1) : x / 2 + 1, -4}); } (void)n; break; }
    case 4: { // full encodings of every function of two / three inputs, possibly with redundant or missing clauses
        int k = 2 + c.choose(2); int tt = c.choose(1 << (1 << k)); if (k == 3 && !T && tt % 3) throw mc::Prune(); for (int m = 0; m < (1 << k); m++) { ref::Clause x; for (int i = 0; i < k; i++) x.push_back((m >> i & 1) ? -(i + 2) : i + 2); x.push_back((tt >> m & 1) ? 1 : -1); f.push_back(x); }
        int del = c.choose(f.size() + 1); if (del) f.erase(f.begin() + del - 1); c.split(); int ctx = c.choose(2); int z = k + 2; if (ctx) { f.push_back({z}); ref::def_xor(f, z, 1, z + 1); } else f.push_back({1}); break; }
    case 5: { int m = c.choose(T ? 3 : 2) + 1; for (int i = 0; i < m; i++) { int k = c.choose(4); ref::Clause cl; for (int j = 0; j < k; j++) { static const int L[4] = {1, -1, 2, -2}; cl.push_back(L[c.choose(4)]); } f.push_back(cl); if (i == 0) c.split(); } break; }
    }
    return f;
}
} // namespace gatefam
