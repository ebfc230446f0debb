// families.h - the formula families that the checks enumerate.  level 0: small (expensive per-formula checks), 1: quick, 2: thorough
#pragma once
#include "ref.h"
namespace fam {
struct Inst { ref::Cnf f; int n; int expected; /* -1 unknown, 0 unsat, 1 sat */ };
enum { CLAUSES3, COLOURING, MATCHING, PARITY, FULL4, PIGEON, DEEP, LAYOUT, LONG, EDIT, CLAUSES4, NFAM };
static const char* const names[] = {"clause_sets_3v", "graph_colourings", "bipartite_matchings", "parity_ladders", "full_width_4v", "pigeonholes", "deep_levels", "layouts", "long_searches", "edit_distance", "clause_sets_4v"};
inline Inst gen(mc::Ctx& c, int fam, int level) {
    static const std::vector<ref::Clause> menu3 = ref::all_clauses(3, 1, 3), menu4 = ref::all_clauses(4, 4, 4), menu4s = ref::all_clauses(4, 2, 3);
    bool T = level == 2, S = level == 0; (void)S;
    ref::Cnf f; int n = 0, expected = -1;
    switch (fam) {
    case 0: f = ref::choose_set(c, menu3, T ? 6 : S ? 4 : 5); n = 3; break;                     // all small clause sets
    case 1: { int k = 2 + c.choose(2); bool amo = c.flag(); f = ref::coloring(c, T ? 6 : S ? 4 : 5, k, true, amo); n = (T ? 6 : S ? 4 : 5) * k; break; }
    case 2: { int p = T ? 4 : 3; f = ref::matching(c, p, 4); n = 4 * p; break; }
    case 3: f = ref::parity_ladder(c, T ? 9 : S ? 6 : 7, 3 + c.choose(2)); n = T ? 9 : S ? 6 : 7; break;
    case 4: { // all 16 full-width clauses over 4 variables, up to 3 (quick 2) missing
        std::set<int> miss; int k = c.choose(T ? 4 : 3); for (int i = 0, last = -1; i < k; i++) { int left = 15 - last; if (left <= 0) throw mc::Prune(); last += 1 + c.choose(left); miss.insert(last); }
        c.split(); for (int i = 0; i < 16; i++) if (!miss.count(i)) f.push_back(menu4[i]); n = 4; break; }
    case 5: { // pigeon hole formulas and each of their single-clause deletions
        int p = 4 + c.choose(T ? 4 : 3); f = ref::php(p, p - 1); n = p * (p - 1);
        int d = c.choose((int)f.size() + 1); c.split(); expected = d == 0 ? 0 : 1; if (d) f.erase(f.begin() + d - 1); break; }
    case 6: { // many decision levels below the interesting part: free variables come first
        int pads[] = {1, 62, 63, 64, 65, 70, 130}; int pad = pads[c.choose(7)];
        int style = c.choose(5); ref::Cnf core;
        int sub = c.choose(T ? 3 : 2);
        if (sub == 0) { int d = c.choose(17); for (int i = 0; i < 16; i++) if (i + 1 != d) core.push_back(menu4[i]); expected = d ? 1 : 0; }
        else if (sub == 1) { core = ref::php(4, 3); int d = c.choose((int)core.size() + 1); expected = d ? 1 : 0; if (d) core.erase(core.begin() + d - 1); }
        else { int ch = c.choose(32); for (int i = 0; i < 5; i++) ref::add_xor(core, {i + 1, (i + 1) % 5 + 1, (i + 3) % 5 + 1}, ch >> i & 1); expected = ref::sat(core, 5); }
        c.split();
        f = ref::renumber(core, pad); n = pad + ref::maxvar(core);
        if (style == 1) for (int i = 1; i < pad; i++) f.push_back({-i, i + 1});                                   // implication chain
        if (style == 2) for (int i = 1; i + 2 <= pad; i += 1) f.push_back({i, i + 1, i + 2});
        if (style >= 3) for (size_t i = 0; i < core.size(); i++) { f[i].push_back((int)(i % pad) + 1); f[i].push_back(pad - (int)(i % pad)); } // clause i is active only below two decisions
        if (style == 3) expected = 1;
        if (style == 4) { int z = n + 1, w = n + 2; n += 2; for (int i = 1; i <= pad; i++) f.push_back({-i, -z}); f.push_back({z, w}); f.push_back({z, -w}); }
        break; }
    case 7: { // layout: repeated literals, tautologies, repeated and empty clauses
        int m = c.choose(T ? 3 : 2) + 1; for (int i = 0; i < m; i++) { int k = c.choose(T ? 4 : 4); ref::Clause cl; for (int j = 0; j < k; j++) { static const int L[4] = {1, -1, 2, -2}; cl.push_back(L[c.choose(4)]); } f.push_back(cl); if (i == 0) c.split(); }
        n = 2; break; }
    case 8: { // larger single instances: long searches (activity rescaling, many restarts and reductions)
        int which = c.choose(T ? 8 : S ? 3 : 6);
        int base[] = {7, 6, 8, 9}; 
        if (which < 2) { int p = base[which]; f = ref::php(p, p - 1); n = p * (p - 1); expected = 0; }
        else if (which == 2) { n = 16; for (int i = 0; i < n; i++) ref::add_xor(f, {i + 1, (i + 1) % n + 1, (i + 5) % n + 1}, i == 3); expected = -1; }
        else if (which == 3) { f = ref::php(8, 7); n = 56; expected = 0; }
        else if (which == 4) { f = ref::php(8, 7); f.pop_back(); n = 56; expected = 1; }
        else if (which == 6) { f = ref::php(9, 8); n = 72; expected = 0; }
        else if (which == 7) { n = 20; for (int i = 0; i < n; i++) ref::add_xor(f, {i + 1, (i + 3) % n + 1, (i + 8) % n + 1}, i == 4); }
        else { n = 18; for (int i = 0; i < n; i++) ref::add_xor(f, {i + 1, (i + 1) % n + 1, (i + 7) % n + 1}, (i % 5) == 0); expected = -1; }
        break; }
    }
    if (fam == 9) { // every formula within edit distance 2 of a structured base
        f = ref::base(c.choose(ref::NBASE)); n = ref::maxvar(f); if (S || c.flag()) { ref::edit(c, f, n, 5); c.split(); } else { ref::edit(c, f, n, T ? 5 : 4); c.split(); ref::edit(c, f, n, T ? 4 : 2); } }
    if (fam == 10) { f = ref::choose_set(c, menu4s, T ? 5 : S ? 3 : 4); n = 4; }
    return {f, n, expected};
}
} // namespace fam
