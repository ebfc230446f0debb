// drat.h - independent forward DRAT checker (strict semantics: every line is judged against exactly the clauses present at that
// point; a deletion removes one matching copy; unit propagation starts from nothing each time).
#pragma once
#include "ref.h"
#include <map>
namespace drat {
struct Line { bool del; ref::Clause c; };
typedef std::vector<Line> Proof;
inline std::string show(const Proof& p) { std::ostringstream o; for (auto& l : p) o << (l.del ? "d " : "") << ref::show(l.c) << " | "; return o.str(); }
// strict parser: lines "[d ]lit* 0".  Returns false on anything else.
inline bool parse(const std::string& text, Proof& p, std::string& err) {
    std::istringstream is(text); std::string line;
    while (std::getline(is, line)) {
        std::istringstream ls(line); std::string w; Line l; l.del = false; bool first = true, closed = false;
        while (ls >> w) { if (closed) { err = "text after the terminating 0: " + line; return false; }
            if (first && w == "d") { l.del = true; first = false; continue; } first = false;
            char* e; long v = strtol(w.c_str(), &e, 10); if (*e) { err = "not a number: " + line; return false; } if (v == 0) closed = true; else l.c.push_back((int)v); }
        if (!closed) { if (line.empty()) continue; err = "unterminated line: " + line; return false; }
        p.push_back(l);
    }
    return true;
}
struct Checker {
    struct C { ref::Clause c; bool alive; };
    std::vector<C> cls; int n; std::vector<std::vector<int>> occ; std::map<ref::Clause, std::vector<int>> index; std::vector<int> units; std::vector<signed char> val; bool has_empty = false;
    static ref::Clause norm(ref::Clause c) { std::sort(c.begin(), c.end()); c.erase(std::unique(c.begin(), c.end()), c.end()); return c; }
    int ix(int l) const { return l > 0 ? 2 * l : -2 * l + 1; }
    void grow(int v) { if (v > n) { n = v; occ.resize(2 * n + 2); val.resize(n + 1, 0); } }
    Checker(const ref::Cnf& f) : n(0) { grow(std::max(1, ref::maxvar(f))); for (auto& c : f) add(c); }
    void add(const ref::Clause& raw) { ref::Clause c = norm(raw); for (int l : c) grow(std::abs(l)); int id = cls.size(); cls.push_back({c, true}); for (int l : c) occ[ix(l)].push_back(id); index[c].push_back(id); if (c.size() == 1) units.push_back(id); if (c.empty()) has_empty = true; }
    bool remove(const ref::Clause& raw) { auto it = index.find(norm(raw)); if (it == index.end()) return false; while (!it->second.empty()) { int id = it->second.back(); it->second.pop_back(); if (cls[id].alive) { cls[id].alive = false; return true; } } return false; }
    int value(int l) const { int v = val[std::abs(l)]; return l > 0 ? v : -v; }
    // propagate from the given literals; true = conflict
    bool conflict(const std::vector<int>& assume) {
        if (has_empty) return true;
        std::fill(val.begin(), val.end(), 0); std::vector<int> q;
        auto set = [&](int l) { if (value(l) < 0) return false; if (value(l) == 0) { val[std::abs(l)] = l > 0 ? 1 : -1; q.push_back(l); } return true; };
        for (int l : assume) if (!set(l)) return true;
        for (int id : units) if (cls[id].alive) if (!set(cls[id].c[0])) return true;
        for (size_t h = 0; h < q.size(); h++) for (int id : occ[ix(-q[h])]) if (cls[id].alive) { int un = 0, cnt = 0; bool sat = false; for (int l : cls[id].c) { int v = value(l); if (v > 0) { sat = true; break; } if (v == 0) { cnt++; un = l; } } if (sat) continue; if (cnt == 0) return true; if (cnt == 1 && !set(un)) return true; }
        return false;
    }
    bool rup(const ref::Clause& c) { std::vector<int> a; for (int l : c) a.push_back(-l); return conflict(a); }
    bool rat(const ref::Clause& c, int pivot) {
        for (int id : std::vector<int>(occ[ix(-pivot)])) if (cls[id].alive) { std::vector<int> a; for (int l : c) a.push_back(-l); for (int l : cls[id].c) if (l != -pivot) a.push_back(-l); if (!conflict(a)) return false; }
        return true;
    }
    // 0 accepted (empty clause derived), 1 some line is not justified (at), 2 no empty clause
    enum { ACCEPT, BADLINE, INCOMPLETE }; int at = -1; bool used_rat = false; int missing_deletes = 0;
    int check(const Proof& p, bool need_delete = false) {
        if (has_empty) return ACCEPT;
        for (size_t i = 0; i < p.size(); i++) {
            for (int l : p[i].c) grow(std::abs(l));
            if (p[i].del) { if (!remove(p[i].c)) { missing_deletes++; if (need_delete) { at = i; return BADLINE; } } continue; }
            if (!rup(p[i].c)) { bool ok = false; if (!p[i].c.empty()) ok = rat(p[i].c, p[i].c[0]); if (!ok) { at = i; return BADLINE; } used_rat = true; }
            if (p[i].c.empty()) return ACCEPT;
            add(p[i].c);
        }
        return INCOMPLETE;
    }
};
} // namespace drat
