// C05: the built-in proof checker accepts a file only if it is a DRAT refutation of the formula (so never for a satisfiable
// one), and accepts every refutation whose lines are justified.
#include "candy_common.h"
#include "candy/core/DRATChecker.h"
#include "families.h"
#include "drat.h"
using namespace cd;
enum { K_ACC, K_REJ, K_COMPLETE, K_SATF, K_RAT, K_BADLINE, K_F0 };
static std::string path;
static bool ask(mc::Ctx& c, const ref::Cnf& f, const std::string& text) {
    if (path.empty()) path = "/dev/shm/candy_c05_" + std::to_string(getpid());
    { FILE* o = fopen(path.c_str(), "wb"); fwrite(text.data(), 1, text.size(), o); fclose(o); }
    defaults(); SolverOptions::opt_certified_file = "";
    CNFProblem p; load(p, f); bool r;
    { DRATChecker ck(p); r = ck.check_proof(path.c_str()); }
    unlink(path.c_str()); c.step();
    return r;
}
// what any correct checker may accept at most: RUP over everything ever added, or RAT (any pivot) against the clauses still present
struct Upper {
    drat::Checker all, cur; 
    Upper(const ref::Cnf& f) : all(f), cur(f) {}
    bool line(const drat::Line& l) {
        for (int x : l.c) { all.grow(std::abs(x)); cur.grow(std::abs(x)); }
        if (l.del) { cur.remove(l.c); return true; }
        bool ok = all.rup(l.c);
        for (size_t i = 0; !ok && i < l.c.size(); i++) { bool r = true; int piv = l.c[i];
            for (int id : std::vector<int>(cur.occ[cur.ix(-piv)])) if (cur.cls[id].alive) { std::vector<int> a; for (int x : l.c) a.push_back(-x); for (int x : cur.cls[id].c) if (x != -piv) a.push_back(-x); if (!all.conflict(a)) { r = false; break; } }
            ok = r; }
        if (ok) { all.add(l.c); cur.add(l.c); }
        return ok;
    }
};
static std::string text(const drat::Proof& p, int style) {
    std::ostringstream o; 
    for (auto& l : p) { if (style == 1) o << "c comment 1 0\n"; if (l.del) o << (style == 2 ? "d  " : "d "); for (int x : l.c) o << x << (style == 2 ? "  " : style == 3 ? "\n" : " "); o << (style == 4 ? "0\r\n" : style == 5 ? "0 " : "0\n"); }
    return o.str();
}
static void judge(mc::Ctx& c, const ref::Cnf& f, const drat::Proof& p, int style, int fam, bool sat) {
    std::string t = text(p, style);
    c.describe("formula " + ref::show(f) + "  proof " + drat::show(p) + " style " + std::to_string(style));
    bool acc = ask(c, f, t);
    c.count(K_F0 + fam); c.count(acc ? K_ACC : K_REJ); if (sat) c.count(K_SATF);
    if (acc && sat) c.fail("accepts-sat", "the checker accepts a refutation of a satisfiable formula");
    drat::Checker strict(f); int s = strict.check(p);
    // a complete refutation in which nothing is deleted that a checker may ignore must be accepted
    if (s == drat::Checker::ACCEPT) { c.count(K_COMPLETE); if (strict.used_rat) c.count(K_RAT); if (!acc) c.fail(strict.used_rat ? "rejects-rat" : "rejects-rup", "the checker rejects a valid refutation"); }
    if (acc) { Upper u(f); bool hasempty = u.all.has_empty; for (size_t i = 0; !hasempty && i < p.size(); i++) { bool ok = u.line(p[i]); if (!ok && !u.all.conflict({})) c.fail("accepts-bad-line", "the checker accepts line " + std::to_string(i + 1) + ", which is neither RUP nor RAT"); if (!ok) break; hasempty = u.all.has_empty || u.all.conflict({}); }
    }
    c.outcome(mc::mix(mc::mix(acc, s), mc::mixs(1, t)));
}
static std::vector<ref::Clause> m2 = ref::all_clauses(2, 1, 2), m3;
static void grow_proof(mc::Ctx& c, const ref::Cnf& f, int len, const std::vector<ref::Clause>& adds, int fam, bool splitat1) {
    bool sat = ref::sat(f); drat::Proof p; Upper u(f); std::vector<ref::Clause> present = f;
    for (int i = 0; i < len; i++) {
        std::vector<ref::Clause> dels; for (auto& cl : present) if (cl.size() > 1 && drat::Checker::norm(cl).size() == cl.size() && std::find(dels.begin(), dels.end(), cl) == dels.end()) dels.push_back(cl);
        int k = c.choose(1 + adds.size() + dels.size() + 1);
        if (k == 0) break;                                    // end of file here
        k--; drat::Line l; l.del = false; 
        if (k < (int)adds.size()) l.c = adds[k]; else if (k < (int)(adds.size() + dels.size())) { l.del = true; l.c = dels[k - adds.size()]; std::reverse(l.c.begin(), l.c.end()); } else { p.push_back({false, {}}); break; }
        p.push_back(l); if (i == 0 && splitat1) c.split();
        if (l.del) { auto it = std::find(present.begin(), present.end(), ref::Clause(l.c.rbegin(), l.c.rend())); if (it != present.end()) present.erase(it); }
        if (!u.line(l)) { p.push_back({false, {}}); c.count(K_BADLINE); break; }   // unjustified line: followed by the empty clause it must still be rejected
        if (!l.del) present.push_back(l.c);
        if (i == len - 1) p.push_back({false, {}});
    }
    if (!splitat1) c.split();
    judge(c, f, p, 0, fam, sat);
}
static void body(mc::Ctx& c) {
    bool T = c.opt->thorough(); int fam = c.choose(6);
    int only = c.opt->num("family", -1); if (only >= 0 && fam != only) throw mc::Prune();
    switch (fam) {
    case 0: { ref::Cnf f; for (auto& cl : m2) if (c.flag()) f.push_back(cl); c.split(); grow_proof(c, f, T ? 5 : 4, m2, fam, false); break; } // every formula over 2 variables, every proof
    case 1: { ref::Cnf f = ref::choose_set(c, m3, T ? 4 : 3); grow_proof(c, f, T ? 3 : 2, m3, fam, false); break; }
    case 2: { // refutations of structured formulas with one line tampered with or removed
        int b = c.choose(4); ref::Cnf f = b == 0 ? ref::php(3, 2) : b == 1 ? ref::base(3) : b == 2 ? ref::miter() : ref::base(0);
        const Kind& k = kinds()[c.choose(4)]; const Config& pr = profiles()[c.choose(profiles().size())]; c.split();
        defaults(); pr.set(); std::string pf = "/dev/shm/candy_c05p_" + std::to_string(getpid()); SolverOptions::opt_certified_file = pf.c_str();
        { std::unique_ptr<CandySolverInterface> s(build(k)); CNFProblem problem; load(problem, f); s->init(problem); s->solve(); }
        SolverOptions::opt_certified_file = ""; std::ifstream in(pf); std::stringstream ss; ss << in.rdbuf(); unlink(pf.c_str());
        drat::Proof p; std::string err; if (!drat::parse(ss.str(), p, err)) throw mc::Prune();
        int kind = c.choose(5); bool sat = false;
        if (kind == 1) { int i = c.choose(p.size()); p.erase(p.begin() + i); }
        if (kind == 2) { int i = c.choose(p.size()); if (p[i].c.empty()) throw mc::Prune(); int j = c.choose(p[i].c.size()); p[i].c[j] = -p[i].c[j]; }
        if (kind == 3) { int i = c.choose(p.size()); if (p[i].c.empty()) throw mc::Prune(); int j = c.choose(p[i].c.size()); p[i].c.erase(p[i].c.begin() + j); }
        if (kind == 4) { int i = c.choose(f.size()); f.erase(f.begin() + i); sat = ref::sat(f); }
        judge(c, f, p, 0, fam, sat); break; }
    case 3: { // layout of the proof file
        int b = c.choose(3); ref::Cnf f = b == 0 ? ref::Cnf{{1, 2}, {-1, 2}, {1, -2}, {-1, -2}} : b == 1 ? ref::php(3, 2) : ref::Cnf{{1, 2, 3}, {-1}, {-2}, {-3, 2, 1}};
        drat::Proof p; if (b == 0) p = {{false, {1}}, {true, {1, 2}}, {false, {}}}; if (b == 1) p = {{false, {-1, -4}}, {false, {-1}}, {true, {-1, -4}}, {false, {1}}, {false, {}}}; if (b == 2) p = {{false, {3}}, {false, {-3, 3}}, {false, {}}};
        int style = c.choose(6); int cut = c.choose(p.size() + 1); if (cut) p.erase(p.begin() + cut - 1); c.split(); judge(c, f, p, style, fam, false); break; }
    case 4: { // variables of the proof that the formula does not contain
        ref::Cnf f; for (auto& cl : m2) if (c.flag()) f.push_back(cl); if (f.empty()) throw mc::Prune(); int n = ref::maxvar(f);
        std::vector<ref::Clause> adds; int far = n + 1 + (c.flag() ? 40 : 0); for (int s = 0; s < 2; s++) { int x = s ? -far : far; adds.push_back({x}); adds.push_back({x, 1}); adds.push_back({x, -1}); adds.push_back({1, x}); adds.push_back({x, -1, -2}); } adds.push_back({1}); adds.push_back({-1});
        c.split(); grow_proof(c, f, T ? 3 : 2, adds, fam, false); break; }
    case 5: { // repeated and complementary literals within a line, deletion of copies
        ref::Cnf f; static const std::vector<ref::Clause> m = {{1, 2}, {-1, 2}, {1, -2}, {-1, -2}, {1, 2, 3}, {-3, 1}}; for (auto& cl : m) if (c.flag()) { f.push_back(cl); if (cl.size() == 2 && cl[0] == 1 && c.flag()) f.push_back(cl); }
        static const std::vector<ref::Clause> adds = {{1, 1}, {2, 1, 2}, {1, -1}, {1, 2, -1, 3}, {1}, {2, 2, 2}, {-1, -1, -2}, {1, 2}};
        c.split(); grow_proof(c, f, T ? 4 : 3, adds, fam, false); break; }
    }
}
int main(int argc, char** argv) {
    m3 = ref::all_clauses(3, 1, 3);
    mc::Explorer e("C05"); e.counter_names = {"accepted", "rejected", "valid_refutations", "satisfiable_formulas", "valid_using_rat", "proofs_with_unjustified_line", "all_2v", "small_3v", "tampered", "layout", "foreign_variables", "repeated_literals"};
    return e.main(argc, argv, body);
}
