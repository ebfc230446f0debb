// C08: cnf2aig prints a well-formed and-inverter graph that is satisfiable exactly if the formula is.
#include "candy_common.h"
#include "gatefam.h"
#include "candy/gates/GateAnalyzer.h"
#include "candy/gates/AIGProblem.h"
#include <zlib.h>
#include <iterator>
// the tool itself; its main may end without a return statement, which is only harmless in a function called main
#pragma GCC push_options
#pragma GCC optimize("O0")
#define main cnf2aig_main
#include "candy/cnf2aig.cc"
#undef main
#pragma GCC pop_options
using namespace cd;
enum { K_RUNS, K_ANDS, K_SAT, K_UNSAT, K_TRIVIAL, K_F0 };
static const int methods[] = {0, 10, 11, 1, 2};
static std::string path;
static std::string convert(mc::Ctx& c, const ref::Cnf& f) {
    if (path.empty()) path = "/dev/shm/candy_c08_" + std::to_string(getpid());
    std::string t = ref::dimacs(f); { FILE* o = fopen(path.c_str(), "wb"); fwrite(t.data(), 1, t.size(), o); fclose(o); }
    char* buf = nullptr; size_t len = 0; FILE* keep = stdout; FILE* mem = open_memstream(&buf, &len); stdout = mem;
    std::string a0 = "cnf2aig", a1 = path; char* argv[] = {&a0[0], &a1[0], nullptr};
    cnf2aig_main(2, argv); stdout = keep; fclose(mem); std::string r(buf, len); free(buf); unlink(path.c_str()); c.step();
    return r;
}
static void run(mc::Ctx& c, const ref::Cnf& f, int method, int tries, int fam) {
    defaults(); GateRecognitionOptions::method = method; GateRecognitionOptions::tries = tries;
    c.describe("method " + std::to_string(method) + " tries " + std::to_string(tries) + ": " + ref::show(f));
    std::string text = convert(c, f); std::istringstream is(text); std::string line;
    auto bad = [&](const std::string& why) { c.fail("malformed", why + "\n" + text); };
    auto num = [&](std::istringstream& l, const char* what) { std::string w; long v = -1; if (!(l >> w)) bad(std::string("missing ") + what); char* e; v = strtol(w.c_str(), &e, 10); if (*e || v < 0) bad(std::string("not a number: ") + what); return v; };
    auto next = [&](const char* what) { if (!std::getline(is, line)) bad(std::string("missing line: ") + what); return std::istringstream(line); };
    auto done = [&](std::istringstream& l) { std::string w; if (l >> w) bad("text after the end of a line"); };
    std::istringstream hd = next("header"); std::string magic; hd >> magic; if (magic != "aag") bad("header");
    long M = num(hd, "M"), I = num(hd, "I"), Lc = num(hd, "L"), O = num(hd, "O"), A = num(hd, "A"); done(hd);
    if (Lc != 0 || O != 1) bad("expected no latch and one output"); if (M < I + A) bad("M is smaller than the number of inputs and gates");
    std::vector<int> kind(M + 1, 0); std::vector<long> in; 
    for (long i = 0; i < I; i++) { auto l = next("input"); long x = num(l, "input"); done(l); if (x < 2 || x % 2 || x / 2 > M) bad("input literal " + std::to_string(x) + " is not a positive variable within M"); if (kind[x / 2]) bad("input " + std::to_string(x) + " defined twice"); kind[x / 2] = 1; in.push_back(x / 2); }
    auto ol = next("output"); long out = num(ol, "output"); done(ol);
    struct And { long o, a, b; }; std::vector<And> g;
    for (long i = 0; i < A; i++) { auto l = next("gate"); And x; x.o = num(l, "gate output"); x.a = num(l, "gate input"); x.b = num(l, "gate input"); done(l); if (x.o < 2 || x.o % 2 || x.o / 2 > M) bad("gate output " + std::to_string(x.o) + " is not a positive variable within M"); if (kind[x.o / 2]) bad("variable of " + std::to_string(x.o) + " defined twice"); kind[x.o / 2] = 2; g.push_back(x); }
    if (std::getline(is, line) && !line.empty() && line[0] != 'c' && line[0] != 'i' && line[0] != 'o') bad("text after the last gate");
    auto used = [&](long l) { if (l / 2 > M) bad("literal " + std::to_string(l) + " exceeds M"); if (l >= 2 && !kind[l / 2]) bad("literal " + std::to_string(l) + " is neither an input nor a gate"); };
    used(out); for (auto& x : g) { used(x.a); used(x.b); }
    // order the gates (a cycle is an error), then simulate all input assignments, 64 at a time
    std::vector<long> order; { std::map<long, int> at; for (size_t i = 0; i < g.size(); i++) at[g[i].o / 2] = i; std::vector<int> st(g.size(), 0);
        std::function<void(int)> go = [&](int i) { if (st[i] == 2) return; if (st[i] == 1) bad("the graph has a cycle"); st[i] = 1; for (long l : {g[i].a, g[i].b}) { auto it = at.find(l / 2); if (it != at.end()) go(it->second); } st[i] = 2; order.push_back(i); };
        for (size_t i = 0; i < g.size(); i++) go(i); }
    if (I > 22) throw mc::Prune();
    static const uint64_t pat[6] = {0xaaaaaaaaaaaaaaaaull, 0xccccccccccccccccull, 0xf0f0f0f0f0f0f0f0ull, 0xff00ff00ff00ff00ull, 0xffff0000ffff0000ull, 0xffffffff00000000ull};
    std::vector<uint64_t> v(M + 1, 0); bool sat = false;
    for (uint64_t blk = 0; !sat && blk < (I > 6 ? 1ull << (I - 6) : 1ull); blk++) {
        for (long i = 0; i < I; i++) v[in[i]] = i < 6 ? pat[i] : (blk >> (i - 6) & 1) ? ~0ull : 0;
        auto val = [&](long l) { uint64_t x = l < 2 ? 0 : v[l / 2]; return l & 1 ? ~x : x; };
        for (long i : order) v[g[i].o / 2] = val(g[i].a) & val(g[i].b);
        if (val(out)) sat = true;
    }
    bool want = ref::sat(f);
    if (sat && !want) c.fail("sat-wrong", "the formula is unsatisfiable, but the graph's output can be true:\n" + text);
    if (!sat && want) c.fail("unsat-wrong", "the formula is satisfiable, but the graph's output is never true:\n" + text);
    c.count(K_RUNS); c.count(K_F0 + fam); c.count(K_ANDS, A); c.count(want ? K_SAT : K_UNSAT); if (M == 0) c.count(K_TRIVIAL);
    c.outcome(mc::mixs(fam, text)); if (A > 12) c.sample(ref::show(f).substr(0, 500) + " -> " + text.substr(0, 300));
}
static void body(mc::Ctx& c) {
    bool T = c.opt->thorough(); int fam = c.choose(gatefam::NFAM + 2);
    int only = c.opt->num("family", -1); if (only >= 0 && fam != only) throw mc::Prune();
    int m = c.choose(5), tries = c.choose(3); ref::Cnf f;
    if (fam < gatefam::NFAM) f = gatefam::gen(c, fam, T);
    else if (fam == gatefam::NFAM) { int b = c.choose(ref::NBASE); f = ref::base(b); if (ref::maxvar(f) > 13) throw mc::Prune(); int r = c.choose(2 * ref::maxvar(f) + 1); if (r) f.push_back({(r - 1) % 2 ? -((r - 1) / 2 + 1) : (r - 1) / 2 + 1}); int r2 = c.choose(2 * ref::maxvar(f) + 1); c.split(); if (r2) f.push_back({(r2 - 1) % 2 ? -((r2 - 1) / 2 + 1) : (r2 - 1) / 2 + 1}); }
    else { int k = c.choose(12) + 1; // wide gates: and / or / nested fan-in, either root polarity
        int t = c.choose(4); ref::Clause in; for (int i = 1; i <= k; i++) in.push_back(i % 3 ? i : -i); int o = k + 1; if (t & 1) ref::def_and(f, o, in); else ref::def_and(f, -o, in);
        if (t & 2) { ref::def_xor(f, o + 1, o, o + 2); f.push_back({o + 1}); } int r = c.choose(2); c.split(); f.push_back({r ? -o : o}); int extra = c.choose(2 * k + 1); if (extra) f.push_back({(extra - 1) % 2 ? -((extra - 1) / 2 + 1) : (extra - 1) / 2 + 1, o}); }
    run(c, f, methods[m], tries, fam);
}
int main(int argc, char** argv) {
    mc::Explorer e("C08"); e.counter_names = {"conversions", "and_gates", "satisfiable", "unsatisfiable", "constant_graphs", "clause_sets_3v", "definitions_in_context", "edit_distance_1", "circuits", "truth_tables", "layouts", "rooted_bases", "wide_gates"};
    return e.main(argc, argv, body);
}
