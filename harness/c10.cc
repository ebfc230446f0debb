// C10: random simulation: the conjectures are exactly the relations that hold on the simulated assignments.
#include "candy_common.h"
#include "gatefam.h"
#include "candy/gates/GateAnalyzer.h"
#include "candy/gates/GateProblem.h"
#include "candy/randomsimulation/RandomSimulator.h"
#include "candy/randomsimulation/ClauseOrder.h"
#include "candy/randomsimulation/Partition.h"
#include "candy/randomsimulation/Propagation.h"
#include "candy/randomsimulation/Randomization.h"
#include "candy/randomsimulation/Conjectures.h"
#include "candy/frontend/RandomSimulationFrontend.h"
using namespace cd;
enum { K_RUNS, K_GATES, K_EQ, K_BB, K_STEPS, K_FILTERED, K_REFUTED, K_FRONT, K_F0 };
typedef std::vector<uint8_t> Inputs; // value of input i at one simulated assignment
// the simulated inputs are chosen by the explorer: column j of a step is assignment col(j)
struct Chosen : Randomization {
    std::function<void(SimulationVectors&, const std::vector<Var>&)> f;
    void randomize(SimulationVectors& v, const std::vector<Var>& in) override { f(v, in); }
};
static const unsigned COLS = SimulationVector::VARSIMVECVARS;
static bool get(const SimulationVectors& s, Var v, unsigned col) { return s.getConst(v).vars[col / 64] >> (col % 64) & 1; }
static void put(SimulationVectors& s, Var v, unsigned col, bool b) { uint64_t m = 1ull << (col % 64); uint64_t& w = s.get(v).vars[col / 64]; w = b ? w | m : w & ~m; }
static bool bit_is_true() { // which value does a one in a simulation vector stand for?
    static int r = -1; if (r >= 0) return r; defaults();
    CNFProblem p; load(p, {{3}, {-3, 1}, {-3, 2}, {3, -1, -2}}); GateAnalyzer ga(p); ga.analyze(); BitparallelRandomSimulatorBuilder b(ga);
    auto ch = std::unique_ptr<Chosen>(new Chosen()); ch->f = [](SimulationVectors& s, const std::vector<Var>& in) { for (Var v : in) for (unsigned j = 0; j < COLS; j++) put(s, v, j, true); };
    b.withRandomizationStrategy(std::move(ch)); auto sim = b.build(); Conjectures c = sim->run(1); r = 1; for (auto& x : c.getBackbones()) if (x.getLit().sign()) r = 0; return r;
}
struct Ref { // independent evaluation of the recognised gates
    std::vector<Var> outs; std::vector<int> order; const GateProblem* gp; std::set<Var> ins; std::map<Var, int> enabled; bool filter;
    bool on(Var v) { const Gate& g = (*gp)[v]; if (!g.isDefined()) return true; auto it = enabled.find(v); if (it != enabled.end()) return it->second; enabled[v] = 0; bool r = !filter || g.hasNonMonotonicParent(); for (Lit l : g.inp) r = on(l.var()) && r; return enabled[v] = r; }
    Ref(const GateProblem* p, bool f) : gp(p), filter(f) { std::set<Var> seen; std::function<void(Var)> go = [&](Var v) { if (!seen.insert(v).second) return; const Gate& g = (*gp)[v]; if (!g.isDefined()) { ins.insert(v); return; } for (Lit l : g.inp) go(l.var()); if (on(v)) outs.push_back(v); };
        for (Cl* r : gp->roots) for (Lit l : *r) if ((*gp)[l.var()].isDefined()) go(l.var()); }
    void eval(std::vector<uint8_t>& val) { for (Var v : outs) { const Gate& g = (*gp)[v]; bool all = true; for (Cl* cl : g.fwd) { bool s = false; for (Lit l : *cl) if (l.var() != v) s |= (bool)val[l.var()] != l.sign(); all &= s; } val[v] = all != g.out.sign(); } }
};
static void judge(mc::Ctx& c, Ref& ref, const std::map<Var, std::vector<uint8_t>>& hist, const Conjectures& got, const char* when, size_t maxsize = 0, bool nobb = false) {
    std::set<int> bb; for (auto& b : got.getBackbones()) if (!bb.insert(dim(b.getLit())).second) c.fail("backbone-twice", std::string(when) + ": a backbone is reported twice");
    std::set<int> want; std::map<std::vector<uint8_t>, std::set<int>> cls; 
    for (Var v : ref.outs) { const auto& h = hist.at(v); bool t = false, f = false; for (uint8_t x : h) (x ? t : f) = true; if (!(t && f)) { want.insert(t ? v + 1 : -(v + 1)); continue; } std::vector<uint8_t> k = h; bool flip = h[0]; if (flip) for (auto& x : k) x = !x; cls[k].insert(flip ? -(v + 1) : v + 1); }
    if (nobb) want.clear();
    for (int l : bb) if (!want.count(l)) c.fail("backbone-wrong", std::string(when) + ": backbone " + std::to_string(l) + " is conjectured, but a simulated assignment refutes it (or it is no gate output)");
    for (int l : want) if (!bb.count(l)) c.fail("backbone-missing", std::string(when) + ": literal " + std::to_string(l) + " was true in all simulated assignments but is not conjectured");
    std::set<std::set<int>> eq, weq; size_t k = 0; for (auto& e : cls) if (e.second.size() > 1) { if (maxsize && e.second.size() > maxsize) { continue; } std::set<int> s = e.second; if (*s.begin() < 0 ? true : false) { } int first = *std::min_element(s.begin(), s.end(), [](int a, int b) { return std::abs(a) < std::abs(b); }); if (first < 0) { std::set<int> n; for (int l : s) n.insert(-l); s = n; } weq.insert(s); }
    for (auto& e : got.getEquivalences()) { k++; std::set<int> s; for (Lit l : e) s.insert(dim(l)); if (s.size() != e.size()) c.fail("equivalence-repeats", std::string(when) + ": a conjecture repeats a literal"); if (s.empty()) c.fail("equivalence-empty", std::string(when) + ": empty conjecture"); int first = *std::min_element(s.begin(), s.end(), [](int a, int b) { return std::abs(a) < std::abs(b); }); if (first < 0) { std::set<int> n; for (int l : s) n.insert(-l); s = n; } if (!eq.insert(s).second) c.fail("equivalence-twice", std::string(when) + ": an equivalence is reported twice"); }
    auto show = [](const std::set<int>& s) { std::string r; for (int l : s) r += std::to_string(l) + " "; return r; };
    for (auto& s : eq) if (!weq.count(s)) c.fail("equivalence-wrong", std::string(when) + ": conjectured class { " + show(s) + "} is not a class of literals that agree on the simulated assignments");
    for (auto& s : weq) if (!eq.count(s)) c.fail("equivalence-missing", std::string(when) + ": class { " + show(s) + "} agrees on all simulated assignments but is not conjectured");
    c.count(K_EQ, eq.size()); c.count(K_BB, bb.size()); (void)k;
}
static std::unique_ptr<Partition> partition(int k) { switch (k) { case 0: return createDefaultPartition(); case 1: return createDefaultPartition(createNullCompressionScheduleStrategy()); case 2: return createDefaultPartition(createLinearCompressionScheduleStrategy(1)); default: return createDefaultPartition(createLinearCompressionScheduleStrategy(2)); } }
// plan: for each step the input assignments it simulates; pattern 0 fills the columns cyclically, pattern p>0 puts the last assignment in one column only
struct Step { std::vector<uint32_t> as; int where; };
static void run(mc::Ctx& c, const ref::Cnf& f, int method, int tries, int order, int part, bool filter, const std::function<std::vector<Step>(int)>& plan, int fam) {
    defaults(); bool sense = bit_is_true(); RandomSimulationOptions::opt_rs_filterGatesByNonmono = filter;
    CNFProblem p; load(p, f); GateAnalyzer ga(p, (GateRecognitionMethod)method, tries, 0); ga.analyze(); std::unique_ptr<GateProblem> own(&ga.getResult());
    if (ga.getResult().getGateCount() == 0) { RandomSimulationOptions::opt_rs_filterGatesByNonmono = false; throw mc::Prune(); }
    Ref ref(own.get(), filter); std::vector<Var> ins(ref.ins.begin(), ref.ins.end()); if (ins.size() > 10) { RandomSimulationOptions::opt_rs_filterGatesByNonmono = false; throw mc::Prune(); }
    std::vector<Step> steps = plan((int)ins.size());
    { std::ostringstream o; o << "method " << method << " tries " << tries << " order " << order << " partition " << part << " filter " << filter << " steps"; for (auto& s : steps) { o << " ["; for (auto a : s.as) o << a << ","; o << "@" << s.where << "]"; } o << ": " << ref::show(f); c.describe(o.str()); }
    std::map<Var, std::vector<uint8_t>> hist; size_t at = 0; std::string err;
    BitparallelRandomSimulatorBuilder b(ga); auto ch = std::unique_ptr<Chosen>(new Chosen());
    ch->f = [&](SimulationVectors& s, const std::vector<Var>& in) {
        std::set<Var> got(in.begin(), in.end()); if (got != ref.ins) { err = "the variables chosen as inputs are not the inputs of the gate structure"; } if (got.size() != in.size()) err = "an input is listed twice";
        const Step& st = steps[at % steps.size()]; at++; std::vector<uint8_t> val(p.nVars(), 0);
        for (Var v : in) for (unsigned w = 0; w < COLS / 64; w++) s.get(v).vars[w] = 0;
        size_t m = st.as.size(); for (size_t a = 0; a < m; a++) { for (size_t i = 0; i < ins.size(); i++) val[ins[i]] = st.as[a] >> i & 1; ref.eval(val); for (Var v : ref.outs) hist[v].push_back(val[v]); }
        for (size_t i = 0; i < ins.size(); i++) { if (!got.count(ins[i])) continue;
            if (st.where == 0 || m < 2) { for (unsigned j = 0; j < COLS; j++) put(s, ins[i], j, (bool)(st.as[j % m] >> i & 1) == sense); }
            else { bool base = (bool)(st.as[0] >> i & 1) == sense; for (unsigned w = 0; w < COLS / 64; w++) s.get(ins[i]).vars[w] = base ? ~0ull : 0; for (size_t a = 1; a < m; a++) put(s, ins[i], (st.where + a - 1) % COLS, (bool)(st.as[a] >> i & 1) == sense); } }
    };
    b.withRandomizationStrategy(std::move(ch)); if (order) b.withClauseOrderStrategy(createRecursiveClauseOrder()); b.withPartitionStrategy(partition(part));
    auto sim = b.build(); RandomSimulationOptions::opt_rs_filterGatesByNonmono = false;
    for (size_t i = 0; i < steps.size(); i++) { Conjectures got = sim->run(1 + (i & 1) * (COLS - 1)); c.step(); c.count(K_STEPS); if (!err.empty()) c.fail("inputs", err); judge(c, ref, hist, got, ("after step " + std::to_string(i + 1)).c_str()); }
    { size_t before = at; sim->run(2 * COLS + 1); c.step(); if (at != before + 3) c.fail("rounds", "a run over 2*" + std::to_string(COLS) + "+1 rounds simulated " + std::to_string(at - before) + " steps"); Conjectures got = sim->run(1); judge(c, ref, hist, got, "after repeating the steps"); }
    c.count(K_RUNS); c.count(K_GATES, ref.outs.size()); c.count(K_F0 + fam); if (filter) c.count(K_FILTERED);
    uint64_t h = fam; for (auto& x : hist) for (uint8_t y : x.second) h = mc::mix(h, y); c.outcome(h); if (ref.outs.size() > 3) c.sample(ref::show(f).substr(0, 500));
}
// the front end with its own randomization: relations that hold for all inputs are never lost, size and backbone filters remove exactly what they should
static void front(mc::Ctx& c, const ref::Cnf& f, int method, int tries, int rounds, int size, bool nobb, int fam) {
    defaults(); CNFProblem p; load(p, f); GateAnalyzer ga(p, (GateRecognitionMethod)method, tries, 0); ga.analyze(); std::unique_ptr<GateProblem> own(&ga.getResult());
    if (ga.getResult().getGateCount() == 0) throw mc::Prune();
    Ref ref(own.get(), false); std::vector<Var> ins(ref.ins.begin(), ref.ins.end()); if (ins.size() > 4) throw mc::Prune();
    c.describe("front end, rounds " + std::to_string(rounds) + " method " + std::to_string(method) + " max size " + std::to_string(size) + (nobb ? " no backbones" : "") + ": " + ref::show(f));
    std::map<Var, std::vector<uint8_t>> hist; for (uint32_t a = 0; a < (1u << ins.size()); a++) { std::vector<uint8_t> val(p.nVars(), 0); for (size_t i = 0; i < ins.size(); i++) val[ins[i]] = a >> i & 1; ref.eval(val); for (Var v : ref.outs) hist[v].push_back(val[v]); }
    RandomSimulationOptions::opt_rs_nrounds = rounds; RandomSimulationOptions::opt_rs_filterConjBySize = size; RandomSimulationOptions::opt_rs_removeBackboneConj = nobb;
    auto got = performRandomSimulation(ga, -1); RandomSimulationOptions::opt_rs_filterConjBySize = 0; RandomSimulationOptions::opt_rs_removeBackboneConj = false; c.step(); 
    judge(c, ref, hist, *got, "front end", size, nobb); c.count(K_FRONT); c.count(K_F0 + fam);
}
static void deep(mc::Ctx& c, ref::Cnf& f, bool T) { // three gates over two or three inputs with arbitrary earlier operands, all below an xor / or root
    int k = 3 + (T ? c.choose(2) : 0); std::vector<int> outs; for (int i = 0; i < k; i++) { int o = 3 + i, lo = 1 + c.choose(o - 1), t = c.choose(3); int sg = c.choose(4); int hi = o - 1; if (lo == hi) hi = 1 + (hi % (o - 1)); if (lo == hi) throw mc::Prune(); int a = sg & 1 ? -lo : lo, b = sg & 2 ? -hi : hi; if (t == 0) ref::def_and(f, o, {a, b}); else if (t == 1) ref::def_and(f, -o, {a, b}); else ref::def_xor(f, o, a, b); outs.push_back(o); if (i == 1) c.split(); }
    int r = 3 + k; ref::Clause all(outs.begin(), outs.end()); all.push_back(-r); if (c.flag()) { f.push_back(all); for (int o : outs) f.push_back({-o, r}); } else { ref::def_xor(f, r, outs[0], outs[1]); ref::def_xor(f, r + 1, r, outs[2]); r++; } f.insert(f.begin(), ref::Clause{r});
}
static void body(mc::Ctx& c) {
    bool T = c.opt->thorough(); int fam = c.choose(9); int only = c.opt->num("family", -1); if (only >= 0 && fam != only) throw mc::Prune();
    static const int methods[] = {10, 0, 1, 11, 2}; ref::Cnf f; int method = 10, tries = 0, order = 0, part = 0; bool filter = false;
    auto cfg = [&] { int k = T ? c.choose(16) : fam == 5 || fam == 1 ? 1 + c.choose(2) * 3 : c.choose(5); order = T ? k & 1 : k & 1; part = T ? k >> 2 : k % 4; filter = T ? k >> 1 & 1 : k == 4; };
    auto all = [](int n) { std::vector<Step> s(1); s[0].where = 0; for (uint32_t a = 0; a < (1u << n); a++) s[0].as.push_back(a); return s; };
    if (fam <= 2) { // one step with every input assignment, then nothing but true relations may remain
        static const int src[3] = {1, 3, 4}; method = methods[c.choose(fam == 0 && !T ? 2 : 3)]; tries = 0; cfg(); f = gatefam::gen(c, src[fam], T, fam == 0 && !T ? 2 : 0); if (fam == 1 && !T && (ref::maxvar(f) & 0)) throw mc::Prune();
        run(c, f, method, tries, order, part, filter, all, fam);
    } else if (fam == 3) { // every input pattern sequence on fixed circuits with equal, opposite and constant outputs
        static const std::vector<ref::Cnf> circ = [] { std::vector<ref::Cnf> v; ref::Cnf g;
            ref::def_and(g, 3, {1, 2}); ref::def_and(g, -4, {1, 2}); ref::def_xor(g, 5, 3, 4); ref::def_and(g, 6, {3, -1}); ref::def_xor(g, 7, 5, 6); ref::def_and(g, 8, {7, 4}); g.push_back({8}); v.push_back(g); g.clear();
            ref::def_xor(g, 3, 1, 2); ref::def_xor(g, 4, 2, 1); ref::def_xor(g, 5, -1, 2); ref::def_and(g, 6, {3, 5}); ref::def_and(g, 7, {3, 4, 1}); ref::def_and(g, -8, {6, 7}); ref::def_xor(g, 9, 8, 7); g.push_back({9, 6}); v.push_back(g); g.clear();
            ref::def_and(g, 3, {1, 2}); ref::def_and(g, 4, {1, -2}); ref::def_and(g, 5, {-1, 2}); ref::def_and(g, 6, {-3, -4, -5}); ref::def_xor(g, 7, 6, 3); ref::def_xor(g, 8, 4, 5); ref::def_xor(g, 9, 7, 8); g.push_back({9}); v.push_back(g); return v; }();
        f = circ[c.choose(circ.size())]; cfg(); int n = 1 + c.choose(T ? 4 : 3); std::vector<std::vector<uint32_t>> sets; for (int i = 0; i < n; i++) { int m = 1 + c.choose(15); std::vector<uint32_t> s; for (uint32_t a = 0; a < 4; a++) if (m >> a & 1) s.push_back(a); sets.push_back(s); if (i == 0) c.split(); }
        run(c, f, method, tries, order, part, filter, [&](int) { std::vector<Step> s; for (auto& x : sets) s.push_back(Step{x, 0}); return s; }, fam);
    } else if (fam == 4) { // a single deviating assignment at any column
        ref::def_and(f, 4, {1, 2}); ref::def_and(f, 5, {1, 2, 3}); ref::def_xor(f, 6, 4, 5); ref::def_and(f, -7, {6, 1}); ref::def_xor(f, 8, 7, 5); f.push_back({8}); cfg(); int col = c.choose(T ? COLS : 160); c.split(); if (!T) col = col < 70 ? col : col < 140 ? (int)COLS - 1 - (col - 70) : 64 * (col - 138) - 1; uint32_t a = c.choose(8), b = c.choose(8); 
        run(c, f, method, tries, order, part, filter, [&](int) { return std::vector<Step>{Step{{a}, 0}, Step{{a, b}, col ? col : (int)COLS}}; }, fam);
    } else if (fam == 5) { deep(c, f, T); cfg(); run(c, f, method, tries, order, part, filter, all, fam); }
    else if (fam == 7) { // alternating randomization: the target changes whenever the number of calls is a multiple of the period
        int period = 1 + c.choose(5), calls = c.choose(24); c.split(); std::string seen, want; auto mk = [&](char ch) { auto r = std::unique_ptr<Chosen>(new Chosen()); r->f = [&seen, ch](SimulationVectors&, const std::vector<Var>&) { seen += ch; }; return r; };
        auto r = alternateRandomizations(mk('A'), mk('B'), period); SimulationVectors v; v.initialize(1); for (int i = 0; i < calls; i++) { r->randomize(v, {0}); want += (i / period) % 2 ? 'B' : 'A'; c.step(); }
        c.describe("alternating randomization, period " + std::to_string(period)); if (seen != want) c.fail("alternation", "delegated to " + seen + ", expected " + want); c.count(K_F0 + fam); c.outcome(mc::mixs(7, want)); }
    else if (fam == 8) { // the front end over few rounds (the solver's default), outputs that equal an input, edits of structured formulas
        int src = c.choose(T ? 3 : 2); static const int map[3] = {3, 2, 4}; static const int nr[3] = {2048, 4096, 6000}; f = gatefam::gen(c, map[src], false, 0); int r = nr[c.choose(T ? 3 : 2)]; front(c, f, methods[c.choose(T ? 3 : 1)], 0, r, 0, false, fam); }
    else { int src = c.choose(3); static const int map[3] = {1, 3, 4}; int k = c.choose(4); f = gatefam::gen(c, map[src], false, src == 0 ? 3 : 0); if (!T && src == 1 && c.choose(16)) throw mc::Prune(); front(c, f, 10, 0, k == 3 ? 40000 : 24000, k == 1 ? 2 : k == 2 ? 3 : 0, k == 2, fam); }
}
int main(int argc, char** argv) {
    mc::Explorer e("C10"); e.counter_names = {"simulations", "gates_simulated", "equivalence_classes", "backbones", "steps", "filtered_runs", "refuted", "front_end_runs", "definitions_in_context", "circuits", "truth_tables", "pattern_sequences", "single_deviations", "deep_circuits", "front_end", "alternation_sequences", "few_rounds"};
    return e.main(argc, argv, body);
}
