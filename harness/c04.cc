// C04: whenever a run with proof logging ends UNSAT, the written file is a DRAT refutation of the input formula.
#include "candy_common.h"
#include "families.h"
#include "drat.h"
using namespace cd;
enum { K_UNSAT, K_SAT, K_LINES, K_DELS, K_RAT, K_F0 };
static void run(mc::Ctx& c, const ref::Cnf& f, int fam, const Kind& k, const Config& p) {
    defaults(); p.set();
    static std::string path; if (path.empty()) path = "/dev/shm/candy_c04_" + std::to_string(getpid());
    SolverOptions::opt_certified_file = path.c_str();
    c.describe(std::string("solver ") + k.name + " [" + p.name + "]: " + ref::show(f));
    lbool r = l_Undef; uint64_t confl;
    { std::unique_ptr<CandySolverInterface> s(build(k)); CNFProblem problem; load(problem, f); s->init(problem); r = s->solve(); c.step(3); confl = s->nConflicts(); }
    SolverOptions::opt_certified_file = "";
    std::ifstream in(path); std::stringstream ss; ss << in.rdbuf(); in.close(); unlink(path.c_str());
    c.count(K_F0 + fam);
    if (r != l_False) { c.count(K_SAT); 
        // a satisfiable formula must never come with a refutation
        if (r == l_True) { drat::Proof pr; std::string err; if (drat::parse(ss.str(), pr, err)) for (auto& l : pr) if (!l.del && l.c.empty()) c.fail("refutation-of-sat", "the log of a run that answered SAT contains the empty clause: " + drat::show(pr)); }
        return; }
    c.count(K_UNSAT);
    drat::Proof pr; std::string err;
    if (!drat::parse(ss.str(), pr, err)) c.fail("proof-syntax", "malformed proof: " + err + " in\n" + ss.str());
    drat::Checker ck(f); int res = ck.check(pr);
    c.count(K_LINES, pr.size()); for (auto& l : pr) if (l.del) c.count(K_DELS); if (ck.used_rat) c.count(K_RAT);
    c.outcome(mc::mixs(fam, ss.str()));
    if (res == drat::Checker::BADLINE) c.fail("proof-line", "line " + std::to_string(ck.at + 1) + " of the proof (" + ref::show(pr[ck.at].c) + ") is neither RUP nor RAT; proof: " + drat::show(pr).substr(0, 6000));
    if (res == drat::Checker::INCOMPLETE) c.fail("proof-incomplete", "the proof does not derive the empty clause: " + drat::show(pr).substr(0, 6000));
    if (confl > 2) c.sample(std::string("solver ") + k.name + " [" + p.name + "]: " + ref::show(f).substr(0, 500) + "  PROOF " + drat::show(pr).substr(0, 800));
}
static void body(mc::Ctx& c) {
    bool T = c.opt->thorough(); int f = c.choose(fam::NFAM);
    int only = c.opt->num("family", -1); if (only >= 0 && f != only) throw mc::Prune();
    if (f == fam::LONG) { // a few long proofs
        int w = c.choose(T ? 5 : 4); ref::Cnf g = w == 3 ? ref::php(7, 6) : w == 4 ? ref::xor_ring(14, 1, 5, 1) : w == 0 ? ref::php(5, 4) : w == 1 ? ref::php(6, 5) : ref::xor_ring(11, 1, 3, 1); const Kind& k = kinds()[c.choose(4)]; const Config& p = profiles()[c.choose(profiles().size())]; c.split(); run(c, g, f, k, p); return; }
    fam::Inst i = fam::gen(c, f, T ? 2 : 1);
    if (i.expected == 1) throw mc::Prune();
    if (i.expected < 0 && ref::sat(i.f, i.n)) { // keep some satisfiable ones
        if (f != fam::FULL4) throw mc::Prune(); }
    const Kind& k = kinds()[c.choose(4)]; const Config& p = profiles()[c.choose(profiles().size())];
    run(c, i.f, f, k, p);
}
int main(int argc, char** argv) {
    mc::Explorer e("C04"); e.counter_names = {"unsat_runs", "sat_runs", "proof_lines", "deletions", "proofs_using_rat"};
    for (auto n : fam::names) e.counter_names.push_back(n);
    return e.main(argc, argv, body);
}
