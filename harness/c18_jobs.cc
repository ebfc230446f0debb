// what the threads of c18.cc do; compiled with -fsanitize=thread like the library
#include "c18_jobs.h"
#include "candy_common.h"
#include "candy/core/DRATChecker.h"
#include "candy/core/CNFProblem.h"
#include <stdexcept>
#include "candy/gates/GateAnalyzer.h"
#include "candy/minimizer/Minimizer.h"
#include "candy/randomsimulation/RandomSimulator.h"
#include "candy/frontend/RandomSimulationFrontend.h"
#include "candy/frontend/SolverFactory.h"
extern "C" {
#include "candy/ipasir/ipasir.h"
}
using namespace cd;
namespace jobs {
int count() { return (int)kinds().size() + N_OTHER; }
std::string name(int j) { int k = (int)kinds().size(); static const char* o[] = {"gate analysis and random simulation", "minimisation", "reading a file", "ipasir, incrementally", "abstraction refinement", "proof check"}; return j < k ? kinds()[j].name : o[j - k]; }
int nprofiles() { return (int)profiles().size(); }
void configure(int p) {
    defaults(); profiles()[p].set(); RSILOptions::opt_rsil_minGateFraction = 0; RSILOptions::opt_rsil_mode = "unrestricted"; RSAROptions::opt_rsar_minGateCount = 1;
    for (int k = 0; k < (int)kinds().size(); k++) name(k); } // the tables of the harness exist
static void answer(Result& r, lbool a, CandySolverInterface* s, int n) { r.answer = a == l_True ? 10 : a == l_False ? 20 : 0; if (a == l_True) r.model = model(s, n); }
void write_proof(const std::vector<std::vector<int>>& f, const char* path) { defaults(); SolverOptions::opt_preprocessing = false; SolverOptions::opt_certified_file = path; CNFProblem p; load(p, f); { std::unique_ptr<CandySolverInterface> s(createSolver()); s->init(p); s->solve(); } SolverOptions::opt_certified_file = ""; }
Result run(int j, const std::vector<std::vector<int>>& f, int n, const char* in, const char* proof) {
    Result r; CNFProblem p; int k = (int)kinds().size();
    if (j < k) { load(p, f); const Kind& kd = kinds()[j]; std::unique_ptr<CandySolverInterface> s(createSolver(kd.stat, kd.lrb, kd.vsidsc, kd.rsil, kd.adv)); s->init(p); answer(r, s->solve(), s.get(), n); return r; }
    switch (j - k) {
    case GATES: { load(p, f); GateAnalyzer ga(p, (GateRecognitionMethod)10, 1, 0); ga.analyze(); std::unique_ptr<GateProblem> g(&ga.getResult()); r.answer = g->nGates(); if (g->nGates() > 0) { auto c = performRandomSimulation(ga, -1); r.extra = (int)c->getEquivalences().size() * 100 + (int)c->getBackbones().size(); } break; }
    case MINIMISE: { load(p, f); std::unique_ptr<CandySolverInterface> s(createSolver()); s->init(p); answer(r, s->solve(), s.get(), n); if (r.answer == 10) { CandySolverResult& m = s->getCandySolverResult(); Minimizer x(p, m); x.mimimizeModel(true, true, false); r.extra = (int)m.getMinimizedModelLiterals().size(); } break; }
    case READ: { try { p.readDimacsFromFile(in); r.answer = p.nVars(); for (Cl* c : p) for (Lit l : *c) r.extra = r.extra * 31 + dim(l); } catch (std::exception&) { r.answer = -1; } break; }
    case IPASIR: { void* s = ipasir_init(); for (size_t h = 0; h < 2; h++) { for (size_t i = h ? f.size() / 2 : 0; i < (h ? f.size() : f.size() / 2); i++) { for (int l : f[i]) ipasir_add(s, l); ipasir_add(s, 0); } if (!h) { ipasir_assume(s, 1); ipasir_solve(s); } } r.answer = ipasir_solve(s); if (r.answer == 10) { r.model.assign(n + 1, 0); for (int v = 1; v <= n; v++) { int x = ipasir_val(s, v); r.model[v] = x > 0 ? 1 : -1; } } ipasir_release(s); break; }
    case RSAR: { load(p, f); std::unique_ptr<CandySolverInterface> s(createRSARSolver(p)); if (s) { s->init(p); answer(r, s->solve(), s.get(), n); } else r.answer = -2; break; }
    case CHECK: { load(p, f); DRATChecker ck(p); r.answer = ck.check_proof(proof) ? 1 : 0; break; }
    }
    return r;
}
}
