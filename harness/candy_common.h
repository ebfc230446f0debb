// candy_common.h - drives the real candy solver through its public interfaces.
#pragma once
#include "mc.h"
#include "ref.h"
#include "candy/core/CNFProblem.h"
#include "candy/core/CandySolverInterface.h"
#include "candy/core/CandySolverResult.h"
#include "candy/core/SolverTypes.h"
#include "candy/core/Trail.h"
#include "candy/core/clauses/ClauseDatabase.h"
#include "candy/frontend/CLIOptions.h"
#include "candy/frontend/CandyBuilder.h"
#include <memory>

namespace cd {
using namespace Candy;
inline Lit lit(int l) { return Lit(Var(std::abs(l) - 1), l < 0); }
inline int dim(Lit l) { return (l.var() + 1) * (l.sign() ? -1 : 1); }
inline void load(CNFProblem& p, const ref::Cnf& f) { for (auto& c : f) { Cl cl; for (int l : c) cl.push_back(lit(l)); p.readClause(cl); } }

// one point of the configuration space: how the solver is built and tuned
struct Config { const char* name; std::function<void()> set; };
inline void defaults() {
    SolverOptions::verb = 0; SolverOptions::mod = false;
    ClauseDatabaseOptions::opt_persistent_lbd = 3; ClauseDatabaseOptions::opt_recalculate_lbd = true; ClauseDatabaseOptions::opt_keep_median_lbd = false;
    ClauseDatabaseOptions::opt_first_reduce_db = 3000; ClauseDatabaseOptions::opt_inc_reduce_db = 1300;
    SolverOptions::opt_K = 0.8; SolverOptions::opt_R = 1.4; SolverOptions::opt_size_lbd_queue = 50; SolverOptions::opt_size_trail_queue = 5000;
    SolverOptions::opt_vsids_var_decay = 0.8; SolverOptions::opt_vsids_max_var_decay = 0.95; SolverOptions::opt_vsids_extra_bump = false;
    SolverOptions::opt_vsidsc_mult = 1; SolverOptions::opt_vsidsc_bump = true; SolverOptions::opt_vsidsc_scope = false; SolverOptions::opt_vsidsc_samplesize = 1.0;
    SolverOptions::opt_vsidsc_samplesize_decay = 1.0; SolverOptions::opt_vsidsc_dbsize_recalc = 0.0;
    SolverOptions::opt_lrb_step_size = 0.4; SolverOptions::opt_lrb_min_step_size = 0.06;
    SolverOptions::opt_sort_variables = false; SolverOptions::opt_preprocessing = true; SolverOptions::opt_inprocessing = 0;
    VariableEliminationOptions::opt_clause_lim = 20; VariableEliminationOptions::opt_use_elim = true; VariableEliminationOptions::opt_use_asymm = false;
    RandomSimulationOptions::opt_rs_nrounds = 2048;
    GateRecognitionOptions::method = 10; GateRecognitionOptions::tries = 0; GateRecognitionOptions::timeout = 0;
}
inline void restarts() { SolverOptions::opt_K = 100; SolverOptions::opt_size_lbd_queue = 1; }
inline void eager_reduce() { ClauseDatabaseOptions::opt_first_reduce_db = 1; ClauseDatabaseOptions::opt_inc_reduce_db = 1; ClauseDatabaseOptions::opt_persistent_lbd = 0; }
inline const std::vector<Config>& profiles() {
    static const std::vector<Config> p = {
        {"default", [] {}},
        {"no-pre", [] { SolverOptions::opt_preprocessing = false; }},
        {"no-pre,restart+reduce always", [] { SolverOptions::opt_preprocessing = false; restarts(); eager_reduce(); }},
        {"no-pre,inprocessing always", [] { SolverOptions::opt_preprocessing = false; restarts(); eager_reduce(); SolverOptions::opt_inprocessing = 1; }},
        {"pre,inprocessing always", [] { restarts(); eager_reduce(); SolverOptions::opt_inprocessing = 1; }},
        {"pre,no-elim,restart+reduce always,keep-median", [] { restarts(); eager_reduce(); VariableEliminationOptions::opt_use_elim = false; ClauseDatabaseOptions::opt_keep_median_lbd = true; }},
        {"no-pre,sort,restart,no-recalc-lbd,reduce", [] { SolverOptions::opt_preprocessing = false; SolverOptions::opt_sort_variables = true; restarts(); eager_reduce(); ClauseDatabaseOptions::opt_recalculate_lbd = false; }},
        {"cl-lim 3,inprocessing 2,decay .5,extra-bump", [] { VariableEliminationOptions::opt_clause_lim = 3; SolverOptions::opt_inprocessing = 2; restarts(); eager_reduce(); SolverOptions::opt_vsids_var_decay = 0.5; SolverOptions::opt_vsids_extra_bump = true; }},
        {"asymm,inprocessing always", [] { VariableEliminationOptions::opt_use_asymm = true; restarts(); eager_reduce(); SolverOptions::opt_inprocessing = 1; }}, // (as the seventh thread of the parallel mode)
    };
    return p;
}
struct Kind { const char* name; bool stat, lrb, vsidsc, rsil; int adv; const char* mode; };
inline const std::vector<Kind>& kinds() {
    static const std::vector<Kind> k = {
        {"vsids", 0, 0, 0, 0, 2, ""}, {"static vsids", 1, 0, 0, 0, 2, ""}, {"lrb", 0, 1, 0, 0, 2, ""}, {"static lrb", 1, 1, 0, 0, 2, ""},
        {"vsidsc", 0, 0, 1, 0, 2, ""}, {"static vsidsc", 1, 0, 1, 0, 2, ""},
        {"rsil unrestricted 3", 0, 0, 0, 1, 3, "unrestricted"}, {"rsil vanishing 2", 0, 0, 0, 1, 2, "vanishing"}, {"rsil budgeted 3", 0, 0, 0, 1, 3, "implicationbudgeted"},
        {"static rsil unrestricted 2", 1, 0, 0, 1, 2, "unrestricted"}, {"static rsil vanishing 3", 1, 0, 0, 1, 3, "vanishing"}, {"static rsil budgeted 2", 1, 0, 0, 1, 2, "implicationbudgeted"}};
    return k;
}
inline CandySolverInterface* build(const Kind& k) {
    if (k.rsil) RSILOptions::opt_rsil_mode = k.mode;
    return createSolver(k.stat, k.lrb, k.vsidsc, k.rsil, k.adv);
}
// value of every variable 1..n in the reported model: 1, -1 or 0 (not reported)
inline std::vector<int> model(CandySolverInterface* s, int n) {
    std::vector<int> v(n + 1, 0); CandySolverResult& r = s->getCandySolverResult();
    for (int i = 1; i <= n; i++) { bool p = r.satisfies(lit(i)), m = r.satisfies(lit(-i)); v[i] = p && m ? 2 : p ? 1 : m ? -1 : 0; }
    return v;
}
inline std::string showmodel(const std::vector<int>& v) { std::ostringstream o; for (size_t i = 1; i < v.size(); i++) o << (v[i] == 0 ? "?" : "") << (v[i] < 0 ? -(int)i : (int)i) << ' '; return o.str(); }
} // namespace cd
#ifdef __SANITIZE_ADDRESS__
// Very large blocks (the clause arena's pages) are mapped directly: shadowing them byte by byte makes every execution take
// milliseconds.  A freed block is unmapped, so that any later access to it is a fault.
#include <sys/mman.h>
extern "C" {
void* __real_malloc(size_t); void __real_free(void*);
static struct { void* p; size_t n; } mc_big[256];
void* __wrap_malloc(size_t n) {
    if (n < (size_t)1 << 19) return __real_malloc(n);
    for (auto& b : mc_big) if (!b.p) { void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) return nullptr; b.p = p; b.n = n; return p; }
    return __real_malloc(n);
}
void __wrap_free(void* p) { if (p) for (auto& b : mc_big) if (b.p == p) { munmap(p, b.n); b.p = nullptr; return; } __real_free(p); }
}
#endif
