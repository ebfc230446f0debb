// C13: the candy program under every schedule of its solver threads and every moment of interruption.
// The real Main.cc and the whole library are compiled with -fsanitize=thread and run under the controlled scheduler of ctlsched.h,
// one forked process per schedule.
#include "mc.h"
#include "ref.h"
#include "families.h"
#include "drat.h"
#include "ctlsched.h"
int candy_main(int argc, char** argv);
enum { K_SAT, K_UNSAT, K_INDET, K_KILLED, K_QUIT, K_SWITCH, K_PREEMPT, K_SIG, K_JUMP, K_MODEL, K_POINTS, K_RACY, K_LATE, K_T3, K_T7, K_T16, K_PROOFS, K_C0 };
struct Conf { const char* name; const char* args; int formula; int preempt, preempt_thorough; bool signal; int signum; bool jump; bool rr = false; };
static ref::Cnf menu(int i) { switch (i) { case 0: return {{1, 2}, {-1, 3}, {-2, -3}}; case 1: return {{1}, {-1, 2}, {-2}}; case 2: return ref::php(4, 3); case 3: { ref::Cnf f = ref::php(4, 3); f.erase(f.begin()); return f; } case 4: return ref::base(2); case 5: { ref::Cnf f = ref::base(2); f.pop_back(); return f; } case 6: return {{1}, {-2}, {1, 2, 3}}; case 8: return ref::php(6, 5); case 10: return ref::php(7, 6); case 9: { ref::Cnf f = ref::php(6, 5); f.erase(f.begin()); return f; } default: return {{}}; } }
static const Conf confs[] = {
    // name, arguments, formula, bound quick / thorough, signal (once, anywhere), which, clock jump, default schedule in turns
    {"2 threads, sat", "-threads=2 -model", 0, 2, 3, false, SIGINT, false},
    {"2 threads, unsat", "-threads=2 -model", 1, 2, 3, false, SIGINT, false},
    {"2 threads, unsat by search", "-threads=2 -model -verb=0", 2, 2, 3, false, SIGINT, false},
    {"2 threads, sat by search", "-threads=2 -model", 3, 2, 3, false, SIGINT, false},
    {"3 threads, sat", "-threads=3 -model", 5, 2, 3, false, SIGINT, false},
    {"3 threads, unsat", "-threads=3 -model", 4, 2, 3, false, SIGINT, false},
    {"2 threads, model test", "-threads=2 -test-model", 0, 2, 3, false, SIGINT, false},
    {"2 threads, minimised", "-threads=2 -minimize -model", 5, 2, 3, false, SIGINT, false},
    {"2 threads, units only", "-threads=2 -model", 6, 2, 3, false, SIGINT, false},
    {"2 threads, empty clause", "-threads=2 -model", 7, 2, 3, false, SIGINT, false},
    {"7 threads in turns, sat", "-threads=7 -model -rs-rounds=2048", 9, 1, 2, false, SIGINT, false, true},
    {"7 threads in turns, unsat", "-threads=7 -model -rs-rounds=2048", 8, 0, 1, false, SIGINT, false, true},
    {"16 threads in turns, unsat", "-threads=16 -model -rs-rounds=2048", 10, 0, 0, false, SIGINT, false, true},
    {"16 threads in turns, minimised", "-threads=16 -model -minimize -rs-rounds=2048", 9, 0, 1, false, SIGINT, false, true},
    {"3 threads in turns, sat", "-threads=3 -model", 3, 1, 2, false, SIGINT, false, true},
    {"2 threads, proof", "-threads=2 -certified-output=proof", 2, 2, 3, false, SIGINT, false},
    {"2 threads in turns, proof", "-threads=2 -certified-output=proof", 8, 1, 2, false, SIGINT, false, true},
    {"3 threads in turns, proof test", "-threads=3 -test-proof", 2, 1, 2, false, SIGINT, false, true},
    {"16 threads in turns, proof", "-threads=16 -certified-output=proof -rs-rounds=2048", 8, 0, 0, false, SIGINT, false, true},
    {"1 thread, sat, SIGINT", "-model", 3, 0, 0, true, SIGINT, false},
    {"1 thread, unsat, SIGINT", "-model", 2, 0, 0, true, SIGINT, false},
    {"1 thread, lrb, SIGXCPU", "-use-lrb -model", 2, 0, 0, true, SIGXCPU, false},
    {"1 thread, rsar, SIGINT", "-rsar-enable -rsar-min-gatecount=1 -model", 3, 0, 0, true, SIGINT, false},
    {"1 thread, inprocessing, SIGINT", "-inprocessing=1 -model -static-propagate", 3, 0, 0, true, SIGINT, false},
    {"1 thread, rsil, SIGINT", "-rsil-enable -rsil-min-gate-frac=0 -rs-rounds=2048 -model", 4, 0, 0, true, SIGINT, false},
    {"2 threads, proof, SIGINT", "-threads=2 -certified-output=proof", 2, 1, 2, true, SIGINT, false},
    {"2 threads, sat, SIGINT", "-threads=2 -model", 0, 1, 2, true, SIGINT, false},
    {"2 threads, unsat, SIGINT", "-threads=2 -model", 2, 1, 2, true, SIGINT, false},
    {"2 threads, minimised, SIGINT", "-threads=2 -model -minimize", 5, 1, 2, true, SIGINT, false},
    {"3 threads in turns, SIGINT", "-threads=3 -model", 3, 0, 1, true, SIGINT, false, true},
    {"1 thread, time limit", "-time-limit=10 -model", 3, 0, 0, false, SIGINT, true},
    {"1 thread, unsat, time limit", "-time-limit=10 -model -use-lrb", 2, 0, 0, false, SIGINT, true},
    {"2 threads, time limit", "-threads=2 -time-limit=10 -model", 5, 1, 2, false, SIGINT, true},
    {"2 threads, unsat, time limit", "-threads=2 -time-limit=10 -model", 2, 1, 2, false, SIGINT, true},
    {"2 threads, memory limit", "-threads=2 -memory-limit=1 -model", 2, 1, 2, false, SIGINT, false},
    {"3 threads in turns, memory limit", "-threads=3 -memory-limit=1 -model", 3, 1, 2, false, SIGINT, false, true},
};
enum { NCONF = sizeof(confs) / sizeof(confs[0]) };
static cs::Sites* sites; static cs::Shm* shm; static std::streambuf* cout_buf; static std::string dir; static int memfd = -1;
static void rmproofs() { for (const char* b : {"/proof", "/proof.drat"}) { unlink((dir + b).c_str()); for (int i = 0; i < 16; i++) unlink((dir + b + "." + std::to_string(i)).c_str()); } }
static void rmscratch() { unlink((dir + "/in").c_str()); rmproofs(); rmdir(dir.c_str()); }
static void setup() {
    if (shm) return; shm = (cs::Shm*)mmap(nullptr, sizeof(cs::Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); dir = "/dev/shm/candy_c13_" + std::to_string(getpid()); mkdir(dir.c_str(), 0700); if (chdir(dir.c_str())) abort(); atexit(rmscratch); memfd = memfd_create("out", 0); }
struct Run { int status = -1, sig = 0; std::string out; };
static Run execute(const Conf& k, int preempt, const std::string& dimacs, const std::vector<int>& prefix) {
    setup(); rmproofs(); int fd = open((dir + "/in").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (write(fd, dimacs.data(), dimacs.size()) < 0) abort(); close(fd); if (ftruncate(memfd, 0)) abort(); lseek(memfd, 0, SEEK_SET);
    shm->plen = (int)std::min<size_t>(prefix.size(), cs::MAXC); for (int i = 0; i < shm->plen; i++) shm->prefix[i] = prefix[i];
    pid_t p = fork();
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL); alarm(40); dup2(memfd, 1); int nul = open("/dev/null", O_WRONLY); if (!getenv("MC_STDERR")) dup2(nul, 2); std::cout.rdbuf(cout_buf); std::cout.clear(); struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl); signal(SIGINT, SIG_DFL); signal(SIGXCPU, SIG_DFL);
        std::vector<std::string> a = {"candy"}; std::istringstream is(k.args); std::string t; while (is >> t) a.push_back(t); a.push_back(dir + "/in"); std::vector<char*> av; for (auto& s : a) av.push_back((char*)s.c_str()); av.push_back(nullptr);
        cs::Config cf; cf.preemptions = preempt; cf.signal = k.signal; cf.signum = k.signum; cf.timejump = k.jump; cf.rr = k.rr; cs::start(cf, shm, sites); int r = candy_main((int)av.size() - 1, av.data()); cs::finish(cs::RETURNED, r);
    }
    Run r; int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) { } if (WIFSIGNALED(st)) r.sig = WTERMSIG(st); else r.status = WEXITSTATUS(st);
    lseek(memfd, 0, SEEK_SET); char b[65536]; ssize_t n; while ((n = read(memfd, b, sizeof b)) > 0) r.out.append(b, n); return r;
}
static std::vector<std::string> lines(const std::string& s) { std::vector<std::string> v; std::istringstream i(s); std::string l; while (std::getline(i, l)) v.push_back(l); return v; }
static void judge(mc::Ctx& c, const Conf& k, const ref::Cnf& f, const Run& r) {
    int n = ref::maxvar(f); bool want = k.formula == 8 || k.formula == 10 ? false : k.formula == 9 ? true : ref::sat(f, std::max(1, n)); std::string args = k.args; auto has = [&](const char* o) { return args.find(o) != std::string::npos; };
    auto dump = [&] { return " (status " + std::to_string(r.status) + " signal " + std::to_string(r.sig) + " end " + std::to_string(shm->end) + " code " + std::to_string(shm->code) + " interrupted " + std::to_string(shm->signalled) + std::to_string(shm->jumped) + "; output: " + r.out.substr(r.out.size() > 1200 ? r.out.size() - 1200 : 0) + ")"; };
    if (r.sig == SIGALRM) c.fail("hang", "the program does not end" + dump()); if (r.sig) c.fail("crash", "the program is killed by signal " + std::to_string(r.sig) + dump());
    if (shm->end == cs::STEPCAP) c.fail("livelock", "the program does not end: " + std::to_string(shm->steps) + " scheduling points" + dump()); if (shm->end == cs::DEADLOCK) c.fail("deadlock", "all threads wait" + dump()); if (shm->end == cs::TOO_DEEP || shm->end == cs::TOO_MANY_THREADS) c.fail("harness", "limits of the scheduler" + dump());
    if (shm->race) { char cmd[600], exe[400]; ssize_t l = readlink("/proc/self/exe", exe, sizeof exe - 1); exe[l > 0 ? l : 0] = 0; snprintf(cmd, sizeof cmd, "addr2line -Cfpe %s 0x%lx 2>/dev/null", exe, (unsigned long)shm->race - 1); std::string at; if (FILE* p = popen(cmd, "r")) { char b[400]; if (fgets(b, sizeof b, p)) at = b; pclose(p); } c.fail("data-race", "two threads access the same memory, one of them writing, and nothing orders them: " + at); }
    std::vector<std::string> s, v, m; bool quit = false, prv = false, ver = false, nver = false; for (auto& l : lines(r.out)) { if (l.compare(0, 2, "s ") == 0) s.push_back(l); else if (l == "v" || l.compare(0, 2, "v ") == 0) v.push_back(l); else if (l.compare(0, 18, "c Minimized-Model:") == 0) m.push_back(l.substr(18)); else if (l == "*** INTERRUPTED ***") quit = true; else if (l.find("Result verified by model") != std::string::npos) ver = true; else if (l.find("Result verified by proof") != std::string::npos) prv = true; else if (l.find("could not be verified") != std::string::npos) nver = true; }
    if (s.size() > 1) c.fail("status-line", "more than one status line" + dump());
    if (s.size() == 1 && s[0] != "s INDETERMINATE" && s[0] != (want ? "s SATISFIABLE" : "s UNSATISFIABLE")) c.fail("status", "wrong answer" + dump());
    bool intr = shm->signalled || shm->jumped || has("-memory-limit"); if (nver) c.fail("self-test", "the self test fails" + dump());
    if (shm->end == cs::KILLED_BY_SIGNAL) { c.count(K_KILLED); if (s.size()) c.fail("killed", "an answer was given before the signal ended the program" + dump()); return; }
    if (quit) { c.count(K_QUIT); int qs = shm->end == cs::NONE ? r.status : shm->end == cs::EXITED || shm->end == cs::RETURNED ? shm->code : -1; if (qs != 1 || !shm->signalled) c.fail("quit", "after *** INTERRUPTED *** the exit code is not 1" + dump()); return; }
    auto proof = [&](const char* name) { // the proof belongs to the formula and is complete
        std::ifstream in(dir + name); std::stringstream ss; ss << in.rdbuf(); drat::Proof pr; std::string err; if (!drat::parse(ss.str(), pr, err)) c.fail("proof", "malformed proof: " + err + " in " + ss.str().substr(0, 3000) + dump()); drat::Checker ck(f); int res = ck.check(pr); c.count(K_PROOFS);
        if (res) c.fail("proof", std::string(res == drat::Checker::BADLINE ? "line " + std::to_string(ck.at + 1) + " is not justified: " : "the proof does not derive the empty clause: ") + drat::show(pr).substr(0, 3000) + dump()); };
    if (shm->end != cs::EXITED && shm->end != cs::RETURNED) c.fail("end", "the program ended unexpectedly" + dump()); int code = shm->code;
    if (s.size() != 1) c.fail("status-line", "no status line" + dump());
    if (s[0] == "s INDETERMINATE") { c.count(K_INDET); if (!intr) c.fail("gave-up", "indeterminate without interruption" + dump()); if (code != 0) c.fail("exit-code", "indeterminate but exit code " + std::to_string(code) + dump()); if (v.size() || m.size()) c.fail("value-line", "indeterminate with a value line" + dump()); }
    else if (want) { c.count(K_SAT); if (code != (has("-test-model") ? 0 : 10)) c.fail("exit-code", "satisfiable but exit code " + std::to_string(code) + dump()); if (has("-test-model") && !ver) c.fail("self-test", "no self test result" + dump());
        if (has("-model") && !has("-minimize") && !has("-test-model")) { if (v.size() != 1) c.fail("value-line", "satisfiable with " + std::to_string(v.size()) + " value lines" + dump()); std::vector<int> val(n + 1, 0); std::istringstream is(v[0].substr(1)); long x; bool zero = false; while (is >> x) { if (!x) { zero = true; break; } if (std::labs(x) <= n) val[std::labs(x)] = x > 0 ? 1 : -1; else c.fail("value-line", "unknown variable" + dump()); } if (!zero) c.fail("value-line", "the value line is cut" + dump()); for (auto& cl : f) if (!ref::satisfied(cl, val)) c.fail("model", "the model violates clause " + ref::show(cl) + dump()); c.count(K_MODEL); }
        if (has("-minimize")) { if (m.size() != 1) c.fail("minimized", "no minimised model" + dump()); std::vector<int> val(n + 1, 0); std::istringstream is(m[0]); long x; while (is >> x) if (x && std::labs(x) <= n) val[std::labs(x)] = x > 0 ? 1 : -1; for (auto& cl : f) if (!ref::satisfied(cl, val)) c.fail("minimized", "the minimised model violates clause " + ref::show(cl) + dump()); c.count(K_MODEL); } }
    else { c.count(K_UNSAT); if (has("-certified-output")) proof("/proof"); if (has("-test-proof")) { proof("/proof.drat"); if (!prv) c.fail("self-test", "the proof test gives no result" + dump()); } if (code != (has("-test-proof") ? 0 : 20)) c.fail("exit-code", "unsatisfiable but exit code " + std::to_string(code) + dump()); if (v.size() || m.size()) c.fail("value-line", "unsatisfiable with a value line" + dump()); }
}
// which code addresses take part in races: explore with preemption bound 1 until no new ones appear
static void calibrate(int most) {
    for (int round = 0; round < 8; round++) {
        sites->nlate = 0; std::vector<pid_t> ps; std::atomic<int>* next = (std::atomic<int>*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); *next = 0;
        for (int w = 0; w < 8; w++) { fflush(stdout); pid_t p = fork(); if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); for (int i; (i = (*next)++) < NCONF;) { std::string d = ref::dimacs(menu(confs[i].formula), ref::maxvar(menu(confs[i].formula))); std::vector<int> prefix; double t0 = mc::now(); for (int q = 0; q < most && mc::now() - t0 < 2; q++) {
                    execute(confs[i], 1, d, prefix); if (shm->n == 0) break; std::vector<int> ch(shm->choice, shm->choice + shm->n), ar(shm->arity, shm->arity + shm->n); if (shm->end == cs::STEPCAP || shm->end == cs::TOO_DEEP) { break; }
                    bool more = false; while (!ch.empty()) { if (ch.back() + 1 < ar.back()) { ch.back()++; more = true; break; } ch.pop_back(); ar.pop_back(); } if (!more) break; prefix = ch; } } rmscratch(); _exit(0); } ps.push_back(p); }
        for (pid_t p : ps) { int st; waitpid(p, &st, 0); } munmap(next, 4096);
        if (!sites->nlate) return; for (size_t i = 0; i < cs::SITEBITS; i++) if (sites->late[i]) { sites->active[i] = 1; sites->late[i] = 0; }
    }
}
int main(int argc, char** argv) {
    cout_buf = std::cout.rdbuf(); sites = (cs::Sites*)mmap(nullptr, sizeof(cs::Sites), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    { Dl_info di; if (dladdr((void*)&candy_main, &di)) cs::base0 = (uintptr_t)di.dli_fbase; }
    bool thorough = false, replay = false; for (int i = 1; i < argc; i++) { if (!strcmp(argv[i], "--tier=thorough")) thorough = true; if (!strncmp(argv[i], "--replay=", 9)) replay = true; }
    (void)replay; calibrate(thorough ? 2000 : 60);
    int rc = 0; static int pass; // first every configuration with few preemptions, so that none waits for another one's large tree
    for (int round = 0; round < 5; round++) { pass = std::min(round, 2);
        sites->nlate = 0; mc::Explorer e("C13"); e.counter_names = {"answers_sat", "answers_unsat", "indeterminate", "killed_by_signal", "interrupted_while_answering", "thread_switches", "preemptions", "signals_delivered", "clock_jumps", "models_checked", "scheduling_points", "racing_code_addresses", "racing_code_addresses_found_late", "executions_with_3_or_more_threads", "executions_with_8_or_more_threads", "executions_with_all_17_threads", "proofs_checked"}; for (int i = 0; i < NCONF; i++) e.counter_names.push_back(std::string("conf: ") + confs[i].name);
        e.opt.hang = 60; e.opt.hang_alone = 60; unsigned act = 0; for (size_t i = 0; i < cs::SITEBITS; i++) act += sites->active[i]; e.sh->counters[K_RACY] = act;
        rc = e.main(argc, argv, [](mc::Ctx& c) {
            int only = c.opt->num("conf", -1); int i = only >= 0 ? only : c.choose(NCONF); const Conf& k = confs[i]; int b = c.opt->thorough() ? k.preempt_thorough : k.preempt; b = std::min(c.opt->num("bound", b), pass < 2 ? pass : 99);
            ref::Cnf f = menu(k.formula); c.describe(std::string(k.name) + ": candy " + k.args + " : " + ref::show(f)); std::vector<int> prefix; if (c.pos < c.prefix.size()) prefix.assign(c.prefix.begin() + c.pos, c.prefix.end());
            Run r = execute(k, b, ref::dimacs(f, ref::maxvar(f)), prefix); 
            { int first = -1; for (int q = 0; q < shm->n; q++) { int v = c.choose(shm->arity[q]); if (v != shm->choice[q]) { c.sh->diverged++; break; } if (first < 0 && v) { first = q; c.split(); } } if (first < 0) c.split(); }
            c.count(K_C0 + i); c.step(shm->points); c.count(K_POINTS, shm->points); c.count(K_SWITCH, shm->switches); c.count(K_PREEMPT, shm->preempted); c.count(K_SIG, shm->signalled); c.count(K_JUMP, shm->jumped); c.count(K_T3, shm->threads >= 3); c.count(K_T7, shm->threads >= 8); c.count(K_T16, shm->threads >= 17); if (c.local_execs == 0) c.sample(std::string(k.name) + ": candy " + k.args + " on " + ref::show(f) + ": " + std::to_string(shm->threads) + " threads, " + std::to_string(shm->points) + " scheduling points, " + std::to_string(shm->accesses) + " memory accesses watched, answer " + std::to_string(shm->code));
            std::ostringstream o; o << "candy " << k.args << " : " << ref::show(f) << "\nthreads " << shm->threads << ", decisions (choice/alternatives/reason): "; for (int q = 0; q < shm->n; q++) if (shm->choice[q]) o << "#" << q << " " << shm->choice[q] << "/" << shm->arity[q] << "/" << shm->why[q] << " "; o << " of " << shm->n << " decisions, " << shm->points << " scheduling points"; c.describe(o.str());
            judge(c, k, f, r); c.outcome(mc::mixs(i * 131 + shm->end, std::to_string(shm->code) + "/" + std::to_string(shm->signalled) + std::to_string(shm->jumped)) + shm->switches);
        });
        if (rc || (pass == 2 && !sites->nlate)) break; unsigned late = 0; for (size_t i = 0; i < cs::SITEBITS; i++) if (sites->late[i]) { sites->active[i] = 1; sites->late[i] = 0; late++; } if (late) fprintf(stderr, "round %d: %u racing code addresses found late\n", round, late);
    }
    if (getenv("C13_SITES")) { uint32_t n = std::min<uint32_t>(sites->nlist, cs::MAXSITES); for (uint32_t i = 0; i < n; i++) fprintf(stderr, "site 0x%lx\n", (unsigned long)sites->list[i]); }
    return rc;
}
