// C18: things done with separate objects in separate threads do not influence each other.
// The library is compiled with -fsanitize=thread and runs under the controlled scheduler of ctlsched.h: every access to memory that
// is shared by accident is seen, and every execution's results are compared with the oracle and with the same work done alone.
#include "mc.h"
#include "ref.h"
#include "families.h"
#include "gatefam.h"
#include "ctlsched.h"
#include "c18_jobs.h"
int candy_main(int argc, char** argv);
enum { K_PAIRS, K_THREE, K_SWITCH, K_POINTS, K_ACC, K_SAT, K_UNSAT, K_OTHERS, K_PRE };
static cs::Sites* sites; static cs::Shm* shm; static std::string dir; static int memfd = -1;
static std::vector<ref::Cnf> menu; static std::vector<int> mvars, msat;
static void rmscratch() { for (size_t i = 0; i < menu.size(); i++) { unlink((dir + "/in" + std::to_string(i)).c_str()); unlink((dir + "/proof" + std::to_string(i)).c_str()); } rmdir(dir.c_str()); }
static void setup() {
    dir = "/dev/shm/candy_c18_" + std::to_string(getpid()); mkdir(dir.c_str(), 0700);
    ref::Cnf g = {{1, 2}, {-5, 1}, {-5, 2}, {5, -1, -2}, {-6, 3, 4}, {6, -3}, {6, -4}, {-7, 5, 6}, {-7, -5, -6}, {7, -5, 6}, {7, 5, -6}, {7}, {1, 3}, {-2, 4}};
    ref::Cnf s = ref::php(4, 3); s.erase(s.begin()); ref::Cnf b = ref::base(2); menu = {ref::php(4, 3), s, b, g, ref::php(5, 4)}; b.pop_back(); menu.push_back(b); ref::Cnf gu = g; gu.push_back({-1, -3}); gu.push_back({-4, -1}); menu.push_back(gu);
    for (size_t i = 0; i < menu.size(); i++) { mvars.push_back(ref::maxvar(menu[i])); msat.push_back(i == 0 || i == 4 ? 0 : i == 1 ? 1 : ref::sat(menu[i], mvars[i])); FILE* o = fopen((dir + "/in" + std::to_string(i)).c_str(), "w"); fputs(ref::dimacs(menu[i], mvars[i]).c_str(), o); fclose(o); if (!msat[i]) jobs::write_proof(menu[i], (dir + "/proof" + std::to_string(i)).c_str()); }
}
struct Task { int job, formula; jobs::Result r; };
static bool slow(int j) { return j == 4 || j == 5; } // the centrality heuristics
static Task tasks[3]; static int ntasks;
static void work(Task& t) { std::string in = dir + "/in" + std::to_string(t.formula), pf = dir + "/proof" + std::to_string(t.formula); t.r = jobs::run(t.job, menu[t.formula], mvars[t.formula], in.c_str(), pf.c_str()); }
static void* thread_main(void* p) { cs::Th& me = cs::th[cs::tid]; (void)me; work(*(Task*)p); return nullptr; }
static void writeres(int fd, const jobs::Result& r) { std::ostringstream o; o << r.answer << ' ' << r.extra << ' ' << r.model.size(); for (int x : r.model) o << ' ' << x; o << '\n'; std::string s = o.str(); if (write(fd, s.data(), s.size()) < 0) _exit(9); }
static jobs::Result readres(std::istream& i) { jobs::Result r; size_t n = 0; r.answer = -99; i >> r.answer >> r.extra >> n; r.model.resize(std::min<size_t>(n, 1000)); for (int& x : r.model) i >> x; return r; }
struct Run { int status = -1, sig = 0; std::vector<jobs::Result> r; };
static Run execute(int profile, bool alone, int preempt, bool rr, const std::vector<int>& prefix) {
    if (!shm) { shm = (cs::Shm*)mmap(nullptr, sizeof(cs::Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memfd = memfd_create("res", 0); }
    shm->plen = (int)std::min<size_t>(prefix.size(), cs::MAXC); for (int i = 0; i < shm->plen; i++) shm->prefix[i] = prefix[i];
    if (ftruncate(memfd, 0)) abort(); lseek(memfd, 0, SEEK_SET);
    pid_t p = fork();
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL); alarm(40); int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); if (!getenv("MC_STDERR")) dup2(nul, 2); struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl); jobs::configure(profile);
        if (alone) { for (int i = 0; i < ntasks; i++) { work(tasks[i]); writeres(memfd, tasks[i].r); } _exit(0); }
        cs::Config cf; cf.preemptions = preempt; cf.rr = rr; cf.slice = 4000; cf.stepcap = 2000000; cs::start(cf, shm, sites); pthread_t t[3]; for (int i = 0; i < ntasks; i++) if (pthread_create(&t[i], nullptr, thread_main, &tasks[i])) _exit(9); for (int i = 0; i < ntasks; i++) pthread_join(t[i], nullptr);
        { cs::In in; for (int i = 0; i < ntasks; i++) writeres(memfd, tasks[i].r); } cs::finish(cs::RETURNED, 0);
    }
    Run r; int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) { } if (WIFSIGNALED(st)) r.sig = WTERMSIG(st); else r.status = WEXITSTATUS(st);
    lseek(memfd, 0, SEEK_SET); std::string out; char b[65536]; ssize_t n; while ((n = read(memfd, b, sizeof b)) > 0) out.append(b, n); std::istringstream is(out); for (int i = 0; i < ntasks; i++) r.r.push_back(readres(is)); return r;
}
static void judge(mc::Ctx& c, const Run& r, const Run& alone, bool threads) {
    std::string s = threads ? "" : " (alone)"; if (threads && shm->race) { char cmd[600], exe[400]; ssize_t l = readlink("/proc/self/exe", exe, sizeof exe - 1); exe[l > 0 ? l : 0] = 0; snprintf(cmd, sizeof cmd, "addr2line -Cfpe %s 0x%lx 2>/dev/null", exe, (unsigned long)shm->race - 1); std::string at; if (FILE* p = popen(cmd, "r")) { char b[400]; if (fgets(b, sizeof b, p)) at = b; pclose(p); } c.fail("data-race", "two threads with separate objects access the same memory, one of them writing, and nothing orders them: " + at); }
    if (r.sig) c.fail("crash", "killed by signal " + std::to_string(r.sig) + s); if (threads && shm->end == cs::DEADLOCK) c.fail("deadlock", "all threads wait"); if (threads && shm->end != cs::RETURNED) c.fail("end", "the process ended: " + std::to_string(shm->end) + " " + std::to_string(r.status)); if (!threads && r.status) c.fail("end", "the process ended with " + std::to_string(r.status) + s);
    int base = jobs::count() - jobs::N_OTHER;
    for (int i = 0; i < ntasks; i++) { const Task& t = tasks[i]; const jobs::Result& x = r.r[i]; int k = t.job - base; std::string who = "thread " + std::to_string(i + 1) + " (" + jobs::name(t.job) + ")" + s + ": ";
        bool solves = k < 0 || k == jobs::MINIMISE || k == jobs::IPASIR || (k == jobs::RSAR && x.answer != -2);
        if (solves) { if (x.answer != (msat[t.formula] ? 10 : 20)) c.fail("answer", who + "wrong answer " + std::to_string(x.answer)); c.count(x.answer == 10 ? K_SAT : K_UNSAT); if (x.answer == 10) for (auto& cl : menu[t.formula]) if (x.model.size() < (size_t)mvars[t.formula] + 1 || !ref::satisfied(cl, x.model)) c.fail("model", who + "the model violates clause " + ref::show(cl)); }
        else c.count(K_OTHERS);
        if (k == jobs::CHECK && x.answer != 1) c.fail("proof", who + "a proof is rejected");
        if (threads && x.answer != alone.r[i].answer) c.fail("differs", who + "result " + std::to_string(x.answer) + ", alone it is " + std::to_string(alone.r[i].answer)); 
        if (threads && k == jobs::READ && x.extra != alone.r[i].extra) c.fail("differs", who + "other clauses are read than alone"); }
}
int main(int argc, char** argv) {
    sites = (cs::Sites*)mmap(nullptr, sizeof(cs::Sites), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); { Dl_info di; if (dladdr((void*)&candy_main, &di)) cs::base0 = (uintptr_t)di.dli_fbase; }
    setup(); static pid_t owner = getpid(); atexit([] { if (getpid() == owner) rmscratch(); });
    mc::Explorer e("C18"); e.counter_names = {"pairs", "triples", "thread_switches", "scheduling_points", "memory_accesses_watched", "answers_sat", "answers_unsat", "other_results", "preemptions"}; e.opt.hang = 60; e.opt.hang_alone = 60;
    return e.main(argc, argv, [](mc::Ctx& c) {
        bool T = c.opt->thorough(); int J = jobs::count(), F = (int)menu.size(), P = jobs::nprofiles(); int only = c.opt->num("family", -1); int fam = c.choose(3); if (only >= 0 && fam != only) throw mc::Prune();
        int base = J - jobs::N_OTHER; auto formula = [&](int j, int which) { static const int sat[] = {3, 1, 5}, any[] = {3, 0, 1, 5, 2, 4, 6}, uns[] = {0, 4}; int k = j - base; return k == jobs::CHECK ? uns[which % 2] : k == jobs::GATES || k == jobs::RSAR ? (which % 2 ? 6 : 3) : k == jobs::MINIMISE ? sat[which % 3] : any[which % 7]; };
        static const int PR[] = {2, 0, 4, 3, 6, 7, 1, 5}; int preempt = 0; bool rr = false; int profile; (void)P; (void)F;
        if (fam == 0) { // every pair of jobs, in turns, several formulas
            ntasks = 2; int a = c.choose(J), b = a + c.choose(J - a); if (slow(a) + slow(b) > T) throw mc::Prune(); int w = c.choose(T ? 7 : 3); profile = PR[c.choose(T ? 8 : 3)]; tasks[0] = {a, formula(a, w), {}}; tasks[1] = {b, formula(b, T ? w : w + 1), {}}; rr = true; c.split(); }
        else if (fam == 1) { // every job with itself, one preemption (thorough two) at every synchronisation, one thread after the other
            ntasks = 2; int a = c.choose(J); if (slow(a)) throw mc::Prune(); int w = c.choose(T ? 7 : 2); profile = PR[c.choose(T ? 4 : 2)]; tasks[0] = {a, formula(a, w), {}}; tasks[1] = {a, formula(a, w + 1), {}}; preempt = T ? 2 : 1; c.split(); }
        else { // three at once
            ntasks = 3; int a = c.choose(J); int w = c.choose(T ? 7 : 2); profile = PR[c.choose(T ? 8 : 3)]; for (int i = 0; i < 3; i++) { int j = (a + i * (T ? 1 + w : 5)) % J; if (slow(j)) j += 2; tasks[i] = {j, formula(j, w + i), {}}; } rr = true; c.split(); }
        { std::ostringstream o; o << "profile " << profile << (rr ? ", in turns" : "") << ":"; for (int i = 0; i < ntasks; i++) o << " [" << jobs::name(tasks[i].job) << ": " << ref::show(menu[tasks[i].formula]).substr(0, 300) << "]"; c.describe(o.str()); }
        std::vector<int> prefix; if (c.pos < c.prefix.size()) prefix.assign(c.prefix.begin() + c.pos, c.prefix.end());
        Run alone = execute(profile, true, 0, false, {}); judge(c, alone, alone, false); Run r = execute(profile, false, preempt, rr, prefix);
        for (int q = 0; q < shm->n; q++) { int v = c.choose(shm->arity[q]); if (v != shm->choice[q]) { c.sh->diverged++; break; } }
        c.step(shm->points); c.count(ntasks == 3 ? K_THREE : K_PAIRS); c.count(K_SWITCH, shm->switches); c.count(K_POINTS, shm->points); c.count(K_ACC, shm->accesses); c.count(K_PRE, shm->preempted);
        judge(c, r, alone, true); uint64_t h = profile; for (auto& x : r.r) h = mc::mix(mc::mix(h, x.answer), x.extra); c.outcome(h); if (c.local_execs == 0) c.sample(jobs::name(tasks[0].job) + " and " + jobs::name(tasks[1].job) + ": " + std::to_string(shm->accesses) + " memory accesses watched, " + std::to_string(shm->points) + " scheduling points");
    });
}
