// mc.h - a small stateless model checker for sequential / event-driven C++ code.
//
// A check supplies   void body(mc::Ctx& c)   which runs the real implementation once, asking
// c.choose(n) whenever the environment, the input or the schedule may differ.  The explorer
// re-executes the body for every sequence of choices (depth first), i.e. it enumerates the whole
// choice tree.  Work is split over forked worker processes at c.split() points, so a crash, an
// exit() or an endless loop of the code under test only takes one worker down: the choice
// sequence it was executing lives in shared memory, is re-run alone, and then reported.
#pragma once
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {

enum { MAXDEPTH = 4096, MAXCNT = 96, MAXW = 64, MAXMSG = 32768 };

inline double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

struct Slot {
    std::atomic<uint32_t> busy;      // executing a body right now
    std::atomic<uint64_t> execs;     // number of executions started: the watchdog's progress mark
    std::atomic<uint32_t> depth;
    std::atomic<int64_t> task;
    std::atomic<uint32_t> done;      // worker enumerated everything
    int32_t choices[MAXDEPTH];
    char trace[8192];                // human readable description of the current execution
    // a worker whose memory has grown (the code under test leaks) hands its place in the enumeration over to a fresh process
    std::atomic<uint32_t> recycle; int64_t rordinal, rmine; uint32_t rlen, rsplit; int32_t rprefix[MAXDEPTH], rsplitp[MAXDEPTH];
};

struct Shared {
    std::atomic<int64_t> next_task;
    std::atomic<uint32_t> stop;
    std::atomic<uint32_t> nviol;
    std::atomic<uint64_t> executions, nodes, steps, skipped, diverged;
    std::atomic<uint64_t> counters[MAXCNT];
    std::atomic_flag lock;
    uint32_t vdepth;
    int32_t vchoices[MAXDEPTH];
    char vkey[512];
    char vmsg[MAXMSG];
    Slot slots[MAXW];
    std::atomic<uint64_t> outcome_count;
    char samples[16][2048];
    std::atomic<uint32_t> nsamples;
};

struct Skip {};
struct Violation { std::string key, msg; };
struct Prune {};

struct Options {
    std::string tier = "quick";
    int jobs = 8;
    double hang = 20;                // seconds one execution may take before it is re-run alone
    double hang_alone = 90;          // ... and alone
    std::string stats, replay_out, replay_in, known;
    double budget = 0;               // seconds; 0 = none.  Hitting it is reported as not exhaustive
    std::map<std::string, std::string> extra;
    bool thorough() const { return tier == "thorough"; }
    int num(const char* k, int d) const { auto it = extra.find(k); return it == extra.end() ? d : atoi(it->second.c_str()); }
};

class Ctx {
public:
    Shared* sh; Options* opt; int worker; bool replaying = false;
    std::vector<int> prefix; std::vector<int> choices; std::vector<int> arity;
    size_t pos = 0;
    int64_t ordinal = -1, mine = -1; bool split_seen = false;
    std::ostringstream tr; bool trace_on = false;
    std::unordered_set<uint64_t> outcomes;

    // the environment's / scheduler's decision
    int choose(int n) {
        if (n <= 0) { fprintf(stderr, "choose(%d)\n", n); abort(); }
        int v = 0;
        if (pos < prefix.size()) { v = prefix[pos]; if (v >= n) { v = n - 1; sh->diverged++; } }
        if (pos >= MAXDEPTH) throw Violation{"depth", "choice depth limit exceeded"};
        choices.push_back(v); arity.push_back(n);
        Slot& s = sh->slots[worker];
        s.choices[pos] = v; pos++; s.depth = (uint32_t)pos;
        return v;
    }
    bool flag() { return choose(2) == 1; }
    // work distribution point: everything below this prefix is explored by one worker
    void split() {
        if (replaying) { split_seen = true; return; }
        if (split_seen) return;
        split_seen = true;
        if (!same_task()) {
            ordinal++;
            if (mine < ordinal) { mine = sh->next_task.fetch_add(1); sh->slots[worker].task = mine; }
            split_prefix.assign(choices.begin(), choices.end());
        }
        if (ordinal != mine) throw Skip();
    }
    bool same_task() const { return split_prefix.size() && split_prefix.size() == choices.size() && split_prefix == choices && ordinal >= 0; }
    std::vector<int> split_prefix;

    void step(uint64_t n = 1) { local_steps += n; }
    void count(int id, uint64_t n = 1) { local_counts[id] += n; }
    uint64_t local_steps = 0, local_nodes = 0, local_execs = 0; uint64_t local_counts[MAXCNT] = {0};
    void outcome(uint64_t h) { if (outcomes.size() < 4000000) outcomes.insert(h); }
    [[noreturn]] void fail(const std::string& key, const std::string& msg) { throw Violation{key, msg}; }
    void require(bool c, const std::string& key, const std::string& msg) { if (!c) fail(key, msg); }
    // description of the present execution (kept in shared memory so that it survives a crash)
    void describe(const std::string& s) { strncpy(sh->slots[worker].trace, s.c_str(), sizeof(sh->slots[0].trace) - 1); }
    void sample(const std::string& s) {
        uint32_t i = sh->nsamples.load(); if (i >= 12) return;
        i = sh->nsamples.fetch_add(1); if (i < 12) strncpy(sh->samples[i], s.c_str(), sizeof(sh->samples[0]) - 1);
    }
    void flush() {
        sh->steps += local_steps; sh->nodes += local_nodes; sh->executions += local_execs;
        local_steps = local_nodes = local_execs = 0;
        for (int i = 0; i < MAXCNT; i++) if (local_counts[i]) { sh->counters[i] += local_counts[i]; local_counts[i] = 0; }
    }
};

inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }
inline uint64_t mixs(uint64_t h, const std::string& s) { for (unsigned char ch : s) h = mix(h, ch); return h; }

typedef std::function<void(Ctx&)> Body;

struct Result { int kind; std::string key, msg; }; // kind 0 ok, 1 violation, 2 crash, 3 hang

class Explorer {
public:
    Options opt; Shared* sh; std::string property; std::vector<std::string> counter_names; Body body;
    std::string trace_dir;
    Explorer(const std::string& prop) : property(prop) {
        sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        memset((void*)sh, 0, sizeof(Shared));
    }
    void parse(int argc, char** argv) {
        for (int i = 1; i < argc; i++) {
            std::string a = argv[i]; auto eq = a.find('=');
            std::string k = a.substr(0, eq), v = eq == std::string::npos ? "1" : a.substr(eq + 1);
            if (k == "--tier") opt.tier = v; else if (k == "--jobs") opt.jobs = atoi(v.c_str());
            else if (k == "--stats") opt.stats = v; else if (k == "--replay-out") opt.replay_out = v;
            else if (k == "--replay") opt.replay_in = v; else if (k == "--known") opt.known = v;
            else if (k == "--budget") opt.budget = atof(v.c_str()); else if (k == "--hang") opt.hang = atof(v.c_str());
            else opt.extra[k.substr(k.find_first_not_of('-'))] = v;
        }
        if (opt.jobs > MAXW) opt.jobs = MAXW;
    }
    // run one choice sequence in this process
    Result run_one(Ctx& c, const std::vector<int>& prefix) {
        c.prefix = prefix; c.choices.clear(); c.arity.clear(); c.pos = 0; c.split_seen = false;
        Slot& s = sh->slots[c.worker]; s.depth = 0; s.trace[0] = 0; s.busy = 1; s.execs++;
        Result r{0, "", ""};
        try { body(c); }
        catch (Violation& v) { r = {1, v.key, v.msg}; }
        catch (Skip&) { r.kind = -1; }
        catch (Prune&) { r.kind = -2; }
        catch (std::exception& e) { r = {1, std::string("exception"), std::string("unexpected exception: ") + e.what()}; }
        s.busy = 0;
        return r;
    }
    void record(const std::vector<int>& ch, const std::string& key, const std::string& msg, const char* trace) {
        while (sh->lock.test_and_set()) usleep(100);
        if (sh->nviol == 0) {
            sh->vdepth = (uint32_t)ch.size(); for (size_t i = 0; i < ch.size() && i < MAXDEPTH; i++) sh->vchoices[i] = ch[i];
            strncpy(sh->vkey, key.c_str(), sizeof(sh->vkey) - 1);
            std::string m = msg + (trace && *trace ? std::string("\n") + trace : "");
            strncpy(sh->vmsg, m.c_str(), MAXMSG - 1);
        }
        sh->nviol++; sh->stop = 1;
        sh->lock.clear();
    }
    void quiet() {
        static std::ofstream nul("/dev/null"); std::cout.rdbuf(nul.rdbuf());
        if (!getenv("MC_STDERR")) std::cerr.rdbuf(nul.rdbuf());
        fflush(stdout); int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); if (!getenv("MC_STDERR")) dup2(fd, 2); close(fd);
    }
    static void limits() {
        mallopt(M_MMAP_THRESHOLD, 1 << 30); mallopt(M_TRIM_THRESHOLD, 1 << 30); mallopt(M_TOP_PAD, 1 << 20);
        struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    }
    std::vector<std::function<void()>> worker_init;
    static long rss_mb() { long a = 0, b = 0; FILE* f = fopen("/proc/self/statm", "r"); if (f) { if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); } return b / 256; }
    void worker(int w, int64_t redo) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        quiet(); limits();
        for (auto& f : worker_init) f();
        Ctx c; c.sh = sh; c.opt = &opt; c.worker = w;
        if (redo >= 0) c.mine = redo;
        std::vector<int> prefix; bool more = true; Slot& me = sh->slots[w]; uint64_t runs = 0;
        if (redo == -2) { c.mine = me.rmine; c.ordinal = me.rordinal; prefix.assign(me.rprefix, me.rprefix + me.rlen); c.split_prefix.assign(me.rsplitp, me.rsplitp + me.rsplit); }
        me.recycle = 0;
        while (more && !sh->stop) {
            Result r = run_one(c, prefix);
            size_t oldlen = prefix.empty() ? 0 : prefix.size() - 1;
            if (r.kind >= 0 || r.kind == -2) {
                c.local_execs++;
                c.local_nodes += c.choices.size() >= oldlen ? c.choices.size() - oldlen : 0;
            }
            if ((c.local_execs & 63) == 0) c.flush();
            if (r.kind == 1) { c.flush(); if (known(r.key)) { note_known(r.key); } else { record(c.choices, r.key, r.msg, sh->slots[w].trace); break; } }
            // next in depth-first order
            prefix = c.choices; std::vector<int> ar = c.arity;
            more = false;
            while (!prefix.empty()) {
                if (prefix.back() + 1 < ar.back()) { prefix.back()++; more = true; break; }
                prefix.pop_back(); ar.pop_back();
            }
            if (more && (++runs & 255) == 0 && rss_mb() > 2000) {
                c.flush(); write_outcomes(c); me.rmine = c.mine; me.rordinal = c.ordinal; me.rlen = prefix.size(); me.rsplit = c.split_prefix.size();
                std::copy(prefix.begin(), prefix.end(), me.rprefix); std::copy(c.split_prefix.begin(), c.split_prefix.end(), me.rsplitp);
                me.recycle = 1; _exit(0);
            }
        }
        c.flush();
        write_outcomes(c);
        sh->slots[w].done = 1;
        _exit(0);
    }
    void write_outcomes(Ctx& c) {
        if (trace_dir.empty()) return;
        std::string p = trace_dir + "/oc." + std::to_string(getpid());
        FILE* f = fopen(p.c_str(), "wb"); if (!f) return;
        for (uint64_t h : c.outcomes) fwrite(&h, 8, 1, f);
        fclose(f);
    }
    std::vector<std::string> known_keys;
    void load_known() {
        if (opt.known.empty()) return;
        std::ifstream f(opt.known); std::string line;
        while (std::getline(f, line)) { // lines: "known property=<id> key=<key> ..."
            std::istringstream is(line); std::string w, prop, key; is >> w; if (w != "known") continue;
            while (is >> w) { if (w.compare(0, 9, "property=") == 0) prop = w.substr(9); if (w.compare(0, 4, "key=") == 0) key = w.substr(4); }
            if (prop == property) known_keys.push_back(key);
        }
    }
    bool known(const std::string& k) { for (auto& s : known_keys) if (s == k) return true; return false; }
    void note_known(const std::string& k) { for (size_t i = 0; i < known_keys.size() && i < 16; i++) if (known_keys[i] == k) sh->counters[MAXCNT - 16 + i]++; }

    // re-run one sequence in a fresh process
    Result replay(const std::vector<int>& ch, double limit) {
        int pfd[2]; if (pipe(pfd)) return {0, "", ""};
        memset((void*)&sh->slots[MAXW - 1], 0, sizeof(Slot));
        pid_t p = fork();
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            close(pfd[0]); quiet(); limits(); for (auto& f : worker_init) f();
            Ctx c; c.sh = sh; c.opt = &opt; c.worker = MAXW - 1; c.replaying = true;
            Result r = run_one(c, ch);
            std::string out = std::string(1, (char)('0' + (r.kind < 0 ? 0 : r.kind))) + r.key + "\n" + r.msg;
            if (write(pfd[1], out.data(), out.size())) {}
            _exit(0);
        }
        close(pfd[1]); double t0 = now(); int st = 0; bool ended = false;
        fcntl(pfd[0], F_SETFL, O_NONBLOCK);
        std::string out; char buf[4096];
        while (now() - t0 < limit) {
            ssize_t n; while ((n = read(pfd[0], buf, sizeof buf)) > 0) out.append(buf, n);
            if (waitpid(p, &st, WNOHANG) == p) { ended = true; break; }
            usleep(2000);
        }
        ssize_t n; while ((n = read(pfd[0], buf, sizeof buf)) > 0) out.append(buf, n);
        close(pfd[0]);
        if (!ended) { kill(p, SIGKILL); waitpid(p, &st, 0); return {3, "hang", "no answer within the limit: the execution does not terminate"}; }
        if (out.empty()) {
            std::ostringstream m; if (WIFSIGNALED(st)) m << "killed by signal " << WTERMSIG(st); else m << "process exited with status " << WEXITSTATUS(st);
            std::string key = WIFSIGNALED(st) ? "crash-signal" : "process-exit";
            return {2, key, "the code under test ended the process: " + m.str()};
        }
        auto nl = out.find('\n');
        return {out[0] - '0', out.substr(1, nl - 1), out.substr(nl + 1)};
    }
    static std::string seq(const std::vector<int>& v) { std::ostringstream o; for (size_t i = 0; i < v.size(); i++) o << (i ? " " : "") << v[i]; return o.str(); }
    static std::string jesc(const std::string& s) {
        std::string o; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; } else if (ch == '\n') o += "\\n"; else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; } else o += (char)ch; }
        return o;
    }
    int main(int argc, char** argv, Body b) {
        body = b; parse(argc, argv); load_known();
        char tmpl[] = "/tmp/mcoc.XXXXXX"; if (mkdtemp(tmpl)) trace_dir = tmpl;
        double t0 = now();
        if (!opt.replay_in.empty()) {
            std::ifstream f(opt.replay_in); std::string line; std::vector<int> ch;
            while (std::getline(f, line)) if (line.compare(0, 8, "choices:") == 0) { std::istringstream is(line.substr(8)); int x; while (is >> x) ch.push_back(x); }
            Result r = replay(ch, opt.hang_alone);
            printf("replay: %s key=%s\n%s\n%s\n", r.kind == 0 ? "no violation" : "VIOLATION", r.key.c_str(), r.msg.c_str(), sh->slots[MAXW - 1].trace);
            rmdir(tmpl);
            return r.kind ? 1 : 0;
        }
        int W = opt.jobs; std::vector<pid_t> pid(W, 0);
        std::vector<uint64_t> mark(W, 0); std::vector<double> since(W, now());
        int unconfirmed = 0; bool capped = false;
        auto spawn = [&](int w, int64_t redo) { sh->slots[w].busy = 0; sh->slots[w].done = 0; fflush(stdout); pid_t p = fork(); if (p == 0) worker(w, redo); pid[w] = p; since[w] = now(); };
        for (int w = 0; w < W; w++) { sh->slots[w].task = -1; spawn(w, -1); }
        int alive = W;
        auto snapshot = [&](int w) { std::vector<int> ch; uint32_t d = sh->slots[w].depth; for (uint32_t i = 0; i < d; i++) ch.push_back(sh->slots[w].choices[i]); return ch; };
        while (alive > 0) {
            usleep(5000);
            if (opt.budget > 0 && now() - t0 > opt.budget && !sh->stop) { capped = true; sh->stop = 1; }
            for (int w = 0; w < W; w++) if (pid[w]) {
                int st; pid_t p = waitpid(pid[w], &st, WNOHANG);
                Slot& s = sh->slots[w];
                if (p == pid[w]) {
                    if (s.done) { pid[w] = 0; alive--; continue; }
                    if (s.recycle) { spawn(w, -2); continue; }
                    // the worker died inside an execution
                    std::vector<int> ch = snapshot(w); std::string tr = s.trace;
                    std::ostringstream m; if (WIFSIGNALED(st)) m << "worker killed by signal " << WTERMSIG(st); else m << "worker exited with status " << WEXITSTATUS(st);
                    Result r = replay(ch, opt.hang_alone);
                    if (r.kind == 0 && !(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) && unconfirmed >= 2) r = {2, "crash", "worker died repeatedly (" + m.str() + ")"};
                    if (r.kind && !known(r.key)) { record(ch, r.key, r.msg + " [" + m.str() + "]", tr.c_str()); pid[w] = 0; alive--; continue; }
                    if (r.kind) note_known(r.key);
                    unconfirmed++; fprintf(stderr, "mc: unconfirmed worker end (%s), task re-run; trace: %s\n", m.str().c_str(), tr.c_str());
                    if (unconfirmed > 20) { record(ch, "crash", m.str(), tr.c_str()); pid[w] = 0; alive--; continue; }
                    spawn(w, s.task.load()); continue;
                }
                uint64_t e = s.execs; if (e != mark[w] || !s.busy) { mark[w] = e; since[w] = now(); }
                else if (sh->stop && now() - since[w] > 3) { kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); pid[w] = 0; alive--; }
                else if (now() - since[w] > opt.hang) {
                    std::vector<int> ch = snapshot(w); std::string tr = s.trace;
                    kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0);
                    Result r = replay(ch, opt.hang_alone);
                    if (r.kind && !known(r.key)) { record(ch, r.key, r.msg, tr.c_str()); pid[w] = 0; alive--; continue; }
                    if (r.kind) note_known(r.key);
                    unconfirmed++; fprintf(stderr, "mc: slow execution finished alone, task re-run\n");
                    if (unconfirmed > 20) { capped = true; sh->stop = 1; pid[w] = 0; alive--; continue; }
                    spawn(w, s.task.load());
                }
            }
        }
        // merge outcome hashes
        std::unordered_set<uint64_t> oc;
        { std::string cmd = trace_dir; 
          FILE* p = popen(("ls " + trace_dir + " 2>/dev/null").c_str(), "r"); char b[256];
          std::vector<std::string> fs; while (p && fgets(b, sizeof b, p)) { std::string s = b; while (!s.empty() && s.back() == '\n') s.pop_back(); fs.push_back(s); } if (p) pclose(p);
          for (auto& s : fs) { std::string path = trace_dir + "/" + s; FILE* f = fopen(path.c_str(), "rb"); uint64_t h; if (f) { while (fread(&h, 8, 1, f) == 1) oc.insert(h); fclose(f); } unlink(path.c_str()); }
          rmdir(trace_dir.c_str()); }
        double wall = now() - t0; bool viol = sh->nviol > 0;
        std::ostringstream js;
        js << "{\n \"property\": \"" << property << "\",\n \"executions\": " << sh->executions << ",\n \"nodes\": " << sh->nodes << ",\n \"steps\": " << sh->steps
           << ",\n \"distinct_outcomes\": " << oc.size() << ",\n \"diverged\": " << sh->diverged << ",\n \"exhaustive\": " << ((viol || capped) ? "false" : "true")
           << ",\n \"violations\": " << (viol ? 1 : 0) << ",\n \"wall\": " << wall << ",\n \"counters\": {";
        bool first = true;
        for (size_t i = 0; i < counter_names.size(); i++) { js << (first ? "" : ", ") << "\"" << counter_names[i] << "\": " << sh->counters[i]; first = false; }
        js << "},\n \"known_hits\": {"; first = true;
        for (size_t i = 0; i < known_keys.size() && i < 16; i++) { js << (first ? "" : ", ") << "\"" << jesc(known_keys[i]) << "\": " << sh->counters[MAXCNT - 16 + i]; first = false; }
        js << "},\n \"samples\": [";
        uint32_t ns = std::min<uint32_t>(sh->nsamples, 12); for (uint32_t i = 0; i < ns; i++) js << (i ? ", " : "") << "\"" << jesc(sh->samples[i]) << "\"";
        js << "]\n}\n";
        if (!opt.stats.empty()) { std::ofstream f(opt.stats); f << js.str(); }
        printf("%s: executions=%llu nodes=%llu steps=%llu outcomes=%zu wall=%.1fs%s\n", property.c_str(), (unsigned long long)sh->executions, (unsigned long long)sh->nodes, (unsigned long long)sh->steps, oc.size(), wall, capped ? " (capped)" : "");
        for (size_t i = 0; i < counter_names.size(); i++) printf("  %s=%llu\n", counter_names[i].c_str(), (unsigned long long)sh->counters[i]);
        if (viol) {
            std::vector<int> ch(sh->vchoices, sh->vchoices + sh->vdepth);
            Result r = replay(ch, opt.hang_alone);
            if (!opt.replay_out.empty()) {
                std::ofstream f(opt.replay_out);
                f << "property: " << property << "\nkey: " << sh->vkey << "\ntier: " << opt.tier << "\nchoices: " << seq(ch) << "\nreproduced-in-fresh-process: " << (r.kind ? "yes" : "no") << "\n\n" << sh->vmsg << "\n";
            }
            printf("violation key=%s\n%s\nreproduced in a fresh process: %s\n", sh->vkey, sh->vmsg, r.kind ? "yes" : "no");
            return 1;
        }
        return 0;
    }
};

} // namespace mc
