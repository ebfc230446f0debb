// C12: the candy program: status line, exit code, value line, model / proof test modes, option ranges.  One execution = one run of the real program.
#include "candy_common.h"
#include "families.h"
#include "gatefam.h"
#include "drat.h"
#include <fcntl.h>
#include <spawn.h>
#include <sys/wait.h>
#include <zlib.h>
using namespace cd;
enum { K_SAT, K_UNSAT, K_V, K_MIN, K_REFUSED, K_TEST, K_PROOF, K_STDIN, K_GATE, K_INDET, K_F0 };
enum { NFAM = 8 };
static std::string bin, dir;
struct Run { int status = -1, sig = 0; std::string out, err; };
static void slurp(const std::string& p, std::string& s) { int fd = open(p.c_str(), O_RDONLY); s.clear(); if (fd < 0) return; char b[65536]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n); close(fd); }
static void spit(const std::string& p, const std::string& s) { int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); for (size_t o = 0; o < s.size();) { ssize_t n = write(fd, s.data() + o, s.size() - o); if (n <= 0) break; o += n; } close(fd); }
static void rmscratch() { for (const char* f : {"/in", "/out", "/err", "/proof", "/proof.drat"}) unlink((dir + f).c_str()); rmdir(dir.c_str()); }
static Run run(mc::Ctx& c, const std::vector<std::string>& args, const std::string& input, bool via_stdin) {
    if (dir.empty()) { dir = "/dev/shm/candy_c12_" + std::to_string(getpid()); mkdir(dir.c_str(), 0700); if (chdir(dir.c_str())) abort(); atexit(rmscratch); }
    unlink((dir + "/proof.drat").c_str()); unlink((dir + "/proof").c_str()); if (input != "-none-") spit(dir + "/in", input); else unlink((dir + "/in").c_str());
    std::vector<std::string> a = {bin}; a.insert(a.end(), args.begin(), args.end()); if (!via_stdin) a.push_back(dir + "/in"); std::vector<char*> av; for (auto& s : a) av.push_back((char*)s.c_str()); av.push_back(nullptr);
    posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_addopen(&fa, 0, via_stdin ? (dir + "/in").c_str() : "/dev/null", O_RDONLY, 0); posix_spawn_file_actions_addopen(&fa, 1, (dir + "/out").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); posix_spawn_file_actions_addopen(&fa, 2, (dir + "/err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    pid_t p; Run r; int e = posix_spawn(&p, bin.c_str(), &fa, nullptr, av.data(), environ); posix_spawn_file_actions_destroy(&fa); if (e) c.fail("spawn", "cannot start " + bin);
    int st; double t0 = mc::now(); double limit = 60; for (int i = 0;; i++) { int w = waitpid(p, &st, WNOHANG); if (w == p) break; if (mc::now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); c.fail("no-answer", "the program does not end within 60 s"); } usleep(i < 20 ? 200 : 1000); }
    if (WIFSIGNALED(st)) r.sig = WTERMSIG(st); else r.status = WEXITSTATUS(st); slurp(dir + "/out", r.out); slurp(dir + "/err", r.err); c.step(); return r;
}
static std::vector<std::string> lines(const std::string& s) { std::vector<std::string> v; std::istringstream i(s); std::string l; while (std::getline(i, l)) v.push_back(l); return v; }
struct Want { bool model = false, minimize = false, minproject = false, tmodel = false, tproof = false, proof = false, may_indet = false, gate = false, gz = false, in = false; };
static std::string args_text(const std::vector<std::string>& a) { std::string s; for (auto& x : a) s += x + " "; return s; }
static bool taut(const ref::Clause& c) { for (int a : c) for (int b : c) if (a == -b) return true; return false; }
static void judge(mc::Ctx& c, const ref::Cnf& f, int n, const std::vector<std::string>& args, const Want& w, int expected = -1) {
    c.describe(args_text(args) + (w.in ? "< " : "") + ": " + ref::show(f)); std::string text = ref::dimacs(f, n);
    if (w.gz) { if (dir.empty()) run(c, {"--help"}, text, false); std::string p = dir + "/in"; gzFile o = gzopen(p.c_str(), "wb1"); gzwrite(o, text.data(), text.size()); gzclose(o); slurp(p, text); }
    Run r = run(c, args, text, w.in); bool want = expected >= 0 ? expected : ref::sat(f, n);
    if (w.in) c.count(K_STDIN);
    if (r.sig) c.fail("crash", "the program is killed by signal " + std::to_string(r.sig)); auto ls = lines(r.out); std::vector<std::string> st, v; std::string min; bool hasmin = false, verified = false, refuted = false;
    for (auto& l : ls) { if (l.compare(0, 2, "s ") == 0) st.push_back(l); else if (l == "v" || l.compare(0, 2, "v ") == 0) v.push_back(l); else if (l.compare(0, 19, "c Minimized-Model: ") == 0) { min = l.substr(19); hasmin = true; } else if (l.compare(0, 17, "c Result verified") == 0) verified = true; else if (l.find("could not be verified") != std::string::npos) refuted = true; else if (!l.empty() && l[0] != 'c') c.fail("stray-output", "output line is neither comment nor answer: " + l.substr(0, 200)); }
    auto dump = [&] { return " (exit " + std::to_string(r.status) + "; output: " + r.out.substr(r.out.size() > 1500 ? r.out.size() - 1500 : 0) + r.err.substr(0, 300) + ")"; };
    if (w.gate) { c.count(K_GATE); if (r.status != 0 || !st.empty()) c.fail("gate-stats", "gate statistics mode must end with 0 and no answer" + dump()); bool a = false, b = false; for (auto& l : ls) { if (l == "c Variables: " + std::to_string(n) || l == "c Variables: " + std::to_string(ref::maxvar(f))) a = true; if (l.compare(0, 11, "c Clauses: ") == 0) b = true; } if (!a || !b) c.fail("gate-stats", "gate statistics do not report the problem's size" + dump()); return; }
    if (st.size() != 1) c.fail("status-line", std::to_string(st.size()) + " status lines" + dump());
    if (st[0] == "s INDETERMINATE" && w.may_indet) { c.count(K_INDET); if (r.status != 0) c.fail("exit-code", "indeterminate but exit code" + dump()); return; }
    if (st[0] != (want ? "s SATISFIABLE" : "s UNSATISFIABLE")) c.fail("status", "the formula is " + std::string(want ? "satisfiable" : "unsatisfiable") + dump());
    c.count(want ? K_SAT : K_UNSAT);
    int code = want ? (w.tmodel ? 0 : 10) : (w.tproof ? 0 : 20); if (r.status != code) c.fail("exit-code", "exit code is not " + std::to_string(code) + dump());
    if ((want && w.tmodel) || (!want && w.tproof)) { c.count(K_TEST); if (!verified || refuted) c.fail("self-test", "the self test does not confirm the answer" + dump()); } else if (verified || refuted) c.fail("self-test", "a self test result is printed without a test" + dump());
    if (want && w.model && !w.minimize) {
        if (v.size() != 1) c.fail("value-line", "there must be one value line" + dump()); std::istringstream is(v[0].substr(1)); long x; std::vector<long> lits; while (is >> x) lits.push_back(x); if (!is.eof() || lits.empty() || lits.back() != 0) c.fail("value-line", "the value line must end with 0" + dump()); lits.pop_back();
        std::vector<int> val(n + 1, 0); for (long l : lits) { if (l == 0 || std::labs(l) > n) c.fail("value-line", "value line lists " + std::to_string(l) + dump()); if (val[std::labs(l)]) c.fail("value-line", "a variable is listed twice" + dump()); val[std::labs(l)] = l > 0 ? 1 : -1; } std::vector<int> occurs(n + 1, 0); for (auto& cl : f) if (!taut(cl)) for (int l : cl) occurs[std::abs(l)] = 1; for (int i = 1; i <= n; i++) if (!val[i] && occurs[i]) c.fail("value-line", "variable " + std::to_string(i) + " has no value" + dump());
        for (auto& cl : f) if (!taut(cl) && !ref::satisfied(cl, val)) c.fail("model", "the printed model violates clause " + ref::show(cl) + dump()); c.count(K_V);
    } else if (!v.empty()) c.fail("value-line", "unexpected value line" + dump());
    if (want && w.minimize && w.model) { if (!hasmin) c.fail("minimized", "no minimised model is printed" + dump()); std::istringstream is(min); int l; std::vector<int> val(n + 1, 0); while (is >> l) { if (std::abs(l) > n || val[std::abs(l)]) c.fail("minimized", "minimised model lists " + std::to_string(l) + dump()); val[std::abs(l)] = l > 0 ? 1 : -1; } if (!w.minproject) for (auto& cl : f) { if (!taut(cl) && !ref::satisfied(cl, val)) c.fail("minimized", "the minimised model violates clause " + ref::show(cl) + dump()); } c.count(K_MIN); }
    if (!want && w.proof) { std::string pf; slurp(dir + "/proof", pf); drat::Proof pr; std::string err; if (!drat::parse(pf, pr, err)) c.fail("proof", "the proof file is malformed: " + err + dump()); drat::Checker ck(f); if (ck.check(pr) != drat::Checker::ACCEPT) c.fail("proof", "the proof file is no refutation: " + drat::show(pr).substr(0, 800) + dump()); c.count(K_PROOF); }
    c.outcome(mc::mixs(mc::mixs(5, args_text(args)), ref::show(f)));
}
struct Opt { std::string name, type; double lo, hi, def; bool linc, hinc, on; };
static std::vector<Opt> options(mc::Ctx& c) { // as documented by --help
    static std::vector<Opt> r; if (!r.empty()) return r; Run h = run(c, {"--help"}, "", true); 
    for (auto& l : lines(h.err + h.out)) { Opt o; size_t p = l.find("  -"); if (p != 0 || l.compare(0, 4, "  --") == 0) continue; std::string s = l.substr(3); o.name = s.substr(0, s.find_first_of(" ,")); o.lo = o.hi = o.def = 0; o.linc = o.hinc = true; o.on = false;
        size_t b; if (s.find("<int32>") != std::string::npos) { o.type = "int"; b = s.find('['); char x[32], y[32]; if (sscanf(s.c_str() + b, "[ %31s .. %31[^]]] (default: %lf)", x, y, &o.def) != 3) c.fail("help", "cannot parse: " + l); o.lo = !strcmp(x, "imin") ? INT32_MIN : atof(x); o.hi = !strcmp(y, "imax") ? INT32_MAX : atof(y); }
        else if (s.find("<double>") != std::string::npos) { o.type = "double"; char a, z; const char* q = s.c_str() + s.find("<double>") + 9; if (sscanf(q, "%c %lf .. %lf%c (default: %lf)", &a, &o.lo, &o.hi, &z, &o.def) != 5) c.fail("help", "cannot parse: " + l); o.linc = a == '['; o.hinc = z == ']'; }
        else if (s.find("<string>") != std::string::npos) o.type = "string"; else if (s.find("(default: o") != std::string::npos) { o.type = "bool"; o.on = s.find("(default: on)") != std::string::npos; } else continue;
        r.push_back(o); }
    if (r.size() < 60) c.fail("help", "--help lists only " + std::to_string(r.size()) + " options"); return r; }
static std::string num(double d, bool integer) { char b[64]; if (integer) snprintf(b, 64, "%.0f", d); else snprintf(b, 64, "%.12g", d); return b; }
static ref::Cnf menu(int i) { switch (i) {
    case 0: return {{1, 2}, {-1, 3}, {-2, -3}}; case 1: { ref::Cnf f = ref::base(0); return f; } case 2: { ref::Cnf f = ref::base(0); f.pop_back(); return f; } case 3: return ref::base(2); case 4: { ref::Cnf f = ref::base(2); f.pop_back(); return f; }
    case 5: return ref::base(5); case 6: return ref::php(6, 5); case 7: { ref::Cnf f = ref::xor_ring(10, 1, 4, 8); return f; } case 8: { ref::Cnf f = ref::php(6, 5); f.erase(f.begin()); return f; } case 9: return {{1}, {-1}}; case 10: return {}; case 11: return {{}}; case 12: { ref::Cnf f = ref::base(6); return f; } default: { ref::Cnf f = ref::xor_ring(10, 1, 4, 8); f.pop_back(); return f; } } }
enum { NMENU = 14 };
static int menuvars(int i) { return std::max(ref::maxvar(menu(i)), i == 10 ? 3 : 0); }
static int verdict(int i) { static int v[NMENU]; static bool done = false; if (!done) { for (int k = 0; k < NMENU; k++) v[k] = k == 6 ? 0 : k == 8 ? 1 : ref::sat(menu(k), std::max(1, menuvars(k))); done = true; } return v[i]; }
static const char* const skipopts[] = {"threads", "thread-initialization-delay", "static-database", "gate-stats", "test-model", "test-proof", "test-limit", "minimize", "model", "certified-output", "sonification-host", "sonification-port", "sonification-delay", "rs-rounds", nullptr};
static bool skipped(const std::string& n) { for (int i = 0; skipopts[i]; i++) if (n == skipopts[i]) return true; return false; }
// the documented values that an option is tried with
static std::vector<std::string> values(const Opt& o) { std::vector<std::string> v; auto P = [&](double d) { std::string s = "-" + o.name + "=" + num(d, o.type == "int"); for (auto& x : v) if (x == s) return; v.push_back(s); };
    if (o.type == "bool") return {"-" + o.name, "-no-" + o.name}; if (o.type == "int") { P(o.lo); if (o.lo < o.hi) { P(o.lo + 1); if (o.lo + 2 <= o.hi) P(o.lo + 2); P(o.hi); if (o.lo < 0) { P(0); P(1); P(2); P(-1); } } return v; }
    if (o.type == "double") { double e = (o.hi - o.lo) / 1000; P(o.linc ? o.lo : o.lo + e); P((o.lo + o.hi) / 2); P(o.hinc ? o.hi : o.hi - e); P(o.lo + 10 * e); return v; }
    if (o.name == "rsil-mode") return {"-rsil-mode=unrestricted", "-rsil-mode=vanishing", "-rsil-mode=implicationbudgeted"}; if (o.name == "rsar-heur-idc") return {"-rsar-heur-idc=", "-rsar-heur-idc=1", "-rsar-heur-idc=2 4", "-rsar-heur-idc=5 3  2", "-rsar-heur-idc=18446744073709551615", "-rsar-heur-idc=0"}; return v; }
// what makes an option have an effect at all
static std::vector<std::string> enabling(const std::string& n) { if (n.compare(0, 5, "vsids") == 0) return {"-use-vsidsc"}; if (n.compare(0, 3, "lrb") == 0) return {"-use-lrb"}; if (n.compare(0, 4, "rsil") == 0 || n == "advice-size") return {"-rsil-enable", "-rsil-min-gate-frac=0"}; if (n.compare(0, 4, "rsar") == 0) return {"-rsar-enable", "-rsar-min-gatecount=1"}; if (n.compare(0, 2, "rs") == 0 || n.compare(0, 4, "gate") == 0) return {"-rsar-enable", "-rsar-min-gatecount=1"}; if (n.compare(0, 8, "minimize") == 0) return {"-minimize"}; return {}; }
static Want want_for(const std::vector<std::string>& a) { Want w; for (auto& s : a) { if (s == "-model") w.model = true; if (s == "-no-model") w.model = false; if (s == "-minimize") w.minimize = true; if (s == "-minimize-project" || s == "-minimize-pruned") w.minproject = true; if (s == "-test-model") w.tmodel = true; if (s == "-test-proof") w.tproof = true; if (s.compare(0, 18, "-certified-output=") == 0) w.proof = true; if (s == "-gate-stats") w.gate = true; if (s.compare(0, 14, "-memory-limit=") == 0 && s != "-memory-limit=2147483647" && s != "-memory-limit=0") w.may_indet = true; } return w; }

int main(int argc, char** argv) {
    const char* b = getenv("CANDY_BUILD"); bin = std::string(b ? b : "/verif/build/rel") + "/candy"; if (access(bin.c_str(), X_OK)) { fprintf(stderr, "no %s\n", bin.c_str()); return 2; }
    mc::Explorer e("C12"); e.counter_names = {"answers_sat", "answers_unsat", "value_lines", "minimised_models", "refused_options", "self_tests", "proofs_checked", "read_from_stdin", "gate_statistics", "indeterminate"}; for (int i = 0; i < NFAM; i++) e.counter_names.push_back("family_" + std::to_string(i));
    e.opt.hang = 120; e.opt.hang_alone = 120;
    return e.main(argc, argv, [](mc::Ctx& c) {
        bool T = c.opt->thorough(); int only = c.opt->num("family", -1); int fam = only >= 0 ? only : c.choose(NFAM); c.count(K_F0 + fam);
        switch (fam) {
        case 0: { // formulas, default options, from file / stdin / gzip; with model or without
            ref::Cnf f; int n, ex = -1; int k = c.choose(3); if (k == 0) { f = ref::choose_set(c, ref::all_clauses(2, 0, 2), 3); n = 2; } else if (k == 1) { f = ref::base(c.choose(ref::NBASE)); n = ref::maxvar(f); ref::edit(c, f, n, T ? 5 : 2); } else { fam::Inst i = fam::gen(c, fam::LAYOUT, 0); f = i.f; n = i.n; if (!T && f.size() > 1 && (f[0].size() * 7 + f[1].size() * 3 + (f[1].empty() ? 0 : f[1][0] + 2)) % 3) throw mc::Prune(); }
            c.split(); int how = (int)(f.size() + (f.empty() ? 0 : f[0].size())) % 4; Want w; w.model = how != 3; w.in = how == 1; w.gz = how == 2; judge(c, f, n, w.model ? std::vector<std::string>{"-model"} : std::vector<std::string>{}, w, ex); break; }
        case 1: { // every documented boundary value of every option
            auto os = options(c); int i = c.choose((int)os.size()); if (skipped(os[i].name)) throw mc::Prune(); auto vs = values(os[i]); if (vs.empty()) throw mc::Prune(); int v = c.choose((int)vs.size()); c.split(); int m = c.choose(NMENU); if (os[i].name.compare(0, 5, "vsids") == 0 && !T && m % 4) throw mc::Prune();
            std::vector<std::string> a = enabling(os[i].name); a.push_back(vs[v]); a.push_back("-model"); judge(c, menu(m), menuvars(m), a, want_for(a), verdict(m)); break; }
        case 2: { // values outside the documented range and malformed values are refused
            auto os = options(c); int i = c.choose((int)os.size()); std::vector<std::string> bad; auto& o = os[i]; std::string p = "-" + o.name + "=";
            if (o.type == "int") { if (o.lo > INT32_MIN) bad.push_back(p + num(o.lo - 1, true)); bad.push_back(p + num(o.hi + 1, true)); bad.push_back(p + "4294967297"); bad.push_back(p + "-99999999999"); for (const char* s : {"", "x", "1x", " ", "--1", "1 2"}) bad.push_back(p + s); }
            else if (o.type == "double") { double d = (o.hi - o.lo) / 100; bad.push_back(p + num(o.lo - d, false)); bad.push_back(p + num(o.hi + d, false)); if (!o.linc) bad.push_back(p + num(o.lo, false)); if (!o.hinc) bad.push_back(p + num(o.hi, false)); for (const char* s : {"", "x", "0.5x", "nan", "1e", "inf", "-inf"}) bad.push_back(p + s); }
            else if (o.type == "bool") { bad = {"-" + o.name + "=1", "-" + o.name + "x", "-no-" + o.name + "x", "--" + o.name, "-noo-" + o.name}; } else { bad = {"-" + o.name, "-no-" + o.name}; if (o.name == "rsil-mode") for (const char* s : {"", "x", "vanish", "vanishing ", "Unrestricted", "unrestricted,vanishing", "2"}) bad.push_back(p + s); if (o.name == "rsar-heur-idc") for (const char* s : {"x", "3x", "x 3", "3 x", "-1", "99999999999999999999999", "3 99999999999999999999999", ",", "3,4", " ", "1.5"}) bad.push_back(p + s); }
            int v = c.choose((int)bad.size()); c.split(); int pos = c.choose(2); std::vector<std::string> a = pos ? std::vector<std::string>{"-model", bad[v]} : std::vector<std::string>{bad[v], "-model"}; c.describe("refuse " + args_text(a)); Run r = run(c, a, "p cnf 1 1\n1 0\n", false);
            if (r.sig || r.status != 1) c.fail("not-refused", "option \"" + bad[v] + "\" must be refused with exit code 1: status " + std::to_string(r.status) + " signal " + std::to_string(r.sig) + " output " + r.out.substr(0, 1000) + r.err.substr(0, 500)); for (auto& l : lines(r.out)) if (l.compare(0, 2, "s ") == 0 || l.compare(0, 1, "v") == 0) c.fail("not-refused", "an answer is printed although \"" + bad[v] + "\" is refused"); if (r.err.find("ERROR") == std::string::npos) c.fail("not-refused", "no error message for \"" + bad[v] + "\""); c.count(K_REFUSED); c.outcome(mc::mixs(9, bad[v])); break; }
        case 3: { // unreadable input
            static const char* const bad[] = {"p cnf 2 1\n1 x 0\n", "p cnf 2 1\n1 2\n", "hello", "p cnf 1 1\n1 99999999999 0\n", "p cnf a b\n1 0\n", "-none-", "1 0\n-", "\x1f\x8b\x08 garbage"}; int k = c.choose(8); int in = c.choose(2); if (in && k == 5) throw mc::Prune(); std::vector<std::string> a; static const char* const ex[] = {"", "-model", "-minimize", "-gate-stats", "-rsil-enable", "-use-lrb", "-test-model"}; int x = c.choose(7); if (x) a.push_back(ex[x]);
            c.describe("unreadable input " + std::to_string(k) + (in ? " stdin " : " file ") + args_text(a)); Run r = run(c, a, bad[k], in); if (r.sig || r.status != 1) c.fail("bad-input", "input that cannot be parsed must give exit code 1: status " + std::to_string(r.status) + " signal " + std::to_string(r.sig) + " " + r.out.substr(0, 800)); for (auto& l : lines(r.out)) if (l.compare(0, 2, "s ") == 0) c.fail("bad-input", "an answer is printed for unreadable input"); c.count(K_REFUSED); c.outcome(mc::mixs(11, args_text(a)) + k); break; }
        case 4: { // combinations of the output modes
            static const char* const modes[] = {"-model", "-minimize", "-minimize-pruned", "-minimize-minimal", "-minimize-project", "-test-model", "-test-proof", "-certified-output=proof", "-no-pre", "-gate-stats"}; std::vector<std::string> a; bool cert = false, tp = false; for (int i = 0; i < 10; i++) { if (!T && i == 9) { if (!a.empty() || !c.flag()) continue; a.push_back(modes[9]); continue; } if (c.flag()) { a.push_back(modes[i]); cert |= i == 7; tp |= i == 6; } } c.split(); int m = c.choose(NMENU); if (!T && (a.size() + m) % 3 == 0 && a.size() > 1) throw mc::Prune();
            if (tp || cert) a.push_back("-no-sort-variables"); Want w = want_for(a); w.in = (m + a.size()) % 5 == 0; judge(c, menu(m), menuvars(m), a, w, verdict(m)); break; }
        case 5: { // pairs of non-default settings
            static const char* const S[] = {"-use-lrb", "-static-propagate", "-rsil-enable", "-rsar-enable -rsar-min-gatecount=1", "-no-pre", "-inprocessing=1", "-sort-variables", "-no-elim", "-cl-lim=2", "-extra-bump", "-firstReduceDB=1 -incReduceDB=0", "-keep-median-lbd", "-no-recalculate-lbd", "-persistentLBD=0", "-K=0.99 -szLBDQueue=10", "-R=1.01 -szTrailQueue=10", "-rsil-enable -rsil-mode=vanishing -advice-size=2", "-rsil-enable -rsil-mode=implicationbudgeted", "-rsil-enable -rsil-only-miters", "-rsil-enable -rsil-filter-by-input-dependencies=2", "-rsil-enable -rsil-filter-by-input-dependencies=1 -rsil-filter-only-backbone", "-gate-recognition-method=1", "-gate-tries=1", "-verb=0", "-verb=2", "-certified-output=proof", "-test-model", "-test-proof", "-minimize", "-minimize -minimize-minimal", "-use-vsidsc", "-var-decay=0.01 -max-var-decay=0.02", "-rsar-enable -rsar-min-gatecount=1 -rsar-heur-idc=3"}; enum { NS = sizeof(S) / sizeof(S[0]) };
            int i = c.choose(NS), j = c.choose(NS); if (j <= i) throw mc::Prune(); c.split(); static const int QM[] = {1, 2, 3, 4, 6, 13}; int m = T ? c.choose(NMENU) : QM[c.choose(6)]; bool slow = i == 30 || j == 30; if (slow && !T && (m == 6 || m == 13 || m == 1)) throw mc::Prune(); std::vector<std::string> a; for (const char* s : {S[i], S[j]}) { std::istringstream is(s); std::string t; while (is >> t) { bool dup = false; for (auto& x : a) if (x == t) dup = true; if (!dup) a.push_back(t); } } a.push_back("-model"); a.push_back("-rs-rounds=4096"); judge(c, menu(m), menuvars(m), a, want_for(a), verdict(m)); break; }
        case 6: { // test-limit, order of file name and options, repeated options (the last one counts)
            int k = c.choose(4); int m = c.choose(NMENU); if (k == 0) { int lim = c.choose(4); static const int L[] = {0, 1, 5, 1000}; std::vector<std::string> a = {"-test-limit=" + std::to_string(L[lim]), "-model"}; if (L[lim] > 0 && ref::maxvar(menu(m)) > L[lim]) { c.describe(args_text(a) + ref::show(menu(m))); Run r = run(c, a, ref::dimacs(menu(m), menuvars(m)), false); if (r.sig || r.status != 0) c.fail("test-limit", "a problem above the limit must end with 0: " + std::to_string(r.status)); for (auto& l : lines(r.out)) if (l.compare(0, 2, "s ") == 0) c.fail("test-limit", "a problem above the limit is answered"); } else judge(c, menu(m), menuvars(m), a, want_for(a), verdict(m)); }
            else if (k == 1) { std::vector<std::string> a = {"-no-model", "-pre", "-model", "-no-pre"}; judge(c, menu(m), menuvars(m), a, want_for(a), verdict(m)); } else if (k == 2) { std::vector<std::string> a = {"-model", "-no-model"}; judge(c, menu(m), menuvars(m), a, want_for(a), verdict(m)); }
            else { std::vector<std::string> a = {dir.empty() ? "x" : "x"}; if (dir.empty()) run(c, {"--help"}, "", true); spit(dir + "/in", ref::dimacs(menu(m), menuvars(m))); Want w; w.model = true; w.in = true; judge(c, menu(m), menuvars(m), {dir + "/in", "-model"}, w, verdict(m)); } break; }
        case 7: { // paths of every length class, for the problem and for the proof
            static const int L[] = {7, 63, 64, 127, 128, 254, 255, 256, 257, 258, 300, 511, 512, 1000, 1023, 1024, 2000, 4000}; int len = L[c.choose(18)], k = c.choose(3); static const int QM[] = {1, 3, 10, 5}; int m = QM[c.choose(T ? 4 : 2)];
            if (dir.empty()) run(c, {"--help"}, "", true); auto path = [&](const std::string& pre, const std::string& name) { std::string s = pre; while ((int)(s.size() + name.size()) < len) s += "/"; return s + name; };
            if (k == 0) { if (len < (int)dir.size() + 3) throw mc::Prune(); spit(dir + "/in", ref::dimacs(menu(m), menuvars(m))); Want w; w.model = true; w.in = true; judge(c, menu(m), menuvars(m), {path(dir, "in"), "-model"}, w, verdict(m)); }
            else { std::vector<std::string> a = {"-certified-output=" + path(".", "proof"), "-no-sort-variables"}; if (k == 2) a.push_back("-test-proof"); judge(c, menu(m), menuvars(m), a, want_for(a), verdict(m)); } break; }
        }
    });
}
