// C06: reading DIMACS: the clauses read are exactly the clauses written, whatever the layout; malformed input is rejected with
// the parser's exception; no layout makes the reader crash, hang or drop / invent clauses.
#include "candy_common.h"
#include "candy/utils/Exceptions.h"
#include <zlib.h>
using namespace cd;
enum { K_OK, K_REJ, K_GZ, K_F0 };
static std::string path;
struct Read { int status; /* 0 read, 1 ParserException, 2 other exception */ ref::Cnf f; int nvars; std::string what; };
static ref::Clause norm(ref::Clause c, bool& taut) { std::sort(c.begin(), c.end(), [](int a, int b) { return std::abs(a) != std::abs(b) ? std::abs(a) < std::abs(b) : a > b; }); c.erase(std::unique(c.begin(), c.end()), c.end()); taut = false; for (size_t i = 1; i < c.size(); i++) if (c[i] == -c[i - 1]) taut = true; return c; }
static void put(const std::string& text, bool gz) {
    if (path.empty()) path = "/dev/shm/candy_c06_" + std::to_string(getpid());
    if (gz) { gzFile o = gzopen(path.c_str(), "wb1"); if (!text.empty()) gzwrite(o, text.data(), text.size()); gzclose(o); }
    else { FILE* o = fopen(path.c_str(), "wb"); fwrite(text.data(), 1, text.size(), o); fclose(o); }
}
static Read get(mc::Ctx& c, bool from_stdin) {
    Read r; r.status = 0; CNFProblem p;
    try { if (from_stdin) { int fd = open(path.c_str(), O_RDONLY); dup2(fd, 0); if (fd) close(fd); p.readDimacsFromStdin(); } else p.readDimacsFromFile(path.c_str()); }
    catch (ParserException& e) { r.status = 1; r.what = e.what(); }
    catch (std::exception& e) { r.status = 2; r.what = e.what(); }
    for (Cl* cl : p) { ref::Clause x; for (Lit l : *cl) x.push_back(dim(l)); r.f.push_back(x); }
    r.nvars = p.nVars(); c.step(); return r;
}
static std::string head(const std::string& t) { std::ostringstream o; std::string s = t.size() > 300 ? "..." + t.substr(t.size() - 300) : t; for (unsigned char ch : s) if (ch == '\n') o << "\\n"; else if (ch == '\r') o << "\\r"; else if (ch == '\t') o << "\\t"; else if (ch < 32 || ch > 126) o << "\\x" << (int)ch; else o << ch; return o.str(); }
static void expect(mc::Ctx& c, const std::string& text, bool valid, const ref::Cnf& raw, bool gz, bool in, int fam, const std::string& note = "") {
    c.describe((gz ? "gzipped " : "plain ") + std::string(in ? "stdin " : "file ") + std::to_string(text.size()) + " bytes " + note + " : " + head(text));
    put(text, gz); Read r = get(c, in); unlink(path.c_str());
    c.count(K_F0 + fam); if (gz) c.count(K_GZ);
    if (r.status == 2) c.fail("exception", "reading ends with an unexpected exception: " + r.what);
    if (!valid) { c.count(K_REJ); if (r.status != 1) c.fail("malformed-accepted", "malformed input is read without an error; clauses read: " + ref::show(r.f).substr(0, 500)); c.outcome(mc::mixs(7, head(text))); return; }
    c.count(K_OK);
    if (r.status == 1) c.fail("valid-rejected", "well-formed input is rejected: " + r.what);
    ref::Cnf want; int n = 0; for (auto& x : raw) { bool t; ref::Clause k = norm(x, t); if (!t) want.push_back(k); if (!k.empty()) n = std::max(n, std::abs(k.back())); }
    for (auto& x : r.f) { bool t; x = norm(x, t); }
    if (r.f != want) { size_t i = 0; while (i < r.f.size() && i < want.size() && r.f[i] == want[i]) i++; c.fail("clauses-differ", "read " + std::to_string(r.f.size()) + " clauses instead of " + std::to_string(want.size()) + "; first difference at clause " + std::to_string(i + 1) + ": read " + (i < r.f.size() ? ref::show(r.f[i]) : "-") + ", written " + (i < want.size() ? ref::show(want[i]) : "-")); }
    if (r.nvars < n) c.fail("variables", "number of variables " + std::to_string(r.nvars) + " is below the largest one, " + std::to_string(n));
    uint64_t h = fam; for (auto& x : want) { h = mc::mix(h, 99); for (int l : x) h = mc::mix(h, l + 1000); } c.outcome(h);
}
// reference reader for token sequences
struct Tok { const char* text; int kind; int v; }; // kind 0 number, 1 header, 2 comment (ends its line), 3 garbage
static const Tok toks[] = {{"0", 0, 0}, {"1", 0, 1}, {"-2", 0, -2}, {"30", 0, 30}, {"c 1 0 x", 2, 0}, {"p cnf 3 2", 1, 0}, {"x", 3, 0}, {"-", 3, 0}, {"%", 3, 0}, {"c", 2, 0}, {"-1", 0, -1}, {"p dnf 1 1", 3, 0}, {"9223372036854775807", 3, 0}, {"2147483648", 3, 0}, {"-99999999999999999999", 3, 0}, {"p cnf x 1", 3, 0}};
static const char* const seps[] = {" ", "\n", "\t", "\r\n", "  \n\n ", ""};
static void body(mc::Ctx& c) {
    bool T = c.opt->thorough(); int fam = c.choose(7);
    int only = c.opt->num("family", -1); if (only >= 0 && fam != only) throw mc::Prune();
    switch (fam) {
    case 0: { // every sequence of tokens, newline or blank separated
        int len = c.choose(T ? 6 : 5) + 1; std::string t; bool valid = true; ref::Cnf f; ref::Clause cur; bool open = false; int nt = sizeof(toks) / sizeof(toks[0]);
        int sp = c.choose(2); const char* sep = sp ? "\n" : " ";
        for (int i = 0; i < len; i++) {
            const Tok& k = toks[c.choose(len > 4 ? 7 : len > 3 ? 10 : nt)]; if (i == 1) c.split();
            t += k.text; t += k.kind == 2 || k.kind == 1 ? "\n" : (i == len - 1 && sp == 0 ? "" : sep);
            if (!valid) continue;
            if (k.kind == 0) { if (k.v == 0) { f.push_back(cur); cur.clear(); open = false; } else { cur.push_back(k.v); open = true; } }
            else if (k.kind == 3) valid = false; else if (open) valid = false;           // header or comment inside a clause
        }
        if (open) valid = false;
        c.split(); expect(c, t, valid, f, false, false, fam); break; }
    case 1: { // layout: all separators between the numbers of some clauses, end of file with and without newline, plain / gzip / stdin
        static const std::vector<ref::Cnf> fs = {{{1, -2}, {3}}, {{}}, {{1, 1, -3}, {2, -2, 4}, {-5}}, {{2147483, -1}}, {{-7, 7}}, {{1}, {}, {2}}};
        const ref::Cnf& f = fs[c.choose(fs.size())]; bool gz = c.flag(), in = c.flag(); int lead = c.choose(4); c.split(); std::string t = lead == 1 ? "c comment\n" : lead == 2 ? "p cnf 9 9\n" : lead == 3 ? "\n \t" : "";
        int nsep = 0; for (auto& cl : f) nsep += cl.size() + 1; int base = c.choose(5), at = c.choose(nsep), alt = c.choose(6); int i = 0;
        for (auto& cl : f) { for (int l : cl) { t += std::to_string(l); const char* s = seps[i == at ? alt : base]; t += *s ? s : " "; i++; } t += "0"; const char* s = seps[i == at ? alt : base]; bool last = i == nsep - 1; t += (*s || last) ? s : " "; i++; }
        expect(c, t, true, f, gz, in, fam); break; }
    case 2: case 3: { // tokens across the reader's 1 MiB buffer boundary
        static const std::vector<std::string> tails = {"12 -34 0\n56 0\n", "12\n-34\n0\n56\n0\n", "12 -34 0\n0\n", "12  -34  0 \n 56 0", "c x 1 0\n12 -34 0\n56 0\n", "p cnf 99 99\n12 -34 0\n56 0\n", "12\r\n-34 0\r\n56 0\r\n", "12 -34 0 56 0 12 -34 0 56 0"};
        static const std::vector<ref::Cnf> want = {{{12, -34}, {56}}, {{12, -34}, {56}}, {{12, -34}, {}}, {{12, -34}, {56}}, {{12, -34}, {56}}, {{12, -34}, {56}}, {{12, -34}, {56}}, {{12, -34}, {56}, {12, -34}, {56}}};
        int ti = c.choose(tails.size()), pad = c.choose(6); if (fam == 3 && pad > 1 && !T) throw mc::Prune(); int k = c.choose(T ? 60 : 34); bool gz = fam == 3; int chunks = T ? 1 + c.choose(2) : 1; c.split();
        const size_t B = (size_t)1024 * 1024 * chunks; size_t n = B - k; std::string p; ref::Cnf f;
        if (pad == 0) { p = "c " + std::string(n - 3, 'x') + "\n"; }                       // one long comment line
        else if (pad == 1) { while (p.size() + 10 < n) { p += "7 8 0\n"; f.push_back({7, 8}); } while (p.size() < n) p += (p.size() + 1 == n) ? "\n" : " "; } // short clauses, then blanks
        else if (pad == 2) { while (p.size() + 10 < n) { p += "-9 0 "; f.push_back({-9}); } while (p.size() < n) p += " "; }                         // a single line
        else if (pad == 3) { p.assign(n, '\n'); }
        else if (pad == 4) { ref::Clause big; int v = 1; while (p.size() + 12 < n) { p += std::to_string(v) + "\n"; big.push_back(v++); } p += "0"; f.push_back(big); while (p.size() < n) p += " "; } // one clause over many lines
        else { ref::Clause big; int v = 1; while (p.size() + 12 < n) { p += std::to_string(v) + " "; big.push_back(v++); } while (p.size() < n) p += " "; ref::Cnf w = want[ti]; if (tails[ti][0] != '1') throw mc::Prune(); big.insert(big.end(), w[0].begin(), w[0].end()); w[0] = big; expect(c, p + tails[ti], true, w, gz, false, fam, "padding 5, boundary at tail byte " + std::to_string(k)); break; } // the boundary lies within a long clause
        for (auto& x : want[ti]) f.push_back(x);
        expect(c, p + tails[ti], true, f, gz, c.opt->thorough() ? c.flag() : false, fam, "padding " + std::to_string(pad) + ", boundary at tail byte " + std::to_string(k)); break; }
    case 4: { // truncation: every prefix of a file is either rejected or gives a prefix of the clauses
        static const std::string t = "c demo\np cnf 5 4\n1 -2 0\n3\n-4 5 0\n-1 0\n2 -5 0\n"; static const ref::Cnf f = {{1, -2}, {3, -4, 5}, {-1}, {2, -5}};
        size_t cut = c.choose(t.size() + 1); bool gz = c.flag(), big = c.flag(); c.split(); std::string s = t.substr(0, cut); std::string filler; if (big) filler = "c " + std::string(1024 * 1024 - 20, 'y') + "\n";
        c.describe("prefix of " + std::to_string(cut) + " bytes"); put(filler + s, gz); Read r = get(c, false); unlink(path.c_str()); c.count(K_F0 + fam);
        if (r.status == 2) c.fail("exception", "unexpected exception " + r.what);
        // oracle: count complete clauses in the prefix; rejected iff the cut leaves an open clause or an incomplete header
        std::istringstream is(s); std::string w; ref::Cnf got; ref::Clause cur; bool open = false, bad = false; std::string line;
        size_t body = t.find("1 -2"); if (cut <= body) { bad = false; if (cut > 7 && cut < 16 + 1) { std::string h = s.substr(7); int ints = 0; std::istringstream hs(h); std::string a, b2; hs >> a >> b2; int x; while (hs >> x) ints++; bad = a != "p" || b2 != "cnf" || ints < 2; } }
        else { std::istringstream bs(s.substr(body)); while (bs >> w) { if (w == "-") { bad = true; break; } int v = atoi(w.c_str()); if (v == 0) { got.push_back(cur); cur.clear(); open = false; } else { cur.push_back(v); open = true; } } if (open) bad = true; }
        if (bad != (r.status == 1)) c.fail(bad ? "malformed-accepted" : "valid-rejected", "file cut after " + std::to_string(cut) + " bytes: " + (bad ? "the incomplete last clause or header is not reported" : "rejected: " + r.what));
        if (!bad) { for (auto& x : r.f) { bool tt; x = norm(x, tt); } for (auto& x : got) { bool tt; x = norm(x, tt); } if (r.f != got) c.fail("clauses-differ", "file cut after " + std::to_string(cut) + " bytes: read " + ref::show(r.f) + " instead of " + ref::show(got)); }
        c.outcome(mc::mix(cut, r.status)); break; }
    case 5: { // damaged gzip files are rejected: every truncation and every flipped byte of the compressed data
        std::string t; for (int i = 1; i < 40; i++) t += std::to_string(i * 7 % 41 + 1) + " -" + std::to_string(i * 5 % 43 + 1) + " 0\n"; put(t, true); std::ifstream in(path); std::stringstream ss; ss << in.rdbuf(); std::string z = ss.str(); in.close();
        int kind = c.choose(2); int pos = 10 + c.choose((int)z.size() - 18); c.split(); std::string d = z; if (kind == 0) d.resize(pos); else d[pos] ^= 0x5a;
        c.describe((kind ? "gzip byte changed at " : "gzip cut at ") + std::to_string(pos)); put(d, false); Read r = get(c, false); unlink(path.c_str()); c.count(K_F0 + fam);
        if (r.status != 1) c.fail("damaged-accepted", "a damaged gzip file is read without an error (" + std::to_string(r.f.size()) + " clauses)"); c.count(K_REJ); c.outcome(mc::mix(pos, kind)); break; }
    case 6: { // what is printed can be read again
        static const std::vector<ref::Clause> m = ref::all_clauses(3, 0, 3); ref::Cnf f = ref::choose_set(c, m, T ? 3 : 2); CNFProblem p; load(p, f);
        std::ostringstream o; auto* old = std::cout.rdbuf(o.rdbuf()); p.printDIMACS(); std::cout.rdbuf(old);
        expect(c, o.str(), true, f, false, false, fam); break; }
    }
}
int main(int argc, char** argv) {
    mc::Explorer e("C06"); e.counter_names = {"read", "rejected", "gzip", "token_sequences", "layouts", "buffer_boundary", "buffer_boundary_gzip", "truncated", "damaged_gzip", "printed_and_read"};
    return e.main(argc, argv, body);
}
