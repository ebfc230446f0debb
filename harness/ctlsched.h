// ctlsched.h - a controlled scheduler for code compiled with -fsanitize=thread and linked WITHOUT the sanitizer's runtime.
//
// This file supplies that runtime.  Every memory access of the code under test arrives here (with its code address), and so does
// every pthread operation.  One thread runs at a time; at every scheduling point the next one is a choice of the explorer:
//   - synchronisation operations (create, join, lock, unlock, wait, signal, atomics, sleep, signal()) are always scheduling points,
//   - a plain memory access is one if its code address is known to take part in a data race: two accesses to the same bytes, one
//     of them a write, that no synchronisation orders (vector clocks).  Accesses that are ordered need no scheduling point, since
//     exchanging them with the neighbours changes nothing.
// The set of racing code addresses is found by a fixpoint: explorations are repeated until no new one turns up.
// Asynchronous signals are delivered at a point chosen by the explorer (once per execution), and so are jumps of the clock.
#pragma once
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <errno.h>
#include <iostream>
#include <map>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <vector>

namespace cs {
enum { MAXT = 20, HANDLER = MAXT, NVC = MAXT + 1, MAXC = 4000, SITEBITS = 1 << 18, MAXSITES = 512 };
enum End { NONE, EXITED, RETURNED, STEPCAP, DEADLOCK, KILLED_BY_SIGNAL, TOO_DEEP, TOO_MANY_THREADS };
struct Shm { // one per worker, shared with its children
    int plen; int prefix[MAXC]; int n; int choice[MAXC]; int arity[MAXC];
    int end, code; int signalled, sig_disposition, jumped; uint64_t steps, points, accesses; int threads, switches, preempted; uint64_t race; char note[256];
    int why[MAXC];
};
struct Sites { std::atomic<uint32_t> epoch; std::atomic<uint32_t> nlate; uint8_t active[SITEBITS]; uint8_t late[SITEBITS]; std::atomic<uint32_t> nlist; uintptr_t list[MAXSITES]; };
struct Config { int preemptions = 2; bool rr = false; // rr: by default every thread in turn makes one step; otherwise one thread runs until it waits
    int slice = 2000; // rr only: accesses after which a thread's turn ends
    bool signal = false; int signum = SIGINT; bool timejump = false; uint64_t stepcap = 200000; };

static Shm* shm; static Sites* sites; static Config cfg; static bool active = false;
struct VC { uint32_t c[NVC]; };
struct Th { sem_t sem; pthread_t real; bool used, finished, detached; int kind; const void* obj; uint64_t stamp; bool sleeping; VC vc; void* (*fn)(void*); void* arg; void* ret; bool woken; uintptr_t lo, hi; };
static Th th[MAXT]; static int nth = 0, cur = 0, left = 0; static uint64_t gstep = 0;
static __thread int tid = -1; static __thread int in_rt = 0; static __thread bool in_handler = false;
enum { RUN, MUTEX, JOIN, COND, GUARD, RW_R, RW_W, ONCE };
struct M { int owner = -1, depth = 0, readers = 0; VC vc; M() { memset(&vc, 0, sizeof vc); } };
static std::map<const void*, M>* ms; static std::map<const void*, VC>* avc; // only touched under the token
struct In { In() { in_rt++; } ~In() { in_rt--; } };
static inline bool on() { return active && tid >= 0 && !in_rt; }

[[noreturn]] static void finish(int end, int code) { in_rt++; shm->end = end; shm->code = code; std::cout.flush(); fflush(stdout); shm->steps = gstep; shm->threads = nth; _exit(0); }
static int decide(int n, int why) {
    if (n <= 1) return 0; int i = shm->n; if (i >= MAXC) finish(TOO_DEEP, 0);
    int v = i < shm->plen ? shm->prefix[i] : 0; if (v >= n) v = n - 1; shm->choice[i] = v; shm->arity[i] = n; shm->why[i] = why; shm->n = i + 1; return v;
}
static bool runnable(int t) {
    Th& x = th[t]; if (!x.used || x.finished) return false;
    if (x.sleeping) return false;
    switch (x.kind) { case RUN: return true; case MUTEX: return (*ms)[x.obj].owner < 0 && (*ms)[x.obj].readers == 0; case JOIN: return th[(intptr_t)x.obj].finished; case COND: return x.woken; case GUARD: case ONCE: return (*ms)[x.obj].owner < 0;
    case RW_R: return (*ms)[x.obj].owner < 0; case RW_W: return (*ms)[x.obj].owner < 0 && (*ms)[x.obj].readers == 0; } return false;
}
// sleeping: may go on as soon as somebody else has made a step, or when nobody else can
static bool awake(int t) { Th& x = th[t]; return x.used && !x.finished && x.sleeping && x.stamp < gstep; }
static void hand(int next) { int me = tid; cur = next; if (next != me) { shm->switches++; sem_post(&th[next].sem); while (sem_wait(&th[me].sem) && errno == EINTR) { } } th[me].sleeping = false; }
static void deliver() {
    struct sigaction sa; sigaction(cfg.signum, nullptr, &sa); shm->signalled = 1; shm->sig_disposition = sa.sa_handler == SIG_DFL ? 0 : sa.sa_handler == SIG_IGN ? 1 : 2;
    if (sa.sa_handler == SIG_DFL) finish(KILLED_BY_SIGNAL, 0); if (sa.sa_handler == SIG_IGN) return;
    int save = in_rt; in_rt = 0; in_handler = true; raise(cfg.signum); in_handler = false; in_rt = save;
}
enum { W_RACE = 1, W_SYNC, W_SLEEP, W_BLOCK, W_END, W_CLOCK, W_SIGNAL, W_SLICE };
static void point(int why) { // the running thread is at a scheduling point (its state tells whether it can go on)
    if (in_handler) return; shm->points++;
    Th& me = th[tid]; if (++gstep > cfg.stepcap) finish(STEPCAP, 0);
    for (;;) {
        int opt[MAXT + 2], n = 0; bool can = !me.finished && runnable(tid); bool sig = cfg.signal && !shm->signalled && !me.finished;
        if (cfg.rr) { for (int k = 1; k <= nth; k++) { int t = (tid + k) % nth; if (n && left <= 0) break; if (t == tid ? can : runnable(t) || awake(t)) opt[n++] = t; } if (n) can = true; }
        else if (can) opt[n++] = tid;
        if (!cfg.rr && (!can || left > 0)) { for (int k = 1; k < nth; k++) { int t = (tid + k) % nth; if (runnable(t) || awake(t)) opt[n++] = t; } }
        if (!can && n == 0) { if (me.sleeping && !me.finished) opt[n++] = tid; else for (int k = 0; k < nth; k++) if (th[k].used && !th[k].finished && th[k].sleeping) { opt[n++] = k; break; } }
        if (n == 0) finish(DEADLOCK, 0);
        int total = n + (sig ? 1 : 0); int v = decide(total, why);
        if (sig && v == total - 1) { deliver(); if (!can) continue; left += 0; continue; }
        if (can && v > 0) { left--; shm->preempted++; }
        if (me.finished) { cur = opt[v]; shm->switches++; sem_post(&th[opt[v]].sem); return; }
        hand(opt[v]); return;
    }
}
static void block(int kind, const void* obj) { Th& me = th[tid]; me.kind = kind; me.obj = obj; while (!runnable(tid)) point(W_BLOCK); me.kind = RUN; }
static void join_vc(VC& a, const VC& b) { for (int i = 0; i < NVC; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
static void acquire(const VC& v) { join_vc(th[tid].vc, v); }
static void release(VC& v) { join_vc(v, th[tid].vc); th[tid].vc.c[tid]++; }

// --- shadow memory: the last accesses of every 8 bytes
struct Cell { struct R { uint8_t tid, mask; uint32_t clk; uint32_t site; } w[2], r[3]; };
enum { NPAGE = 1 << 15, POOL = 1 << 13 }; // shadow pages of 512 cells, found by hashing
struct Page { uintptr_t key; Cell* cells; };
static Page* pages; static Cell* pool; static size_t pool_used = 0; static uint32_t hclk = 0; static uintptr_t base0;
static inline Page* page(uintptr_t pg, bool make) { size_t i = (pg * 0x9e3779b97f4a7c15ull) >> 49; for (int k = 0; k < NPAGE; k++) { Page& c = pages[(i + k) & (NPAGE - 1)]; if (c.key == pg) return &c; if (!c.key) { if (!make) return nullptr; if (pool_used >= POOL) { /* forget everything: races may be missed, none is made up */ pool_used = 0; memset(pages, 0, sizeof(Page) * (size_t)NPAGE); madvise(pool, sizeof(Cell) * 512 * (size_t)POOL, MADV_DONTNEED); return page(pg, make); } c.key = pg; c.cells = pool + 512 * pool_used++; return &c; } } return nullptr; }
static inline Cell& cell(uintptr_t g) { return page(g >> 9, true)->cells[g & 511]; }
static inline uint32_t shash(uintptr_t pc) { uint64_t h = (pc - base0) * 0x9e3779b97f4a7c15ull; return (uint32_t)(h >> 46) & (SITEBITS - 1); }
static void racy(uint32_t site, uintptr_t pc) { if (!sites->active[site] && !__sync_lock_test_and_set(&sites->late[site], 1)) { sites->nlate++; if (pc) { uint32_t i = sites->nlist.fetch_add(1); if (i < MAXSITES) sites->list[i] = pc - base0; } } }
static uintptr_t cout_lo, cout_hi; static int slice_used = 0;
static void access(const void* p, int size, bool write, void* ra) {
    if (!on()) return; uintptr_t a = (uintptr_t)p; Th& t = th[tid];
    if (tid > 0 && a >= t.lo && a < t.hi) return; if (a >= cout_lo && a < cout_hi) return;
    In in; uintptr_t pc = (uintptr_t)ra; uint32_t s = shash(pc); shm->accesses++;
    if (sites->active[s]) point(W_RACE); else if (cfg.rr && !in_handler && ++slice_used > cfg.slice) { slice_used = 0; point(W_SLICE); }
    int who = in_handler ? HANDLER : tid; uint32_t clk = in_handler ? ++hclk : t.vc.c[tid];
    for (uintptr_t g = a >> 3; g <= (a + size - 1) >> 3; g++) {
        uintptr_t lo = g << 3, b = a > lo ? a - lo : 0, e = a + size < lo + 8 ? a + size - lo : 8; uint8_t m = (uint8_t)(((1u << e) - 1) & ~((1u << b) - 1)); Cell& c = cell(g);
        auto ordered = [&](int q, uint32_t k) { return q == who || (who != HANDLER && q != HANDLER && t.vc.c[q] >= k); };
        auto race = [&](Cell::R& r) { racy(s, pc); racy(r.site, 0); if (who != HANDLER && r.tid != HANDLER && !shm->race) shm->race = pc - base0; }; // (a signal handler runs in a thread of its own here, though it is none)
        for (auto& r : c.w) if ((r.mask & m) && !ordered(r.tid, r.clk)) race(r);
        if (write) for (auto& r : c.r) if ((r.mask & m) && !ordered(r.tid, r.clk)) race(r);
        auto put = [&](Cell::R* v, int n) { Cell::R* slot = nullptr; for (int i = 0; i < n; i++) if (v[i].mask && v[i].tid == who) { slot = &v[i]; break; } if (!slot) for (int i = 0; i < n; i++) if (!v[i].mask || ordered(v[i].tid, v[i].clk)) { slot = &v[i]; slot->mask = 0; break; } if (!slot) { slot = &v[g % n]; slot->mask = 0; } slot->tid = who; slot->mask |= m; slot->clk = clk; slot->site = s; };
        if (write) { for (auto& r : c.r) r.mask &= ~m; for (auto& r : c.w) r.mask &= ~m; put(c.w, 2); } else put(c.r, 3);
    }
}
// freshly allocated memory has no history
static void fresh(const void* p, size_t n) {
    if (!pages || !p || !n) return; uintptr_t a = (uintptr_t)p >> 3, e = ((uintptr_t)p + n - 1) >> 3;
    for (uintptr_t pg = a >> 9; pg <= e >> 9; pg++) { Page* q = page(pg, false); if (!q) continue; size_t lo = pg == a >> 9 ? a & 511 : 0, hi = pg == e >> 9 ? e & 511 : 511; memset(q->cells + lo, 0, (hi - lo + 1) * sizeof(Cell)); } }
static void range(const void* p, size_t n, bool w, void* ra) { for (size_t i = 0; i < n; i += 8) access((const char*)p + i, (int)std::min<size_t>(8, n - i), w, ra); }
static void sync(const void* a, bool acq, bool rel) { if (!on()) return; In in; point(W_SYNC); VC& v = (*avc)[a]; if (acq) acquire(v); if (rel) release(v); }

template <class F> static F real(const char* n) { static_assert(sizeof(F) == sizeof(void*), ""); void* p = dlsym(RTLD_NEXT, n); F f; memcpy(&f, &p, sizeof f); return f; }
static void stack_of(int t) { pthread_attr_t at; if (pthread_getattr_np(pthread_self(), &at)) return; void* p; size_t n; pthread_attr_getstack(&at, &p, &n); th[t].lo = (uintptr_t)p; th[t].hi = (uintptr_t)p + n; pthread_attr_destroy(&at); }
// start controlling: the calling thread becomes thread 0
static void start(const Config& k, Shm* s, Sites* si) {
    cfg = k; shm = s; sites = si; left = k.preemptions; shm->n = 0; shm->end = NONE; shm->code = 0; shm->signalled = shm->jumped = 0; shm->steps = shm->points = shm->accesses = 0; shm->switches = shm->preempted = 0; shm->race = 0; shm->note[0] = 0;
    auto mm = [](size_t n) { return mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }; pool = (Cell*)mm(sizeof(Cell) * 512 * (size_t)POOL); pages = (Page*)mm(sizeof(Page) * (size_t)NPAGE);
    ms = new std::map<const void*, M>(); avc = new std::map<const void*, VC>(); memset((void*)th, 0, sizeof th); nth = 1; cur = 0; tid = 0; th[0].used = true; th[0].real = pthread_self(); th[0].vc.c[0] = 1; sem_init(&th[0].sem, 0, 0);
    cout_lo = (uintptr_t)&std::cout; cout_hi = cout_lo + sizeof(std::ostream); active = true;
}
static void* tramp(void* p) {
    int me = (int)(intptr_t)p; tid = me; { In in; stack_of(me); while (sem_wait(&th[me].sem) && errno == EINTR) { } th[me].sleeping = false; }
    void* r = th[me].fn(th[me].arg); { In in; th[me].ret = r; th[me].finished = true; point(W_END); } tid = -1; return r;
}
static int slot_of(pthread_t p) { for (int i = 0; i < nth; i++) if (th[i].used && pthread_equal(th[i].real, p)) return i; return -1; }
static void snooze() { In in; th[tid].sleeping = true; th[tid].stamp = gstep + 1; point(W_SLEEP); th[tid].sleeping = false; }
} // namespace cs

extern "C" {
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
    static auto r = cs::real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create"); if (!cs::on()) return r(t, a, f, arg);
    cs::In in; if (cs::nth >= cs::MAXT) cs::finish(cs::TOO_MANY_THREADS, 0); int k = cs::nth; cs::Th& x = cs::th[k]; x.fn = f; x.arg = arg; sem_init(&x.sem, 0, 0); x.kind = cs::RUN; x.vc = cs::th[cs::tid].vc; x.vc.c[k] = 1; cs::th[cs::tid].vc.c[cs::tid]++;
    int e = r(t, a, cs::tramp, (void*)(intptr_t)k); if (e) return e; x.real = *t; x.used = true; cs::nth++; cs::point(cs::W_SYNC); return 0; }
int pthread_join(pthread_t t, void** ret) {
    static auto r = cs::real<int (*)(pthread_t, void**)>("pthread_join"); if (!cs::on()) return r(t, ret); cs::In in; int k = cs::slot_of(t); if (k < 0) return r(t, ret); cs::point(cs::W_SYNC); cs::block(cs::JOIN, (void*)(intptr_t)k); cs::acquire(cs::th[k].vc); if (ret) *ret = cs::th[k].ret; return r(t, ret); }
int pthread_mutex_lock(pthread_mutex_t* m) {
    static auto r = cs::real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock"); if (!cs::on()) return r(m); cs::In in; cs::point(cs::W_SYNC); cs::M& x = (*cs::ms)[m];
    if (x.owner == cs::tid && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { x.depth++; return 0; } cs::block(cs::MUTEX, m); x.owner = cs::tid; x.depth = 1; cs::acquire(x.vc); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) {
    static auto r = cs::real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock"); if (!cs::on()) return r(m); cs::In in; cs::point(cs::W_SYNC); cs::M& x = (*cs::ms)[m]; if (x.owner >= 0) return EBUSY; x.owner = cs::tid; x.depth = 1; cs::acquire(x.vc); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) {
    static auto r = cs::real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock"); if (!cs::on()) return r(m); cs::In in; cs::M& x = (*cs::ms)[m]; if (x.owner != cs::tid) return r(m); if (--x.depth > 0) return 0; x.owner = -1; cs::release(x.vc); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { static auto r = cs::real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock"); if (!cs::on()) return r(m); cs::In in; cs::point(cs::W_SYNC); cs::block(cs::RW_R, m); cs::M& x = (*cs::ms)[m]; x.readers++; cs::acquire(x.vc); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { static auto r = cs::real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock"); if (!cs::on()) return r(m); cs::In in; cs::point(cs::W_SYNC); cs::block(cs::RW_W, m); cs::M& x = (*cs::ms)[m]; x.owner = cs::tid; cs::acquire(x.vc); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { static auto r = cs::real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock"); if (!cs::on()) return r(m); cs::In in; cs::M& x = (*cs::ms)[m]; if (x.owner == cs::tid) x.owner = -1; else x.readers--; cs::release(x.vc); return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    static auto r = cs::real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait"); if (!cs::on()) return r(c, m); cs::In in; cs::M& x = (*cs::ms)[m]; x.owner = -1; cs::release(x.vc); cs::th[cs::tid].woken = false; cs::block(cs::COND, c); cs::block(cs::MUTEX, m); x.owner = cs::tid; x.depth = 1; cs::acquire(x.vc); return 0; }
static int cs_timedwait(pthread_cond_t* c, pthread_mutex_t* m) { cs::In in; cs::M& x = (*cs::ms)[m]; x.owner = -1; cs::release(x.vc); cs::th[cs::tid].woken = false; cs::th[cs::tid].kind = cs::COND; cs::th[cs::tid].obj = c; cs::snooze(); bool w = cs::th[cs::tid].woken; cs::th[cs::tid].kind = cs::RUN; cs::block(cs::MUTEX, m); x.owner = cs::tid; x.depth = 1; cs::acquire(x.vc); return w ? 0 : ETIMEDOUT; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { static auto r = cs::real<int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*)>("pthread_cond_timedwait"); if (!cs::on()) return r(c, m, ts); return cs_timedwait(c, m); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) { static auto r = cs::real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)>("pthread_cond_clockwait"); if (!cs::on()) return r(c, m, k, ts); return cs_timedwait(c, m); }
int pthread_cond_broadcast(pthread_cond_t* c) { static auto r = cs::real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast"); if (!cs::on()) return r(c); cs::In in; cs::point(cs::W_SYNC); for (int i = 0; i < cs::nth; i++) if (cs::th[i].kind == cs::COND && cs::th[i].obj == c) { cs::th[i].woken = true; cs::th[i].sleeping = false; } return 0; }
int pthread_cond_signal(pthread_cond_t* c) { static auto r = cs::real<int (*)(pthread_cond_t*)>("pthread_cond_signal"); if (!cs::on()) return r(c); cs::In in; cs::point(cs::W_SYNC); std::vector<int> w; for (int i = 0; i < cs::nth; i++) if (cs::th[i].kind == cs::COND && cs::th[i].obj == c && !cs::th[i].woken) w.push_back(i); if (w.empty()) return 0; int k = w[cs::decide((int)w.size(), cs::W_SYNC)]; cs::th[k].woken = true; cs::th[k].sleeping = false; return 0; }
int pthread_once(pthread_once_t* o, void (*f)()) { static auto r = cs::real<int (*)(pthread_once_t*, void (*)())>("pthread_once"); if (!cs::on()) return r(o, f); { cs::In in; cs::point(cs::W_SYNC); cs::block(cs::ONCE, o); cs::M& x = (*cs::ms)[o]; if (x.depth) { cs::acquire(x.vc); return 0; } if (*(volatile int*)o & 2) return 0; x.owner = cs::tid; } f(); { cs::In in; cs::M& x = (*cs::ms)[o]; x.owner = -1; x.depth = 1; *(volatile int*)o = 2; cs::release(x.vc); } return 0; }
int __cxa_guard_acquire(long* g) { char* p = (char*)g; if (__atomic_load_n(p, __ATOMIC_ACQUIRE)) { return 0; } if (!cs::on()) { if (p[1]) return 1; p[1] = 1; return 1; } cs::In in; cs::point(cs::W_SYNC); cs::block(cs::GUARD, g); cs::M& x = (*cs::ms)[g]; if (*p) { cs::acquire(x.vc); return 0; } x.owner = cs::tid; return 1; }
void __cxa_guard_release(long* g) { char* p = (char*)g; __atomic_store_n(p, 1, __ATOMIC_RELEASE); p[1] = 0; if (!cs::on()) return; cs::In in; cs::M& x = (*cs::ms)[g]; x.owner = -1; cs::release((*cs::avc)[g]); cs::release(x.vc); }
void __cxa_guard_abort(long* g) { char* p = (char*)g; p[1] = 0; if (!cs::on()) return; cs::In in; (*cs::ms)[g].owner = -1; }
int nanosleep(const struct timespec* a, struct timespec* b) { static auto r = cs::real<int (*)(const struct timespec*, struct timespec*)>("nanosleep"); if (!cs::on()) return r(a, b); cs::snooze(); return 0; }
int clock_nanosleep(clockid_t k, int f, const struct timespec* a, struct timespec* b) { static auto r = cs::real<int (*)(clockid_t, int, const struct timespec*, struct timespec*)>("clock_nanosleep"); if (!cs::on()) return r(k, f, a, b); cs::snooze(); return 0; }
int usleep(useconds_t u) { static auto r = cs::real<int (*)(useconds_t)>("usleep"); if (!cs::on()) return r(u); cs::snooze(); return 0; }
int sched_yield() { static auto r = cs::real<int (*)()>("sched_yield"); if (!cs::on()) return r(); cs::snooze(); return 0; }
int gettimeofday(struct timeval* tv, void* tz) { static auto r = cs::real<int (*)(struct timeval*, void*)>("gettimeofday"); int e = r(tv, tz); if (!cs::on() || !cs::cfg.timejump) return e; cs::In in; if (!cs::shm->jumped && cs::decide(2, cs::W_CLOCK)) cs::shm->jumped = 1; if (cs::shm->jumped) tv->tv_sec += 100000; return e; }
sighandler_t signal(int s, sighandler_t h) { static auto r = cs::real<sighandler_t (*)(int, sighandler_t)>("signal"); if (cs::on()) { cs::In in; cs::point(cs::W_SIGNAL); } return r(s, h); }
int sigaction(int s, const struct sigaction* a, struct sigaction* b) { static auto r = cs::real<int (*)(int, const struct sigaction*, struct sigaction*)>("sigaction"); if (cs::on() && a) { cs::In in; cs::point(cs::W_SIGNAL); } return r(s, a, b); }
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int code) __attribute__((noreturn));
void __wrap_exit(int code) { if (cs::active) cs::finish(cs::EXITED, code); __real_exit(code); }

void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
void* malloc(size_t n) { void* p = __libc_malloc(n); if (cs::on()) cs::fresh(p, n); return p; }
void free(void* p) { __libc_free(p); }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); if (cs::on()) cs::fresh(p, a * b); return p; }
void* realloc(void* q, size_t n) { void* p = __libc_realloc(q, n); if (cs::on()) cs::fresh(p, n); return p; }
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); if (cs::on()) cs::fresh(p, n); return p; }
void* aligned_alloc(size_t a, size_t n) { void* p = __libc_memalign(a, n); if (cs::on()) cs::fresh(p, n); return p; }
int posix_memalign(void** o, size_t a, size_t n) { void* p = __libc_memalign(a, n); if (!p) return ENOMEM; if (cs::on()) cs::fresh(p, n); *o = p; return 0; }

// the sanitizer's interface
#define RA __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_read(void** p) { cs::access(p, 8, false, RA); }
void __tsan_vptr_update(void** p, void*) { cs::access(p, 8, true, RA); }
void __tsan_read_range(void* p, long n) { cs::range(p, n, false, RA); }
void __tsan_write_range(void* p, long n) { cs::range(p, n, true, RA); }
#define CS_RW(N) \
    void __tsan_read##N(void* p) { cs::access(p, N, false, RA); } void __tsan_write##N(void* p) { cs::access(p, N, true, RA); } \
    void __tsan_unaligned_read##N(void* p) { cs::access(p, N, false, RA); } void __tsan_unaligned_write##N(void* p) { cs::access(p, N, true, RA); } \
    void __tsan_volatile_read##N(void* p) { cs::access(p, N, false, RA); } void __tsan_volatile_write##N(void* p) { cs::access(p, N, true, RA); }
CS_RW(1) CS_RW(2) CS_RW(4) CS_RW(8) CS_RW(16)
#define CS_AT(B, T) \
    T __tsan_atomic##B##_load(const volatile T* p, int) { cs::sync((const void*)p, true, false); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##B##_store(volatile T* p, T v, int) { cs::sync((const void*)p, false, true); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_exchange(volatile T* p, T v, int) { cs::sync((const void*)p, true, true); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int) { cs::sync((const void*)p, true, true); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int) { cs::sync((const void*)p, true, true); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int) { cs::sync((const void*)p, true, true); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int) { cs::sync((const void*)p, true, true); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int) { cs::sync((const void*)p, true, true); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int) { cs::sync((const void*)p, true, true); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { cs::sync((const void*)p, true, true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { cs::sync((const void*)p, true, true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int, int) { cs::sync((const void*)p, true, true); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
CS_AT(8, uint8_t) CS_AT(16, uint16_t) CS_AT(32, uint32_t) CS_AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
