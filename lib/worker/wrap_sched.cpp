// Deterministic, seeded thread scheduler.  The sources are compiled with -fsanitize=thread but
// linked without its runtime: every memory access, atomic and pthread/OpenMP call of the code under
// test lands here.  Exactly one controlled thread runs at a time; at each of those points the seed
// decides whether another runnable thread continues instead.  Mutexes and condition variables are
// modelled, so a state in which no thread can continue is reported at once (exit 77), as is use of
// a mutex or condition after its destruction (exit 78).  Seed 0 switches everything to pass-through.
#include <cerrno>
#include <climits>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <condition_variable>
#include <map>
#include <memory>
#include <mutex>
#include <malloc.h>
#include <pthread.h>
#include <set>
#include <string>
#include <thread>
#include <semaphore.h>
#include <unistd.h>
#include <vector>

extern "C" {
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __real_pthread_join(pthread_t, void**);
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*);
int __real_pthread_mutex_destroy(pthread_mutex_t*);
int __real_pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*);
int __real_pthread_cond_destroy(pthread_cond_t*);
int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
int __real_pthread_cond_signal(pthread_cond_t*);
int __real_pthread_cond_broadcast(pthread_cond_t*);
int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
int __real_sched_yield();
int __real___cxa_guard_acquire(char*);
void __real___cxa_guard_release(char*);
void __real___cxa_guard_abort(char*);
#define W_WAIT __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE
#define R_WAIT __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE
void R_WAIT(std::condition_variable*, std::unique_lock<std::mutex>&);
#define W_ONE __wrap__ZNSt18condition_variable10notify_oneEv
#define R_ONE __real__ZNSt18condition_variable10notify_oneEv
void R_ONE(std::condition_variable*);
#define W_ALL __wrap__ZNSt18condition_variable10notify_allEv
#define R_ALL __real__ZNSt18condition_variable10notify_allEv
void R_ALL(std::condition_variable*);
#define W_START __wrap__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE
#define R_START __real__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE
void R_START(std::thread*, void**, void (*)());
#define W_JOIN __wrap__ZNSt6thread4joinEv
#define R_JOIN __real__ZNSt6thread4joinEv
void R_JOIN(std::thread*);
}

namespace {
enum St { RUN, B_MUTEX, B_COND, B_JOIN, B_BARRIER, DONE };
struct Th {
    int id;
    St st;
    void* obj;
    sem_t sem;
    pthread_t hw;
    long prio;
    void* (*fn)(void*);
    void* arg;
    int omp_id, omp_n;
    void* omp_ws;
    long omp_seq;           // work shares met so far
};
std::vector<Th*> ths;
std::map<void*, Th*> owner;     // held mutexes
std::set<void*> deadm, deadc;   // destroyed
bool on = false;
__thread Th* me = NULL;
long budget = LONG_MAX;
uint64_t rs;
// policy
int pol;            // 0 random walk, 1 priorities with change points, 2 one slow thread, 3 sync points only
double rate;        // mean accesses between decisions
int slow;
double spur;        // chance of a spurious wake-up per decision
long nextprio = 0;
long switches = 0, points = 0;

uint64_t rnd() {
    rs += 0x9E3779B97F4A7C15ull;
    uint64_t z = rs;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
double u01() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }
void refill() {
    if (pol == 3) { budget = LONG_MAX; return; }
    budget = 1 + (long) (-log(1 - u01()) * rate);
}
void die(int code, const char* what) {
    std::string s = what;
    for (size_t i = 0; i < ths.size(); i++) {
        char b[96];
        static const char* n[] = {"runnable", "waits for mutex", "waits for condition", "joins", "ended"};
        snprintf(b, sizeof b, "; thread %d %s", ths[i]->id, n[ths[i]->st]);
        s += b;
    }
    s += "\n";
    ssize_t r = write(2, s.data(), s.size()); (void) r;
    _exit(code);
}

Th* choose(bool must_leave) {
    std::vector<Th*> r;
    for (size_t i = 0; i < ths.size(); i++)
        if (ths[i]->st == RUN && !(must_leave && ths[i] == me)) r.push_back(ths[i]);
    if (spur > 0 && u01() < spur) {
        std::vector<Th*> w;
        for (size_t i = 0; i < ths.size(); i++) if (ths[i]->st == B_COND) w.push_back(ths[i]);
        if (!w.empty()) {
            Th* t = w[rnd() % w.size()];
            t->st = RUN; t->obj = NULL;
            r.push_back(t);
        }
    }
    if (r.empty()) {
        if (must_leave && me->st == RUN) return me;
        die(77, "DEADLOCK: no thread can continue");
    }
    if (pol == 1) {
        Th* b = r[0];
        for (size_t i = 1; i < r.size(); i++) if (r[i]->prio > b->prio) b = r[i];
        return b;
    }
    if (pol == 2) {
        std::vector<Th*> q;
        for (size_t i = 0; i < r.size(); i++) if (r[i]->id != slow) q.push_back(r[i]);
        if (!q.empty() && u01() < .995) return q[rnd() % q.size()];
    }
    return r[rnd() % r.size()];
}
void go(Th* t) {            // hand the token to t and wait for it
    if (t == me) return;
    switches++;
    Th* self = me;
    sem_post(&t->sem);
    while (sem_wait(&self->sem) && errno == EINTR) {}
}
void decide() {
    refill();
    if (pol == 1) me->prio = --nextprio;   // change point: this thread drops below all others
    go(choose(false));
}
void block() { go(choose(true)); }   // me->st != RUN

inline void acc() {
    if (__builtin_expect(--budget > 0, 1)) return;
    if (!on || !me) { if (!on) budget = LONG_MAX; else budget = 1; return; }
    points++;
    decide();
}
inline bool ctl() { return on && me; }
inline void sync_point() {
    points++;
    if (pol == 1) { if (u01() < .02) decide(); else go(choose(false)); return; }
    refill();
    go(choose(false));
}
// a new object statically initialised at the address of a destroyed one is all zero, a destroyed or freed one is not
bool renewed(std::set<void*>& dead, void* p, size_t n) {
    for (size_t i = 0; i < n; i++) if (((const char*) p)[i]) return false;
    dead.erase(p);
    return true;
}
void need_m(void* m) {
    if (deadm.count(m) && !renewed(deadm, m, sizeof(pthread_mutex_t))) die(78, "MISUSE: mutex used after it was destroyed");
}
void need_c(void* c) {
    if (deadc.count(c) && !renewed(deadc, c, sizeof(pthread_cond_t))) die(78, "MISUSE: condition used after it was destroyed");
}
int lock_(void* m) {
    need_m(m);
    while (owner.count(m)) {
        if (owner[m] == me) return EDEADLK;
        me->st = B_MUTEX; me->obj = m;
        block();
        need_m(m);
    }
    owner[m] = me;
    return 0;
}
int unlock_(void* m) {
    need_m(m);
    std::map<void*, Th*>::iterator i = owner.find(m);
    if (i == owner.end() || i->second != me) return EPERM;
    owner.erase(i);
    for (size_t j = 0; j < ths.size(); j++)
        if (ths[j]->st == B_MUTEX && ths[j]->obj == m) { ths[j]->st = RUN; ths[j]->obj = NULL; }
    return 0;
}
void finish() {             // current thread ends: pass the token on for good
    Th* self = me;
    self->st = DONE;
    for (size_t j = 0; j < ths.size(); j++)
        if (ths[j]->st == B_JOIN && ths[j]->obj == self) { ths[j]->st = RUN; ths[j]->obj = NULL; }
    Th* t = choose(true);
    me = NULL;
    switches++;
    sem_post(&t->sem);
}
struct AtEnd { ~AtEnd() { finish(); } };
void* tramp(void* p) {
    Th* t = (Th*) p;
    while (sem_wait(&t->sem) && errno == EINTR) {}
    me = t;
    AtEnd e;
    return t->fn(t->arg);
}
Th* spawn(void* (*fn)(void*), void* arg, int* rc, const pthread_attr_t* a = NULL) {
    Th* t = new Th();
    t->id = (int) ths.size();
    t->st = RUN; t->obj = NULL;
    sem_init(&t->sem, 0, 0);
    t->fn = fn; t->arg = arg; t->omp_id = 0; t->omp_n = 1; t->omp_ws = NULL;
    t->prio = (long) (rnd() % 1000000);
    *rc = __real_pthread_create(&t->hw, a, tramp, t);
    if (*rc) { delete t; return NULL; }
    ths.push_back(t);
    return t;
}
void join_(Th* t) {
    while (t->st != DONE) { me->st = B_JOIN; me->obj = t; block(); }
}
}

extern "C" {
void verif_sched_init(unsigned seed) {
    if (!seed) return;
    rs = seed * 0x9E3779B97F4A7C15ull + 12345;
    rnd(); rnd();
    pol = (int) (rnd() % 4);
    static const double rates[] = {3, 20, 100, 1000, 10000, 100000};
    rate = rates[rnd() % 6];
    slow = (int) (rnd() % 5);
    spur = rnd() % 3 ? 0 : .02;
    if (pol == 1 && rate < 20) rate = 20;
    mallopt(M_PERTURB, (int) (1 + rnd() % 255));
    Th* t = new Th();
    t->id = 0; t->st = RUN; t->obj = NULL; t->omp_id = 0; t->omp_n = 1; t->omp_ws = NULL;
    sem_init(&t->sem, 0, 0);
    t->hw = pthread_self();
    t->prio = (long) (rnd() % 1000000);
    ths.push_back(t);
    me = t;
    on = true;
    refill();
}
long verif_sched_switches() { return switches; }
long verif_sched_points() { return points; }
long verif_sched_threads() { return (long) ths.size(); }

int __wrap_pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    if (!ctl()) return __real_pthread_create(h, a, fn, arg);
    int rc;
    Th* t = spawn(fn, arg, &rc, a);
    if (t) *h = t->hw;
    sync_point();
    return rc;
}
int __wrap_pthread_join(pthread_t h, void** r) {
    if (!ctl()) return __real_pthread_join(h, r);
    sync_point();
    for (size_t i = ths.size(); i-- > 0;)
        if (i && ths[i]->hw == h && ths[i]->obj != (void*) 1) {
            join_(ths[i]);
            ths[i]->obj = (void*) 1;    // joined
            return __real_pthread_join(h, r);
        }
    return ESRCH;
}
int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    if (on) deadm.erase(m);
    return __real_pthread_mutex_init(m, a);
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m) {
    if (ctl()) {
        sync_point();
        if (owner.count(m)) die(78, "MISUSE: mutex destroyed while held");
        deadm.insert(m);
    }
    return __real_pthread_mutex_destroy(m);
}
int __wrap_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) {
    if (on) deadc.erase(c);
    return __real_pthread_cond_init(c, a);
}
int __wrap_pthread_cond_destroy(pthread_cond_t* c) {
    if (ctl()) {
        sync_point();
        for (size_t j = 0; j < ths.size(); j++)
            if (ths[j]->st == B_COND && ths[j]->obj == c) die(78, "MISUSE: condition destroyed while a thread waits on it");
        deadc.insert(c);
    }
    return __real_pthread_cond_destroy(c);
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    if (!ctl()) return __real_pthread_mutex_lock(m);
    sync_point();
    return lock_(m);
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!ctl()) return __real_pthread_mutex_trylock(m);
    sync_point();
    need_m(m);
    if (owner.count(m)) return EBUSY;
    owner[m] = me;
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!ctl()) return __real_pthread_mutex_unlock(m);
    int rc = unlock_(m);
    sync_point();
    return rc;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!ctl()) return __real_pthread_cond_wait(c, m);
    sync_point();
    need_c(c);
    int rc = unlock_(m);
    if (rc) return rc;
    me->st = B_COND; me->obj = c;
    block();
    return lock_(m);
}
int __wrap_pthread_cond_signal(pthread_cond_t* c) {
    if (!ctl()) return __real_pthread_cond_signal(c);
    sync_point();
    need_c(c);
    std::vector<Th*> w;
    for (size_t j = 0; j < ths.size(); j++) if (ths[j]->st == B_COND && ths[j]->obj == c) w.push_back(ths[j]);
    if (!w.empty()) { Th* t = w[rnd() % w.size()]; t->st = RUN; t->obj = NULL; }
    sync_point();
    return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) {
    if (!ctl()) return __real_pthread_cond_broadcast(c);
    sync_point();
    need_c(c);
    for (size_t j = 0; j < ths.size(); j++) if (ths[j]->st == B_COND && ths[j]->obj == c) { ths[j]->st = RUN; ths[j]->obj = NULL; }
    sync_point();
    return 0;
}

// a timed wait may always time out or wake for no reason
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
    if (!ctl()) return __real_pthread_cond_timedwait(c, m, t);
    sync_point();
    need_c(c);
    int rc = unlock_(m);
    if (rc) return rc;
    sync_point();
    rc = lock_(m);
    return rc ? rc : rnd() % 2 ? ETIMEDOUT : 0;
}
int __wrap_sched_yield() {
    if (!ctl()) return __real_sched_yield();
    sync_point();
    return 0;
}
// initialisation of function-local statics
int __wrap___cxa_guard_acquire(char* g) {
    if (!ctl()) return __real___cxa_guard_acquire(g);
    sync_point();
    if (*g) return 0;
    lock_(g);
    if (!*g) return 1;
    unlock_(g);
    return 0;
}
void __wrap___cxa_guard_release(char* g) {
    if (!ctl() || !owner.count(g)) { __real___cxa_guard_release(g); return; }
    *g = 1;
    unlock_(g);
}
void __wrap___cxa_guard_abort(char* g) {
    if (!ctl() || !owner.count(g)) { __real___cxa_guard_abort(g); return; }
    unlock_(g);
}
// std::thread and std::condition_variable keep theirs inside the library
void W_WAIT(std::condition_variable* c, std::unique_lock<std::mutex>& l) {
    if (!ctl()) { R_WAIT(c, l); return; }
    __wrap_pthread_cond_wait(c->native_handle(), l.mutex()->native_handle());
}
void W_ONE(std::condition_variable* c) {
    if (!ctl()) { R_ONE(c); return; }
    __wrap_pthread_cond_signal(c->native_handle());
}
void W_ALL(std::condition_variable* c) {
    if (!ctl()) { R_ALL(c); return; }
    __wrap_pthread_cond_broadcast(c->native_handle());
}
struct State { virtual ~State() {} virtual void _M_run() = 0; };     // as std::thread::_State
static void* run_state(void* p) {
    std::unique_ptr<State> s((State*) p);
    s->_M_run();
    return NULL;
}
void W_START(std::thread* t, void** s, void (*dep)()) {
    if (!ctl()) { R_START(t, s, dep); return; }
    pthread_t h;
    if (__wrap_pthread_create(&h, NULL, run_state, *s)) die(79, "could not create a thread");
    *s = NULL;
    memcpy((void*) t, &h, sizeof h);
}
void W_JOIN(std::thread* t) {
    if (!ctl()) { R_JOIN(t); return; }
    __wrap_pthread_join(t->native_handle(), NULL);
    memset((void*) t, 0, sizeof *t);
}

// ---------------------------------------------------------------- a small OpenMP runtime
// Work shares (loops, sections, singles) are met in the same order by every thread of a team: the
// n-th one a thread meets is work share n of its team, however far ahead of the others it is.
struct Ws { bool init; unsigned long long next, end, incr, chunk; long base, step; };
struct Team { void (*fn)(void*); void* data; int arrived; std::map<long, Ws> ws; void* copied; };
static int omp_nthreads = 4;
static char omp_crit;
void omp_set_num_threads(int n) { if (n > 0) omp_nthreads = n; }
int omp_get_thread_num() { return me ? me->omp_id : 0; }
int omp_get_num_threads() { return me ? me->omp_n : 1; }
int omp_get_max_threads() { return omp_nthreads; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return me && me->omp_n > 1; }
struct Part { Team* t; int id, n; };
static void* part(void* p) {
    Part* q = (Part*) p;
    me->omp_id = q->id; me->omp_n = q->n; me->omp_ws = q->t; me->omp_seq = 0;
    q->t->fn(q->t->data);
    return NULL;
}
// `first`: the work share the region starts in, if it is combined with one
static void parallel_(void (*fn)(void*), void* data, unsigned nt, Ws* first) {
    Team tm;
    if (first) tm.ws[0] = *first;
    tm.fn = fn; tm.data = data; tm.arrived = 0; tm.copied = NULL;
    int n = nt ? (int) nt : omp_nthreads;
    if (!ctl() || me->omp_n > 1) n = 1;
    if (n == 1) {
        Th dummy; memset(&dummy, 0, sizeof dummy);
        Th* keep = me;
        int oid = 0, on_ = 1; void* ows = NULL;
        if (!me) me = &dummy;
        oid = me->omp_id; on_ = me->omp_n; ows = me->omp_ws;
        long oseq = me->omp_seq;
        me->omp_id = 0; me->omp_n = 1; me->omp_ws = &tm; me->omp_seq = 0;
        bool was = on;
        if (!keep) on = false;
        fn(data);
        on = was;
        me->omp_id = oid; me->omp_n = on_; me->omp_ws = ows; me->omp_seq = oseq;
        me = keep;
        return;
    }
    std::vector<Th*> v;
    std::vector<Part> p(n);
    for (int i = 1; i < n; i++) {
        p[i].t = &tm; p[i].id = i; p[i].n = n;
        int rc;
        Th* t = spawn(part, &p[i], &rc);
        if (!t) die(79, "could not create a thread");
        v.push_back(t);
    }
    me->omp_id = 0; me->omp_n = n; me->omp_ws = &tm; me->omp_seq = 0;
    sync_point();
    fn(data);
    me->omp_id = 0; me->omp_n = 1; me->omp_ws = NULL;
    for (size_t i = 0; i < v.size(); i++) {
        join_(v[i]);
        v[i]->obj = (void*) 1;
        __real_pthread_join(v[i]->hw, NULL);
    }
}
void GOMP_parallel(void (*fn)(void*), void* d, unsigned nt, unsigned) { parallel_(fn, d, nt, NULL); }
static long trips(long s, long e, long inc) { return inc > 0 ? (e > s ? (e - s + inc - 1) / inc : 0) : (e < s ? (s - e - inc - 1) / -inc : 0); }
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned nt, unsigned n, unsigned) {
    Ws w = {true, 1, n + 1ull, 1, 1, 0, 1};
    parallel_(fn, d, nt, &w);
}
#define PLOOP(K) void GOMP_parallel_loop_##K(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, unsigned) { \
    Ws w = {true, 0, (unsigned long long) trips(s, e, i), 1, (unsigned long long) (c > 0 ? c : 1), s, i}; parallel_(fn, d, nt, &w); }
PLOOP(dynamic) PLOOP(nonmonotonic_dynamic) PLOOP(guided) PLOOP(nonmonotonic_guided) PLOOP(static)
#define PLOOP_R(K) void GOMP_parallel_loop_##K(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned) { \
    Ws w = {true, 0, (unsigned long long) trips(s, e, i), 1, 1, s, i}; parallel_(fn, d, nt, &w); }
PLOOP_R(runtime) PLOOP_R(nonmonotonic_runtime) PLOOP_R(maybe_nonmonotonic_runtime)
void GOMP_critical_start() { if (ctl()) { sync_point(); lock_(&omp_crit); } }
void GOMP_critical_end() { if (ctl()) { unlock_(&omp_crit); sync_point(); } }
void GOMP_critical_name_start(void** p) { if (ctl()) { sync_point(); lock_(p); } }
void GOMP_critical_name_end(void** p) { if (ctl()) { unlock_(p); sync_point(); } }
void GOMP_atomic_start() { GOMP_critical_start(); }
void GOMP_atomic_end() { GOMP_critical_end(); }
static Team solo_team;          // work shares outside of any parallel region
static Th solo_th;
static Th* self_() { return me ? me : &solo_th; }
static Team* team() { return self_()->omp_ws ? (Team*) self_()->omp_ws : &solo_team; }
static Ws& share() { return team()->ws[self_()->omp_seq]; }
static bool ws_take(Ws& w, unsigned long long* a, unsigned long long* b) {
    unsigned long long span = w.chunk * w.incr;
    if (w.next >= w.end) return false;
    *a = w.next;
    w.next = (w.end - w.next <= span) ? w.end : w.next + span;
    *b = w.next;
    return true;
}
static Ws& ws_start(unsigned long long s, unsigned long long e, unsigned long long inc, unsigned long long chunk) {
    if (ctl()) sync_point();
    self_()->omp_seq++;
    Ws& w = share();
    if (!w.init) { w.init = true; w.next = s; w.end = e; w.incr = inc; w.chunk = chunk ? chunk : 1; }
    return w;
}
static bool ull_start(bool up, unsigned long long s, unsigned long long e, unsigned long long inc, unsigned long long chunk,
        unsigned long long* a, unsigned long long* b) {
    if (!up) die(79, "unsupported loop");
    return ws_take(ws_start(s, e, inc, chunk), a, b);
}
static bool ull_next(unsigned long long* a, unsigned long long* b) {
    if (ctl()) sync_point();
    return ws_take(share(), a, b);
}
// signed loops run over the number of the iteration, upwards
static bool out_(bool r, unsigned long long x, unsigned long long y, long* a, long* b) {
    if (!r) return false;
    *a = share().base + (long) x * share().step;
    *b = share().base + (long) y * share().step;
    return true;
}
static bool l_start(long s, long e, long inc, long chunk, long* a, long* b) {
    unsigned long long x, y;
    Ws& w = ws_start(0, trips(s, e, inc), 1, chunk);
    w.base = s; w.step = inc;
    bool r = ws_take(w, &x, &y);
    return out_(r, x, y, a, b);
}
static bool l_next(long* a, long* b) { unsigned long long x, y; bool r = ull_next(&x, &y); return out_(r, x, y, a, b); }
typedef unsigned long long ULL;
#define LOOPS(K) \
bool GOMP_loop_##K##_start(long s, long e, long i, long c, long* a, long* b) { return l_start(s, e, i, c, a, b); } \
bool GOMP_loop_##K##_next(long* a, long* b) { return l_next(a, b); } \
bool GOMP_loop_ull_##K##_start(bool u, ULL s, ULL e, ULL i, ULL c, ULL* a, ULL* b) { return ull_start(u, s, e, i, c, a, b); } \
bool GOMP_loop_ull_##K##_next(ULL* a, ULL* b) { return ull_next(a, b); }
LOOPS(dynamic) LOOPS(nonmonotonic_dynamic) LOOPS(guided) LOOPS(nonmonotonic_guided) LOOPS(static)
#define LOOPS_R(K) \
bool GOMP_loop_##K##_start(long s, long e, long i, long* a, long* b) { return l_start(s, e, i, 1, a, b); } \
bool GOMP_loop_##K##_next(long* a, long* b) { return l_next(a, b); } \
bool GOMP_loop_ull_##K##_start(bool u, ULL s, ULL e, ULL i, ULL* a, ULL* b) { return ull_start(u, s, e, i, 1, a, b); } \
bool GOMP_loop_ull_##K##_next(ULL* a, ULL* b) { return ull_next(a, b); }
LOOPS_R(runtime) LOOPS_R(nonmonotonic_runtime) LOOPS_R(maybe_nonmonotonic_runtime)
static void barrier_() {
    if (!ctl() || me->omp_n <= 1) return;
    Team* t = (Team*) me->omp_ws;
    sync_point();
    if (++t->arrived == me->omp_n) {
        t->arrived = 0;
        for (size_t j = 0; j < ths.size(); j++)
            if (ths[j]->st == B_BARRIER && ths[j]->obj == t) { ths[j]->st = RUN; ths[j]->obj = NULL; }
        sync_point();
    } else {
        me->st = B_BARRIER; me->obj = t;
        block();
    }
}
void GOMP_barrier() { barrier_(); }
void GOMP_loop_end_nowait() {}
void GOMP_loop_end() { barrier_(); }
bool GOMP_single_start() {
    if (ctl()) sync_point();
    self_()->omp_seq++;
    Ws& w = share();
    if (w.init) return false;
    return w.init = true;
}
void* GOMP_single_copy_start() {
    barrier_();
    if (GOMP_single_start()) return NULL;
    barrier_();
    void* p = team()->copied;
    barrier_();
    return p;
}
void GOMP_single_copy_end(void* p) { team()->copied = p; barrier_(); barrier_(); }
unsigned GOMP_sections_next() { ULL x, y; return ull_next(&x, &y) ? (unsigned) x : 0; }
unsigned GOMP_sections_start(unsigned n) { ULL x, y; return ws_take(ws_start(1, n + 1, 1, 1), &x, &y) ? (unsigned) x : 0; }
void GOMP_sections_end() { barrier_(); }
void GOMP_sections_end_nowait() {}
void GOMP_task(void (*fn)(void*), void* d, void (*cpy)(void*, void*), long n, long al, bool, unsigned, void**, int) {
    if (!cpy) { fn(d); return; }
    std::vector<char> v(n + al);
    void* p = (void*) (((uintptr_t) v.data() + al - 1) / al * al);
    cpy(p, d);
    fn(p);
}
void GOMP_taskwait() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
void GOMP_taskyield() { if (ctl()) sync_point(); }
void omp_init_lock(void** l) { *l = NULL; }
void omp_destroy_lock(void**) {}
void omp_set_lock(void** l) { if (ctl()) { sync_point(); lock_(l); } }
void omp_unset_lock(void** l) { if (ctl()) { unlock_(l); sync_point(); } }
int omp_test_lock(void** l) {
    if (!ctl()) return 1;
    sync_point();
    if (owner.count(l)) return 0;
    owner[l] = me;
    return 1;
}
double omp_get_wtime() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
double omp_get_wtick() { return 1e-9; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
int omp_get_dynamic() { return 0; }
int omp_get_nested() { return 0; }
int omp_get_thread_limit() { return 1 << 20; }
int omp_get_level() { return omp_in_parallel(); }

// ---------------------------------------------------------------- access hooks
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define H(n) void n(void*) { acc(); }
H(__tsan_read1) H(__tsan_read2) H(__tsan_read4) H(__tsan_read8) H(__tsan_read16)
H(__tsan_write1) H(__tsan_write2) H(__tsan_write4) H(__tsan_write8) H(__tsan_write16)
H(__tsan_unaligned_read2) H(__tsan_unaligned_read4) H(__tsan_unaligned_read8) H(__tsan_unaligned_read16)
H(__tsan_unaligned_write2) H(__tsan_unaligned_write4) H(__tsan_unaligned_write8) H(__tsan_unaligned_write16)
H(__tsan_volatile_read1) H(__tsan_volatile_read2) H(__tsan_volatile_read4) H(__tsan_volatile_read8)
H(__tsan_volatile_write1) H(__tsan_volatile_write2) H(__tsan_volatile_write4) H(__tsan_volatile_write8)
H(__tsan_vptr_read)
void __tsan_vptr_update(void**, void*) { acc(); }
void __tsan_read_range(void*, unsigned long) { acc(); }
void __tsan_write_range(void*, unsigned long) { acc(); }
#define A(N, T) \
T __tsan_atomic##N##_load(const volatile T* a, int) { if (ctl()) sync_point(); return __atomic_load_n(a, 5); } \
void __tsan_atomic##N##_store(volatile T* a, T v, int) { if (ctl()) sync_point(); __atomic_store_n(a, v, 5); } \
T __tsan_atomic##N##_exchange(volatile T* a, T v, int) { acc(); return __atomic_exchange_n(a, v, 5); } \
T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int) { acc(); return __atomic_fetch_add(a, v, 5); } \
T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int) { if (ctl()) sync_point(); return __atomic_fetch_sub(a, v, 5); } \
T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int) { acc(); return __atomic_fetch_and(a, v, 5); } \
T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int) { acc(); return __atomic_fetch_or(a, v, 5); } \
T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int) { acc(); return __atomic_fetch_xor(a, v, 5); } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { if (ctl()) sync_point(); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { if (ctl()) sync_point(); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int, int) { if (ctl()) sync_point(); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
A(8, unsigned char) A(16, unsigned short) A(32, unsigned) A(64, unsigned long)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int) {}
}
