// A strict stand-in for MPI: P processes started by the check, one shared memory file, whose descriptor, the rank and the size
// come in MPISHIM_{FD,RANK,SIZE}.  What MPI leaves open is decided against the program: sends are synchronous, sums are taken
// in a per-call random order (the same on every rank), arrival times vary.  What MPI forbids ends the run with status 77:
// collectives that do not match, messages longer than the receive, calls before init or after finalize, a process that leaves
// without finalizing while it is inside the world.
#include "mpi.h"
#include <atomic>
#include <linux/futex.h>
#include <new>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <vector>

namespace {
const size_t SLOT = 8u << 20;
const int MAXP = 64;
struct Desc { int call, type, op, root; long count; };
struct Shared {
    std::atomic<int> arrived, gen, joined;
    Desc desc[MAXP];
    struct Box { std::atomic<int> state; int tag, type; long count; } box[MAXP][MAXP];   // [src][dst]
};
enum { BARRIER = 1, BCAST, REDUCE, ALLREDUCE, SCAN, EXSCAN, ALLGATHER, GATHER, ALLGATHERV, GATHERV, SCATTER, FINALIZE };
Shared* S;
char* mem;
int rk, np = 1;
bool inited, finalized;
uint64_t rng, common;    // own and shared random streams

uint64_t mix(uint64_t& s) {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
void die(const char* m) {
    fprintf(stderr, "MPI-RULE: rank %d: %s\n", rk, m);
    fflush(stderr);
    _exit(77);
}
void live() {
    if (!inited) die("call before MPI_Init");
    if (finalized) die("call after MPI_Finalize");
    uint64_t r = mix(rng);
    if (r % 16 == 0) usleep(r / 16 % 300);
}
void world(MPI_Comm c) { if (c != MPI_COMM_WORLD) die("unknown communicator"); }
size_t tsize(MPI_Datatype t) {
    size_t s = t & 0xff;
    if (s != 1 && s != 2 && s != 4 && s != 8) die("unknown datatype");
    return s;
}
int fut(std::atomic<int>* a, int op, int v) { return syscall(SYS_futex, (int*)a, op, v, (void*)0, (void*)0, 0); }
void barrier() {
    int g = S->gen.load();
    if (S->arrived.fetch_add(1) + 1 == np) {
        S->arrived.store(0);
        S->gen.fetch_add(1);
        fut(&S->gen, FUTEX_WAKE, 1 << 20);
    } else
        while (S->gen.load() == g) fut(&S->gen, FUTEX_WAIT, g);
}
char* coll(int p) { return mem + SLOT * p; }
char* boxmem(int s, int d) { return mem + SLOT * (np + (size_t)s * np + d); }
// Everybody announces the call, all announcements must agree.  root -1 and count -1 are not compared.
void enter(int call, MPI_Datatype t, int op, int root, long count, const void* buf, size_t bytes) {
    if (bytes > SLOT) die("message too large for the test");
    if (root >= np || root < -1) die("root outside the world");
    Desc d = {call, t, op, root, count};
    S->desc[rk] = d;
    if (bytes) {
        if (!buf) die("null buffer");
        memcpy(coll(rk), buf, bytes);
    }
    barrier();
    for (int p = 0; p < np; p++) {
        const Desc& e = S->desc[p];
        if (e.call != call || e.op != op || e.root != root || ((e.type ^ t) & 0xff) || e.type >> 8 != t >> 8)
            die("processes are in different collective calls");
        if (e.count != count) die("processes give different counts to one collective call");
    }
}
template <typename T> T one(T a, T b, MPI_Op op) {
    switch (op) {
    case MPI_SUM: return a + b;
    case MPI_MAX: return a > b ? a : b;
    case MPI_MIN: return a < b ? a : b;
    case MPI_PROD: return a * b;
    case MPI_LAND: return a && b;
    case MPI_LOR: return a || b;
    }
    die("unknown reduction");
    return a;
}
template <typename T> void fold(T* out, const std::vector<int>& order, long n, MPI_Op op) {
    for (size_t i = 0; i < order.size(); i++) {
        const T* in = (const T*)coll(order[i]);
        for (long q = 0; q < n; q++) out[q] = i ? one<T>(out[q], in[q], op) : in[q];
    }
}
void foldt(void* out, const std::vector<int>& order, long n, MPI_Datatype t, MPI_Op op) {
    switch (t) {
    case MPI_DOUBLE: return fold((double*)out, order, n, op);
    case MPI_FLOAT: return fold((float*)out, order, n, op);
    case MPI_LONG: return fold((int64_t*)out, order, n, op);
    case MPI_UNSIGNED_LONG: return fold((uint64_t*)out, order, n, op);
    case MPI_INT: return fold((int32_t*)out, order, n, op);
    case MPI_UNSIGNED: return fold((uint32_t*)out, order, n, op);
    case MPI_CHAR: return fold((signed char*)out, order, n, op);
    case MPI_UNSIGNED_CHAR: return fold((unsigned char*)out, order, n, op);
    }
    die("reduction of this datatype");
}
std::vector<int> order() {
    std::vector<int> o(np);
    for (int i = 0; i < np; i++) o[i] = i;
    uint64_t r = mix(common);
    if (r & 1)
        for (int i = np - 1; i > 0; i--) std::swap(o[i], o[mix(common) % (i + 1)]);
    return o;
}
bool alias(const void* a, const void* b, size_t n) {
    return a != MPI_IN_PLACE && n && (const char*)a < (const char*)b + n && (const char*)b < (const char*)a + n;
}
int reduce(int call, const void* s, void* r, long n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
    live();
    world(c);
    if (n < 0) die("negative count");
    bool recv = root < 0 || root == rk;
    if (recv && alias(s, r, n * tsize(t))) die("send and receive buffers overlap");
    enter(call, t, op, root, n, s == MPI_IN_PLACE ? r : s, n * tsize(t));
    std::vector<int> o = order();
    if (call == SCAN || call == EXSCAN) {
        o.clear();
        for (int p = 0; p < rk + (call == SCAN); p++) o.push_back(p);
    }
    if (recv && !o.empty()) foldt(r, o, n, t, op);
    barrier();
    return MPI_SUCCESS;
}
}

struct vshim_req { int unused; };

static void left(void) {
    if (inited && !finalized) {
        fflush(stdout);
        fprintf(stderr, "MPI-RULE: rank %d: process left without MPI_Finalize\n", rk);
        fflush(stderr);
        _exit(78);
    }
}

extern "C" {
int MPI_Init(int*, char***) {
    if (inited) die("second MPI_Init");
    const char* fd = getenv("MPISHIM_FD");
    if (fd) {
        rk = atoi(getenv("MPISHIM_RANK"));
        np = atoi(getenv("MPISHIM_SIZE"));
    }
    if (np < 1 || np > MAXP || rk < 0 || rk >= np) die("bad world");
    size_t head = (sizeof(Shared) + 4095) / 4096 * 4096, len = head + SLOT * (np + (size_t)np * np);
    void* m = fd ? mmap(0, len, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_NORESERVE, atoi(fd), 0)
                 : mmap(0, len, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) die("no shared memory");
    S = (Shared*)m;
    mem = (char*)m + head;
    const char* sd = getenv("MPISHIM_SEED");
    common = sd ? strtoull(sd, 0, 10) : 0;
    rng = common * 1000003 + rk;
    inited = true;
    atexit(left);
    S->joined.fetch_add(1);
    barrier();
    return MPI_SUCCESS;
}
int MPI_Init_thread(int* a, char*** b, int want, int* got) { if (got) *got = want; return MPI_Init(a, b); }
int MPI_Initialized(int* f) { *f = inited; return MPI_SUCCESS; }
int MPI_Finalized(int* f) { *f = finalized; return MPI_SUCCESS; }
int MPI_Finalize(void) {
    live();
    enter(FINALIZE, MPI_BYTE, 0, -1, 0, 0, 0);
    for (int p = 0; p < np; p++)
        if (S->box[p][rk].state.load()) die("message never received");
    finalized = true;
    barrier();
    return MPI_SUCCESS;
}
int MPI_Abort(MPI_Comm, int e) { fflush(0); _exit(e ? e & 255 : 1); }
int MPI_Comm_size(MPI_Comm c, int* n) { live(); world(c); *n = np; return MPI_SUCCESS; }
int MPI_Comm_rank(MPI_Comm c, int* n) { live(); world(c); *n = rk; return MPI_SUCCESS; }
int MPI_Barrier(MPI_Comm c) { live(); world(c); enter(BARRIER, MPI_BYTE, 0, -1, 0, 0, 0); barrier(); return MPI_SUCCESS; }
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) {
    live(); world(c);
    if (n < 0 || root < 0) die("bad argument");
    enter(BCAST, t, 0, root, n, b, rk == root ? n * tsize(t) : 0);
    if (rk != root) memcpy(b, coll(root), n * tsize(t));
    barrier();
    return MPI_SUCCESS;
}
int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
    if (root < 0) die("bad root");
    return reduce(REDUCE, s, r, n, t, op, root, c);
}
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return reduce(ALLREDUCE, s, r, n, t, op, -1, c); }
int MPI_Scan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return reduce(SCAN, s, r, n, t, op, -1, c); }
int MPI_Exscan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return reduce(EXSCAN, s, r, n, t, op, -1, c); }
static int gather(int call, const void* s, long sn, MPI_Datatype st, void* r, const int* rn, const int* rd, long each, MPI_Datatype rt,
                  int root, MPI_Comm c) {
    live(); world(c);
    bool recv = root < 0 || root == rk;
    size_t ss = tsize(st), rs = recv ? tsize(rt) : 0;
    if (sn < 0 || (recv && !rn && each < 0)) die("negative count");
    const void* from = s;
    if (s == MPI_IN_PLACE) {
        if (!recv) die("MPI_IN_PLACE at a process that does not receive");
        from = (char*)r + (rd ? rd[rk] : rk * each) * rs;
        sn = rn ? rn[rk] : each;
        ss = rs;
        st = rt;
    }
    if (sn * ss > SLOT) die("message too large for the test");
    Desc d = {call, st, 0, root, sn};
    S->desc[rk] = d;
    memcpy(coll(rk), from, sn * ss);
    barrier();
    for (int p = 0; p < np; p++) {
        const Desc& e = S->desc[p];
        if (e.call != call || e.root != root) die("processes are in different collective calls");
        if (recv) {
            long want = rn ? rn[p] : each;
            if (e.count * (long)tsize(e.type) != want * (long)rs || e.type != rt) die("gathered counts or types differ from what is received");
        }
    }
    if (recv)
        for (int p = 0; p < np; p++) {
            long want = rn ? rn[p] : each, at = rd ? rd[p] : p * each;
            if (p != rk || s != MPI_IN_PLACE) memcpy((char*)r + at * rs, coll(p), want * rs);
        }
    barrier();
    return MPI_SUCCESS;
}
int MPI_Allgather(const void* s, int sn, MPI_Datatype st, void* r, int n, MPI_Datatype t, MPI_Comm c) {
    return gather(ALLGATHER, s, sn, st, r, 0, 0, n, t, -1, c); }
int MPI_Gather(const void* s, int sn, MPI_Datatype st, void* r, int n, MPI_Datatype t, int root, MPI_Comm c) {
    return gather(GATHER, s, sn, st, r, 0, 0, n, t, root, c); }
int MPI_Allgatherv(const void* s, int sn, MPI_Datatype st, void* r, const int* rn, const int* rd, MPI_Datatype t, MPI_Comm c) {
    return gather(ALLGATHERV, s, sn, st, r, rn, rd, 0, t, -1, c); }
int MPI_Gatherv(const void* s, int sn, MPI_Datatype st, void* r, const int* rn, const int* rd, MPI_Datatype t, int root, MPI_Comm c) {
    return gather(GATHERV, s, sn, st, r, rn, rd, 0, t, root, c); }
int MPI_Scatter(const void* s, int sn, MPI_Datatype st, void* r, int n, MPI_Datatype t, int root, MPI_Comm c) {
    live(); world(c);
    if (root < 0) die("bad root");
    enter(SCATTER, t, 0, root, n, s, rk == root ? (size_t)sn * tsize(st) * np : 0);
    if (r != MPI_IN_PLACE) memcpy(r, coll(root) + (size_t)rk * n * tsize(t), n * tsize(t));
    barrier();
    return MPI_SUCCESS;
}
static void peer(int p) { if (p < 0 || p >= np) die("peer outside the world"); }
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) {
    live(); world(c);
    if (dst == MPI_PROC_NULL) return MPI_SUCCESS;
    peer(dst);
    if (n < 0 || tag < 0) die("bad argument");
    if (n * tsize(t) > SLOT) die("message too large for the test");
    Shared::Box& x = S->box[rk][dst];
    memcpy(boxmem(rk, dst), b, n * tsize(t));
    x.tag = tag; x.type = t; x.count = n;
    x.state.store(1);
    fut(&x.state, FUTEX_WAKE, 1 << 20);
    while (x.state.load() == 1) fut(&x.state, FUTEX_WAIT, 1);
    return MPI_SUCCESS;
}
int MPI_Send(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { return MPI_Ssend(b, n, t, dst, tag, c); }
int MPI_Recv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status* st) {
    live(); world(c);
    if (n < 0) die("negative count");
    if (src == MPI_PROC_NULL) return MPI_SUCCESS;
    if (src != MPI_ANY_SOURCE) peer(src);
    for (;;) {
        int from = src;
        if (src == MPI_ANY_SOURCE) {
            int a = mix(rng) % np;
            for (int i = 0; i < np; i++)
                if (S->box[(a + i) % np][rk].state.load() == 1) { from = (a + i) % np; break; }
        }
        if (from >= 0) {
            Shared::Box& x = S->box[from][rk];
            if (x.state.load() == 1 && (tag == MPI_ANY_TAG || tag == x.tag)) {
                if (x.type != t) die("message received as another type");
                if (x.count > n) die("message longer than the receive buffer");
                memcpy(b, boxmem(from, rk), x.count * tsize(t));
                if (st) { st->MPI_SOURCE = from; st->MPI_TAG = x.tag; st->MPI_ERROR = 0; st->bytes = x.count * tsize(t); }
                x.state.store(0);
                fut(&x.state, FUTEX_WAKE, 1 << 20);
                return MPI_SUCCESS;
            }
        }
        usleep(50);
    }
}
int MPI_Get_count(const MPI_Status* s, MPI_Datatype t, int* n) { *n = s->bytes / tsize(t); return MPI_SUCCESS; }
int MPI_Error_string(int e, char* b, int* n) { *n = sprintf(b, "MPI error %d", e); return MPI_SUCCESS; }
int MPI_Get_processor_name(char* b, int* n) { *n = sprintf(b, "test"); return MPI_SUCCESS; }
int MPI_Type_size(MPI_Datatype t, int* n) { *n = tsize(t); return MPI_SUCCESS; }
double MPI_Wtime(void) { struct timeval t; gettimeofday(&t, 0); return t.tv_sec + t.tv_usec * 1e-6; }
}
