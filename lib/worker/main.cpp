// Fork-per-case server: reads framed requests on stdin, answers on fd 3 -> original stdout.
#include "proto.hpp"
#include <cerrno>
#include <cstdint>
#include <exception>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

std::map<std::string, op_fn>& op_registry() {
    static std::map<std::string, op_fn> m;
    return m;
}

static bool read_n(int fd, void* p, size_t n) {
    char* c = (char*) p;
    while (n) {
        ssize_t r = read(fd, c, n);
        if (r < 0 && errno == EINTR) continue;
        if (r <= 0) return false;
        c += r; n -= r;
    }
    return true;
}
static void write_n(int fd, const void* p, size_t n) {
    const char* c = (const char*) p;
    while (n) {
        ssize_t r = write(fd, c, n);
        if (r < 0 && errno == EINTR) continue;
        if (r <= 0) _exit(9);
        c += r; n -= r;
    }
}

static Req parse(const std::string& b) {
    Req rq;
    size_t p = 0;
    while (p < b.size()) {
        size_t e = b.find('\n', p);
        std::string line = b.substr(p, e - p);
        p = e + 1;
        if (line.size() < 3) continue;
        size_t sp = line.find(' ', 2);
        std::string key = line.substr(2, sp - 2), val = line.substr(sp + 1);
        if (line[0] == 's') {
            rq.kv[key] = val;
        } else if (line[0] == 't') { // long text, may contain newlines
            size_t n = strtoul(val.c_str(), NULL, 10);
            rq.kv[key] = b.substr(p, n);
            p += n + 1;
        } else {
            size_t n = strtoul(val.c_str(), NULL, 10);
            std::vector<double> v(n);
            if (n) memcpy(&v[0], b.data() + p, n*sizeof(double));
            rq.arr[key] = v;
            p += n*sizeof(double) + 1;
        }
    }
    return rq;
}

static double now() {
    struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec*1e-9;
}

extern "C" {
void verif_sched_init(unsigned seed) __attribute__((weak));
long verif_sched_switches() __attribute__((weak));
long verif_sched_points() __attribute__((weak));
long verif_sched_threads() __attribute__((weak));
}

static void child(const Req& rq, int out, int err) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    int dn = open("/dev/null", O_RDWR);
    dup2(dn, 0);
    dup2(dn, 1);
    dup2(err, 2);
    Resp rs;
    std::string status = "ok";
    try {
        if (!op_registry().count(rq.s("op"))) throw NotBuilt(rq.s("op"));
        op_fn fn = op_registry()[rq.s("op")];
        if (verif_sched_init) verif_sched_init(rq.u("sched", 0));
        fn(rq, rs);
    } catch (const NotBuilt& e) {
        status = "notbuilt " + e.what;
    } catch (const std::exception& e) {
        status = std::string("exc ") + e.what();
    } catch (...) {
        status = "exc unknown";
    }
    for (size_t i = 0; i < status.size(); i++)
        if (status[i] == '\n') status[i] = ' ';
    if (verif_sched_switches) {
        rs.put("switches", verif_sched_switches());
        rs.put("points", verif_sched_points());
        rs.put("spawned", verif_sched_threads());
    }
    rs.put("status", status);
    write_n(out, rs.buf.data(), rs.buf.size());
    fflush(NULL);
    _exit(0);
}

int main(int argc, char** argv) {
    signal(SIGPIPE, SIG_IGN);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    int rout = dup(1);
    while (true) {
        uint32_t len;
        if (!read_n(0, &len, 4)) return 0;
        std::string b(len, 0);
        if (len && !read_n(0, &b[0], len)) return 0;
        Req rq = parse(b);
        double timeout = rq.f("timeout", 60);
        int pfd[2];
        if (pipe(pfd)) return 8;
        int err = memfd_create("err", 0);
        fflush(NULL);
        pid_t pid = fork();
        if (pid == 0) {
            close(pfd[0]);
            setpgid(0, 0);
            child(rq, pfd[1], err);
        }
        setpgid(pid, pid);
        close(pfd[1]);
        std::string res;
        double t0 = now();
        bool timed_out = false;
        while (true) {
            double left = timeout - (now() - t0);
            if (left <= 0) { timed_out = true; break; }
            struct pollfd pf = {pfd[0], POLLIN, 0};
            int pr = poll(&pf, 1, (int)(left*1000) + 1);
            if (pr < 0) { if (errno == EINTR) continue; break; }
            if (pr == 0) continue;
            char tmp[65536];
            ssize_t r = read(pfd[0], tmp, sizeof tmp);
            if (r < 0 && errno == EINTR) continue;
            if (r <= 0) break;
            res.append(tmp, r);
        }
        if (timed_out) kill(-pid, SIGKILL), kill(pid, SIGKILL);
        close(pfd[0]);
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        kill(-pid, SIGKILL);
        std::string stat;
        if (timed_out) stat = "timeout 0";
        else if (WIFSIGNALED(st)) stat = "signal " + std::to_string(WTERMSIG(st));
        else if (WEXITSTATUS(st)) stat = "exit " + std::to_string(WEXITSTATUS(st));
        else stat = "done 0";
        off_t esz = lseek(err, 0, SEEK_END);
        off_t take = esz > 6000 ? 6000 : esz;
        std::string etxt(take, 0);
        if (take) { ssize_t g = pread(err, &etxt[0], take, 0); (void) g; }
        close(err);
        uint32_t n1 = stat.size(), n2 = etxt.size(), n3 = res.size();
        std::string o;
        o.append((char*)&n1, 4).append(stat);
        o.append((char*)&n2, 4).append(etxt);
        o.append((char*)&n3, 4).append(res);
        write_n(rout, o.data(), o.size());
    }
}
