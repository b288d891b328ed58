// Exhaustive explorer over finite choice trees, every complete execution in a process of its own.
//
// A harness body first makes all its choices (choose/pick) and then calls go(); everything after go() is the
// execution. The explorer enumerates the choice tree completely (dry runs stop at go()), then runs every leaf in a
// forked child, on all cores. A crash, an assertion, an exit, a hang or a failed comparison is a violation of that
// leaf; a violation is re-executed twice in fresh processes before it is reported.
#pragma once
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <poll.h>
#include <fnmatch.h>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

namespace mc {

struct Enough {};
struct Fail {};

static bool thorough = false;

inline double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}

// what a child reports
struct Slot {
    volatile int done;              // 1 = complete, 2 = failed
    long states, transitions, compared;
    double worst;                   // largest deviation / tolerance seen
    uint64_t outcome;
    char desc[700];
    char msg[900];
    char worst_at[300];
};

static const long OUTC = 1 << 16;
struct Shared {
    long next;
    long states, transitions, compared, traces, fails;
    double worst;
    char worst_at[400];
    uint64_t outcomes[OUTC];
    long nout;
    int nviol;
    int stop;
    double slowest;
    struct { int h; long leaf; char msg[1700]; char desc[700]; } viol[64];
};

struct Ctx {
    std::vector<int> pre;
    std::vector<int> arity;
    size_t pos = 0;
    bool dry = false;
    Slot *s = nullptr;
    std::string where;

    int choose(int n, const char *label)
    {
        if (n <= 0) { fprintf(stderr, "mc: empty choice %s\n", label); abort(); }
        int v = 0;
        if (pos < pre.size()) {
            v = pre[pos];
            if (v >= n) { fprintf(stderr, "mc: choice out of range (%s)\n", label); abort(); }
            arity[pos] = n;
        } else {
            pre.push_back(0);
            arity.push_back(n);
        }
        pos++;
        return v;
    }
    template <class T> T pick(const char *label, std::vector<T> v) { return v[choose((int)v.size(), label)]; }
    void go()
    {
        if (dry) throw Enough();
        if (pos != pre.size()) { fprintf(stderr, "mc: divergence while replaying\n"); abort(); }
    }
    __attribute__((format(printf, 2, 3))) void desc(const char *fmt, ...)
    {
        if (dry) return;
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(s->desc, sizeof s->desc, fmt, ap);
        va_end(ap);
    }
    // one visited state = one concrete configuration / one prefix of a history
    __attribute__((format(printf, 2, 3))) void state(const char *fmt, ...)
    {
        char b[300];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(b, sizeof b, fmt, ap);
        va_end(ap);
        where = b;
        strncpy(s->msg, ("(while at " + where + ")").c_str(), sizeof s->msg - 1);   // shown if the child dies
        s->states++;
    }
    void call(long n = 1) { s->transitions += n; }
    __attribute__((format(printf, 2, 3))) void fail(const char *fmt, ...)
    {
        char b[800];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(b, sizeof b, fmt, ap);
        va_end(ap);
        snprintf(s->msg, sizeof s->msg, "%s [at %s]", b, where.c_str());
        s->done = 2;
        throw Fail();
    }
    void hash(const void *p, size_t n)
    {
        const unsigned char *c = (const unsigned char *)p;
        uint64_t h = s->outcome ? s->outcome : 1469598103934665603ull;
        for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
        s->outcome = h;
    }
    // |got - want| <= tol elementwise
    void near(const char *what, const double *got, const double *want, size_t n, double tol0, const double *tols = nullptr)
    {
        s->compared++;
        for (size_t i = 0; i < n; i++) {
            double d = std::fabs(got[i] - want[i]), tol = tols ? tols[i] : tol0;
            if (!(d <= tol))
                fail("%s: element %zu is %.15g, should be %.15g (difference %.3g, tolerance %.3g)", what, i, got[i], want[i],
                     d, tol);
            if (d / tol > s->worst) {
                s->worst = d / tol;
                snprintf(s->worst_at, sizeof s->worst_at, "%s %s el %zu got %.10g want %.10g", what, where.c_str(), i, got[i], want[i]);
            }
        }
        hash(got, 0);
        long q = 0;
        for (size_t i = 0; i < n; i++) q = q * 31 + (long)std::llround(std::fabs(got[i]) < 1e9 ? got[i] * 1e6 : 0);
        hash(&q, sizeof q);
    }
    void same(const char *what, const void *got, const void *want, size_t n)
    {
        s->compared++;
        hash(got, n);
        if (memcmp(got, want, n) == 0) return;
        const double *a = (const double *)got, *b = (const double *)want;
        for (size_t i = 0; i < n / sizeof(double); i++)
            if (memcmp(a + i, b + i, sizeof(double))) fail("%s: element %zu is %.17g, should be bit-identical to %.17g", what, i, a[i], b[i]);
        fail("%s: bytes differ", what);
    }
    void expect(bool ok, const char *what)
    {
        s->compared++;
        if (!ok) fail("%s", what);
    }
};

typedef void (*Body)(Ctx &);
struct Harness {
    const char *name;
    Body body;
    double limit;      // seconds per leaf
};

inline std::string choices(const std::vector<int> &v)
{
    std::string s;
    for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]);
    return s.empty() ? "-" : s;
}

inline bool enumerate(Body body, std::vector<std::vector<int>> &leaves, long &nodes, long cap)
{
    std::vector<int> pre;
    nodes = 1;
    std::vector<int> last;
    for (;;) {
        Ctx c;
        c.dry = true;
        c.pre = pre;
        c.arity.assign(pre.size(), 0);
        bool reached = false;
        try { body(c); } catch (Enough &) { reached = true; }
        if (reached) leaves.push_back(c.pre);
        size_t common = 0;
        while (common < last.size() && common < c.pre.size() && last[common] == c.pre[common]) common++;
        nodes += (long)(c.pre.size() - common);
        last = c.pre;
        if ((long)leaves.size() >= cap) return false;
        int k = (int)c.pre.size() - 1;
        while (k >= 0 && c.pre[k] + 1 >= c.arity[k]) k--;
        if (k < 0) return true;
        pre.assign(c.pre.begin(), c.pre.begin() + k + 1);
        pre[k]++;
    }
}

struct LeafResult { int how; std::string msg, desc; };   // how: 0 fine, 1 failed comparison, 2 died, 3 hang

static void (*warmup)() = nullptr;
// work shared by all leaves of a worker (library initialisation); tried in a process of its own first, and left to
// the leaves if that process does not survive
static void (*prefork)() = nullptr;

inline void run_prefork()
{
    if (!prefork) return;
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        int n = open("/dev/null", O_WRONLY);
        dup2(n, 1);
        dup2(n, 2);
        alarm(60);
        prefork();
        _exit(42);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 42) prefork();
}

static int (*leaf_end)() = nullptr;      // e.g. leak check; non-zero = violation
static const char *leaf_end_msg = "";

// An execution of the quick tier may take this much processor time (wall clock time says little on a busy machine).
static const double CPU_LIMIT = 150;
// When the wall clock limit was cut short by the end of the budget, running into it says nothing.
inline LeafResult run_leaf(const Harness &h, const std::vector<int> &leaf, Slot *slot, double limit, int outfd)
{
    memset((void *)slot, 0, sizeof *slot);
    if (ftruncate(outfd, 0)) {}
    lseek(outfd, 0, SEEK_SET);
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(99); }
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        setpgid(0, 0);
        dup2(outfd, 1);
        dup2(outfd, 2);
        if (!thorough) {
            struct rlimit rl = {(rlim_t)CPU_LIMIT, (rlim_t)CPU_LIMIT + 20};
            setrlimit(RLIMIT_CPU, &rl);
        }
        Ctx c;
        c.pre = leaf;
        c.arity.assign(leaf.size(), 0);
        c.s = slot;
        try {
            h.body(c);
            if (leaf_end && leaf_end()) { snprintf(slot->msg, sizeof slot->msg, "%s", leaf_end_msg); slot->done = 2; }
            else slot->done = 1;
        } catch (Fail &) {}
        fflush(stdout);
        fflush(stderr);
        _exit(0);
    }
    double t0 = now();
    int st = 0;
    bool hang = false;
    // wait with a limit
    long us = 50;
    for (;;) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (now() - t0 > limit) {
            hang = true;
            kill(-pid, SIGKILL);
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            break;
        }
        usleep(us);
        if (us < 2000) us += us / 4;
    }
    kill(-pid, SIGKILL);   // anything the execution left behind
    LeafResult r{0, "", slot->desc};
    if (slot->done == 1 && !hang) return r;
    if (slot->done == 2) { r.how = 1; r.msg = slot->msg; return r; }
    char tail[700];
    off_t n = lseek(outfd, 0, SEEK_END);
    // sanitizer reports: first the line that names the problem
    std::string all;
    {
        off_t keep = n > 200000 ? 200000 : n;
        all.resize(keep);
        ssize_t k = pread(outfd, &all[0], keep, 0);
        all.resize(k > 0 ? k : 0);
    }
    std::string head;
    for (const char *key : {"ERROR: AddressSanitizer", "runtime error:", "ERROR: LeakSanitizer", "Assertion", "WARNING: ThreadSanitizer", "stack smashing", "terminate called"}) {
        size_t q = all.find(key);
        if (q != std::string::npos) {
            size_t b = all.rfind('\n', q);
            b = b == std::string::npos ? 0 : b + 1;
            head = all.substr(b, std::min<size_t>(all.find('\n', q) - b, 260));
            size_t fr = all.find("/libgrpp/", q);
            if (fr != std::string::npos) {
                size_t lb = all.rfind('\n', fr) + 1;
                head += " | " + all.substr(lb, std::min<size_t>(all.find('\n', fr) - lb, 160));
            }
            break;
        }
    }
    if (head.empty() && !all.empty()) head = all.substr(all.size() > 300 ? all.size() - 300 : 0);
    for (auto &c : head)
        if (c == '\n' || c == '\r') c = ' ';
    if (!hang && WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU) { snprintf(tail, sizeof tail, "no answer after %.0f s of processor time", CPU_LIMIT); r.how = 3; }
    else if (hang && limit < h.limit) { r.how = 0; r.msg = "cut"; return r; }
    else if (hang) { snprintf(tail, sizeof tail, "no answer after %.0f s", limit); r.how = 3; }
    else if (WIFSIGNALED(st)) { snprintf(tail, sizeof tail, "killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))); r.how = 2; }
    else { snprintf(tail, sizeof tail, "process ended with exit code %d in the middle of the execution", WEXITSTATUS(st)); r.how = 2; }
    r.msg = std::string(tail) + " " + slot->msg + " " + head;
    return r;
}

inline void jstr(FILE *f, const std::string &s)
{
    fputc('"', f);
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c < 32) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

// prog run <tier> <out.json> <budget seconds> [only-harness] | prog replay <tier> <harness> <choices>
inline int drive(int argc, char **argv, std::vector<Harness> hs)
{
    if (argc < 3) { fprintf(stderr, "usage\n"); return 2; }
    std::string mode = argv[1];
    thorough = std::string(argv[2]) == "thorough";
    Slot *slots = (Slot *)mmap(0, sizeof(Slot) * 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    Shared *sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    setvbuf(stdout, nullptr, _IOLBF, 0);
    char tmpn[] = "/tmp/mc_out_XXXXXX";
    int fd0 = mkstemp(tmpn);
    unlink(tmpn);

    if (mode == "replay") {
        if (argc < 5) return 2;
        for (auto &h : hs) {
            if (std::string(h.name) != argv[3]) continue;
            std::vector<int> v;
            std::string c = argv[4];
            if (c != "-")
                for (char *t = strtok(&c[0], ","); t; t = strtok(nullptr, ",")) v.push_back(atoi(t));
            if (warmup) warmup();
            LeafResult r = run_leaf(h, v, slots, h.limit * 3, fd0);
            printf("harness %s choices %s\ncase: %s\n", h.name, argv[4], r.desc.c_str());
            if (r.how) printf("FAILS: %s\n", r.msg.c_str());
            else printf("holds\n");
            return r.how ? 1 : 0;
        }
        fprintf(stderr, "no such harness\n");
        return 2;
    }

    const char *out = argv[3];
    double budget = argc > 4 ? atof(argv[4]) : 1e9;
    const char *only = argc > 5 ? argv[5] : nullptr;
    double t0 = now();
    if (warmup) warmup();
    int W = (int)sysconf(_SC_NPROCESSORS_ONLN);
    if (getenv("MC_JOBS")) W = atoi(getenv("MC_JOBS"));
    if (W < 1) W = 1;
    if (W > 32) W = 32;

    FILE *f = fopen(out, "w");
    if (!f) { perror(out); return 2; }
    fprintf(f, "{\"harnesses\":[");
    long tot_leaves = 0, tot_traces = 0, tot_states = 0, tot_trans = 0, tot_cmp = 0, tot_nodes = 0, tot_viol = 0;
    std::set<uint64_t> outcomes;
    bool exhaustive = true;
    std::string viols, samples;
    int hi = -1;
    for (auto &h : hs) {
        hi++;
        if (only && strcmp(only, h.name)) continue;
        if (!thorough && tot_viol && now() - t0 > 300) { exhaustive = false; printf("  %-26s left out, violations found already\n", h.name); continue; }
        std::vector<std::vector<int>> leaves;
        long nodes = 0;
        if (!enumerate(h.body, leaves, nodes, 5000000)) exhaustive = false;
        memset((void *)sh, 0, sizeof *sh);
        double th = now();
        std::vector<pid_t> ws;
        int w = (int)std::min<long>(W, (long)leaves.size());
        for (int k = 0; k < w; k++) {
            fflush(f);
            pid_t p = fork();
            if (p == 0) {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                char tn[] = "/tmp/mc_out_XXXXXX";
                int fd = mkstemp(tn);
                unlink(tn);
                Slot *s = slots + 1 + k;
                long loc = 0;
                run_prefork();
                for (;;) {
                    if (__atomic_load_n(&sh->stop, __ATOMIC_SEQ_CST)) break;
                    if (now() - t0 > budget) break;
                    long i = __atomic_fetch_add(&sh->next, 1, __ATOMIC_SEQ_CST);
                    if (i >= (long)leaves.size()) break;
                    double lt = now();
                    LeafResult r = run_leaf(h, leaves[i], s, std::max(30.0, std::min(h.limit, t0 + budget + 100 - now())), fd);
                    if (r.msg == "cut") continue;
                    lt = now() - lt;
                    if (lt > sh->slowest) sh->slowest = lt;
                    __atomic_fetch_add(&sh->traces, 1, __ATOMIC_SEQ_CST);
                    __atomic_fetch_add(&sh->states, s->states, __ATOMIC_SEQ_CST);
                    __atomic_fetch_add(&sh->transitions, s->transitions, __ATOMIC_SEQ_CST);
                    __atomic_fetch_add(&sh->compared, s->compared, __ATOMIC_SEQ_CST);
                    if (s->outcome) {
                        long o = __atomic_fetch_add(&sh->nout, 1, __ATOMIC_SEQ_CST);
                        if (o < OUTC) sh->outcomes[o] = s->outcome;
                    }
                    if (s->worst > sh->worst) { sh->worst = s->worst; memcpy(sh->worst_at, s->worst_at, sizeof s->worst_at); }
                    loc++;
                    if (r.how) {
                        if (!thorough && (r.how == 3 || (sh->fails >= 64 && now() - t0 > 120))) sh->stop = 1;
                        __atomic_fetch_add(&sh->fails, 1, __ATOMIC_SEQ_CST);
                        int v = __atomic_fetch_add(&sh->nviol, 1, __ATOMIC_SEQ_CST);
                        if (v < 64) {
                            sh->viol[v].h = hi;
                            sh->viol[v].leaf = i + 1;
                            snprintf(sh->viol[v].msg, sizeof sh->viol[v].msg, "%s", r.msg.c_str());
                            snprintf(sh->viol[v].desc, sizeof sh->viol[v].desc, "%s", r.desc.c_str());
                        }
                    }
                }
                _exit(0);
            }
            ws.push_back(p);
        }
        for (pid_t p : ws) {
            int st;
            waitpid(p, &st, 0);
            if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "mc: a worker died (status %x)\n", st); fclose(f); return 2; }
        }
        bool complete = sh->traces == (long)leaves.size();
        if (!complete) exhaustive = false;
        int nv = std::min(sh->nviol, 64);
        // simplest first
        std::vector<int> ord(nv);
        for (int i = 0; i < nv; i++) ord[i] = i;
        for (int i = 0; i < nv; i++)
            for (int j = i + 1; j < nv; j++)
                if (sh->viol[ord[j]].leaf < sh->viol[ord[i]].leaf) std::swap(ord[i], ord[j]);
        long confirmed = 0, flaky = 0;
        double tc = now();
        for (int i = 0; i < nv; i++) {
            auto &v = sh->viol[ord[i]];
            int again = 0;
            std::string msg = v.msg;
            double lim = strncmp(v.msg, "no answer", 9) ? h.limit : h.limit * 3;
            int times = lim > h.limit ? 1 : 2;
            again = 2 - times;
            if (i < 24 && (thorough || i == 0 || now() - tc < 40))
                for (int k = 0; k < times; k++) {
                    LeafResult r = run_leaf(h, leaves[v.leaf - 1], slots, lim, fd0);
                    if (r.how) { again++; msg = r.msg; }
                }
            else again = 2;
            if (again < 2) { flaky++; fprintf(stderr, "mc: not reproduced (%d/2): %s: %s\n", again, h.name, v.msg); if (again == 0 || times == 1) continue; }
            confirmed++;
            if (viols.size()) viols += ",\n";
            FILE *m;
            char *b = nullptr;
            size_t bl = 0;
            m = open_memstream(&b, &bl);
            fprintf(m, "{\"harness\":\"%s\",\"choices\":\"%s\",\"case\":", h.name, choices(leaves[v.leaf - 1]).c_str());
            jstr(m, v.desc);
            fprintf(m, ",\"message\":");
            jstr(m, msg);
            fprintf(m, "}");
            fclose(m);
            viols += std::string(b, bl);
            free(b);
        }
        for (long o = 0; o < std::min(sh->nout, OUTC); o++) outcomes.insert(sh->outcomes[o]);
        fprintf(f, "%s\n{\"name\":\"%s\",\"leaves\":%zu,\"choice_nodes\":%ld,\"executed\":%ld,\"states\":%ld,\"transitions\":%ld,"
                   "\"comparisons\":%ld,\"failures\":%ld,\"confirmed\":%ld,\"complete\":%s,\"seconds\":%.2f,\"worst_ratio\":%.4g,\"worst_at\":",
                tot_leaves ? "," : "", h.name, leaves.size(), nodes, sh->traces, sh->states, sh->transitions, sh->compared, sh->fails,
                confirmed, complete ? "true" : "false", now() - th, sh->worst);
        jstr(f, sh->worst_at);
        fprintf(f, "}");
        printf("  %-26s leaves %zu/%ld  states %ld  calls %ld  comparisons %ld  worst %.2g (%s)  failures %ld  %.1fs (longest %.1f)%s\n", h.name,
               leaves.size(), sh->traces, sh->states, sh->transitions, sh->compared, sh->worst, sh->worst_at, sh->fails, now() - th, sh->slowest,
               complete ? "" : "  [CAPPED]");
        if (samples.size()) samples += ",";
        samples += "\"" + std::string(h.name) + ":" + choices(leaves[leaves.size() / 2]) + "\"";
        tot_leaves += (long)leaves.size();
        tot_traces += sh->traces;
        tot_states += sh->states;
        tot_trans += sh->transitions;
        tot_cmp += sh->compared;
        tot_nodes += nodes;
        tot_viol += confirmed;
    }
    fprintf(f, "],\n\"leaves\":%ld,\"executed\":%ld,\"states\":%ld,\"transitions\":%ld,\"comparisons\":%ld,\"choice_nodes\":%ld,"
               "\"distinct_outcomes\":%zu,\"exhaustive\":%s,\"seconds\":%.2f,\"samples\":[%s],\n\"violations\":[%s]}\n",
            tot_leaves, tot_traces, tot_states, tot_trans, tot_cmp, tot_nodes, outcomes.size(), exhaustive ? "true" : "false", now() - t0,
            samples.c_str(), viols.c_str());
    fclose(f);
    return 0;
}

}  // namespace mc
