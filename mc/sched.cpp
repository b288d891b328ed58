#include "sched.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <unordered_map>
#include <malloc.h>

namespace sched {

typedef uint32_t Clk;
enum Op { OP_START, OP_ACQ, OP_REL, OP_TRY, OP_ATOMIC, OP_BARRIER, OP_JOIN, OP_NEXT, OP_ONCE, OP_END };

struct VC {
    Clk c[MAXT];
    void join(const VC &o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};
struct Lock { int owner = -1, depth = 0; VC vc{}; };
struct Once { int state = 0; VC vc{}; };            // 0 new, 1 running, 2 done
struct Team {
    int n = 0, arrived = 0, gen = 0, finished = 0;
    long next = 0, end = 0, incr = 1, chunk = 1;
    bool loop = false;
    int loops_left = 0, single = -1, singles = 0;
    VC bar{}, work{};
    std::vector<int> seen;
};
struct Thr {
    bool live = false, done = false;
    pthread_t th;
    sem_t sem;
    int op = OP_START;
    const void *obj = nullptr;
    int want = 0;               // barrier generation waited for
    VC vc{};
    Team *team = nullptr;
    int rank = 0;
    bool got = false;
    std::function<void()> fn;
    int calls = 0;
};
static Thr T[MAXT];
static int nthr, cur = -1;
static bool on = false;
static Options opt;
static std::unordered_map<const void *, Lock> locks;
static std::unordered_map<const void *, Once> onces;
static std::unordered_map<const void *, VC> atoms;
static int streak = 0;
static __thread int me = 0;

// ---------------------------------------------------------------- what a process reports to the explorer
enum { MAXD = 4096 };
struct Dec { uint32_t enabled, sleep; uint16_t chosen; uint16_t op[MAXT]; uint64_t obj[MAXT]; };
struct Rep {
    int status;                 // 0 died, 1 fine, 2 violation, 3 redundant
    int nd;
    long accesses;
    char msg[700];
    Dec d[MAXD];
};
static Rep *rep;
static std::vector<int> prefix;
static uint32_t sleep0;         // sleep set in force right after the prefix

[[noreturn]] static void finish(int status, const char *fmt = "", ...)
{
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(rep->msg, sizeof rep->msg, fmt, ap);
    va_end(ap);
    rep->status = status;
    _exit(0);
}

// ---------------------------------------------------------------- shadow memory
struct Gran { uint32_t w; uint32_t wpc; uint8_t mask, split; uint16_t r[MAXT]; };   // one per 8 bytes; epochs: thread<<24 | clock
struct Page { Gran g[512]; };
static std::unordered_map<uintptr_t, Page *> pages;
static std::unordered_map<Gran *, Gran *> parts;
static uintptr_t last_no = 0;
static Page *last_pg = nullptr;
static long accesses = 0;

static Page *page(uintptr_t no)
{
    if (no == last_no && last_pg) return last_pg;
    Page *&p = pages[no];
    if (!p) p = (Page *)mmap(0, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    last_no = no;
    return last_pg = p;
}
static const char *where(uintptr_t pc, char *b, size_t n)
{
    Dl_info i;
    if (pc && dladdr((void *)pc, &i) && i.dli_sname) snprintf(b, n, "%s", i.dli_sname);
    else snprintf(b, n, "%#lx", (unsigned long)pc);
    return b;
}
static uintptr_t base;
[[noreturn]] static void race(const char *what, int a, int b, uintptr_t addr, uintptr_t pc, uintptr_t opc)
{
    char n1[80], n2[80], n3[80];
    rep->accesses = accesses;
    finish(2, "data race: %s by thread %d in %s, not ordered with %s of thread %d%s%s; address in/near %s", what, a, where(pc, n1, 80),
           what[0] == 'w' ? "an access" : "a write", b, opc ? " in " : "", opc ? where(opc, n2, 80) : "", where(addr, n3, 80));
}
static inline void one(Gran *g, bool wr, uintptr_t pc, uintptr_t addr)
{
    Thr &t = T[me];
    Clk now = t.vc.c[me];
    uint32_t ep = (uint32_t)me << 24 | now;
    if (wr ? g->w == ep : g->r[me] == now) return;
    if (g->w) {
        int u = g->w >> 24;
        if (u != me && (g->w & 0xffffff) > t.vc.c[u]) race(wr ? "write" : "read", me, u, addr, pc, base + g->wpc);
    }
    if (wr) {
        for (int u = 0; u < nthr; u++)
            if (u != me && g->r[u] > t.vc.c[u]) race("write", me, u, addr, pc, 0);
        g->w = ep;
        g->wpc = (uint32_t)(pc - base);
    } else {
        g->r[me] = (uint16_t)now;
    }
}
static void touch(uintptr_t a, size_t n, bool wr, uintptr_t pc)
{
    accesses++;
    while (n) {
        unsigned off = a & 7;
        size_t k = std::min<size_t>(8 - off, n);
        uint8_t m = (uint8_t)(((1u << k) - 1) << off);
        Gran *g = &page(a >> 12)->g[(a >> 3) & 511];
        if (!g->split) {
            if (!g->mask) g->mask = m;
            if (g->mask == m) one(g, wr, pc, a);
            else {
                Gran *s = (Gran *)calloc(8, sizeof(Gran));
                for (int i = 0; i < 8; i++)
                    if (g->mask >> i & 1) s[i] = *g;
                parts[g] = s;
                g->split = 1;
            }
        }
        if (g->split) {
            Gran *s = parts[g];
            for (int i = 0; i < 8; i++)
                if (m >> i & 1) one(&s[i], wr, pc, a);
        }
        a += k;
        n -= k;
    }
}
// fresh memory: as if just written by this thread
static void fresh(uintptr_t a, size_t n, uintptr_t pc)
{
    uintptr_t e = (a + n + 7) & ~(uintptr_t)7;
    uint32_t ep = (uint32_t)me << 24 | T[me].vc.c[me];
    for (a &= ~(uintptr_t)7; a < e; a += 8) {
        Gran *g = &page(a >> 12)->g[(a >> 3) & 511];
        if (g->split) {
            free(parts[g]);
            parts.erase(g);
        }
        memset(g, 0, sizeof *g);
        g->w = ep;
        g->wpc = (uint32_t)(pc - base);
        g->mask = 255;
    }
}

// ---------------------------------------------------------------- scheduler
static bool enabled(int i)
{
    Thr &t = T[i];
    if (!t.live || t.done) return false;
    switch (t.op) {
        case OP_ACQ: { Lock &l = locks[t.obj]; return l.owner < 0 || (t.want && l.owner == i); }
        case OP_ONCE: return onces[t.obj].state != 1;
        case OP_BARRIER: return ((Team *)t.obj)->gen > t.want;
        case OP_JOIN: return ((Team *)t.obj)->finished == ((Team *)t.obj)->n - 1;
    }
    return true;
}
static uint32_t sleeping;

// identifies an object across executions
static uint64_t ident(const void *p) { return (uint64_t)(uintptr_t)p; }
template <class P> static bool indep(int oa, P a, int ob, P b)
{
    if (oa == OP_START || ob == OP_START) return oa != ob;      // the order of the starts is explored
    if (oa == OP_JOIN || ob == OP_JOIN) return true;
    return a != b;
}
static bool independent(int a, int b)
{
    return indep(T[a].op, T[a].obj, T[b].op, T[b].obj);
}

// called by the running thread (or by one that ends): hand over to the next
static void dispatch(bool ending)
{
    uint32_t en = 0;
    for (int i = 0; i < nthr; i++)
        if (enabled(i)) en |= 1u << i;
    if (!en) {
        bool any = false;
        for (int i = 0; i < nthr; i++) any = any || (T[i].live && !T[i].done);
        if (!any) return;
        rep->accesses = accesses;
        finish(2, "deadlock: no thread can continue");
    }
    int pick = -1;
    int k = rep->nd;
    if (k >= MAXD) finish(2, "more than %d synchronisation steps in one execution", MAXD);
    if (k < (int)prefix.size()) {
        pick = prefix[k];
        if (!(en >> pick & 1)) finish(2, "the execution does not repeat under the same schedule (thread %d cannot continue)", pick);
        if (k + 1 == (int)prefix.size()) sleeping = sleep0;
    } else {
        if (k == 0) sleeping = 0;
        uint32_t c = en & ~sleeping;
        if (!c) {
            rep->accesses = accesses;
            finish(3);
        }
        // stay with the current thread; after a long run of one thread (a spin loop) take the next one
        if (cur >= 0 && (c >> cur & 1) && streak < 300) pick = cur;
        else {
            pick = __builtin_ctz(c);
            if (streak >= 300)
                for (int j = 1; j <= nthr; j++) {
                    int q = (cur + j) % nthr;
                    if (c >> q & 1) { pick = q; break; }
                }
        }
    }
    Dec &d = rep->d[rep->nd++];
    d.enabled = en;
    d.sleep = k < (int)prefix.size() ? 0 : sleeping;
    d.chosen = (uint16_t)pick;
    for (int i = 0; i < nthr; i++) {
        d.op[i] = (uint16_t)T[i].op;
        d.obj[i] = ident(T[i].obj);
    }
    if (k >= (int)prefix.size()) {
        uint32_t s = 0;
        for (int i = 0; i < nthr; i++)
            if ((sleeping >> i & 1) && i != pick && independent(i, pick)) s |= 1u << i;
        sleeping = s;
    }
    streak = pick == cur ? streak + 1 : 0;
    int self = me;
    cur = pick;
    if (pick != self) {
        sem_post(&T[pick].sem);
        if (!ending)
            while (sem_wait(&T[self].sem) && errno == EINTR) {}
    }
}
static void point(int op, const void *obj)
{
    T[me].op = op;
    T[me].obj = obj;
    dispatch(false);
}
static void tick() { if (++T[me].vc.c[me] > 65000) finish(2, "more synchronisation steps than the monitor counts"); }

static void *entry(void *p)
{
    int id = (int)(intptr_t)p;
    me = id;
    while (sem_wait(&T[id].sem) && errno == EINTR) {}
    T[id].fn();
    T[id].done = true;
    T[id].op = OP_END;
    Team *tm = T[id].team;
    tm->finished++;
    tm->bar.join(T[id].vc);
    dispatch(true);
    return nullptr;
}
static int create(std::function<void()> fn, Team *tm, int rank)
{
    if (nthr >= MAXT) finish(2, "more than %d logical threads", MAXT);
    int id = nthr++;
    Thr &t = T[id];
    t.live = true;
    t.op = OP_START;
    t.obj = nullptr;
    t.fn = fn;
    t.team = tm;
    t.rank = rank;
    t.vc = T[me].vc;
    t.vc.c[id] = 1;
    sem_init(&t.sem, 0, 0);
    pthread_attr_t at;
    pthread_attr_init(&at);
    size_t sz = 8 << 20;
    void *stk = mmap(0, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    pthread_attr_setstack(&at, stk, sz);
    if (pthread_create(&t.th, &at, entry, (void *)(intptr_t)id)) finish(2, "harness: no thread");
    return id;
}
static void join_team(Team *tm)
{
    point(OP_JOIN, tm);
    T[me].vc.join(tm->bar);
    tick();
}
void spawn_all(const std::vector<std::function<void()>> &fs)
{
    Team *tm = new Team;
    tm->n = (int)fs.size() + 1;
    for (size_t i = 0; i < fs.size(); i++) create(fs[i], tm, (int)i);
    tick();
    // the creator only waits
    join_team(tm);
}

// ---------------------------------------------------------------- depth-first search over schedules
struct Node { uint32_t enabled, sleep, tried; int chosen; uint16_t op[MAXT]; uint64_t obj[MAXT]; };
Stats explore(mc::Ctx &c, const Options &o, std::function<std::string()> body)
{
    opt = o;
    Stats st{};
    rep = (Rep *)mmap(0, sizeof(Rep), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<Node> stack;
    prefix.clear();
    sleep0 = 0;
    st.complete = true;
    for (;;) {
        rep->status = 0;
        rep->nd = 0;
        rep->accesses = 0;
        rep->msg[0] = 0;
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
            Dl_info di;
            dladdr((void *)&explore, &di);
            base = (uintptr_t)di.dli_fbase;
            nthr = 1;
            me = 0;
            cur = 0;
            T[0].live = true;
            T[0].vc.c[0] = 1;
            sem_init(&T[0].sem, 0, 0);
            on = true;
            std::string r = body();
            on = false;
            rep->accesses = accesses;
            if (!r.empty()) finish(2, "%s", r.c_str());
            finish(1);
        }
        int ws = 0;
        waitpid(p, &ws, 0);
        st.schedules++;
        st.decisions += rep->nd;
        st.accesses += rep->accesses;
        c.s->transitions += rep->nd;
        c.s->states++;
        std::string sch;
        if (rep->status != 1 && rep->status != 3) {
            for (int i = 0; i < rep->nd && i < 120; i++) sch += std::to_string(rep->d[i].chosen) + (i + 1 < rep->nd ? " " : "");
            if (rep->status == 0) c.fail("the process died (status %x) under the schedule [%s]", ws, sch.c_str());
            c.fail("%s; schedule [%s]", rep->msg, sch.c_str());
        }
        if (rep->status == 3) st.redundant++;
        c.s->compared++;
        // append the new decisions
        for (int i = (int)stack.size(); i < rep->nd; i++) {
            Node n;
            n.enabled = rep->d[i].enabled;
            n.sleep = rep->d[i].sleep;
            n.chosen = rep->d[i].chosen;
            n.tried = 1u << n.chosen;
            memcpy(n.op, rep->d[i].op, sizeof n.op);
            memcpy(n.obj, rep->d[i].obj, sizeof n.obj);
            stack.push_back(n);
        }
        // backtrack
        int pick = -1;
        while (!stack.empty()) {
            Node &n = stack.back();
            uint32_t left = n.enabled & ~n.tried & ~n.sleep;
            if (left) { pick = __builtin_ctz(left); break; }
            stack.pop_back();
        }
        if (pick < 0) break;
        if (st.schedules >= o.cap) { st.complete = false; break; }
        Node &n = stack.back();
        uint32_t asleep = n.sleep | n.tried;
        n.tried |= 1u << pick;
        n.chosen = pick;
        sleep0 = 0;
        for (int i = 0; i < MAXT; i++)
            if ((asleep >> i & 1) && i != pick && indep(n.op[i], n.obj[i], n.op[pick], n.obj[pick])) sleep0 |= 1u << i;
        prefix.clear();
        for (auto &m : stack) prefix.push_back(m.chosen);
    }
    munmap(rep, sizeof(Rep));
    return st;
}

// ---------------------------------------------------------------- primitives
static void acquire(const void *l, int nest = 0)
{
    if (!on) return;
    T[me].want = nest;
    point(OP_ACQ, l);
    Lock &k = locks[l];
    k.owner = me;
    k.depth++;
    T[me].vc.join(k.vc);
}
static void release(const void *l)
{
    if (!on) return;
    point(OP_REL, l);
    Lock &k = locks[l];
    if (--k.depth == 0) {
        k.vc = T[me].vc;
        k.owner = -1;
        tick();
    }
}
static int try_acquire(const void *l)
{
    if (!on) return 0;
    point(OP_TRY, l);
    Lock &k = locks[l];
    if (k.owner >= 0 && k.owner != me) return 16;
    k.owner = me;
    k.depth++;
    T[me].vc.join(k.vc);
    return 0;
}
static void once(const void *o, void (*f)(void))
{
    if (!on) { f(); return; }
    point(OP_ONCE, o);
    if (onces[o].state == 0) {
        onces[o].state = 1;
        f();
        Once &k = onces[o];
        point(OP_REL, o);
        k.state = 2;
        k.vc = T[me].vc;
        tick();
    } else T[me].vc.join(onces[o].vc);
}
static void barrier(Team *tm)
{
    if (!tm || tm->n <= 1) return;
    tm->bar.join(T[me].vc);
    int g = tm->gen;
    if (++tm->arrived == tm->n) {
        tm->arrived = 0;
        tm->gen++;
    }
    T[me].want = g;
    point(OP_BARRIER, tm);
    T[me].vc.join(tm->bar);
    tick();
}
static const char global_critical = 0, global_atomic = 0;

static void region(void (*fn)(void *), void *data, unsigned n, std::function<void(Team *)> init)
{
    if (!on) {
        // sequential
        Team tm;
        tm.n = 1;
        init(&tm);
        Team *keep = T[me].team;
        int kr = T[me].rank;
        T[me].team = &tm;
        T[me].rank = 0;
        fn(data);
        T[me].team = keep;
        T[me].rank = kr;
        return;
    }
    Team *tm = new Team;
    init(tm);
    int want = opt.team;
    if (n) want = (int)n;
    if (T[me].team && T[me].team->n > 1) want = 1;       // no nesting
    if (opt.one_each && want > 1) {
        long ch = tm->loop ? ((tm->end - tm->next) / tm->incr + tm->chunk - 1) / tm->chunk : 0;
        want = tm->loop ? (int)std::max<long>(1, ch) : opt.team;
        if (nthr + want > MAXT) finish(2, "harness: too many iterations for one thread each");
    }
    tm->n = want;
    Team *keep = T[me].team;
    int kr = T[me].rank;
    tm->bar.join(T[me].vc);
    tm->work.join(T[me].vc);
    for (int i = 1; i < want; i++) create([fn, data] { fn(data); }, tm, i);
    T[me].team = tm;
    T[me].rank = 0;
    T[me].got = false;
    tick();
    if (want > 1) point(OP_START, nullptr);
    fn(data);
    T[me].team = keep;
    T[me].rank = kr;
    if (want > 1) join_team(tm);
}
static bool next(long *s, long *e)
{
    Team *tm = T[me].team;
    if (!tm) return false;
    if (on && tm->n > 1) {
        if (opt.one_each) {
            // chunk number = rank, exactly one
            if (T[me].got) return false;
            T[me].got = true;
            *s = tm->next + (long)T[me].rank * tm->chunk * tm->incr;
            if (tm->incr > 0 ? *s >= tm->end : *s <= tm->end) return false;
            *e = *s + tm->chunk * tm->incr;
            if (tm->incr > 0 ? *e > tm->end : *e < tm->end) *e = tm->end;
            return true;
        }
        point(OP_NEXT, tm);
    }
    if (tm->incr > 0 ? tm->next >= tm->end : tm->next <= tm->end) return false;
    *s = tm->next;
    *e = *s + tm->chunk * tm->incr;
    if (tm->incr > 0 ? *e > tm->end : *e < tm->end) *e = tm->end;
    tm->next = *e;
    return true;
}
static void set_loop(Team *tm, long s, long e, long incr, long chunk)
{
    tm->loop = true;
    tm->next = s;
    tm->end = e;
    tm->incr = incr ? incr : 1;
    tm->chunk = chunk > 0 ? chunk : 1;
}
static bool loop_start(long s, long e, long incr, long chunk, long *is, long *ie)
{
    Team *tm = T[me].team;
    if (!tm) {
        static Team solo;
        solo = Team();
        solo.n = 1;
        set_loop(&solo, s, e, incr, chunk);
        T[me].team = &solo;
        return next(is, ie);
    }
    if (!tm->loops_left) {
        set_loop(tm, s, e, incr, chunk);
        tm->loops_left = tm->n;
        for (int i = 0; i < nthr; i++)
            if (T[i].team == tm) T[i].got = false;
    }
    tm->loops_left--;
    return next(is, ie);
}

}  // namespace sched

using namespace sched;
#define PC ((uintptr_t)__builtin_return_address(0))
#define RD(n) \
    void __tsan_read##n(void *a) { if (on) touch((uintptr_t)a, n, false, PC); } \
    void __tsan_write##n(void *a) { if (on) touch((uintptr_t)a, n, true, PC); } \
    void __tsan_unaligned_read##n(void *a) { if (on) touch((uintptr_t)a, n, false, PC); } \
    void __tsan_unaligned_write##n(void *a) { if (on) touch((uintptr_t)a, n, true, PC); } \
    void __tsan_volatile_read##n(void *a) { if (on) touch((uintptr_t)a, n, false, PC); } \
    void __tsan_volatile_write##n(void *a) { if (on) touch((uintptr_t)a, n, true, PC); }

// an atomic: scheduling point, acquire and release as its memory order says
template <class F> static auto atomic(const void *a, int mo, F f) -> decltype(f())
{
    if (!on) return f();
    point(OP_ATOMIC, a);
    VC &v = atoms[a];
    bool acq = mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
    bool rel = mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
    if (acq) T[me].vc.join(v);
    auto r = f();
    if (rel) {
        v.join(T[me].vc);
        tick();
    }
    return r;
}
#define ATOMICS(bits, type) \
    type __tsan_atomic##bits##_load(const volatile type *a, int mo) { return atomic((const void *)a, mo, [&] { return *a; }); } \
    void __tsan_atomic##bits##_store(volatile type *a, type v, int mo) { atomic((const void *)a, mo, [&] { *a = v; return 0; }); } \
    type __tsan_atomic##bits##_exchange(volatile type *a, type v, int mo) { return atomic((const void *)a, mo, [&] { type o = *a; *a = v; return o; }); } \
    type __tsan_atomic##bits##_fetch_add(volatile type *a, type v, int mo) { return atomic((const void *)a, mo, [&] { type o = *a; *a = (type)(o + v); return o; }); } \
    type __tsan_atomic##bits##_fetch_sub(volatile type *a, type v, int mo) { return atomic((const void *)a, mo, [&] { type o = *a; *a = (type)(o - v); return o; }); } \
    type __tsan_atomic##bits##_fetch_and(volatile type *a, type v, int mo) { return atomic((const void *)a, mo, [&] { type o = *a; *a = (type)(o & v); return o; }); } \
    type __tsan_atomic##bits##_fetch_or(volatile type *a, type v, int mo) { return atomic((const void *)a, mo, [&] { type o = *a; *a = (type)(o | v); return o; }); } \
    type __tsan_atomic##bits##_fetch_xor(volatile type *a, type v, int mo) { return atomic((const void *)a, mo, [&] { type o = *a; *a = (type)(o ^ v); return o; }); } \
    type __tsan_atomic##bits##_fetch_nand(volatile type *a, type v, int mo) { return atomic((const void *)a, mo, [&] { type o = *a; *a = (type)~(o & v); return o; }); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile type *a, type *e, type v, int mo, int) { return atomic((const void *)a, mo, [&] { if (*a == *e) { *a = v; return 1; } *e = *a; return 0; }); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile type *a, type *e, type v, int mo, int f) { return __tsan_atomic##bits##_compare_exchange_strong(a, e, v, mo, f); } \
    type __tsan_atomic##bits##_compare_exchange_val(volatile type *a, type e, type v, int mo, int) { return atomic((const void *)a, mo, [&] { type o = *a; if (o == e) *a = v; return o; }); }


extern "C" {
RD(1) RD(2) RD(4) RD(8) RD(16)
void __tsan_read_range(void *a, size_t n) { if (on && n) touch((uintptr_t)a, n, false, PC); }
void __tsan_write_range(void *a, size_t n) { if (on && n) touch((uintptr_t)a, n, true, PC); }
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { static const char f = 0; atomic(&f, mo, [] { return 0; }); }
void __tsan_atomic_signal_fence(int) {}

void *mc_malloc(size_t n) { void *p = malloc(n); if (on && p) fresh((uintptr_t)p, malloc_usable_size((void *)p), PC); return p; }
void *mc_calloc(size_t k, size_t n) { void *p = calloc(k, n); if (on && p) fresh((uintptr_t)p, malloc_usable_size((void *)p), PC); return p; }
void mc_free(void *p) { if (on && p) touch((uintptr_t)p, malloc_usable_size(p), true, PC); free(p); }
void *mc_realloc(void *q, size_t n)
{
    if (on && q) touch((uintptr_t)q, malloc_usable_size(q), true, PC);
    void *p = realloc(q, n);
    if (on && p) fresh((uintptr_t)p, malloc_usable_size((void *)p), PC);
    return p;
}
void *mc_aligned_alloc(size_t al, size_t n) { void *p = aligned_alloc(al, n); if (on && p) fresh((uintptr_t)p, malloc_usable_size((void *)p), PC); return p; }
int mc_posix_memalign(void **q, size_t al, size_t n) { int r = posix_memalign(q, al, n); if (on && !r) fresh((uintptr_t)*q, malloc_usable_size((void *)*q), PC); return r; }
void *mc_memset(void *p, int c, size_t n) { if (on && n) touch((uintptr_t)p, n, true, PC); return memset(p, c, n); }
void *mc_memcpy(void *d, const void *s, size_t n)
{
    if (on && n) { touch((uintptr_t)s, n, false, PC); touch((uintptr_t)d, n, true, PC); }
    return memcpy(d, s, n);
}
void *mc_memmove(void *d, const void *s, size_t n)
{
    if (on && n) { touch((uintptr_t)s, n, false, PC); touch((uintptr_t)d, n, true, PC); }
    return memmove(d, s, n);
}
int mc_memcmp(const void *d, const void *s, size_t n)
{
    if (on && n) { touch((uintptr_t)s, n, false, PC); touch((uintptr_t)d, n, false, PC); }
    return memcmp(d, s, n);
}
char *mc_strcpy(char *d, const char *s) { return (char *)mc_memcpy(d, s, strlen(s) + 1); }
char *mc_strncpy(char *d, const char *s, size_t n) { if (on && n) { touch((uintptr_t)s, strnlen(s, n), false, PC); touch((uintptr_t)d, n, true, PC); } return strncpy(d, s, n); }
int mc_strcmp(const char *a, const char *b) { if (on) { touch((uintptr_t)a, strlen(a) + 1, false, PC); touch((uintptr_t)b, strlen(b) + 1, false, PC); } return strcmp(a, b); }
size_t mc_strlen(const char *a) { size_t n = strlen(a); if (on) touch((uintptr_t)a, n + 1, false, PC); return n; }
void mc_qsort(void *p, size_t k, size_t n, int (*f)(const void *, const void *)) { if (on && k * n) touch((uintptr_t)p, k * n, true, PC); qsort(p, k, n, f); }

void mc_GOMP_critical_start(void) { acquire(&global_critical); }
void mc_GOMP_critical_end(void) { release(&global_critical); }
void mc_GOMP_critical_name_start(void **p) { acquire(p); }
void mc_GOMP_critical_name_end(void **p) { release(p); }
void mc_GOMP_atomic_start(void) { acquire(&global_atomic); }
void mc_GOMP_atomic_end(void) { release(&global_atomic); }
void mc_GOMP_barrier(void) { if (on) barrier(T[me].team); }
bool mc_GOMP_single_start(void)
{
    Team *tm = T[me].team;
    if (!on || !tm || tm->n <= 1) return true;
    // the first to arrive at the k-th single region takes it
    point(OP_NEXT, tm);
    if ((int)tm->seen.size() < tm->n) tm->seen.resize(tm->n, 0);
    int k = ++tm->seen[T[me].rank];
    if (k > tm->singles) { tm->singles = k; return true; }
    return false;
}
void mc_GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { region(fn, data, n, [](Team *) {}); }
#define PLOOP(name) \
    void mc_GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long ch, unsigned) \
    { region(fn, data, n, [=](Team *tm) { set_loop(tm, s, e, i, ch); tm->loops_left = 0; }); }
#define PLOOP0(name) \
    void mc_GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, unsigned) \
    { region(fn, data, n, [=](Team *tm) { set_loop(tm, s, e, i, 1); tm->loops_left = 0; }); }
PLOOP(static) PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
PLOOP0(runtime) PLOOP0(nonmonotonic_runtime) PLOOP0(maybe_nonmonotonic_runtime)
#define LOOP(name) \
    bool mc_GOMP_loop_##name##_start(long s, long e, long i, long ch, long *is, long *ie) { return loop_start(s, e, i, ch, is, ie); } \
    bool mc_GOMP_loop_##name##_next(long *is, long *ie) { return next(is, ie); }
#define LOOP0(name) \
    bool mc_GOMP_loop_##name##_start(long s, long e, long i, long *is, long *ie) { return loop_start(s, e, i, 1, is, ie); } \
    bool mc_GOMP_loop_##name##_next(long *is, long *ie) { return next(is, ie); }
LOOP(static) LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
LOOP0(runtime) LOOP0(nonmonotonic_runtime) LOOP0(maybe_nonmonotonic_runtime)
void mc_GOMP_loop_end(void) { if (on) barrier(T[me].team); }
void mc_GOMP_loop_end_nowait(void) {}
int mc_omp_get_thread_num(void) { return T[me].team ? T[me].rank : 0; }
int mc_omp_get_num_threads(void) { return T[me].team ? T[me].team->n : 1; }
int mc_omp_get_max_threads(void) { return on ? opt.team : 1; }
int mc_omp_get_num_procs(void) { return 8; }
int mc_omp_in_parallel(void) { return T[me].team && T[me].team->n > 1; }
void mc_omp_set_num_threads(int) {}
void mc_omp_init_lock(void *) {}
void mc_omp_destroy_lock(void *) {}
void mc_omp_set_lock(void *p) { acquire(p); }
void mc_omp_unset_lock(void *p) { release(p); }
int mc_omp_test_lock(void *p) { return try_acquire(p) == 0; }
void mc_omp_init_nest_lock(void *) {}
void mc_omp_destroy_nest_lock(void *) {}
void mc_omp_set_nest_lock(void *p) { acquire(p, 1); }
void mc_omp_unset_nest_lock(void *p) { release(p); }
int mc_pthread_mutex_init(void *, const void *) { return 0; }
int mc_pthread_mutex_destroy(void *) { return 0; }
int mc_pthread_mutex_lock(void *p) { acquire(p); return 0; }
int mc_pthread_mutex_unlock(void *p) { release(p); return 0; }
int mc_pthread_mutex_trylock(void *p) { return try_acquire(p); }
int mc_pthread_spin_lock(void *p) { acquire(p); return 0; }
int mc_pthread_spin_unlock(void *p) { release(p); return 0; }
int mc_pthread_once(void *p, void (*f)(void)) { once(p, f); return 0; }
int mc_mtx_init(void *, int) { return 0; }
int mc_mtx_lock(void *p) { acquire(p); return 0; }
int mc_mtx_unlock(void *p) { release(p); return 0; }
void mc_call_once(void *p, void (*f)(void)) { once(p, f); }
int mc_sched_yield(void) { static const char y = 0; if (on) { streak = 1000; point(OP_ATOMIC, &y); } return 0; }
}
