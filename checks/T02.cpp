// T02: threads that initialise the library at the same time and evaluate as soon as their own call has returned.
#include "hist.hpp"
#include "sched.hpp"
extern "C" void libgrpp_init_();
extern "C" void libgrpp_finalize_();

static Scene scene()
{
    Scene s;
    s.a = P3(0.7, 0.6, -0.5);
    s.b = P3(-0.4, 0.9, 0.8);
    s.c = P3(0.1, -0.2, 0.3);
    s.pt = s.a;
    s.la = s.lb = s.l = 1;
    s.ca = {0.6};
    s.aa = {1.7};
    s.cb = {0.8};
    s.ab = {0.45};
    s.u = PotSpec{{2, 1}, {2.0, -3.0}, {1.3, 6.0}, "mixed"};
    s.oc = {{1, 1, PotSpec{{1}, {-2.0}, {1.4}, ""}, {0.6}, {2.4}}};
    s.nuc = {0.2, 0.03, -0.3};
    return s;
}
static VD refs[K_ALL];
static bool have[K_ALL];
static void references()
{
    for (int k = 0; k < K_ALL; k++)
        refs[k] = in_child([&] {
            alarm(60);
            libgrpp_init();
            return flat(evaluate(k, scene()));
        }, have[k]);
}

// a thread's word: initialisations ('i' C, 'f' Fortran), evaluation of the thread's kind ('e')
static void together(mc::Ctx &c, const char *before, const std::vector<std::string> &words, const std::vector<int> &kinds)
{
    std::string d = std::string("[") + before + "] ";
    for (size_t t = 0; t < words.size(); t++) d += std::string(t ? " || " : "") + words[t] + (words[t].find('e') != std::string::npos ? std::string(" (") + kname(kinds[t]) + ")" : "");
    c.desc("%s", d.c_str());
    c.state("%.250s", d.c_str());
    for (int k : kinds) c.expect(have[k], "the reference evaluation did not end normally");
    // the state to start from, outside the monitor: it happened before the threads were made
    for (const char *q = before; *q; q++) {
        if (*q == 'i') libgrpp_init();
        if (*q == 'F') libgrpp_finalize();
        if (*q == 'e') evaluate(K_TYPE2, scene());
    }
    sched::Options o;
    sched::Stats st = sched::explore(c, o, [&]() -> std::string {
        char b[300];
        Scene sc = scene();
        Live sh(sc);
        Args a = sh.args();
        size_t n = (size_t)libgrpp_get_shell_size(a.A) * libgrpp_get_shell_size(a.B);
        std::vector<std::vector<Blocks>> out(words.size());
        std::vector<std::function<void()>> fs;
        for (size_t t = 0; t < words.size(); t++) {
            for (char q : words[t])
                if (q == 'e') out[t].push_back(Blocks(blocks(kinds[t]).size(), VD(n, 7.0)));
            fs.push_back([&, t] {
                int i = 0;
                for (char q : words[t]) {
                    if (q == 'i') libgrpp_init();
                    if (q == 'f') libgrpp_init_();
                    if (q == 'e') {
                        double *p[16];
                        int j = 0;
                        for (auto &x : out[t][i]) p[j++] = x.data();
                        evaluate(kinds[t], a, p);
                        i++;
                    }
                }
            });
        }
        sched::spawn_all(fs);
        if (libgrpp_is_initialized() != 1) return "the library does not report itself initialised after all initialisations have returned";
        for (size_t t = 0; t < words.size(); t++)
            for (auto &bl : out[t]) {
                VD r = flat(bl), &w = refs[kinds[t]];
                for (size_t e = 0; e < w.size(); e++)
                    if (memcmp(&r[e], &w[e], 8)) {
                        snprintf(b, sizeof b, "thread %zu, %s: element %zu is %.17g, after a single-threaded initialisation it is %.17g", t + 1, kname(kinds[t]), e, r[e], w[e]);
                        return b;
                    }
            }
        // and for everybody afterwards
        for (int k = 0; k < K_ALL; k++) {
            if (!have[k]) continue;
            if (words.size() > 2 && k % 4) continue;
            VD r = flat(evaluate(k, sc));
            for (size_t e = 0; e < r.size(); e++)
                if (memcmp(&r[e], &refs[k][e], 8)) {
                    snprintf(b, sizeof b, "afterwards, %s: element %zu is %.17g, after a single-threaded initialisation it is %.17g", kname(k), e, r[e], refs[k][e]);
                    return b;
                }
        }
        return "";
    });
    c.call((long)words.size());
    c.expect(st.complete, "schedule limit reached");
}

static const std::vector<std::string> BEFORE = {"", "i", "iF", "ie", "ieF", "iFiF"};

static void two(mc::Ctx &c)
{
    std::string b = c.pick<std::string>("before", mc::thorough ? BEFORE : std::vector<std::string>(BEFORE.begin(), BEFORE.begin() + 3));
    static const std::vector<std::string> W = {"ie", "fe", "i", "iie", "iei", "ife"};
    int nw = mc::thorough ? 6 : 4;
    std::string w1 = W[c.choose(nw, "word 1")], w2 = W[c.choose(nw, "word 2")];
    int k1 = c.pick<int>("kind 1", mc::thorough ? std::vector<int>{K_TYPE2, K_NUC_POINT} : std::vector<int>{K_TYPE2});
    c.go();
    together(c, b.c_str(), {w1, w2}, {k1, K_SO});
}
static void kinds(mc::Ctx &c)
{
    std::vector<int> ks;
    for (int k = 0; k < K_ALL; k++)
        if (needs_init(k)) ks.push_back(k);
    std::string b = mc::thorough ? c.pick<std::string>("before", BEFORE) : "";
    int i = c.choose((int)ks.size(), "kind 1"), j = mc::thorough ? c.choose((int)ks.size(), "kind 2") : (i * 5 + 2) % (int)ks.size();
    c.go();
    together(c, b.c_str(), {"ie", "ie"}, {ks[i], ks[j]});
}
static void three(mc::Ctx &c)
{
    std::string b = c.pick<std::string>("before", {"", "i", "iF"});
    int m = c.choose(mc::thorough ? 4 : 2, "words");
    c.go();
    static const std::vector<std::vector<std::string>> W = {{"ie", "ie", "ie"}, {"i", "fe", "ie"}, {"ie", "iei", "fe"}, {"ie", "ie", "ie", "ie"}};
    together(c, b.c_str(), W[m], m == 3 ? std::vector<int>{K_TYPE2, K_SO, K_NUC_NUM, K_OC} : std::vector<int>{K_TYPE2, K_SO, K_NUC_NUM});
}

int main(int argc, char **argv)
{
    mc::warmup = references;
    return mc::drive(argc, argv, {{"two threads", two, 600}, {"kinds", kinds, 600}, {"three threads", three, 900}});
}
