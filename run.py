#!/usr/bin/env python3
"""run.py ID quick|thorough      build from /repo's working tree, explore, write evidence/ID.json
   run.py ID replay FILE         re-execute one recorded violation
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself could not run."""
import fcntl, hashlib, json, os, re, subprocess, sys, time, glob, fnmatch, shutil

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, os.path.join(VERIF, "mc"))
import plans  # noqa: E402

PATHENV = dict(os.environ)
PATHENV["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + os.environ.get("PATH", "")
PATHENV.pop("CFLAGS", None)
PATHENV.pop("LDFLAGS", None)


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=PATHENV, **kw)
    if r.returncode:
        print("command failed:", " ".join(cmd) if isinstance(cmd, list) else cmd)
        print(r.stdout[-4000:])
        raise SystemExit(2)
    return r.stdout


def digest(files, extra):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(os.path.basename(f).encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


def repo_files(sub, exts):
    return [f for f in glob.glob(os.path.join(REPO, sub, "**"), recursive=True) if os.path.isfile(f) and f.rsplit(".", 1)[-1] in exts]


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def prune():
    """old builds of other trees"""
    ds = [d for d in glob.glob(os.path.join(BUILD, "*-*")) if os.path.isdir(d)]
    ds.sort(key=os.path.getmtime)
    for d in ds[:-40]:
        shutil.rmtree(d, ignore_errors=True)


def parallel(cmds):
    ps = []
    todo = list(cmds)
    fail = None
    while todo or ps:
        while todo and len(ps) < (os.cpu_count() or 4):
            c = todo.pop(0)
            ps.append((c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=PATHENV)))
        c, p = ps.pop(0)
        o, _ = p.communicate()
        if p.returncode and not fail:
            fail = (c, o)
    if fail:
        print("command failed:", " ".join(fail[0]))
        print(fail[1][-4000:])
        raise SystemExit(2)


def build_lib(variant):
    """compile all of /repo/libgrpp with the flags of a variant -> archive path"""
    v = plans.LIBS[variant]
    hdr = repo_files("libgrpp", ("h", "c"))
    rt = [os.path.join(VERIF, x) for x in v.get("runtime", [])] + [os.path.join(VERIF, x) for x in v.get("deps", [])]
    key = digest(hdr + rt, repr(v))
    d = os.path.join(BUILD, "lib-%s-%s" % (variant, key))
    a = os.path.join(d, "libgrpp.a")
    with Lock():
        if not os.path.exists(a):
            prune()
            os.makedirs(d, exist_ok=True)
            cmds = []
            objs = []
            for c in sorted(f for f in hdr if f.endswith(".c")):
                o = os.path.join(d, os.path.relpath(c, os.path.join(REPO, "libgrpp")).replace("/", "_")[:-2] + ".o")
                objs.append(o)
                big = re.search(r"bessel_table|fermi_sk|specfunc_boys", c)
                cmds.append(([v["cc"]] + v["flags"] + ["-w", "-I", os.path.dirname(c), "-c", c, "-o", o], bool(big)))
            cmds.sort(key=lambda t: not t[1])
            parallel([c for c, _ in cmds])
            if v.get("redefine"):
                parallel([["objcopy", "--redefine-syms", os.path.join(VERIF, v["redefine"]), o] for o in objs])
            tmp = a + ".tmp"
            if os.path.exists(tmp):
                os.remove(tmp)
            sh(["ar", "rcs", tmp] + objs)
            os.rename(tmp, a)
        os.utime(d)
    return a


def build_driver():
    """both front-ends and the library, as the repository builds them (own flags), into a cache directory"""
    srcs = repo_files("libgrpp", ("h", "c")) + repo_files("test_libgrpp_c", ("h", "c")) + repo_files("test_libgrpp_f90", ("f90",)) + \
        [os.path.join(REPO, "CMakeLists.txt"), os.path.join(REPO, "libgrpp/CMakeLists.txt")]
    key = digest(srcs, "drv2")
    d = os.path.join(BUILD, "drv-" + key)
    with Lock():
        if not os.path.exists(os.path.join(d, "ok")):
            prune()
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            s = os.path.join(d, "src")
            os.makedirs(s)
            for sub in ("libgrpp", "test_libgrpp_c", "test_libgrpp_f90", "test"):
                if sub == "test":
                    os.makedirs(os.path.join(s, "test"))
                    shutil.copy(os.path.join(REPO, "test/compare_matrices.c"), os.path.join(s, "test"))
                else:
                    shutil.copytree(os.path.join(REPO, sub), os.path.join(s, sub))
            shutil.copy(os.path.join(REPO, "CMakeLists.txt"), s)
            PATHENV["CC"] = "gcc"
            PATHENV["FC"] = "gfortran"
            sh(["cmake", "-S", s, "-B", os.path.join(d, "b"), "-G", "Ninja", "--no-warn-unused-cli", "-DCMAKE_C_FLAGS=-ftrivial-auto-var-init=pattern"])
            sh(["ninja", "-C", os.path.join(d, "b"), "test_libgrpp_c.x", "test_libgrpp_f90.x"])
            open(os.path.join(d, "ok"), "w").close()
        os.utime(d)
    return os.path.join(d, "b")


def build_prog(pid, prog, plan):
    """compile one harness program against the library variant"""
    variant = prog["lib"]
    v = plans.LIBS[variant]
    a = build_lib(variant)
    own = [os.path.join(VERIF, x) for x in prog["src"]] + [os.path.join(VERIF, x) for x in v.get("runtime", [])]
    deps = glob.glob(os.path.join(VERIF, "mc", "*.hpp")) + glob.glob(os.path.join(VERIF, "mc", "*.h")) + repo_files("libgrpp", ("h",)) + \
        glob.glob(os.path.join(VERIF, "checks", "*.h*"))
    extra_c = sorted(f for x in prog.get("repo_src", []) for f in glob.glob(os.path.join(REPO, x)))
    more = []
    if prog.get("repo_src"):
        more = repo_files("test_libgrpp_c", ("h", "c"))
    key = digest(own + deps + [a] + more, repr(prog) + repr(v))
    d = os.path.join(BUILD, "bin-%s-%s" % (pid, key))
    exe = os.path.join(d, "check")
    with Lock():
        if not os.path.exists(exe):
            os.makedirs(d, exist_ok=True)
            objs = []
            cmds = []
            for c in own:
                o = os.path.join(d, os.path.basename(c) + ".o")
                objs.append(o)
                cxx = v.get("cxx", "g++") if c.endswith(".cpp") else v["cc"]
                std = ["-std=c++17"] if c.endswith(".cpp") else []
                isrt = os.path.relpath(c, VERIF) in v.get("runtime", [])
                fl = v.get("rtflags", ["-O2", "-g"]) if isrt else v.get("hflags", ["-O2", "-g"])
                cmds.append([cxx] + std + fl + prog.get("defs", []) + ["-w", "-I", os.path.join(VERIF, "mc"), "-I", os.path.join(REPO, "libgrpp"), "-c", c, "-o", o])
            for c in extra_c:
                o = os.path.join(d, "repo_" + os.path.basename(c) + ".o")
                objs.append(o)
                cmds.append([v["cc"]] + v["flags"] + prog.get("repo_defs", []) + ["-w", "-I", os.path.join(REPO, "libgrpp"), "-I", os.path.dirname(c), "-c", c, "-o", o])
            parallel(cmds)
            if v.get("redefine") and extra_c:
                parallel([["objcopy", "--redefine-syms", os.path.join(VERIF, v["redefine"]), o] for o in objs if os.path.basename(o).startswith("repo_")])
            tmp = exe + ".tmp"
            sh([v.get("cxx", "g++")] + v.get("ldflags", []) + ["-o", tmp] + objs + [a] + ["-lm", "-lpthread", "-ldl"] + v.get("libs", []) + prog.get("libs", []))
            os.rename(tmp, exe)
        os.utime(d)
    return exe


def known(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) harness=(.*?) case=(.*?) what=(.*)$", line.strip())
            if m and m.group(1) == pid:
                out.append(dict(harness=m.group(2), case=m.group(3), what=m.group(4), seen=False))
    return out


def main():
    pid, tier = sys.argv[1], sys.argv[2]
    plan = plans.CHECKS[pid]
    if tier == "replay":
        rec = json.load(open(sys.argv[3]))
        prog = plan["progs"][rec["prog"]]
        env = dict(PATHENV, **prog.get("env", {}))
        if prog.get("driver"):
            env["MC_DRIVERS"] = build_driver()
        exe = build_prog(pid, prog, plan)
        r = subprocess.run([exe, "replay", rec["tier"], rec["harness"], rec["choices"]], env=env)
        sys.exit(r.returncode)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    rdir = os.path.join(VERIF, "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, pid + "-*")):
        os.remove(f)
    total = dict(leaves=0, executed=0, states=0, transitions=0, comparisons=0, choice_nodes=0, distinct_outcomes=0)
    harn = []
    viols = []
    samples = []
    exhaustive = True
    extra = {}
    budget = plan.get("budget", {}).get(tier, 600 if tier == "quick" else 3000)
    kn = known(pid)
    hits = []
    for i, prog in enumerate(plan["progs"]):
        if prog.get("tier") and prog["tier"] != tier:
            continue
        env = dict(PATHENV, **prog.get("env", {}))
        if prog.get("driver"):
            env["MC_DRIVERS"] = build_driver()
        exe = build_prog(pid, prog, plan)
        outj = os.path.join(os.path.dirname(exe), "out-%s-%d.json" % (tier, os.getpid()))
        left = max(10, budget - (time.time() - t0))
        print("[%s %s] program %d (%s)" % (pid, tier, i, ", ".join(prog["src"])), flush=True)
        r = subprocess.run([exe, "run", tier, outj, str(left)], env=env)
        if r.returncode != 0:
            print("check program ended with", r.returncode)
            sys.exit(2)
        res = json.load(open(outj))
        os.remove(outj)
        for k in total:
            total[k] += res.get(k, 0)
        harn += res["harnesses"]
        samples += res["samples"]
        exhaustive = exhaustive and res["exhaustive"]
        for k, v in res.get("extra", {}).items():
            extra[k] = extra.get(k, 0) + v if isinstance(v, (int, float)) and not isinstance(v, bool) else v
        for v in res["violations"]:
            v["prog"] = i
            v["tier"] = tier
            k = next((k for k in kn if k["harness"] in ("*", v["harness"]) and fnmatch.fnmatchcase(v["case"] + " :: " + v["message"], k["case"])), None)
            if k:
                k["seen"] = True
                hits.append(v)
            else:
                viols.append(v)
    for k in kn:
        if k["seen"]:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for n, v in enumerate(viols[:20]):
        f = os.path.join(rdir, "%s-%d.json" % (pid, n))
        json.dump(v, open(f, "w"), indent=1)
        print("  violated: harness %s, case %s\n            %s" % (v["harness"], v["case"], v["message"]))
        print("VIOLATION property=%s replay=%s" % (pid, f))
    wall = time.time() - t0
    cov = dict(states=total["states"], transitions=total["transitions"], traces_validated_against_impl=total["executed"],
               samples=samples[:40], choice_tree_nodes=total["choice_nodes"], complete_executions=total["leaves"],
               comparisons_with_oracle=total["comparisons"], distinct_outcomes=total["distinct_outcomes"],
               exhausted_within_bounds=exhaustive, bounds=plan["bounds"], oracle=plan["oracle"], harnesses=harn, **extra)
    ev = dict(property=pid, tier=tier, seed=seed, level=plan.get("level", "model_checking"), coverage=cov, wall_s=round(wall, 2),
              violations=len(viols), assumptions=plan["assumptions"])
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("[%s %s] executions %d/%d  states %d  transitions %d  comparisons %d  exhaustive %s  violations %d  known %d  %.1fs" % (
        pid, tier, total["executed"], total["leaves"], total["states"], total["transitions"], total["comparisons"], exhaustive, len(viols), len(hits), wall))
    sys.exit(1 if viols else 0)


if __name__ == "__main__":
    main()
