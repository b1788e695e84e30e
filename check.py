#!/usr/bin/env python3
"""Decides one property by symbolic execution of /repo's current sources.

  check.py P07 [--tier quick|thorough] [--only ENTRY] [--keep] [-v]
  check.py --replay FILE            run a counterexample natively against the current sources
  check.py --setup                  build the engine
"""
import argparse, atexit, concurrent.futures as cf, fcntl, glob, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("OSL_REPO", "/repo")
sys.path.insert(0, VERIF)
JOBS = int(os.environ.get("SYM_JOBS", str(os.cpu_count() or 4)))
CLANG = shutil.which("clang-18") or shutil.which("clang")
LINK = shutil.which("llvm-link-18") or shutil.which("llvm-link") or "/usr/lib/llvm-18/bin/llvm-link"
WRAPS = ["exit", "abort", "malloc", "calloc", "realloc", "free", "strdup", "strndup"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build_engine(tmp):
    for d in (os.path.join(VERIF, ".build"), tmp):
        try:
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, "lock"), "w") as lk:
                fcntl.flock(lk, fcntl.LOCK_EX)
                r = sh(["make", "-s", "-j4", "-C", os.path.join(VERIF, "engine"), "B=" + d])
            exe = os.path.join(d, "symosl")
            if r.returncode == 0 and os.path.exists(exe):
                return exe
            err = r.stdout
        except OSError as e:
            err = str(e)
    sys.stderr.write(err)
    raise SystemExit(2)


class Build:
    """Everything derived from /repo's working tree, in a scratch directory."""

    def __init__(self, tmp):
        self.tmp = tmp
        self.inc = os.path.join(tmp, "inc")
        os.makedirs(os.path.join(self.inc, "osl"), exist_ok=True)
        t = open(os.path.join(REPO, "include/osl/scop.h.in")).read()
        open(os.path.join(self.inc, "osl/scop.h"), "w").write(re.sub(r"@\w+@", "0.0", t))
        self.src = sorted(glob.glob(os.path.join(REPO, "source/**/*.c"), recursive=True))
        self.flags = ["-DOSL_GMP_IS_HERE", "-D_GNU_SOURCE", "-I" + self.inc, "-I" + os.path.join(REPO, "include"), "-w", "-g"]
        self.native = {}

    def _par(self, cmds):
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for r in ex.map(sh, cmds):
                if r.returncode:
                    sys.stderr.write(r.stdout[-4000:])
                    sys.stderr.write("\nthe sources do not compile\n")
                    raise SystemExit(2)

    def bitcode(self, harnesses):
        d = os.path.join(self.tmp, "bc")
        os.makedirs(d, exist_ok=True)
        bcf = ["-O0", "-Xclang", "-disable-O0-optnone", "-fno-builtin", "-D__NO_CTYPE", "-U_FORTIFY_SOURCE", "-emit-llvm", "-c"]
        cmds, libs, outs = [], [], {}
        for s in self.src:
            o = os.path.join(d, "r_" + os.path.relpath(s, REPO).replace("/", "_") + ".bc")
            libs.append(o)
            cmds.append([CLANG] + bcf + self.flags + [s, "-o", o])
        for m in ("libc", "gmp"):
            o = os.path.join(d, "m_%s.bc" % m)
            libs.append(o)
            cmds.append([CLANG] + bcf + ["-w", "-g", os.path.join(VERIF, "models", m + ".c"), "-o", o])
        for h in harnesses:
            o = os.path.join(d, "h_%s.bc" % h)
            cmds.append([CLANG] + bcf + self.flags + ["-DSYMBOLIC", "-I" + os.path.join(VERIF, "harness"), os.path.join(VERIF, "harness", h + ".c"), "-o", o])
        self._par(cmds)
        base = os.path.join(d, "base.bc")
        self._par([[LINK] + libs + ["-o", base]])
        lk = []
        for h in harnesses:
            outs[h] = os.path.join(d, h + ".bc")
            lk.append([LINK, base, os.path.join(d, "h_%s.bc" % h), "-o", outs[h]])
        self._par(lk)
        return outs

    def native_exe(self, harness, entry, mode):
        """mode asan: address sanitizer; plain: for valgrind"""
        d = os.path.join(self.tmp, "nat_" + mode)
        san = ["-fsanitize=address", "-fno-omit-frame-pointer"] if mode == "asan" else []
        fl = ["-O0", "-fno-builtin"] + san
        if mode not in self.native:
            os.makedirs(d, exist_ok=True)
            objs, cmds = [], []
            for s in self.src:
                o = os.path.join(d, os.path.relpath(s, REPO).replace("/", "_") + ".o")
                objs.append(o)
                cmds.append([CLANG] + fl + self.flags + ["-c", s, "-o", o])
            self._par(cmds)
            self.native[mode] = objs
        exe = os.path.join(d, harness + "." + entry)
        if not os.path.exists(exe):
            self._par([[CLANG] + fl + self.flags + ["-DENTRY=" + entry, "-I" + os.path.join(VERIF, "harness"), os.path.join(VERIF, "harness", harness + ".c"), os.path.join(VERIF, "harness", "replay.c")]
                       + self.native[mode] + ["-Wl,--wrap=" + w for w in WRAPS] + ["-lgmp", "-o", exe]])
        return exe

    def replay(self, harness, entry, kind, cex, memory=0):
        """Returns (reproduced, text)."""
        order = ["plain", "asan"] if kind == "uninitialised" else ["asan", "plain"]
        text = ""
        for mode in order:
            exe = self.native_exe(harness, entry, mode)
            env = dict(os.environ)
            if memory:
                env["SYM_ONLYMEM" if memory == 1 else "SYM_ONLYCHANGED"] = "1"
            cmd = [exe, cex]
            if mode == "plain":
                env["SYM_NOFILL"] = "1"
                cmd = ["valgrind", "-q", "--error-exitcode=78", "--leak-check=no"] + cmd
            try:
                r = sh(["bash", "-c", "ulimit -v unlimited; ulimit -c 0; exec \"$@\"", "-"] + cmd, env=env, timeout=60, cwd=self.tmp)
            except subprocess.TimeoutExpired:
                if kind == "hang":
                    return True, "no end within 60 s"
                text += "[%s] timeout\n" % mode
                continue
            tail = r.stdout[-3000:]
            text += "[%s] exit %d\n%s\n" % (mode, r.returncode, tail)
            if "REPLAY-ASSUMPTION-FAILED" in r.stdout:
                continue
            if r.returncode in (70, 77, 78) or r.returncode < 0 or r.returncode >= 128:
                return True, text
            if kind == "hang" and mode == "asan":
                continue
        return False, text


def run_task(a):
    exe, bc, outdir, t, tl = a
    os.makedirs(outdir, exist_ok=True)
    out = os.path.join(outdir, "out.json")
    cmd = [exe, bc, "--entry", t["entry"], "--time", str(tl), "--cex", outdir, "--out", out, "--solver-ms", str(t.get("solver_ms", 8000)), "--max-viol", str(t.get("max_viol", 3)), "--max-insts", str(t.get("max_insts", 30000000))] + (["--ub-signed"] if t.get("ub") else []) + ([["--only-memory"], ["--only-changed"]][t["memory"] - 1] if t.get("memory") else [])
    for k, v in t["params"].items():
        cmd += ["-p", "%s=%d" % (k, v)]
    t0 = time.time()
    try:
        r = sh(["bash", "-c", "ulimit -v 12000000; exec \"$@\"", "-"] + cmd, timeout=tl + 60)
        err = r.stdout
        rc = r.returncode
    except subprocess.TimeoutExpired:
        rc, err = -1, "engine over its time"
    try:
        j = json.load(open(out))
    except Exception:
        j = None
    return t, j, rc, err, time.time() - t0, outdir


def load_known(prop):
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        if not l.startswith("known:"):
            continue
        m = re.match(r"known: property=(\w+) entry=(\S+) match=/(.*?)/ (.*)", l.strip())
        if m and m.group(1) == prop:
            res.append({"entry": m.group(2), "re": m.group(3), "what": m.group(4), "seen": False})
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="osl-sym-")
    if not a.keep:
        atexit.register(shutil.rmtree, tmp, True)
    else:
        print("scratch:", tmp)
    exe = build_engine(tmp)
    if a.setup:
        print("engine:", exe)
        return 0
    B = Build(tmp)
    if a.replay:
        h = dict(re.findall(r"^# replay (\w+)=(\S+)", open(a.replay).read(), re.M))
        ok, text = B.replay(h["harness"], h["entry"], h["kind"], os.path.abspath(a.replay), int(h.get("memory", 0)))
        print(text)
        print("reproduced" if ok else "not reproduced")
        return 1 if ok else 0
    import tasks
    P = tasks.PROPS[a.prop]
    tier = "thorough" if a.tier == "thorough" else "quick"
    todo = []
    for T in P["tasks"]:
        if a.only and not re.fullmatch(a.only, T["entry"]):
            continue
        points = tasks.warmed(T["quick"])
        if tier == "thorough" and T["deep"] is not None:
            points += [p for p in tasks.warmed(T["deep"]) if p not in points]
        for pr in points:
            t = dict(T)
            t["params"] = pr
            todo.append(t)
    B_bc = B.bitcode(sorted({t["harness"] for t in todo}))
    tb = time.time() - t0
    jobs = []
    for i, t in enumerate(todo):
        tl = (t["dtime"] if tier == "thorough" else t["time"]) * a.scale
        jobs.append((exe, B_bc[t["harness"]], os.path.join(tmp, "t%d" % i), t, tl))
    jobs.sort(key=lambda x: -x[4])
    known = load_known(a.prop)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    agg = dict(paths=0, instructions=0, forks=0, asserts=0, asserts_by_solver=0, asserts_unknown=0, queries=0, z3_calls=0, sat=0, unsat=0, unknown=0, cache_hits=0, model_hits=0, z3_seconds=0.0, exits=0, incomplete=0, sym_vars=0)
    funcs, rows, why, samples, problems, unrep = {}, [], {}, [], [], []
    nviol = ntraces = 0
    vacuous = []
    tried = {}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for t, j, rc, err, w, od in ex.map(run_task, jobs):
            name = "%s(%s)" % (t["entry"], ",".join("%s=%s" % kv for kv in t["params"].items()))
            if j is None:
                problems.append("%s: engine ended with %d: %s" % (name, rc, err[-300:]))
                rows.append({"task": name, "complete": False, "error": True})
                continue
            if err and a.v:
                print(err)
            for k in agg:
                agg[k] += j.get(k, 0)
            for k, v in j["functions"].items():
                o = funcs.get(k, [0, 0, v[2]])
                funcs[k] = [o[0] + v[0], max(o[1], v[1]), v[2]]
            for k, v in j["incomplete_why"].items():
                why[k] = why.get(k, 0) + v
            complete = not j["timeout"] and j["unexplored"] == 0 and j["incomplete"] == 0 and j["asserts_unknown"] == 0 and not j["violations"]
            miss = [r for r in t["reach"] if r not in j["reached"]]
            if miss or j["paths"] == 0 and not j["timeout"]:
                vacuous.append("%s: not reached %s" % (name, miss))
            rows.append({"task": name, "complete": complete, "paths": j["paths"], "unexplored": j["unexplored"], "timeout": j["timeout"], "asserts": j["asserts"], "by_solver": j["asserts_by_solver"], "queries": j["queries"], "z3": j["z3_calls"], "z3_s": j["z3_seconds"], "wall_s": round(w, 1), "reached": j["reached"]})
            for s in j["samples"][:2]:
                if s and len(samples) < 12:
                    samples.append({"task": name, "inputs": s})
            if a.v:
                print("%-60s paths %d+%d forks %d insts %d asserts %d/%d z3 %d %.1fs (max %.2f) wall %.1f%s %s %s" % (name, j["paths"], j["unexplored"], j["forks"], j["instructions"], j["asserts"], j["asserts_by_solver"], j["z3_calls"], j["z3_seconds"], j["z3_max"], w, " TIMEOUT" if j["timeout"] else "", j["incomplete_why"] or "", "MISS %s" % miss if miss else ""))
            for v in j["violations"]:
                desc = "%s: %s at %s [%s]" % (v["kind"], v["msg"], v["where"], name)
                cex = os.path.join(od, v["cex"])
                if not os.path.exists(cex):
                    continue
                key = (v["kind"], v["msg"], v["where"].split(" < ")[0].split(":")[0])
                if tried.get(key, 0) >= 3:
                    continue
                with open(cex, "a") as f:
                    f.write("# replay property=%s\n# replay harness=%s\n# replay entry=%s\n# replay kind=%s\n# replay memory=%d\n" % (a.prop, t["harness"], t["entry"], v["kind"], t.get("memory", 0)))
                ok, text = B.replay(t["harness"], t["entry"], v["kind"], cex, t.get("memory", 0))
                ntraces += 1
                if not ok:
                    unrep.append(desc)
                    sys.stderr.write("not reproduced on the real build (not reported): %s\n" % desc)
                    if a.v:
                        sys.stderr.write(open(cex).read() + text + "\n")
                    continue
                tried[key] = tried.get(key, 0) + 1
                kn = [k for k in known if re.fullmatch(k["entry"], t["entry"]) and re.search(k["re"], desc)]
                if kn:
                    if not kn[0]["seen"]:
                        print("KNOWN-FINDING: property=%s %s" % (a.prop, kn[0]["what"]))
                        kn[0]["seen"] = True
                    continue
                nviol += 1
                rd = os.path.join(VERIF, "replays")
                os.makedirs(rd, exist_ok=True)
                dst = os.path.join(rd, "%s-%d.txt" % (a.prop, nviol))
                shutil.copy(cex, dst)
                with open(dst, "a") as f:
                    f.write("# run: python3 check.py --replay %s\n" % dst + "".join("# " + l + "\n" for l in text.splitlines()[:60]))
                print("VIOLATION property=%s replay=%s" % (a.prop, dst))
                print("  " + desc)
                sys.stdout.flush()
                if a.v:
                    print(open(dst).read())
    wall = time.time() - t0
    ev = {
        "property": a.prop, "tier": tier, "seed": seed, "level": P.get("level", "model_checking"),
        "coverage": {
            "states": agg["paths"], "transitions": agg["instructions"], "traces_validated_against_impl": ntraces,
            "samples": samples or [{"task": r["task"]} for r in rows[:3]],
            "exhaustive": all(r["complete"] for r in rows) if rows else False,
            "explanation": "Symbolic execution of LLVM IR compiled from the current sources. states = paths (each a set of inputs described by a path condition) decided; transitions = instructions executed symbolically; a task is complete when every path within its bounds was decided and no query was left without an answer.",
            "bounds": P["bounds"], "tasks": rows, "tasks_complete": sum(r["complete"] for r in rows), "tasks_total": len(rows),
            "solver": {k: (round(v, 3) if isinstance(v, float) else v) for k, v in agg.items()},
            "functions_encoded": {k: {"calls": v[0], "instructions_reached": v[1], "instructions": v[2]} for k, v in sorted(funcs.items())},
            "not_decided": why, "engine_problems": problems, "vacuity": vacuous, "not_reproduced": unrep, "build_s": round(tb, 1),
            "known_findings_seen": [k["what"] for k in known if k["seen"]],
        },
        "assumptions": P.get("assumptions", []) + tasks.COMMON_ASSUMPTIONS,
        "wall_s": round(wall, 2), "violations": nviol,
    }
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", a.prop + ".json")
        json.dump(ev, open(p + ".tmp", "w"), indent=1)
        os.replace(p + ".tmp", p)
    for x in problems + vacuous:
        sys.stderr.write("warning: %s\n" % x)
    print("%s %s: %d/%d tasks complete, %d paths, %d asserts (%d by the solver), %d queries, %.1f s z3, %d violations, %.1f s" % (a.prop, tier, ev["coverage"]["tasks_complete"], len(rows), agg["paths"], agg["asserts"], agg["asserts_by_solver"], agg["queries"], agg["z3_seconds"], nviol, wall))
    return 1 if nviol else 0


if __name__ == "__main__":
    sys.exit(main())
