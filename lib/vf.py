"""Driver: compile /repo code + harness to LLVM IR, run the symbolic executor, replay natively, report."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SRC = REPO + "/src"
MSX = VERIF + "/.cache/bin/msx"
NCPU = max(1, min(8, os.cpu_count() or 1))

CLANG_COMMON = ["-O1", "-Xclang", "-disable-llvm-passes", "-fno-builtin", "-gline-tables-only", "-fno-discard-value-names",
                "-emit-llvm", "-c", "-w", "-fno-vectorize", "-fno-slp-vectorize"]
CXXSTD = ["-std=c++0x", "-include", "cstdint", "-fno-threadsafe-statics"]


class Err(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)


FAMILY = {
    "fwrite": "fputs fputs_unlocked fputc putc _IO_putc putc_unlocked fputc_unlocked fwrite_unlocked fprintf vfprintf",
    "fread": "fgetc getc _IO_getc getc_unlocked fgets fread_unlocked",
    "fseek": "rewind fseeko fseeko64", "ftell": "ftello ftello64",
    "write": "send", "read": "recv", "open": "creat",
}


class Harness:
    def __init__(self, name, file, sources=(), defs=None, time=300, jobs=8, reach=(), bounds="", steps=3000000,
                 libs=(), native_sources=(), replay_timeout=20, incs=(), rss=3500, tests=24, native=True, opts=(), quick=True,
                 thorough=None, rename=None):
        self.rename = dict(rename or {})   # calls the repository's code makes to these symbols go to stand-ins of the harness
        for base, fam in FAMILY.items():   # and so do calls to their relatives (rt/fam.c)
            if base in self.rename:
                for f in fam.split():
                    self.rename.setdefault(f, "vf_" + f)
        self.name, self.file, self.sources = name, file, list(sources)
        self.defs = dict(defs or {})
        self.time, self.jobs, self.reach, self.bounds, self.steps = time, jobs, list(reach), bounds, steps
        self.libs, self.native_sources, self.replay_timeout = list(libs), list(native_sources), replay_timeout
        self.incs, self.rss, self.tests, self.native, self.opts = list(incs), rss, tests, native, list(opts)
        self.quick, self.thorough = quick, thorough
        self.result = None
        # source files that were added to the repository next to the ones listed
        base = set(open(VERIF + "/lib/base_sources.txt").read().split())
        dirs = set(os.path.dirname(s) for s in self.sources if s.startswith("src/"))
        for d in sorted(dirs):
            if os.path.isdir(REPO + "/" + d):
                for f in sorted(os.listdir(REPO + "/" + d)):
                    r = d + "/" + f
                    if f.endswith((".c", ".cpp")) and r not in base and r not in self.sources:
                        self.sources.append(r)


class Run:
    def __init__(self, prop, harnesses, tier):
        self.prop, self.hs, self.tier = prop, harnesses, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.dir = tempfile.mkdtemp(prefix="vf_%s_" % prop)
        self.lock = threading.Lock()
        self.cache = {}
        self.free = NCPU
        self.cv = threading.Condition()
        self.msgs = []

    # ---------------------------------------------------------------- build
    def inc(self):
        return ["-I" + SRC, "-I" + os.path.join(self.dir, "gen"), "-I" + REPO + "/third_party/common/crc32",
                "-I" + REPO + "/third_party/crawler/googleurl/src",
                "-I" + VERIF + "/rt", "-I" + VERIF + "/harness", "-I/usr/include/libxml2"]

    def compile(self, src, defs, native, extra=(), ren=None):
        key = hashlib.sha1(json.dumps([src, defs, native, list(extra), ren or {}], sort_keys=True).encode()).hexdigest()[:16]
        with self.lock:
            ev = self.cache.get(key)
            mine = ev is None
            if mine:
                ev = self.cache[key] = {"ev": threading.Event(), "out": None, "err": None}
        if not mine:
            ev["ev"].wait()
            if ev["err"]:
                raise Err(ev["err"])
            return ev["out"]
        try:
            iscpp = not src.endswith(".c")
            out = os.path.join(self.dir, key + (".o" if native else ".bc"))
            dl = ["-D%s=%s" % (k, v) if v != "" else "-D" + k for k, v in defs.items()]
            if native:
                cmd = ["clang++" if iscpp else "clang", "-O0", "-g", "-w", "-fsanitize=address", "-fno-omit-frame-pointer", "-c", "-ffunction-sections",
                       "-fno-builtin"]
                cmd += ["-std=c++0x", "-include", "cstdint"] if iscpp else []
                if src.startswith(REPO):
                    cmd += ["-include", VERIF + "/rt/sections.h"]
            else:
                cmd = ["clang++" if iscpp else "clang"] + CLANG_COMMON + (CXXSTD if iscpp else [])
            sysshadow = [] if native else ["-I" + VERIF + "/rt/shadow"]
            cmd += ["-DVF_SYM=%d" % (0 if native else 1)] + list(extra) + dl + sysshadow + self.inc() + [src, "-o", out]
            p = sh(cmd)
            if p.returncode != 0:
                raise Err("compile failed: %s\n%s" % (src, p.stderr[-4000:]))
            if ren and native:
                p = sh(["objcopy"] + ["--redefine-sym=%s=%s" % x for x in ren.items()] + [out])
            elif ren:
                ll = out[:-3] + ".ll"
                p = sh(["llvm-dis-18", out, "-o", "-"])
                txt = re.sub(r'@(%s)\b(?!\.)' % "|".join(ren), lambda m: "@" + ren[m.group(1)], p.stdout)
                open(ll, "w").write(txt)
                out = ll
            if p.returncode != 0:
                raise Err("renaming failed: %s\n%s" % (src, p.stderr[-2000:]))
            ev["out"] = out
            return out
        except Exception as e:
            ev["err"] = str(e)
            raise
        finally:
            ev["ev"].set()

    def srcpath(self, s):
        if s.startswith("/"):
            return s
        if s.startswith("rt/") or s.startswith("harness/"):
            return VERIF + "/" + s
        return REPO + "/" + s

    def build_sym(self, h):
        bcs = []
        errs = []
        def job(s, defs, extra, ren=None):
            try:
                bcs.append((s, self.compile(s, defs, False, extra, ren)))
            except Exception as e:
                errs.append(str(e))
        ths = []
        # with SHARE the engine tells the harness's own variables from the repository's by their debug information
        dbg = ("-g",) if "SHARE" in h.defs else ()
        lst = [(VERIF + "/harness/" + h.file, h.defs, tuple(h.incs) + dbg)]
        lst += [(self.srcpath(s), {}, h.incs, h.rename) for s in h.sources]
        lst += [(VERIF + "/rt/fam.c", {}, dbg), (VERIF + "/rt/rtpp.cpp", {}, dbg), (VERIF + "/rt/rtc.c", {}, dbg)]
        for a in lst:
            t = threading.Thread(target=job, args=a); t.start(); ths.append(t)
        for t in ths:
            t.join()
        if errs:
            raise Err("\n".join(errs))
        order = {x[0]: i for i, x in enumerate(lst)}
        files = [b for s, b in sorted(bcs, key=lambda x: order[x[0]])]
        linked = os.path.join(self.dir, h.name + ".l.bc")
        # library models last; a definition in the harness overrides the model
        p = sh(["llvm-link-18"] + files[:-2] + ["-o", linked])
        if p.returncode:
            raise Err("link failed: " + p.stderr[-2000:])
        lib = os.path.join(self.dir, h.name + ".lib.bc")
        defined = set(re.findall(r'^define [^@]*@"?([\w.$]+)"?\(', sh(["llvm-dis-18", linked, "-o", "-"]).stdout, re.M))
        libs = []
        for f in files[-2:]:
            # weaken the models' definitions where the harness brings its own
            w = f + "." + h.name + ".w.ll"
            out = []
            for line in sh(["llvm-dis-18", f, "-o", "-"]).stdout.split("\n"):
                m = re.match(r'define (?:dso_local )?(.*@"?([\w.$]+)"?\(.*)$', line)
                if m and m.group(2) in defined and not re.match(r"define (dso_local )?(internal|linkonce|weak|private|available_externally|common)", line):
                    line = "define weak " + m.group(1)
                out.append(line)
            open(w, "w").write("\n".join(out))
            libs.append(w)
        p = sh(["llvm-link-18", linked] + libs + ["-o", lib])
        if p.returncode:
            raise Err("link failed: " + p.stderr[-2000:])
        final = os.path.join(self.dir, h.name + ".bc")
        p = sh(["opt-18", "-passes=internalize,globaldce,function(sroa,early-cse,instsimplify,simplifycfg)", "-internalize-public-api-list=sx_main", lib, "-o", final])
        if p.returncode:
            raise Err("opt failed: " + p.stderr[-2000:])
        return final

    def build_native(self, h):
        objs = []
        errs = []
        def job(s, defs, extra, ren=None):
            try:
                objs.append(self.compile(s, defs, True, extra, ren))
            except Exception as e:
                errs.append(str(e))
        lst = [(VERIF + "/harness/" + h.file, h.defs, h.incs), (VERIF + "/rt/sx_native.cpp", {}, ()), (VERIF + "/rt/fam.c", {}, ())]
        lst += [(self.srcpath(s), {}, h.incs, h.rename) for s in h.sources if not s.startswith("rt/")]
        lst += [(self.srcpath(s), {}, h.incs) for s in h.native_sources]
        ths = []
        for a in lst:
            t = threading.Thread(target=job, args=a); t.start(); ths.append(t)
        for t in ths:
            t.join()
        if errs:
            raise Err("\n".join(errs))
        exe = os.path.join(self.dir, h.name + ".native")
        p = sh(["clang++", "-fsanitize=address", "-no-pie", "-Wl,--gc-sections", "-Wl,--unresolved-symbols=ignore-all", "-Wl,--allow-multiple-definition"] + sorted(objs) + ["-o", exe] + list(h.libs) + ["-lpthread"])
        if p.returncode:
            raise Err("native link failed: " + p.stderr[-3000:])
        return exe

    def replay(self, h, exe, inputs, tag, fill=None):
        fn = os.path.join(self.dir, "%s.%s.in" % (h.name, tag))
        with open(fn, "w") as f:
            for name, n, hx in inputs:
                f.write("%s %d %s\n" % (name.replace(" ", "_"), n, hx))
        env = dict(os.environ)
        opt = "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:detect_stack_use_after_return=0"
        if fill is not None:
            opt += ":malloc_fill_byte=%d:max_malloc_fill_size=1048576" % fill
        env["ASAN_OPTIONS"] = opt
        scratch = tempfile.mkdtemp(prefix="rp_", dir=self.dir)
        try:
            p = subprocess.run([exe, fn], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=h.replay_timeout, cwd=scratch)
            out, err, rc = p.stdout.decode("latin1"), p.stderr.decode("latin1"), p.returncode
        except subprocess.TimeoutExpired:
            out, err, rc = "", "TIMEOUT", 124
        shutil.rmtree(scratch, ignore_errors=True)
        return rc, out, err

    # ---------------------------------------------------------------- run
    def acquire(self, n):
        with self.cv:
            while self.free < n:
                self.cv.wait()
            self.free -= n

    def release(self, n):
        with self.cv:
            self.free += n
            self.cv.notify_all()

    def run_one(self, h):
        t0 = time.time()
        res = {"harness": h.name, "error": None}
        h.result = res
        try:
            bc = self.build_sym(h)
            exe = None
            nat = {}
            if h.native:
                def nb():
                    try:
                        nat["exe"] = self.build_native(h)
                    except Exception as e:
                        nat["err"] = str(e)
                nt = threading.Thread(target=nb)
                nt.start()
            jobs = min(h.jobs, NCPU)
            self.acquire(jobs)
            try:
                out = os.path.join(self.dir, h.name + ".json")
                dump = os.path.join(self.dir, h.name + ".q")
                os.makedirs(dump, exist_ok=True)
                cmd = [MSX, bc, "--time", str(h.time), "--steps", str(h.steps), "--jobs", str(jobs), "--out", out, "--rss-mb", str(h.rss),
                       "--tests", str(h.tests), "--seed", str(self.seed), "--dump", dump] + h.opts
                if not known_findings(self.prop):
                    cmd += ["--stop-after", "10"]
                p = sh(cmd, timeout=h.time + 120)
                if p.returncode != 0:
                    raise Err("engine failed (%d): %s" % (p.returncode, p.stderr[-1500:]))
            finally:
                self.release(jobs)
            parts = [json.load(open(out))]
            for f in sorted(os.listdir(self.dir)):
                if f.startswith(h.name + ".json."):
                    parts.append(json.load(open(os.path.join(self.dir, f))))
            m = parts[0]
            for q in parts[1:]:
                for k in ("paths", "forks", "instructions", "obligations", "symbolic_obligations", "symbolic_accesses", "assume_cut", "queries", "sat", "unsat", "unknown", "cache_hits", "model_hits", "solver_s"):
                    m[k] += q[k]
                m["max_path_steps"] = max(m["max_path_steps"], q["max_path_steps"])
                m["wall_s"] = max(m["wall_s"], q["wall_s"])
                for k in ("incomplete", "reach"):
                    for x, y in q[k].items():
                        m[k][x] = m[k].get(x, 0) + y
                m["violations"] += q["violations"]
                m["tests"] += q["tests"]
                for x, y in q["functions"].items():
                    if x in m["functions"]:
                        m["functions"][x][1] += y[1]
                    else:
                        m["functions"][x] = y
            seen = {}
            for v in m["violations"]:
                seen.setdefault((v["kind"], v["msg"], v["loc"]), v)
            m["violations"] = list(seen.values())
            res.update(m)
            res["queries_dir"] = dump
            if h.native:
                nt.join()
                if "err" in nat:
                    raise Err("native build: " + nat["err"])
                exe = nat["exe"]
                # translation validation: sampled finished paths must behave identically in the native build
                okc, bad = 0, []
                if not m["violations"]:
                    for i, t in enumerate(m["tests"][:h.tests]):
                        rc, o, e = self.replay(h, exe, t["inputs"], "t%d" % i)
                        want = ["OBS %s %s" % (a, b) for a, b in t["obs"]]
                        got = [l for l in o.split("\n") if l.startswith("OBS ")]
                        if rc == 0 and want == got:
                            okc += 1
                        else:
                            bad.append({"rc": rc, "err": e[-600:], "want": want, "got": got, "inputs": t["inputs"], "undef": t["undef"]})
                res["validated"] = okc
                res["mismatch"] = bad
                for v in m["violations"]:
                    v["confirmed"] = False
                    fills = [None] if not v.get("undef") else [None, 0, 255, 1]
                    if v["kind"] in ("memory", "shared"):
                        fills = [None, 0, 255, 1]
                    for fb in fills:
                        rc, o, e = self.replay(h, exe, v["inputs"], "v", fb)
                        v["native_rc"] = rc
                        v["native_err"] = e[:1800]
                        if rc not in (0, 77, 78):
                            v["confirmed"] = True
                            break
                        if v["kind"] == "shared" and rc == 0: # the write leaves no difference behind, or the path does not end natively where it does here
                            v["confirmed"] = True
        except Exception as e:
            res["error"] = str(e)
        res["total_s"] = time.time() - t0

    def go(self):
        ths = [threading.Thread(target=self.run_one, args=(h,)) for h in self.hs]
        for t in ths:
            t.start()
        for t in ths:
            t.join()

    def cross_check(self):
        """a second solver confirms a sample of the verdicts"""
        n = ok = 0
        for h in self.hs:
            d = (h.result or {}).get("queries_dir")
            if not d or not os.path.isdir(d):
                continue
            for f in sorted(os.listdir(d))[:4]:
                want = f.split(".")[1]
                p = os.path.join(d, f)
                try:
                    r = sh(["cvc5", "--tlimit=5000", p], timeout=20)
                except subprocess.TimeoutExpired:
                    continue
                got = [l for l in r.stdout.split() if l in ("sat", "unsat")]
                if got:
                    n += 1
                    if got[0] == want:
                        ok += 1
                    else:
                        self.msgs.append("solver disagreement on " + f)
        return n, ok

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def known_findings(prop):
    fn = VERIF + "/known_findings.json"
    if not os.path.exists(fn):
        return []
    return [k for k in json.load(open(fn)) if k["property"] == prop and k.get("status") == "known"]


def match_known(v, h, kfs):
    for k in kfs:
        if k.get("harness") not in (None, h.name):
            continue
        if k.get("kind") and k["kind"] != v["kind"]:
            continue
        if re.search(k["msg"], v["msg"]) and re.search(k.get("loc", ""), v["loc"] + " | " + v["stack"]):
            return k
    return None


def main(prop, title, harnesses, tier, assumptions):
    t0 = time.time()
    subprocess.run([VERIF + "/engine/build.sh", MSX], check=True)
    hs = [h for h in harnesses if (tier == "thorough" or h.quick)]
    if tier == "thorough":
        for h in hs:
            if h.thorough:
                for k, v in h.thorough.items():
                    if k == "defs":
                        h.defs.update(v)
                    else:
                        setattr(h, k, v)
    run = Run(prop, hs, tier)
    code = 0
    try:
        make_config(run)
        run.go()
        kfs = known_findings(prop)
        os.makedirs(VERIF + "/evidence/replay", exist_ok=True)
        nviol = 0
        tot = dict.fromkeys(["paths", "forks", "instructions", "obligations", "symbolic_obligations", "symbolic_accesses", "assume_cut", "queries", "sat", "unsat", "unknown", "cache_hits", "model_hits"], 0)
        solver_s = 0.0
        functions = {}
        validated = 0
        samples = []
        per = []
        problems = []
        known_seen = {}
        for h in hs:
            r = h.result
            if r["error"]:
                problems.append("%s: %s" % (h.name, r["error"]))
                continue
            for k in tot:
                tot[k] += r[k]
            solver_s += r["solver_s"]
            validated += r.get("validated", 0)
            for f, (fl, n) in r["functions"].items():
                if "/repo/" in fl or fl.startswith(REPO):
                    functions[f] = os.path.relpath(fl, REPO)
            for i, v in enumerate(r["violations"]):
                k = match_known(v, h, kfs)
                rp = VERIF + "/evidence/replay/%s-%s-%d.json" % (prop, h.name, i)
                if k is None or True:
                    json.dump({"property": prop, "harness": h.name, "file": "harness/" + h.file, "defs": h.defs, **v}, open(rp, "w"), indent=1)
                if not v.get("confirmed", not h.native):
                    problems.append("%s: counterexample did not reproduce natively: %s %s at %s (%s) rc=%s" % (h.name, v["kind"], v["msg"], v["loc"], v["stack"][:600], v.get("native_rc")))
                    continue
                if k:
                    known_seen.setdefault(k["id"], k)
                    continue
                nviol += 1
                code = 1
                print("VIOLATION property=%s replay=%s" % (prop, rp))
                print("  %s: %s: %s" % (h.name, v["kind"], v["msg"]))
                print("  at %s" % v["stack"][:500])
                if v.get("native_err"):
                    print("  native: " + " / ".join(v["native_err"].strip().split("\n")[:3])[:400])
            if not r["violations"]:
                for l in h.reach:
                    if not r["reach"].get(l):
                        problems.append("%s: vacuous: label '%s' not reached" % (h.name, l))
                if r["paths"] == 0:
                    problems.append("%s: no path finished" % h.name)
            if r["incomplete"] and not r["violations"]:
                problems.append("%s: incomplete: %s" % (h.name, json.dumps(r["incomplete"])[:1500]))
            if r.get("mismatch"):
                problems.append("%s: engine and native run disagree: %s" % (h.name, json.dumps(r["mismatch"][0])[:1500]))
            for t in r["tests"][:2]:
                samples.append({"harness": h.name, "inputs": [[a, c] for a, b, c in t["inputs"]][:24]})
            per.append({"harness": h.name, "bounds": h.bounds, "defs": h.defs, "paths": r["paths"], "forks": r["forks"], "obligations": r["obligations"], "symbolic_obligations": r["symbolic_obligations"],
                        "queries": r["queries"], "sat": r["sat"], "unsat": r["unsat"], "unknown": r["unknown"], "solver_s": round(r["solver_s"], 3), "engine_s": round(r["wall_s"], 3), "wall_s": round(r["total_s"], 2),
                        "reach": r["reach"], "exhausted": not r["incomplete"], "native_traces_matching": r.get("validated", 0)})
        xn, xok = run.cross_check()
        for m in run.msgs:
            problems.append(m)
        for k in kfs:
            if k["id"] in known_seen:
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            elif k.get("always"):
                pass
        wall = time.time() - t0
        ev = {"property": prop, "tier": tier, "seed": run.seed, "level": "model_checking", "wall_s": round(wall, 2), "violations": nviol,
              "assumptions": assumptions,
              "coverage": {"states": tot["paths"], "transitions": tot["forks"], "traces_validated_against_impl": validated, "samples": samples[:10],
                           "explanation": "symbolic paths explored to completion (states), feasible case splits decided by z3 (transitions); each path stands for all inputs satisfying its path condition",
                           "instructions": tot["instructions"], "obligations": tot["obligations"], "symbolic_obligations": tot["symbolic_obligations"], "symbolic_memory_accesses": tot["symbolic_accesses"],
                           "queries_discharged": tot["queries"], "queries_sat": tot["sat"], "queries_unsat": tot["unsat"], "queries_unknown": tot["unknown"], "answers_from_cache": tot["cache_hits"] + tot["model_hits"],
                           "solver_time_s": round(solver_s, 3), "verdicts_rechecked_with_cvc5": xn, "cvc5_agreed": xok, "exhausted_within_bounds": not problems,
                           "functions_encoded": sorted(set("%s (%s)" % (demangle(f), fl) for f, fl in functions.items()))[:400], "harnesses": per, "problems": problems,
                           "known_findings_seen": sorted(known_seen)}}
        json.dump(ev, open(VERIF + "/evidence/%s.json" % prop, "w"), indent=1)
        print("%s %s: %d harnesses, %d paths, %d obligations, %d queries (%.1fs solver), %d native traces agree, %.1fs" % (prop, tier, len(hs), tot["paths"], tot["obligations"], tot["queries"], solver_s, validated, wall))
        if problems:
            for p in problems:
                print("PROBLEM " + p[:3000])
            if code == 0:
                code = 2
        return code
    finally:
        if not os.environ.get("VF_KEEP"):
            run.cleanup()
        else:
            print("kept " + run.dir)


_dm = {}


def demangle(n):
    if n not in _dm:
        p = sh(["c++filt", "-p", n])
        _dm[n] = p.stdout.strip() or n
    return _dm[n]


def make_config(run):
    """configuration header, generated from the repository's template with the values of its build files"""
    d = os.path.join(run.dir, "gen", "build-gen")
    os.makedirs(d, exist_ok=True)
    tmpl = find_template()
    vals = cmake_values()
    vals["PROJECT_BINARY_DIR"] = run.dir   # a native run may put files there
    os.makedirs(os.path.join(run.dir, "src/crawler/utils"), exist_ok=True)
    out = []
    for line in open(tmpl, errors="replace"):
        m = re.match(r"\s*#\s*cmakedefine\s+(\w+)(.*)$", line)
        if m:
            if vals.get(m.group(1)) not in (None, "", "OFF", "FALSE", "0"):
                out.append("#define %s%s\n" % (m.group(1), re.sub(r"@(\w+)@|\$\{(\w+)\}", lambda k: str(vals.get(k.group(1) or k.group(2), "")), m.group(2))))
            continue
        out.append(re.sub(r"@(\w+)@|\$\{(\w+)\}", lambda k: str(vals.get(k.group(1) or k.group(2), "")), line))
    open(d + "/config.h", "w").write("".join(out))


def find_template():
    for root, dirs, files in os.walk(REPO):
        dirs[:] = [x for x in dirs if x not in ("_build", ".git")]
        for f in files:
            if f in ("config.h.in",):
                return os.path.join(root, f)
    raise Err("no config.h.in")


def cmake_values():
    vals = {}
    for root, dirs, files in os.walk(REPO):
        dirs[:] = [x for x in dirs if x not in ("_build", ".git")]
        for f in files:
            if f == "CMakeLists.txt" or f.endswith(".cmake"):
                for m in re.finditer(r"^\s*(?:SET|set)\s*\(\s*(\w+)\s+\"?([^\s\")]*)\"?", open(os.path.join(root, f), errors="replace").read(), re.M):
                    vals.setdefault(m.group(1), m.group(2))
    vals.setdefault("CMAKE_SOURCE_DIR", REPO)
    return vals
