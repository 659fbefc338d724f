"""Builds /repo's current sources for CBMC, runs the solver jobs of one check,
replays counterexamples natively and writes the evidence file."""
import concurrent.futures, ctypes, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
MODEL = os.path.join(VERIF, "model")
HARNESS = os.path.join(VERIF, "harness")
CORES = int(os.environ.get("VP_CORES", str(os.cpu_count() or 4)))
VERBOSE = bool(os.environ.get("VP_VERBOSE"))
# Version 5.95.1: 6.11.0 drops writes through pointers with a symbolic offset
# into arrays of arrays or structures (see DESIGN.md)
BIN = os.environ.get("VP_CBMC_BIN", "/usr/bin")
GOTO_CC, GOTO_INSTRUMENT, CBMC = [os.path.join(BIN, x) for x in ("goto-cc", "goto-instrument", "cbmc")]
REPLAY_VIOLATED, REPLAY_DIVERGED = 42, 3


LIBC = ctypes.CDLL(None)


def die_with_parent():
    LIBC.prctl(1, signal.SIGKILL)   # PR_SET_PDEATHSIG


class CheckError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, timeout=300, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def strip_comments(s):
    s = re.sub(r"/\*.*?\*/", " ", s, flags=re.S)
    return re.sub(r"//[^\n]*", " ", s)


VLA = re.compile(r"\[[^\]]*[A-Za-z_][^\]]*\]\s*\[")
PROTO = re.compile(r"(?:^|;|\})\s*((?:extern\s+)?(?:unsigned\s+)?(?:int|void|size_t|u?int\d+_t|char)\s*\*?\s+\*?\s*(\w+)\s*\(([^;{}]*?)\))\s*;", re.S)


DIM3 = re.compile(r"\b(uint8_t\s+\w+\s*)\[\s*([A-Za-z_]\w*)\s*\]\s*\[\s*([a-z_]\w*)\s*\]\s*(?=\[)")


def fixdim(m):
    return "%s[%s][VP_DIM]" % (m.group(1), "VP_DIM" if m.group(2) == m.group(3) else m.group(2))


SIZED = {"peer_sig_pks", "peers_sig_pks", "tp_peers_sig_pks", "peer_noise_pks", "peers_noise_pks", "peer_lt_pks", "noise_outs", "noise_ins",
         "shares", "xshares", "commitments", "complaints", "encrypted_shares", "cheaters"}


class Build:
    """goto binaries of the repository's sources, one set per mode.  In the
    scratch copy the inner variable dimension of three-dimensional arrays is
    written as VP_DIM, which every job defines as the value it uses: CBMC
    cannot take the address of a row of a variable size.
    Modes:
    func: '(*p)[]' written as '(*p)[1024]' in the scratch copy, because CBMC
          cannot print traces through pointers to incomplete arrays;
    mem:  the same with the documented number of elements (VP_CAP_p, defined by
          the job), and with the checks for memory accesses."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.lock = threading.Lock()
        self.futures = {}
        self.pool = concurrent.futures.ThreadPoolExecutor(CORES)
        self.functions = {}
        self.dirs = {}
        self.unsized = False   # are there such pointers whose size no job knows?
        for mode in ("func", "mem"):
            d = os.path.join(scratch, "src-" + mode)
            os.makedirs(d)
            for f in sorted(os.listdir(os.path.join(REPO, "src"))):
                if not f.endswith((".c", ".h")):
                    continue
                t = open(os.path.join(REPO, "src", f), encoding="utf-8", errors="surrogateescape").read()
                if mode == "func":
                    t = re.sub(r"\)\s*\[\s*\]", ")[1024]", t)
                else:
                    names = set(re.findall(r"\(\s*\*\s*(\w+)\s*\)\s*\[\s*\]", strip_comments(t)))
                    self.unsized |= not names <= SIZED
                    t = re.sub(r"(\(\s*\*\s*(\w+)\s*\)\s*)\[\s*\]", r"\1[VP_CAP_\2]", t)
                    t = re.sub(r"\)\s*\[\s*\]", ")[1024]", t)
                    t = "".join("#ifndef VP_CAP_%s\n#define VP_CAP_%s 1024\n#endif\n" % (x, x) for x in sorted(names)) + "#line 1\n" * bool(names) + t
                t = DIM3.sub(fixdim, t)
                open(os.path.join(d, f), "w", encoding="utf-8", errors="surrogateescape").write(t)
            self.dirs[mode] = d

    def flags(self, mode):
        nx = os.path.join(REPO, "src", "noise_xk", "include")
        src = self.dirs.get(mode, os.path.join(REPO, "src"))
        return ["-I" + src, "-I" + nx, "-I" + nx + "/karmel", "-I" + nx + "/karmel/minimal", "-I" + MODEL, "-I" + HARNESS,
                "-D_DEFAULT_SOURCE", "-D__NO_INLINE__"]

    def vla_protos(self, path):
        """prototypes with multi-dimensional VLA parameters from the local headers of a file"""
        src = strip_comments(open(path, errors="replace").read())
        incs, out, seen = re.findall(r'#\s*include\s*"([^"]+)"', src), [], set()
        todo = list(incs)
        while todo:
            h = todo.pop()
            if h in seen:
                continue
            seen.add(h)
            for d in [os.path.dirname(path), HARNESS, MODEL] + list(self.dirs.values()):
                hp = os.path.join(d, h)
                if os.path.exists(hp):
                    break
            else:
                continue
            t = strip_comments(open(hp, errors="replace").read())
            todo += re.findall(r'#\s*include\s*"([^"]+)"', t)
            t = re.sub(r"^\s*#.*?(?<!\\)$", ";", t, flags=re.M)
            for m in PROTO.finditer(t):
                if VLA.search(m.group(3)) and not re.search(r"\b%s\s*\([^;{}]*\)\s*\{" % m.group(2), src):
                    out.append((m.group(2), re.sub(r"^\s*extern\s+", "", m.group(1))))
        return incs, out

    def compile(self, path, out, mode, defs=()):
        """goto-cc, working around its crash on calls to functions that are
        declared, but not defined, with multi-dimensional VLA parameters"""
        base = [GOTO_CC, "-c"] + self.flags(mode) + list(defs)
        if not path.startswith(VERIF):
            base += ["-include", os.path.join(MODEL, "vpmem.h")]
        incs, protos = self.vla_protos(path)
        rc, o = sh(base + [path, "-o", out])
        if rc == 0:
            return False
        if not protos:
            raise CheckError("goto-cc failed on %s:\n%s" % (path, o[-3000:]))
        tu = out + ".tu.c"
        with open(tu, "w") as f:
            src = open(path, errors="replace").read()
            f.write("".join(m + "\n" for m in re.findall(r'^[ \t]*#[ \t]*include[^\n]*', src, flags=re.M)))
            for name, p in protos:
                f.write("%s { %s }\n" % (p, "" if p.lstrip().startswith("void ") and "*" not in p.split("(")[0] else "return 0;"))
            f.write('#include "%s"\n' % path)
        rc, o = sh(base + [tu, "-o", out + ".0"])
        if rc != 0:
            raise CheckError("goto-cc failed on %s:\n%s" % (path, o[-3000:]))
        cur = out + ".0"
        for k, (name, p) in enumerate(protos):
            nxt = out if k == len(protos) - 1 else out + ".%d" % (k + 1)
            rc, o = sh([GOTO_INSTRUMENT, "--remove-function-body", name, cur, nxt])
            if rc != 0:
                raise CheckError("goto-instrument failed:\n" + o[-2000:])
            cur = nxt
        return True

    def sources(self, mode):
        d = self.dirs[mode]
        return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".c"))

    def noise_sources(self, names):
        return [os.path.join(REPO, "src", "noise_xk", "src", n) for n in names]

    def objects_of(self, path, mode, dim, caps):
        """object of one source file; files without VP_DIM are compiled once"""
        text = strip_comments(open(path, errors="replace").read())
        uses = "VP_DIM" in text or any(
            "VP_DIM" in open(os.path.join(self.dirs[mode], h), errors="replace").read()
            for h in re.findall(r'#\s*include\s*"([^"]+)"', text) if os.path.exists(os.path.join(self.dirs[mode], h)))
        key = (path, mode, dim if uses else 0, caps)
        with self.lock:
            if key not in self.futures:
                o = os.path.join(self.scratch, "%s-%d-%s.gb" % (mode, len(self.futures), os.path.basename(path)))
                self.futures[key] = self.pool.submit(lambda: (o, self.compile(path, o, mode, ["-DVP_DIM=%d" % dim] + ["-D%s=%s" % c for c in caps])))
            return self.futures[key]

    def src_objects(self, mode, dim, caps=()):
        files = self.sources(mode) + self.noise_sources(["Noise_XK.c"])
        objs = [f.result() for f in [self.objects_of(p, mode, dim, caps) for p in files]]
        # files with stand-in prototypes go first, so that the linker keeps the real ones
        outs = [o for o, w in objs if w] + [o for o, w in objs if not w]
        with self.lock:
            if mode not in self.functions:
                names = set()
                for o in outs:
                    rc, t = sh([GOTO_INSTRUMENT, "--list-goto-functions", "--json-ui", o])
                    try:
                        for m in json.loads(t):
                            for fn in m.get("functions", []):
                                if fn.get("isBodyAvailable"):
                                    names.add(fn["name"])
                    except ValueError:
                        pass
                self.functions[mode] = names
        return outs


class Job:
    """One solver run.
    harness  file in /verif/harness
    defs     preprocessor definitions for harness and model
    mode     func | mem
    unwind   bound for loops in the repository's code, checked by unwinding
             assertions and raised when it turns out to be too small; loops of
             model and harness always run to completion
    nomem    mode mem, but without the checks for memory accesses
    fs       arrays up to this size are encoded element by element
    """

    def __init__(self, name, harness, defs=None, mode="func", unwind=70, timeout=400, fs=64, args=(), models=("nd.c", "sodium_model.c", "libc_model.c"),
                 checks=(), tiers=("quick", "thorough"), weight=1, unwindset=(), nomem=False):
        self.name, self.harness, self.defs, self.mode = name, harness, dict(defs or {}), mode
        self.unwind, self.timeout, self.fs, self.args, self.models = unwind, timeout, fs, list(args), list(models)
        self.checks, self.tiers, self.weight, self.unwindset, self.nomem = list(checks), tiers, weight, list(unwindset), nomem


class Killed(Exception):
    pass


class Runner:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.scratch = tempfile.mkdtemp(prefix="vp-%s-" % prop)
        self.build = Build(self.scratch)
        self.stop = threading.Event()
        self.procs = set()
        self.plock = threading.Lock()

    def dim(self, job):
        return int(job.defs.get("VP_DIM", job.defs.get("TT", 3)))

    def caps(self, job):
        return tuple(sorted((k, str(v)) for k, v in job.defs.items() if k.startswith("VP_CAP_"))) if job.mode == "mem" else ()

    def defs(self, job):
        return ["-DVP_DIM=%d" % self.dim(job)] * ("VP_DIM" not in job.defs) + ["-D%s=%s" % (k, v) if v is not None else "-D%s" % k for k, v in sorted(job.defs.items())]

    def run(self, cmd, timeout, out):
        """run a long command, killed when another job has found a violation"""
        if self.stop.is_set():
            raise Killed()
        with open(out, "wb") as f:
            p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, start_new_session=True, preexec_fn=die_with_parent)
        with self.plock:
            self.procs.add(p)
        try:
            p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            raise CheckError("timeout after %d s: %s" % (timeout, " ".join(cmd)[:300]))
        finally:
            with self.plock:
                self.procs.discard(p)
        if self.stop.is_set():
            raise Killed()
        return p.returncode

    def kill_all(self):
        self.stop.set()
        with self.plock:
            for p in list(self.procs):
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass

    def link(self, job, mode):
        d = os.path.join(self.scratch, job.name + "-" + mode)
        os.makedirs(d, exist_ok=True)
        objs = []
        for m in job.models:
            o = os.path.join(d, os.path.basename(m) + ".gb")
            self.build.compile(os.path.join(MODEL, m), o, mode, self.defs(job))
            objs.append(o)
        o = os.path.join(d, "harness.gb")
        self.build.compile(os.path.join(HARNESS, job.harness), o, mode, self.defs(job))
        objs.append(o)
        all_ = os.path.join(d, "all.gb")
        src = self.build.src_objects(mode, self.dim(job), self.caps(job))
        rc, t = sh([GOTO_CC] + objs + src + ["-o", all_])
        if rc != 0:
            raise CheckError("link failed:\n" + t[-3000:])
        return d, all_

    def own_loops(self, gb):
        rc, t = sh([GOTO_INSTRUMENT, "--show-loops", "--json-ui", gb])
        try:
            doc = json.loads(t)
        except ValueError:
            raise CheckError("goto-instrument --show-loops: " + t[-500:])
        own = ["memcmp.0:20000", "memchr.0:20000", "strlen.0:2000"]
        for m in doc:
            for l in m.get("loops", []):
                f = l.get("sourceLocation", {}).get("file", "")
                if os.path.isabs(f) and os.path.commonpath([f, VERIF]) == VERIF:
                    own.append(l["name"] + ":20000")
        return own

    def cbmc_args(self, job, mode, gb, unwind):
        a = ["--unwind", str(unwind), "--unwinding-assertions", "--max-field-sensitivity-array-size", str(job.fs),
             "--drop-unused-functions", "--slice-formula", "--object-bits", "12"]
        a += ["--unwindset", ",".join(self.own_loops(gb) + job.unwindset)]
        if mode == "mem" and not job.nomem:
            a += ["--bounds-check", "--pointer-check", "--div-by-zero-check"]
        return a + job.args

    def solve(self, job, unwind):
        t0 = time.time()
        mode = job.mode
        d, gb = self.link(job, mode)
        res = {"job": job.name, "mode": mode, "bounds": dict(job.defs), "unwind": unwind}
        rc, t = sh([GOTO_INSTRUMENT, "--reachable-call-graph", gb])
        reach = set(re.findall(r"^(\w+) -> ", t, flags=re.M)) | set(re.findall(r" -> (\w+)\s*$", t, flags=re.M))
        res["functions"] = sorted(reach & self.build.functions[mode])
        out = os.path.join(d, "cbmc.txt")
        t1 = time.time()
        cmd = [CBMC, gb, "--verbosity", "8"] + self.cbmc_args(job, mode, gb, unwind)
        self.run(cmd, job.timeout, out)
        res["cbmc_s"] = round(time.time() - t1, 2)
        results, status = [], None
        res["solver_s"], res["queries"] = 0.0, 0
        with open(out, errors="replace") as f:
            lines = f.read().splitlines()
        for t in lines:
            mm = re.match(r"\[([^\]\s]+)\] (?:line \d+ )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$", t)
            if mm:
                results.append({"property": mm.group(1), "description": mm.group(2), "status": mm.group(3)})
            elif t.startswith("VERIFICATION "):
                status = t
            mm = re.match(r"Runtime (Solver|decision procedure): ([0-9.e+-]+)s", t)
            if mm and mm.group(1) == "Solver":
                res["solver_s"] += float(mm.group(2))
                res["queries"] += 1
            mm = re.match(r"(\d+) variables, (\d+) clauses", t)
            if mm:
                res["variables"], res["clauses"] = int(mm.group(1)), int(mm.group(2))
            mm = re.search(r"Generated (\d+) VCC\(s\), (\d+) remaining", t)
            if mm:
                res["vccs"], res["vccs_remaining"] = int(mm.group(1)), int(mm.group(2))
            mm = re.search(r"size of program expression: (\d+) steps", t)
            if mm:
                res["ssa_steps"] = int(mm.group(1))
        if status is None or not results:
            raise CheckError("cbmc gave no verdict for %s: %s" % (job.name, "\n".join(lines)[-1500:]))
        res["solver_s"] = round(res["solver_s"], 3)
        fails, twins, twins_ok, n = [], 0, 0, 0
        for r in results:
            desc = r["description"]
            if desc.startswith("TWIN: "):
                twins += 1
                twins_ok += r["status"] == "FAILURE"
                if r["status"] != "FAILURE":
                    res.setdefault("unreached", []).append(desc)
                continue
            if desc.startswith(("same object violation", "pointer relation")):
                continue   # comparing pointers is no memory access
            n += 1
            if r["status"] == "FAILURE":
                fails.append((r["property"], desc))
            elif r["status"] != "SUCCESS":
                raise CheckError("cbmc status %s for %s in %s" % (r["status"], desc, job.name))
        res["assertions"], res["discharged"] = n, n - len(fails)
        res["witnesses"], res["witnesses_reached"] = twins, twins_ok
        res["wall_s"] = round(time.time() - t0, 2)
        cap = [f for f in fails if "model capacity" in f[1]]
        if cap:
            raise CheckError("model capacity exceeded in %s: %s" % (job.name, cap[0][1]))
        return res, fails, d, gb

    # ---- counterexamples

    def trace(self, job, gb, prop, d, unwind):
        out = os.path.join(d, "trace.txt")
        args = [a for a in self.cbmc_args(job, job.mode, gb, unwind) if a != "--slice-formula"]
        gbt = gb
        cmd = [CBMC, gbt, "--property", prop, "--trace"] + args
        self.run(cmd, job.timeout, out)
        vals, site = [], ""
        failed = False
        with open(out, errors="replace") as f:
            for line in f:
                m = re.match(r"\s*vp_nd=.*\(([01 ?]+)\)\s*$", line)   # CBMC may print a value as sizeof(x)
                if m:
                    vals.append(int(m.group(1).replace(" ", "").replace("?", "0"), 2))
                elif line.startswith("VERIFICATION FAILED"):
                    failed = True
                elif line.startswith("Violated property:"):
                    site = next(f, "").strip()
        return vals, failed, site

    def native(self, job, d):
        exe = os.path.join(d, "native")
        if os.path.exists(exe):
            return exe
        srcs = [os.path.join(REPO, "src", os.path.basename(f)) for f in self.build.sources("mem")] + self.build.noise_sources(["Noise_XK.c"])
        srcs += [os.path.join(MODEL, m) for m in job.models] + [os.path.join(HARNESS, job.harness)]
        flags = [f for f in self.build.flags("native") if f != "-D__NO_INLINE__"]
        cmd = ["gcc", "-g", "-O0", "-w", "-fno-omit-frame-pointer", "-fsanitize=address,bounds", "-fno-sanitize-recover=all", "-Wl,--unresolved-symbols=ignore-all", "-DVP_NATIVE", "-Dsnprintf=vp_snprintf"] + flags + self.defs(job) + srcs + ["-o", exe]
        rc, o = sh(cmd)
        if rc != 0:
            raise CheckError("native build failed:\n" + o[-3000:])
        return exe

    def replay(self, job, d, vals):
        exe = self.native(job, d)
        fn = os.path.join(d, "values.txt")
        with open(fn, "w") as f:
            f.write("\n".join(str(v) for v in vals) + "\n")
        env = dict(os.environ, VP_REPLAY=fn, ASAN_OPTIONS="exitcode=42:detect_leaks=0:detect_stack_use_after_return=1", UBSAN_OPTIONS="exitcode=42:halt_on_error=1")
        try:
            rc, o = sh(["bash", "-c", "ulimit -s unlimited 2>/dev/null || ulimit -s 262144; exec " + exe], timeout=60, env=env)
        except subprocess.TimeoutExpired:
            return True, "REPLAY-VIOLATED does not terminate within 60 s"
        viol = rc == REPLAY_VIOLATED or rc < 0 or rc in (134, 136, 139) or "AddressSanitizer" in o or "runtime error" in o
        keep = [l for l in o.splitlines() if "REPLAY" in l or "ERROR: AddressSanitizer" in l or "runtime error" in l or re.match(r"\s*#\d+ ", l)]
        return viol, "\n".join(keep[:12]) if keep else "exit %d" % rc

    def handle(self, job):
        unwind, t0 = job.unwind, time.time()
        while True:
            res, fails, d, gb = self.solve(job, unwind)
            if not fails:
                if res["witnesses_reached"] < res["witnesses"]:
                    raise CheckError("vacuous: %s not reached in %s" % (res.get("unreached"), job.name))
                return res, None
            unconf = []
            # unwinding assertions last: they are only reported if nothing else explains the failure
            fails.sort(key=lambda f: (".unwind." in f[0], f[0]))
            for prop, desc in fails[:6]:
                vals, failed, site = self.trace(job, gb, prop, d, unwind)
                if not failed:
                    unconf.append((prop, desc, "no trace"))
                    continue
                ok, text = self.replay(job, d, vals)
                if ok:
                    return res, {"job": job, "assertion": prop, "what": desc, "site": site, "values": vals, "replay": text}
                unconf.append((prop, desc, text))
            if all(".unwind." in p for p, _, _ in unconf) and unwind < 4000 and time.time() - t0 < 300:
                unwind *= 4   # the loop ends, the bound was too small for this source
                continue
            if self.build.unsized and job.mode == "mem" and all("dereference failure: pointer outside object bounds in *" in x[1] for x in unconf) and len(fails) == len(unconf):
                # the encoding's size of a pointer to an incomplete array, not an access
                res["unconfirmed"] = [x[:2] for x in unconf]
                return res, None
            raise CheckError("counterexample of %s not reproduced natively: %s" % (job.name, unconf))


def run_check(prop, jobs, tier, seed, assumptions, bounds_text, technique):
    t0 = time.time()
    jobs = [j for j in jobs if tier in j.tiers]
    only = os.environ.get("VP_JOBS")
    if only:
        jobs = [j for j in jobs if re.search(only, j.name)]
    r = Runner(prop, tier)
    results, errors, violation = [], [], None
    try:
        for m, d, c in sorted(set((j.mode, r.dim(j), r.caps(j)) for j in jobs)):
            r.build.src_objects(m, d, c)
        jobs.sort(key=lambda j: -j.weight)
        with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
            futs = {ex.submit(r.handle, j): j for j in jobs}
            for f in concurrent.futures.as_completed(futs):
                j = futs[f]
                try:
                    res, v = f.result()
                except Killed:
                    continue
                except (CheckError, subprocess.TimeoutExpired) as e:
                    errors.append((j.name, str(e)))
                    log("[%s] ERROR %s: %s" % (prop, j.name, str(e)[-600:]))
                    continue
                if VERBOSE:
                    log("[%s] %-28s %3d/%3d assertions, %d/%d witnesses, steps %s vars %s, cbmc %.1fs solver %.1fs" % (
                        prop, j.name, res["discharged"], res["assertions"], res["witnesses_reached"], res["witnesses"], res.get("ssa_steps"), res.get("variables"), res["cbmc_s"], res["solver_s"]))
                results.append(res)
                if v and not violation:
                    violation = v
                    r.kill_all()
    finally:
        if not os.environ.get("VP_KEEP"):
            shutil.rmtree(r.scratch, ignore_errors=True)
        else:
            log("scratch kept: " + r.scratch)
    results.sort(key=lambda x: x["job"])
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    fns = sorted(set(f for x in results for f in x["functions"]))
    doc = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Bounded symbolic execution (CBMC) of the functions listed, compiled from /repo's working tree on this run; every value of the symbolic inputs within the stated bounds is decided by the SAT solver. " + bounds_text,
            "technique": technique,
            "functions_encoded": fns,
            "jobs": [{k: v for k, v in x.items() if k != "functions"} for x in results],
            "obligations": sum(x["assertions"] for x in results),
            "discharged": sum(x["discharged"] for x in results),
            "queries": sum(x["queries"] for x in results),
            "solver_s": round(sum(x["solver_s"] for x in results), 3),
            "reachability_witnesses": sum(x["witnesses_reached"] for x in results),
            "jobs_planned": len(jobs), "jobs_decided": len(results),
            "errors": [{"job": a, "error": b[:500]} for a, b in errors],
        },
        "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0,
    }
    rc = 0
    if violation:
        rd = os.path.join(ev, "replays")
        os.makedirs(rd, exist_ok=True)
        j = violation["job"]
        path = os.path.join(rd, "%s-%s.json" % (prop, j.name))
        json.dump({"property": prop, "job": j.name, "harness": j.harness, "defs": j.defs, "mode": j.mode, "models": j.models,
                   "assertion": violation["assertion"], "what": violation["what"], "site": violation["site"],
                   "native_replay": violation["replay"], "values": violation["values"]}, open(path, "w"))
        doc["coverage"]["violation"] = {k: violation[k] for k in ("assertion", "what", "site", "replay")}
        print("%s: %s [%s] %s" % (prop, violation["what"], j.name, violation["replay"].splitlines()[0] if violation["replay"] else ""))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        rc = 1
    elif errors:
        rc = 2
    json.dump(doc, open(os.path.join(ev, prop + ".json"), "w"), indent=1)
    if VERBOSE or rc == 2:
        log("[%s] exit %d after %.1f s, %d jobs" % (prop, rc, time.time() - t0, len(results)))
    return rc
