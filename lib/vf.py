"""Driver support: builds harnesses from /repo, runs TLC, validates traces, writes evidence and verdicts."""
import concurrent.futures as cf
import hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
JVM = "/usr/lib/jvm/java-17-openjdk-amd64"
SCHEDULED = ("ThreadTrace",)
LIBSRC = ["binary_ops", "config_types", "contour", "convolve_kernels", "sanity_checks"]


class CheckError(Exception):
    """The check itself failed (exit 2)"""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix=f"verif-{pid}-")
        self.pool = cf.ThreadPoolExecutor(max_workers=8)
        self.lock = threading.Lock()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "events_validated": 0,
                    "events_by_kind": {}, "models": [], "trace_specs": {}, "samples": [], "corrupted_events_rejected": 0,
                    "model_behaviours_replayed": 0}
        self.assumptions = []
        self.procs = set()

    def log(self, *a):
        print(f"[{self.pid} {time.time()-self.t0:6.1f}s]", *a, flush=True)

    # ------------------------------------------------------------ processes
    def run(self, cmd, timeout, env=None, cwd=None, stdout=None):
        """returns (rc, output); rc None on timeout"""
        e = dict(os.environ)
        if env:
            e.update(env)
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE if stdout is None else stdout, stderr=subprocess.STDOUT, env=e,
                             cwd=cwd or self.work, text=True, errors="replace", start_new_session=True)
        with self.lock:
            self.procs.add(p)
        try:
            o, _ = p.communicate(timeout=timeout)
            return p.returncode, o or ""
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
            o, _ = p.communicate()
            return None, o or ""
        finally:
            with self.lock:
                self.procs.discard(p)

    def cleanup(self):
        self.pool.shutdown(wait=False, cancel_futures=True)
        with self.lock:
            for p in list(self.procs):
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
        shutil.rmtree(self.work, ignore_errors=True)

    # ------------------------------------------------------------ violations
    def violation(self, what, info):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        sc = (info.get("args") or {}).get("script")
        if sc and os.path.exists(sc):
            info = dict(info, script=open(sc).read())
        info = dict(info, property=self.pid, tier=self.tier, seed=self.seed, what=what)
        txt = json.dumps(info, indent=1)
        path = os.path.join(d, f"{self.pid}-{hashlib.sha1(txt.encode()).hexdigest()[:12]}.json")
        with open(path, "w") as f:
            f.write(txt)
        raise Violation(what, path)

    # ------------------------------------------------------------ build
    def build(self, name, jni=(), extra=()):
        """compiles harness/<name>.cpp together with the library sources of /repo; library objects in parallel.
        name may be harness@sanitizer"""
        name, _, san = name.partition("@")
        san = san or "address"
        tag = "" if san == "address" else san + "_"
        src = f"{REPO}/boofcpp/src"
        jsrc = f"{REPO}/boofcpp-jni/src/main/cpp"
        flags = ["-std=c++14", "-O1", "-g1", "-w", "-fno-omit-frame-pointer", f"-fsanitize={san}", "-D_GLIBCXX_ASSERTIONS",
                 "-I", src, "-I", f"{src}/boofcv", "-I", HARN]
        if jni:
            flags += ["-I", jsrc, "-I", f"{JVM}/include", "-I", f"{JVM}/include/linux"]
        units = [(f"{src}/boofcv/{x}.cpp", f"lib_{x}.o") for x in LIBSRC if os.path.exists(f"{src}/boofcv/{x}.cpp")]
        # sources added to the library by a change are part of it
        known = {u[0] for u in units}
        for f in sorted(os.listdir(f"{src}/boofcv")):
            p = f"{src}/boofcv/{f}"
            if f.endswith(".cpp") and p not in known:
                units.append((p, f"lib_{f[:-4]}.o"))
        if jni:
            units += [(f"{jsrc}/{f}", f"jni_{f[:-4]}.o") for f in sorted(os.listdir(jsrc)) if f.endswith(".cpp")]
        srcs = [name] + list(extra)
        units += [(f"{HARN}/{x}.cpp", f"h_{x}.o") for x in srcs]

        def cc(u):
            o = os.path.join(self.work, tag + u[1])
            fl = flags + (["-O0"] if u[0].startswith(HARN) else [])   # harnesses are template heavy
            rc, out = self.run(["g++", *fl, "-c", u[0], "-o", o], 600)
            return u, o, rc, out
        ex = cf.ThreadPoolExecutor(8)
        res = list(ex.map(cc, sorted(units, key=lambda u: not u[0].startswith(HARN))))
        ex.shutdown()
        for u, o, rc, out in res:
            if rc is None:
                raise CheckError(f"compiling {u[0]} timed out")
            if rc != 0:
                if "Killed" in out or "No space left" in out or "fatal error: error writing" in out:
                    raise CheckError(out[-2000:])
                # the property's public interface no longer compiles against the specification's harness
                self.violation(f"the interface the property is about no longer compiles: {u[0]}",
                               {"kind": "compile", "unit": u[0], "log": out[-6000:]})
        exe = os.path.join(self.work, tag + name)
        rc, out = self.run(["g++", f"-fsanitize={san}", *[r[1] for r in res], "-o", exe, "-lpthread"], 300)
        if rc != 0:
            self.violation("the harness does not link against the library", {"kind": "link", "log": out[-6000:]})
        self.log(f"built {name}" + (f" ({san} sanitizer)" if tag else ""))
        return exe

    # ------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=1, timeout=300, mem="2g", extra=(), serial=True):
        meta = tempfile.mkdtemp(prefix="tlc", dir=self.work)
        cmd = ["java", "-XX:+UseSerialGC" if serial else "-XX:+UseParallelGC", f"-Xmx{mem}", "-Xss64m", f"-Djava.io.tmpdir={meta}", "-cp", CP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *extra, module]
        rc, out = self.run(cmd, timeout, env=env, cwd=SPEC)
        shutil.rmtree(meta, ignore_errors=True)
        return rc, out

    def model(self, module, cfg, actions=None, workers=2, timeout=400, env=None, mem="3g", what=""):
        """exhaustive model check of a design model; every listed action must have been taken"""
        t = time.time()
        rc, out = self.tlc(module + ".tla", cfg, env=env, workers=workers, timeout=timeout, mem=mem,
                           extra=("-coverage", "1"), serial=workers == 1)
        if rc != 0:
            raise CheckError(f"model check of {module} with {cfg} failed (rc={rc}):\n{out[-3000:]}")
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        if not m:
            raise CheckError(f"no statistics from {module}:\n{out[-2000:]}")
        gen, dis, _ = map(int, m[-1])
        acts = {}
        for a, d, g in re.findall(r"<(\w+) line [^>]*>: (\d+):(\d+)", out):
            acts[a] = max(acts.get(a, 0), int(g))
        for a in actions or []:
            if acts.get(a, 0) == 0:
                raise CheckError(f"{module}/{cfg}: action {a} was never taken ({acts})")
        with self.lock:
            self.cov["states"] += dis
            self.cov["transitions"] += gen
            self.cov["models"].append({"module": module, "config": cfg, "distinct_states": dis, "generated": gen,
                                       "actions": {a: acts[a] for a in (actions or acts) if a in acts},
                                       "what": what, "wall_s": round(time.time() - t, 1)})
        self.log(f"model {module}/{cfg}: {dis} states, {gen} transitions, {time.time()-t:.1f}s")
        return out

    def refuted(self, module, cfg, invariant, workers=2, timeout=200):
        """the design with a known flaw: the model must tell it from the right one"""
        rc, out = self.tlc(module + ".tla", cfg, workers=workers, timeout=timeout)
        if f"Invariant {invariant} is violated" not in out:
            raise CheckError(f"{module}/{cfg}: {invariant} should have been violated (rc={rc}):\n{out[-2000:]}")
        self.log(f"model {module}/{cfg}: {invariant} is violated, as it has to be")

    def behaviours(self, module, cfg, env=None, timeout=300, simulate=None, depth=None, limit=None, workers=1, mem="2g"):
        """runs a generator specification that prints behaviours as JSON, returns the list of distinct behaviours"""
        extra = []
        if simulate:
            extra += ["-simulate", f"num={simulate}", "-seed", str(self.seed)]
        if depth:
            extra += ["-depth", str(depth)]
        rc, out = self.tlc(module + ".tla", cfg, env=env, timeout=timeout, extra=extra, workers=workers, mem=mem)
        if rc != 0:
            raise CheckError(f"generator {module}/{cfg} failed rc={rc}:\n{out[-3000:]}")
        res, seen = [], set()
        for l in out.splitlines():
            l = l.strip()
            if l.startswith('"@'):
                try:
                    l = json.loads(l)
                except ValueError:
                    continue
                l = l[1:]
            elif l.startswith("@"):
                l = l[1:]
            else:
                continue
            if l not in seen:
                seen.add(l)
                res.append(l)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            self.cov["states"] += int(m[-1][1])
            self.cov["transitions"] += int(m[-1][0])
        if not res:
            raise CheckError(f"generator {module}/{cfg} produced nothing:\n{out[-2000:]}")
        self.log(f"generator {module}/{cfg}: {len(res)} behaviours")
        if limit and len(res) > limit:
            import random
            random.Random(self.seed).shuffle(res)
            res = res[:limit]
        return res

    # ------------------------------------------------------------ harness + trace validation
    def harness(self, exe, args, outp, timeout):
        env = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:hard_rss_limit_mb=6000:"
                               "max_malloc_fill_size=1000000:malloc_fill_byte=165:detect_stack_use_after_return=0:symbolize=1",
               "TSAN_OPTIONS": "halt_on_error=1:exitcode=98:second_deadlock_stack=0:report_signal_unsafe=0"}
        cmd = [exe] + [x for k, v in args.items() for x in ("--" + k, str(v))] + ["--out", outp]
        return self.run(cmd, timeout, env=env)

    def validate(self, spec, trace, cfg=None, timeout=900, env=None):
        """returns ('ok', n) or ('reject', index, tail) or raises"""
        n = sum(1 for _ in open(trace))
        if n == 0:
            return "ok", 0, ""
        e = {"TRACE": trace, "EXPECT": "accept"}
        if env:
            e.update(env)
        rc, out = self.tlc(spec + ".tla", (cfg or spec) + ".cfg", env=e, timeout=timeout, mem="2500m")
        if rc is None:
            raise CheckError(f"trace validation {spec} timed out on {trace} ({n} events)")
        m = re.findall(r"The depth of the complete state graph search is (\d+)", out)
        g = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if rc == 0 and "No error has been found" in out:
            with self.lock:
                if g:
                    self.cov["states"] += int(g[-1][1])
                    self.cov["transitions"] += int(g[-1][0])
            return "ok", n, ""
        if m and re.search(r"[Pp]ostcondition", out):
            # how far the specification could follow the trace
            tail = "\n".join(l for l in out.splitlines() if l.startswith('"#') or l.startswith("#"))[-1500:]
            return "reject", int(m[-1]), tail
        i = re.findall(r"^\s*/?\\?\s*(?:i|l) = (\d+)", out, re.M)
        if "Error:" in out and i and "not completely specified" not in out and "StackOverflow" not in out \
                and "OutOfMemory" not in out:
            # the event could not even be evaluated (for example a value of an unexpected shape)
            return "reject", int(i[-1]), "evaluation: " + out[out.index("Error:"):][:2500]
        raise CheckError(f"TLC failed on {trace} with {spec} (rc={rc}):\n{out[-3000:]}")

    def confirm_crash(self, exe, name, args, timeout, rc, out, tpath):
        rc2, out2 = self.harness(exe, args, tpath + ".again", timeout)
        if rc == 3:
            raise CheckError(f"harness error {name} {args}: {out[-2000:]}")
        if rc2 == 0 and "ThreadSanitizer: data race" not in out:    # a race is one, whether or not it shows again
            raise CheckError(f"harness {name} {args} failed once (rc={rc}) but not again: {out[-1500:]}")
        last = ""
        try:
            with open(tpath) as f:
                for last in f:
                    pass
        except OSError:
            pass
        kind = "did not terminate" if rc in (None, 4) else f"crashed (rc={rc})"
        rep = out[-200:]
        mm = re.search(r"(ERROR: AddressSanitizer[^\n]*|WARNING: ThreadSanitizer[^\n]*)", out) or re.search(r"(terminate called[^\n]*|Assertion[^\n]*)", out)
        self.violation(f"the implementation {kind} while executing a specified operation: {mm.group(1) if mm else rep}",
                       {"kind": "crash", "harness": name, "args": args, "rc": rc, "log": out[-6000:], "last_event": last[:4000]})

    def traces(self, exe, name, args, spec, shards=8, timeout=240, vtimeout=800, cfg=None, env=None, kinds=None, sample=True,
               label=None):
        """runs the harness in shards, validates every trace with the trace specification"""
        label = label or name + ":" + "-".join(str(v) for k, v in args.items() if k not in ("n", "script"))

        def one(sh):
            a = dict(args, seed=self.seed, shard=sh, shards=shards)
            tp = os.path.join(self.work, f"{re.sub('[^A-Za-z0-9]', '_', label)}-{spec}-{sh}.ndjson")
            rc, out = self.harness(exe, a, tp, timeout)
            if rc != 0:
                self.confirm_crash(exe, name, a, timeout, rc, out, tp)
            self.account(tp, spec, label, sample and sh == 0)
            self.accept(exe, name, a, spec, tp, vtimeout, cfg, env)
            return tp
        t = time.time()
        res = self.par([lambda s=s: one(s) for s in range(shards)])
        n = sum(sum(1 for _ in open(p)) for p in res)
        self.log(f"traces {label} -> {spec}: {n} events accepted, {time.time()-t:.1f}s")
        for k in kinds or []:
            if not self.cov["events_by_kind"].get(k):
                raise CheckError(f"{label}: no event of kind {k} was produced")
        return res

    def accept(self, exe, name, a, spec, tp, vtimeout=800, cfg=None, env=None):
        r = self.validate(spec, tp, cfg=cfg, timeout=vtimeout, env=env)
        if r[0] == "ok":
            return
        # confirm with a new run of the implementation and of the specification
        tp2 = tp + ".again"
        for _ in range(4 if spec in SCHEDULED else 1):
            rc, out = self.harness(exe, a, tp2, vtimeout)
            if rc != 0:
                self.confirm_crash(exe, name, a, vtimeout, rc, out, tp2)
            r2 = self.validate(spec, tp2, cfg=cfg, timeout=vtimeout, env=env)
            if r2[0] != "ok":
                break
        if r2[0] == "ok" and spec in SCHEDULED:
            r2, tp2 = r, tp     # the operating system chose the schedule: the recorded history is the proof
        if r2[0] == "ok":
            raise CheckError(f"{spec} rejected event {r[1]} of {tp} but accepted a second run of the same harness")
        lines = open(tp2).read().splitlines()
        k = r2[1]
        ev = lines[k - 1] if 0 < k <= len(lines) else ""
        start = k - 1
        while start > 0 and '"e":"init"' not in lines[start]:
            start -= 1
            if k - start > 400:
                break
        epi = lines[start:k] if '"e":"init"' in lines[start] else [ev]
        self.violation(f"{spec} cannot explain event {k}: {ev[:300]} {r2[2][:500]}",
                       {"kind": "trace", "harness": name, "args": a, "spec": spec, "event_index": k,
                        "event": ev[:20000], "episode": [x[:2000] for x in epi[-60:]], "diagnosis": r2[2],
                        "how": f"python3 {VERIF}/check.py {self.pid} --replay <this file>"})

    def account(self, tp, spec, label, sample):
        kinds, epi, n = {}, 0, 0
        smp = []
        with open(tp) as f:
            for l in f:
                n += 1
                k = l[6:l.index('"', 6)]
                if k not in kinds and sample and len(l) < 1500:
                    smp.append(json.loads(l))
                kinds[k] = kinds.get(k, 0) + 1
        epi = kinds.get("init", n)
        with self.lock:
            for k, v in kinds.items():
                self.cov["events_by_kind"][k] = self.cov["events_by_kind"].get(k, 0) + v
            self.cov["events_validated"] += n
            self.cov["traces_validated_against_impl"] += epi
            c = self.cov["trace_specs"].setdefault(f"{label}->{spec}", {"events": 0, "traces": 0})
            c["events"] += n
            c["traces"] += epi
            if len(self.cov["samples"]) < 12:
                self.cov["samples"] += smp[:2]

    def replay_behaviours(self, exe, name, behs, args, spec, shards=4, **kw):
        """spec behaviours (JSON scripts) are driven through the real code; the recorded traces are validated"""
        sp = os.path.join(self.work, f"script-{len(os.listdir(self.work))}.txt")
        with open(sp, "w") as f:
            for b in behs:
                f.write(b + "\n")
        with self.lock:
            self.cov["model_behaviours_replayed"] += len(behs)
        return self.traces(exe, name, dict(args, script=sp), spec, shards=shards, **kw)

    def self_test(self, tp, spec, fields, n=24, cfg=None, env=None):
        """corrupted copies of recorded events must be rejected (stateless trace specifications, EXPECT=reject)"""
        import random
        rnd = random.Random(self.seed)
        evs = [json.loads(l) for l in open(tp)]
        rnd.shuffle(evs)
        outl, per = [], {}
        for ev in evs:
            fs = fields.get(ev["e"])
            if not fs or per.get(ev["e"], 0) >= n:
                continue
            f = rnd.choice(fs)
            step = 1
            if isinstance(f, tuple):
                f, step = f
            if f not in ev:
                continue
            v = ev[f]
            if isinstance(v, bool):
                ev[f] = not v
            elif isinstance(v, int):
                ev[f] = v + step
            elif isinstance(v, list):
                tgt = v
                while tgt and isinstance(tgt[0], list):
                    c = [x for x in tgt if x]
                    if not c:
                        tgt = []
                        break
                    tgt = rnd.choice(c)
                if not tgt:
                    continue
                j = rnd.randrange(len(tgt))
                if isinstance(tgt[j], bool):
                    tgt[j] = not tgt[j]
                else:
                    tgt[j] += step
            else:
                continue
            per[ev["e"]] = per.get(ev["e"], 0) + 1
            outl.append(json.dumps(ev, separators=(",", ":")))
        if not outl:
            raise CheckError(f"self test of {spec}: nothing to corrupt")
        p = tp + ".corrupt"
        with open(p, "w") as f:
            f.write("\n".join(outl) + "\n")
        e = {"EXPECT": "reject"}
        if env:
            e.update(env)
        r = self.validate(spec, p, cfg=cfg, env=e)
        if r[0] != "ok":
            raise CheckError(f"self test of {spec}: a corrupted event was accepted: {outl[r[1]-1][:1500]}")
        with self.lock:
            self.cov["corrupted_events_rejected"] += len(outl)
        self.log(f"self test {spec}: {len(outl)} corrupted events rejected")

    def self_test_stateful(self, tp, spec, picks, cfg=None):
        """one corrupted field in a recorded history must make the specification reject exactly that event.
        picks: {event kind: field}"""
        import random
        rnd = random.Random(self.seed + 7)
        lines = open(tp).read().splitlines()
        epis, cur = [], []
        for l in lines:
            if '"e":"init"' in l:
                cur = []
                epis.append(cur)
            cur.append(l)
        jobs = []
        for kind, field in picks.items():
            field, step = field if isinstance(field, tuple) else (field, 1)
            cands = [(e, i) for e in epis for i, l in enumerate(e) if f'"e":"{kind}"' in l]
            rnd.shuffle(cands)
            for e, i in cands[:50]:
                ev = json.loads(e[i])
                v = ev.get(field)
                if field != "rej" and ev.get("rej") is True:
                    continue    # the arguments of a rejected call need not matter
                if isinstance(v, bool):
                    ev[field] = not v
                elif isinstance(v, int):
                    ev[field] = v + step
                elif isinstance(v, list) and v and isinstance(v[-1], int):
                    v[rnd.randrange(len(v))] += step
                elif isinstance(v, list) and any(isinstance(x, list) and x for x in v):
                    x = v
                    while x and isinstance(x[0], list):
                        x = rnd.choice([y for y in x if y] or [None])
                    if x and isinstance(x[0], int):
                        x[0] += 1
                    else:
                        continue
                else:
                    continue
                p = f"{tp}.c{kind}"
                with open(p, "w") as f:
                    f.write("\n".join(e[:i] + [json.dumps(ev, separators=(",", ":"))]) + "\n")
                jobs.append((p, i + 1, kind, field))
                break
            else:
                raise CheckError(f"self test of {spec}: no event {kind} with field {field}")

        def go(j):
            r = self.validate(spec, j[0], cfg=cfg)
            if r[0] != "reject" or r[1] != j[1]:
                raise CheckError(f"self test of {spec}: corrupted {j[3]} of {j[2]} was not rejected ({r[:2]}, expected {j[1]})")
        self.par([lambda j=j: go(j) for j in jobs])
        with self.lock:
            self.cov["corrupted_events_rejected"] += len(jobs)
        self.log(f"self test {spec}: {len(jobs)} corrupted histories rejected")

    def par(self, fns):
        """runs the functions in parallel; the first exception wins (violations before errors)"""
        futs = [self.pool.submit(f) for f in fns]
        res, errs = [], []
        for f in futs:
            try:
                res.append(f.result())
            except Exception as x:      # noqa
                errs.append(x)
                res.append(None)
        for x in errs:
            if isinstance(x, Violation):
                raise x
        if errs:
            raise errs[0]
        return res

    def background(self, fn):
        """starts fn in its own thread (not in the shared pool: it may use the pool itself)"""
        ex = cf.ThreadPoolExecutor(1)
        fut = ex.submit(fn)
        ex.shutdown(wait=False)
        return fut

    # ------------------------------------------------------------ result
    def evidence(self, violations=0):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        for k in ("states", "transitions"):
            self.cov[k] = int(self.cov[k])
        if not self.cov["samples"]:
            self.cov["samples"] = ["no event was produced before the run ended"]
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        with open(os.path.join(d, f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)


def gather(*futs):
    """waits for background futures; violations win over errors"""
    errs, res = [], []
    for f in futs:
        try:
            res.append(f.result())
        except Exception as x:          # noqa
            errs.append(x)
            res.append(None)
    for x in errs:
        if isinstance(x, Violation):
            raise x
    if errs:
        raise errs[0]
    return res
