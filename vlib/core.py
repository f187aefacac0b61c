"""Framework: builds drivers from /repo's current tree, runs TLC on the
specifications, replays scripts into the real code and checks the recorded
traces against the trace specifications."""
import os, sys, json, re, subprocess, shutil, time, random, glob, hashlib, tempfile, concurrent.futures, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ULZ_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
DRV = os.path.join(VERIF, "drv")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
DEV = os.environ.get("VERIF_DEV")     # set only by tools/mutate.py: a cache folder; stops at the first violation
NCPU = max(1, min(8, os.cpu_count() or 1))

MALLOC_WRAPS = ["malloc", "calloc", "realloc", "reallocarray", "free", "strdup", "__strdup", "strndup",
                "posix_memalign", "aligned_alloc", "vasprintf", "asprintf"]
ASAN_ENV = "detect_leaks=0:quarantine_size_mb=8:max_malloc_fill_size=1048576:malloc_fill_byte=205:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:handle_segv=1"

class CheckError(Exception):
    """The check itself cannot give an answer (exit 2)."""

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

# lengths and counts around the powers of two that buffers, bytes and halves of words end at
SWEEP = [63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 32769]
WIDE = [65535, 65536, 65537, 70001, 131073]
def hx(b):
    if isinstance(b, str): b = b.encode("latin1")
    return bytes(b).hex() or "-"

class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        base = os.path.join(VERIF, ".work")
        os.makedirs(base, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=pid + "-", dir=base)
        os.chmod(self.work, 0o755)
        self.rng = random.Random("%s/%d" % (pid, seed))
        self.states = self.transitions = 0
        self.traces = self.events = 0
        self.samples, self.models, self.runs = [], [], []
        self.violations, self.notes, self.assumptions = [], [], []
        self.t0 = time.time()
        self._lib = {}
        self._tmp = []

    # ---------------------------------------------------------------- build
    def lib(self, flavour="asan"):
        """static library of all of /repo/src built from the current tree"""
        if flavour in self._lib: return self._lib[flavour]
        d = os.path.join(self.work, "lib-" + flavour); os.makedirs(d)
        srcs = sorted(glob.glob(REPO + "/src/*/*.c"))
        if not srcs: raise CheckError("no sources under %s/src" % REPO)
        flags = self.cflags(flavour) + ["-std=c99", "-I" + REPO + "/include"]
        def cc(s):
            o = os.path.join(d, hashlib.md5(s.encode()).hexdigest()[:8] + "-" + os.path.basename(s)[:-2] + ".o")
            r = sh(["gcc"] + flags + ["-c", s, "-o", o])
            return o, r
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(cc, srcs))
        for o, r in res:
            if r.returncode: raise CheckError("library does not compile:\n" + r.stdout[-4000:])
        a = os.path.join(d, "libulz.a")
        r = sh(["ar", "rcs", a] + [o for o, _ in res])
        if r.returncode: raise CheckError(r.stdout)
        self._lib[flavour] = a
        return a

    @staticmethod
    def cflags(flavour):
        c = ["-g", "-w", "-U_FORTIFY_SOURCE"]
        if flavour == "asan": c += ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address"]
        elif flavour == "fast": c += ["-O3"]
        elif flavour == "plain": c += ["-Os"]
        elif flavour == "ubsan": c += ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=undefined"]
        return c

    def build(self, drv, wraps=(), defs=(), flavour="asan", name=None, extra=(), mem=True):
        out = os.path.join(self.work, (name or drv) + "-" + flavour)
        w = (MALLOC_WRAPS if mem else []) + list(wraps)
        srcs = [os.path.join(DRV, drv + ".c"), os.path.join(DRV, "drv.c")] + ([os.path.join(DRV, "wrap.c")] if mem else [os.path.join(DRV, "nowrap.c")])
        srcs += [os.path.join(DRV, x) for x in extra]
        cmd = ["gcc"] + self.cflags(flavour) + ["-std=gnu11", "-I" + DRV, "-I" + REPO + "/include"] + ["-D" + d for d in defs] + srcs + \
              [self.lib(flavour)] + ["-Wl,--wrap=" + x for x in w] + ["-o", out, "-lm", "-lpthread"]
        r = sh(cmd)
        if r.returncode: raise CheckError("driver %s does not build:\n%s" % (drv, r.stdout[-4000:]))
        return out

    # ------------------------------------------------------------------ TLC
    def cfg(self, name, lines):
        p = os.path.join(self.work, name + ".cfg")
        with open(p, "w") as f: f.write("\n".join(lines) + "\n")
        return p

    def tlc(self, module, cfg, workers, env=None, timeout=800, xmx="6g", extra=()):
        md = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        e = dict(os.environ); e.update(env or {}); e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + xmx, "-Xss768m", "-Djava.io.tmpdir=" + self.work, "-DTLA-Library=" + SPEC, "-Dtlc2.TLC.stopAfter=%d" % timeout,
               "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", md, "-workers", str(workers),
               "-config", cfg] + list(extra) + [module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout + 30)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on " + module)
        finally:
            shutil.rmtree(md, ignore_errors=True)
        if r.returncode and re.search(r"StackOverflowError|OutOfMemoryError|insufficient memory", r.stdout):      # not a verdict on the code
            raise CheckError("TLC ran out of memory on %s\n%s" % (module, tail(r.stdout)))
        return r.returncode, r.stdout

    def mc(self, module, consts=None, inv=(), props=(), view=None, constraint=None, action_constraint=None, symmetry=None,
           spec=None, deadlock=False, workers=None, gen=False, timeout=600, name=None, extra=()):
        """Exhaustive check of a bounded model.  Returns the JSON values printed
        by the model (PrintT("@S" \\o ToJson(..))) when gen is set."""
        lines = ["SPECIFICATION " + spec] if spec else ["INIT MCInit", "NEXT MCNext"]
        for k, v in (consts or {}).items(): lines.append("CONSTANT %s = %s" % (k, tla(v)))
        for i in inv: lines.append("INVARIANT " + i)
        for i in props: lines.append("PROPERTY " + i)
        if view: lines.append("VIEW " + view)
        if constraint: lines.append("CONSTRAINT " + constraint)
        if action_constraint: lines.append("ACTION_CONSTRAINT " + action_constraint)
        if symmetry: lines.append("SYMMETRY " + symmetry)
        lines.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
        label = name or module
        if DEV:       # tools/mutate.py: the models do not depend on the code
            if not gen: return []
            key = hashlib.sha256(json.dumps([module, lines, list(extra), [open(f).read() for f in sorted(glob.glob(SPEC + "/*.tla"))]]).encode()).hexdigest()
            cf = os.path.join(DEV, key)
            if os.path.exists(cf): return json.load(open(cf))
        cfg = self.cfg("mc-" + label, lines)
        t = time.time()
        rc, out = self.tlc(module, cfg, 1 if gen else (workers or NCPU), timeout=timeout, extra=extra)
        if rc != 0 or "Model checking completed. No error has been found." not in out:
            raise CheckError("model %s: TLC rc=%d\n%s" % (label, rc, tail(out)))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        gen_n, dist = int(m.group(1)), int(m.group(2))
        self.states += dist; self.transitions += gen_n
        got = []
        if gen:
            for ln in out.splitlines():
                if ln.startswith('"@S'): got.append(json.loads(json.loads(ln)[2:]))
        self.models.append(dict(model=label, constants={k: tla(v) for k, v in (consts or {}).items()}, invariants=list(inv) + list(props),
                                distinct_states=dist, states_generated=gen_n, scripts_generated=len(got), seconds=round(time.time() - t, 1)))
        if DEV:
            with open(cf + ".%d" % os.getpid(), "w") as f: json.dump(got, f)
            os.rename(cf + ".%d" % os.getpid(), cf)
        return got

    def simulate(self, module, consts=None, num=50, depth=60, inv=(), name=None):
        """Random behaviours of the specification, printed from the model."""
        lines = ["INIT MCInit", "NEXT MCNext"]
        for k, v in (consts or {}).items(): lines.append("CONSTANT %s = %s" % (k, tla(v)))
        for i in inv: lines.append("INVARIANT " + i)
        lines.append("CHECK_DEADLOCK FALSE")
        cfg = self.cfg("sim-" + (name or module), lines)
        rc, out = self.tlc(module, cfg, 1, extra=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed + 7)])
        if rc != 0: raise CheckError("simulation %s: rc=%d\n%s" % (module, rc, tail(out)))
        return [json.loads(json.loads(ln)[2:]) for ln in out.splitlines() if ln.startswith('"@S')]

    # -------------------------------------------------------------- drivers
    def scratch(self, unpriv=False):
        d = tempfile.mkdtemp(prefix="ulzchk-", dir="/tmp")
        os.chmod(d, 0o755)
        if unpriv: os.chown(d, 65534, 65534)
        self._tmp.append(d)
        return d

    def drive(self, exe, sessions, tag, args=(), timeout=120, cwd=None, unpriv=False, env=None, each=False):
        """sessions: list of lists of script lines, each starting with 'S ...'; with each: one process per session, in parallel"""
        if each:
            with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
                ts = list(ex.map(lambda x: self.drive(exe, [x[1]], "%s-%d" % (tag, x[0]), args, timeout, cwd, unpriv, env), enumerate(sessions)))
            trace = os.path.join(self.work, tag + ".ndjson")
            with open(trace, "w") as f, open(trace + ".log", "w") as lf:
                for t in ts:
                    f.write(open(t).read())
                    if os.path.exists(t + ".log"): lf.write(open(t + ".log", errors="replace").read())
            return trace
        script = os.path.join(self.work, tag + ".script"); trace = os.path.join(self.work, tag + ".ndjson")
        with open(script, "w") as f:
            for s in sessions: f.write("\n".join(s) + "\n")
        return self.drive_file(exe, script, trace, args, timeout, cwd, unpriv, env)

    def drive_file(self, exe, script, trace, args=(), timeout=120, cwd=None, unpriv=False, env=None):
        e = dict(os.environ); e["ASAN_OPTIONS"] = ASAN_ENV; e["UBSAN_OPTIONS"] = "print_stacktrace=1"; e["LC_ALL"] = "C"; e["TZ"] = "UTC"
        e.update(env or {})
        if os.path.exists(trace): os.unlink(trace)
        log = trace + ".log"
        rt = trace
        pre = None
        if unpriv:
            d = self.scratch(True)
            exe2 = os.path.join(d, "driver"); shutil.copy(exe, exe2); os.chmod(exe2, 0o755)
            s2 = os.path.join(d, "script"); shutil.copy(script, s2); os.chmod(s2, 0o644)
            rt = os.path.join(d, "trace"); run = os.path.join(d, "cwd"); os.mkdir(run); os.chown(run, 65534, 65534)
            exe, script, cwd = exe2, s2, run
            e["HOME"] = run; e["SCRATCH"] = run
            def pre():
                os.setgroups([]); os.setgid(65534); os.setuid(65534)
        rc = None
        with open(log, "w") as lf, open(os.devnull) as nul:
            p = subprocess.Popen([exe, script, rt] + list(args), stdout=lf, stderr=subprocess.STDOUT, stdin=nul, cwd=cwd or self.work, env=e, preexec_fn=pre, start_new_session=True)
            try: rc = p.wait(timeout)
            except subprocess.TimeoutExpired: pass
            try: os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError): pass
            p.wait()
        if unpriv and os.path.exists(rt): shutil.copy(rt, trace)
        if rc == 3 or (not os.path.exists(trace)):
            raise CheckError("driver failed: rc=%s %s" % (rc, open(log, errors="replace").read()[-2000:]))
        if rc != 0:
            evs = read_trace(trace)
            if not evs or evs[-1].get("op") != "crash":
                with open(trace, "a") as f:
                    f.write('{"op":"crash","what":"%s","line":""}\n' % ("timeout" if rc is None else "exit status %d" % rc))
        return trace

    # ---------------------------------------------------------- conformance
    def conform(self, label, exe, sessions, trace_module, consts=None, inv=(), timeout=120, cwd=None, unpriv=False, env=None, args=(), sample=True, retries=2, each=False):
        """Replay the sessions into the real code and check the recorded trace
        against the trace specification.  Records a violation if rejected."""
        sessions = [s for s in sessions if s]
        t = time.time()
        if self.violations and t - self.t0 > 240: self.notes.append("not run after a violation: " + label); return False
        tag = re.sub(r"\W", "_", label)
        rej = None; rejections = 0; attempts = 0
        while attempts < 1 + retries:
            attempts += 1
            trace = self.drive(exe, sessions, tag, args, timeout, cwd, unpriv, env, each)
            r = self.check_trace(label, trace, trace_module, consts, inv)
            if r is None:
                if rejections == 0 : break
            else:
                rejections += 1; rej = r
                if rejections >= 2: break
        n = len(sessions)
        self.traces += n
        evn = sum(1 for _ in open(trace))
        self.events += evn
        self.runs.append(dict(run=label, trace_spec=trace_module, sessions=n, events=evn, seconds=round(time.time() - t, 1), accepted=rejections < 2))
        if sample and sessions:
            with open(trace) as f: head = [json.loads(x) for _, x in zip(range(6), f)]
            self.samples.append(dict(run=label, script=sessions[0][:8], events=clip(head)))
        if rejections >= 2:
            self.violation(label, rej, sessions, trace, trace_module, exe)
        elif rejections == 1:
            self.notes.append("%s: one rejection was not repeated in %d re-runs" % (label, attempts - 1))
            print("NOTE: %s: a rejection was not repeated" % label)
        return rejections < 2

    def check_trace(self, label, trace, module, consts=None, inv=(), must_accept=False):
        """None if accepted, else a dict describing the rejected event"""
        evs = []
        with open(trace) as f:
            for i, ln in enumerate(f): evs.append(ln.startswith('{"op":"S"'))
        n = len(evs)
        if n == 0: raise CheckError("empty trace for " + label)
        if not evs[0]:
            with open(trace) as f: first = f.readline()
            return dict(index=0, event=json.loads(first), state="", why="trace does not start with a session")
        starts = [i + 1 for i, s in enumerate(evs) if s]
        # about NCPU chunks on session boundaries
        chunks, lo = [], starts[0]
        target = max(1, n // NCPU)
        for s in starts[1:]:
            if s - lo >= target: chunks.append([lo, s - 1]); lo = s
        chunks.append([lo, n])
        cf = os.path.join(self.work, re.sub(r"\W", "_", label) + ".chunks.json")
        json.dump(chunks, open(cf, "w"))
        lines = ["INIT TInit", "NEXT TNext", "CHECK_DEADLOCK TRUE"]
        for k, v in (consts or {}).items(): lines.append("CONSTANT %s = %s" % (k, tla(v)))
        for i in inv: lines.append("INVARIANT " + i)
        # the states of a rejected trace may be large: only their event numbers are printed, then the rejected session's states
        cfg = self.cfg("trace-" + re.sub(r"\W", "_", label), lines + ["ALIAS TAlias"])
        rc, out = self.tlc(module, cfg, min(NCPU, len(chunks)), env=dict(TRACE=trace, CHUNKS=cf))
        if rc == 0 and "Model checking completed. No error has been found." in out:
            m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
            return None
        if re.search(r"Error: Deadlock reached|is violated|Evaluating invariant", out) or (rc in (75, 12, 11, 13) or "The error occurred when TLC was evaluating" in out or "Error: TLC threw an unexpected exception" in out or "The behavior up to this point is" in out):
            ls = re.findall(r"^(?:/\\ )?l = (\d+)", out, re.M)
            l = int(ls[-1]) if ls else None
            if l is None: raise CheckError("trace spec %s failed: rc=%d\n%s" % (module, rc, tail(out)))
            ev = None
            with open(trace) as f:
                for i, ln in enumerate(f, 1):
                    if i == l: ev = json.loads(ln); break
            state = ""
            lo = max(x for x in starts if x <= l)
            if not DEV and l - lo < 3000:
                json.dump([[lo, l]], open(cf, "w"))
                try: state = last_state(self.tlc(module, self.cfg("state", lines), 1, env=dict(TRACE=trace, CHUNKS=cf), timeout=20)[1])
                except CheckError: pass
            return dict(index=l, event=ev, state=state, why=first_error(out))
        raise CheckError("trace spec %s failed: rc=%d\n%s" % (module, rc, tail(out)))

    def violation(self, label, rej, sessions, trace, module, exe):
        outd = os.path.join(DEV or os.path.join(VERIF, "out"), "replay", self.pid)
        os.makedirs(outd, exist_ok=True)
        k = len(os.listdir(outd)) + 1
        base = os.path.join(outd, "%s-%d" % (re.sub(r"\W", "_", label), k))
        os.makedirs(base)
        # the session the rejected event belongs to
        si = -1
        with open(trace) as f:
            for i, ln in enumerate(f, 1):
                if ln.startswith('{"op":"S"'): si += 1
                if i == rej["index"]: break
        ses = sessions[si] if 0 <= si < len(sessions) else sessions[0]
        open(os.path.join(base, "session.script"), "w").write("\n".join(ses) + "\n")
        all_lines = open(trace).read().splitlines()
        lo = max(0, (rej["index"] or 1) - 200)
        open(os.path.join(base, "events.ndjson"), "w").write("\n".join(all_lines[lo:(rej["index"] or 1)]) + "\n")
        with open(os.path.join(base, "README"), "w") as f:
            f.write("property %s, run %s\ntrace specification: spec/%s.tla\nsession: session.script (driver script format, see DESIGN.md)\n" % (self.pid, label, module))
            f.write("rejected event (line %s of the trace):\n%s\n\nreason: %s\n\nspecification state before it:\n%s\n" % (rej["index"], json.dumps(rej["event"]), rej["why"], rej["state"]))
            lg = trace + ".log"
            if os.path.exists(lg): f.write("\ndriver output:\n" + open(lg, errors="replace").read()[:6000])
            f.write("\nre-run: VERIF_SEED=%d VERIF_TIER=%s ./check %s\n" % (self.seed, self.tier, self.pid))
        self.violations.append(dict(label=label, replay=base, event=rej["event"]))
        print("rejected in %s: event %s\n  %s" % (label, rej["index"], json.dumps(rej["event"])[:600]))
        if rej["why"]: print("  " + rej["why"][:300])
        print("VIOLATION property=%s replay=%s" % (self.pid, base), flush=True)
        if DEV: raise CheckError("stopped at the first violation")

    # ------------------------------------------------------------- evidence
    def finish(self):
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                                events_validated=self.events, models=self.models, runs=self.runs, samples=self.samples[:8], notes=self.notes),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        if DEV: return
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1)

    def cleanup(self):
        if os.environ.get("VERIF_KEEP"): print("kept", self.work); return
        shutil.rmtree(self.work, ignore_errors=True)
        for d in self._tmp: shutil.rmtree(d, ignore_errors=True)

def tla(v):
    if isinstance(v, bool): return "TRUE" if v else "FALSE"
    if isinstance(v, int): return str(v)
    if isinstance(v, str): return v
    if isinstance(v, (set, frozenset)): return "{" + ", ".join(tla(x) for x in sorted(v)) + "}"
    raise TypeError(v)

def tail(s, n=3000): return "\n".join(x for x in s.splitlines() if not x.startswith('"@S'))[-n:]
def first_error(out):
    m = re.search(r"Error: (.*(?:\n(?!Error|State|\d).*){0,4})", out)
    return m.group(1).strip() if m else ""
def last_state(out):
    parts = re.split(r"\nState \d+:", out)
    return parts[-1][:3000] if len(parts) > 1 else ""
def read_trace(p):
    r = []
    with open(p, errors="replace") as f:
        for ln in f:
            try: r.append(json.loads(ln))
            except ValueError: pass
    return r
def clip(x, n=24):
    if isinstance(x, list): return [clip(y, n) for y in x[:n]] + (["..."] if len(x) > n else [])
    if isinstance(x, dict): return {k: clip(v, n) for k, v in x.items()}
    return x

def known_findings(pid):
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if not os.path.exists(p): return []
    return [l.strip() for l in open(p) if l.startswith("finding:") and ("property=%s " % pid) in l]

def main(argv):
    import importlib
    pid = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 2 and argv[2] in ("quick", "thorough"): tier = argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module("vlib." + pid.lower())
    ctx = Ctx(pid, tier, seed)
    rc = 2
    try:
        mod.run(ctx)
        for k in known_findings(pid): print("KNOWN-FINDING: " + k[len("finding:"):].strip())
        ctx.finish()
        rc = 1 if ctx.violations else 0
        print("%s %s: %s; %d spec states, %d sessions / %d events validated, %.1fs" % (pid, tier, "VIOLATED" if rc else "ok", ctx.states, ctx.traces, ctx.events, time.time() - ctx.t0))
    except CheckError as e:
        # a violation already established is still an answer
        if ctx.violations: ctx.finish(); rc = 1
        print("CHECK ERROR (%s): %s" % (pid, e))
    finally:
        ctx.cleanup()
    return rc
