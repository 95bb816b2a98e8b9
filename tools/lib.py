"""Common steps of the checks: building, running drivers, running TLC."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, "build")
SPEC = os.path.join(ROOT, "spec")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
CMJAR = "/opt/veriftools/tla/CommunityModules-deps.jar"
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"


class ToolError(Exception):
    """The check itself could not do its work: exit 2."""


class OutOfTime(ToolError):
    pass


class Violation(Exception):
    def __init__(self, what, data):
        self.what, self.data = what, data


class Run:
    """One run of one property's check; collects what was covered."""

    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.models, self.traces, self.notes, self.samples = [], [], [], []
        self.java_ready = False

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def note(self, s):
        self.notes.append(s)
        print("note:", s, flush=True)

    # ---- building -------------------------------------------------------
    def java(self):
        if self.java_ready:
            return
        out = os.path.join(BUILD, "classes")
        os.makedirs(out, exist_ok=True)
        src = [os.path.join(ROOT, "java", f) for f in sorted(os.listdir(os.path.join(ROOT, "java"))) if f.endswith(".java")]
        r = subprocess.run(["javac", "-nowarn", "-cp", TLAJAR + ":" + CMJAR, "-d", out] + src, capture_output=True, text=True)
        if r.returncode:
            raise ToolError("javac failed:\n" + r.stderr)
        self.java_ready = True

    def cargo(self, crate, bins, features=None, optional=False, target=None):
        """Builds the given bins of harness/<crate> against /repo; returns the directory they are in."""
        tgt = os.path.join(BUILD, "t-" + (target or crate))
        cmd = ["cargo", "build", "--offline", "--quiet", "--target-dir", tgt]
        for b in bins:
            cmd += ["--bin", b]
        if features is not None:
            cmd += ["--no-default-features", "--features", ",".join(features)]
        env = dict(os.environ)
        env["RUSTFLAGS"] = (env.get("RUSTFLAGS", "") + " -Awarnings").strip()
        r = subprocess.run(cmd, cwd=os.path.join(ROOT, "harness", crate), env=env, capture_output=True, text=True)
        if r.returncode:
            if optional:
                return None
            raise ToolError("cargo build of harness/%s failed:\n%s" % (crate, r.stderr[-6000:]))
        return os.path.join(tgt, "debug")

    # ---- drivers --------------------------------------------------------
    def drive(self, crate, binary, features=None, env=None, timeout=None, out=None, optional=False, target=None):
        """Runs a driver of the real code; returns the path of the recorded sessions."""
        d = self.cargo(crate, [binary], features, optional, target)
        if d is None:
            return None
        out = os.path.join(self.tmp, out or binary + ".nd")
        scr = os.path.join(self.tmp, "scratch-" + binary)
        os.makedirs(scr, exist_ok=True)
        e = dict(os.environ)
        e.update(OUT=out, SCRATCH=scr, VERIF_SEED=str(SEED), VERIF_TIER=TIER)
        e.update(env or {})
        limit = timeout or (420 if not THOROUGH else 5400)
        p = subprocess.Popen([os.path.join(d, binary)], cwd=scr, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True,
                             preexec_fn=lambda: os.setsid())
        try:
            _, err = p.communicate(timeout=limit)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            raise Violation("the code under test did not return within %d s" % limit, {"driver": binary, "doing": self.progress(out)})
        finally:
            shutil.rmtree(scr, ignore_errors=True)
        if p.returncode == 3:
            raise ToolError("driver %s: %s" % (binary, err[-2000:]))
        if p.returncode:
            raise Violation("the process running the code under test died (status %d)" % p.returncode,
                            {"driver": binary, "doing": self.progress(out), "stderr": err[-2000:]})
        return out

    @staticmethod
    def progress(out):
        try:
            return open(out + ".progress").read()[-2000:]
        except OSError:
            return "?"

    # ---- TLC ------------------------------------------------------------
    def tlc(self, spec, cfg, env=None, timeout=None, heap="8g", extra=(), workers="8"):
        self.java()
        meta = tempfile.mkdtemp(prefix="meta", dir=self.tmp)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-cp",
               os.path.join(BUILD, "classes") + ":" + TLAJAR + ":" + CMJAR, "tlc2.TLC", "-metadir", meta, "-workers", workers,
               "-noGenerateSpecTE", "-config", cfg] + list(extra) + [spec + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout or (600 if not THOROUGH else 5400))
        except subprocess.TimeoutExpired:
            raise OutOfTime("TLC on %s ran out of time" % spec)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        o = r.stdout
        if re.search(r"OutOfMemory|StackOverflow|Parsing or semantic analysis failed|Could not find|java\.lang\.NoClassDef", o + r.stderr):
            raise ToolError("TLC on %s failed:\n%s\n%s" % (spec, o[-3000:], r.stderr[-2000:]))
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", o)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        return r.returncode, o, gen, dist

    def model(self, spec, cfg=None, env=None, **kw):
        """Exhaustive check of a model of the specification."""
        cfg = cfg or spec + ".cfg"
        rc, o, gen, dist = self.tlc(spec, cfg, env, **kw)
        if rc != 0 or dist == 0:
            # the model does not depend on /repo, so this is never the code's fault
            raise ToolError("model %s (%s) failed:\n%s" % (spec, cfg, o[-3000:]))
        self.models.append({"spec": spec, "cfg": cfg, "states": dist, "transitions": gen})
        return o

    def trace(self, spec, nd, cfg="T.cfg", env=None, **kw):
        """Validates recorded sessions against a trace specification."""
        sess = [json.loads(x) for x in open(nd)]
        want = sum(len(x["ev"]) + 1 for x in sess)
        nev = sum(len(x["ev"]) for x in sess)
        if not sess or not nev:
            raise ToolError("no sessions recorded in %s" % nd)
        e = {"TRACE": nd}
        e.update(env or {})
        rc, o, gen, dist = self.tlc(spec, cfg, e, **kw)
        if rc != 0:
            st = re.findall(r"/\\ s = (\d+)", o)
            ls = re.findall(r"/\\ l = (\d+)", o)
            data = {"spec": spec, "tlc": o[-3000:]}
            if st and ls:
                x = sess[int(st[-1]) - 1]
                k = int(ls[-1])
                bad = not re.search(r"Invariant \w+ is violated", o)
                # on an evaluation error the last state printed is the one before the step
                if bad and k < len(x["ev"]):
                    k += 1
                data.update(session=x["name"], step=k, event=x["ev"][k - 1] if k else None, history=x["ev"][:k] if len(json.dumps(x)) < 400000 else "(long)")
                ev = x["ev"][k - 1] if k else {}
                raise Violation("recorded behaviour is not a behaviour of %s: session '%s', step %d (%s)" % (spec, x["name"], k, ev.get("f")), data)
            if re.search(r"The error occurred when TLC was evaluating|TLC threw an unexpected exception|Attempted to|In evaluation", o):
                raise Violation("recorded behaviour is outside the domain of %s" % spec, data)
            raise ToolError("TLC on %s failed:\n%s" % (spec, o[-3000:]))
        if dist != want:
            raise ToolError("trace validation with %s incomplete: %d of %d states" % (spec, dist, want))
        kinds = {}
        for x in sess:
            for v in x["ev"]:
                kinds[v.get("f", "?")] = kinds.get(v.get("f", "?"), 0) + 1
        self.traces.append({"spec": spec, "sessions": len(sess), "events": nev, "states": dist, "transitions": gen - len(sess), "kinds": kinds})
        for x in sess[:: max(1, len(sess) // 3)][:3]:
            self.samples.append({"spec": spec, "session": x["name"], "first_events": json.dumps(x["ev"][:2])[:600]})
        return sess

    def evidence(self, level, result):
        d = {
            "property": self.prop, "tier": TIER, "seed": SEED, "level": level,
            "wall_s": round(time.time() - self.t0, 1),
            "coverage": {
                "states": sum(x["states"] for x in self.models) + sum(x["states"] for x in self.traces),
                "transitions": sum(x["transitions"] for x in self.models) + sum(x["transitions"] for x in self.traces),
                "traces_validated_against_impl": sum(x["sessions"] for x in self.traces),
                "events_validated": sum(x["events"] for x in self.traces),
                "models": self.models, "trace_checks": self.traces, "notes": self.notes,
                "samples": self.samples or [{"note": "no recorded session"}],
                "result": result,
            },
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(d, f, indent=1)
