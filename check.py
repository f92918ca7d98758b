#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's working tree.

1. TLC checks the property's laws on the specification itself (MC.tla / MCFPU.tla), exhaustively on small formats.
2. The harness, built against /repo, records what the real code does; TLC checks every recorded event against the
   specification (Trace.tla / TraceFPU.tla).
3. (C22) TLC generates programs with their expected outcome from the specification; the real code executes them.

Exit 0: held on everything explored.  Exit 1 and "VIOLATION property=<id> replay=<path>": broken.  Exit 2: no answer.
"""
import fcntl, json, os, re, resource, shutil, subprocess, sys, time, collections

HERE = os.path.dirname(os.path.abspath(__file__))
WORK = os.path.join(HERE, ".work")
CLS = os.path.join(WORK, "cls")
TARGET = os.path.join(WORK, "target")
BIN = os.path.join(TARGET, "debug", "apfloat-harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CHUNKS = 16


class Broken(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def build_env():
    env = dict(os.environ)
    env.update(RUSTUP_TOOLCHAIN="1.98.1", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_TARGET_DIR=TARGET,
               CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", RUSTFLAGS="")
    env["PATH"] = "/root/.cargo/bin:/usr/local/bin:" + env.get("PATH", "/usr/bin:/bin")
    return env


def build_java():
    srcs = []
    for d in ("java/zov", "java/tlc2/overrides"):
        srcs += [os.path.join(HERE, d, f) for f in sorted(os.listdir(os.path.join(HERE, d))) if f.endswith(".java")]
    stamp = os.path.join(CLS, "stamp")
    key = repr([(s, os.stat(s).st_mtime_ns, os.stat(s).st_size) for s in srcs])
    if os.path.exists(stamp) and open(stamp).read() == key:
        return
    os.makedirs(CLS, exist_ok=True)
    p = subprocess.run(["javac", "-nowarn", "-cp", JARS, "-d", CLS] + srcs, capture_output=True, text=True)
    if p.returncode:
        raise Broken("javac failed\n" + p.stdout + p.stderr)
    open(stamp, "w").write(key)


def build_harness():
    p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(HERE, "harness"), env=build_env(),
                       capture_output=True, text=True)
    if p.returncode:
        raise Broken("harness build failed\n" + p.stderr[-6000:])


class Lock:
    def __init__(self, name):
        os.makedirs(WORK, exist_ok=True)
        self.f = open(os.path.join(WORK, name), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


# ---------------------------------------------------------------- TLC
class Tlc:
    """One TLC run in the background."""

    def __init__(self, run, name, module, config, env, workers, extra=(), heap="6g"):
        self.name, self.out = name, os.path.join(run, name + ".log")
        meta = os.path.join(run, "meta_" + name)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in env.items()})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-cp", CLS + ":" + JARS, "tlc2.TLC",
               "-workers", str(workers), "-noGenerateSpecTE", "-metadir", meta, "-config", config, *extra, module]
        self.f = open(self.out, "w")
        self.p = subprocess.Popen(cmd, cwd=os.path.join(HERE, "spec"), env=e, stdout=self.f, stderr=subprocess.STDOUT)

    def wait(self, timeout):
        try:
            self.p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            raise Broken("TLC %s: no answer within %d s" % (self.name, timeout))
        self.text = open(self.out, errors="replace").read()
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", self.text)
        self.generated, self.distinct = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        self.ok = "No error has been found" in self.text and self.p.returncode == 0
        return self

    def need_ok(self):
        if not self.ok:
            keep = os.path.join(WORK, "failed_" + self.name + ".log")
            shutil.copy(self.out, keep)
            raise Broken("TLC %s did not finish cleanly (log kept in %s):\n%s" % (self.name, keep, self.text[-3000:]))
        return self

    def kill(self):
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()


REJ = re.compile(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),\s*\{([^}]*)\}')


def rejects(text):
    return [(int(a), int(b), re.findall(r'"(\w+)"', c)) for a, b, c in REJ.findall(text)]


# ---------------------------------------------------------------- known findings
INPUT_KEYS = ("op", "of", "f", "g", "rm", "form", "a", "b", "c", "n", "w", "sg", "alt", "hasp", "t")


def inputs_of(line):
    return " ".join(x for x in line.split() if x.split("=", 1)[0] in INPUT_KEYS)


def known(pid):
    """'known: property=<id> <input fields of the failing event> -- description'"""
    r = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known: property=(\S+) (.*?) -- (.*)", l.strip())
            if m and m.group(1) == pid:
                r[inputs_of(m.group(2))] = m.group(3)
    return r


# ---------------------------------------------------------------- the check
class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.run = os.path.join(WORK, "run_%s_%d" % (pid, os.getpid()))
        os.makedirs(self.run)
        self.deep = self.tier == "thorough"
        self.budget = float(os.environ.get("VERIF_BUDGET", "600" if self.deep else "30"))
        self.cov = collections.OrderedDict()
        self.mc = []                  # (name, distinct, generated)
        self.trace_states = self.trace_transitions = 0
        self.events = self.rounds = self.histories = self.programs = self.instructions = 0
        self.by_op = collections.Counter()
        self.by_fmt = collections.Counter()
        self.distinct = set()
        self.samples = []
        self.violations = []          # (line, fields, replayed)
        self.known_hits = []
        self.tlcs = []

    def tlc(self, *a, **k):
        t = Tlc(self.run, *a, **k)
        self.tlcs.append(t)
        return t

    # -- 2: record and check
    def record(self, rnd, sub="gen"):
        d = os.path.join(self.run, "%s_%d" % (sub, rnd))
        os.makedirs(d)
        seed = self.seed + 7919 * rnd
        cmd = [BIN, sub, self.pid, str(seed), self.tier + ("+" if rnd else ""), str(CHUNKS), d]
        p = subprocess.run(cmd, capture_output=True, text=True)
        return d if self.survived(p, d, cmd) else None

    def survived(self, p, d, cmd):
        """False, with a violation noted, when a call of the code under test hung or killed the process."""
        if p.returncode == 0:
            return True
        if p.returncode == 3:
            line = open(os.path.join(d, "hang")).read().strip()
            note = "no result after 20 s"
            if cmd[1] == "gen":
                f = os.path.join(d, "confirm")
                open(f, "w").write(line + "\n")
                if subprocess.run([BIN, "replay", f], capture_output=True, text=True).returncode != 3:
                    raise Broken("a call took over 20 s, but terminates when run alone: " + line[:300])
                note = "no result after 60 s when run alone"
            self.violations.append((line, ["did not terminate"], note))
            return False
        if p.returncode > 0:
            raise Broken("%s failed (%d): %s" % (" ".join(cmd), p.returncode, p.stderr[-2000:]))
        # The process itself died (stack overflow, abort): one of the calls under way did it.
        current = []
        for i in range(8):
            cur = os.path.join(d, "current_%d" % i)
            line = open(cur, errors="replace").read().split("\n")[0] if os.path.exists(cur) else ""
            if line:
                current.append(line)
        if cmd[1] == "gen":
            for line in current:
                f = os.path.join(d, "confirm")
                open(f, "w").write(line + "\n")
                q = subprocess.run([BIN, "replay", f], capture_output=True, text=True)
                if q.returncode < 0:
                    self.violations.append((line, ["died"], "the process died of signal %d again when replayed" % -q.returncode))
        else:
            q = subprocess.run(cmd, capture_output=True, text=True)
            if q.returncode == p.returncode:
                self.violations.append((" / ".join(current), ["died"],
                                        "the process died of signal %d twice; the steps under way" % -q.returncode))
        if not self.violations:
            raise Broken("harness died of signal %d, and did not do that again: %s" % (-p.returncode, p.stderr[-500:]))
        return False

    def judge(self, d, rnd, spec="Trace", timeout=780):
        t = self.tlc("%s_%d" % (spec, rnd), spec + ".tla", spec + ".cfg", {"TRACE_DIR": d, "TRACE_CHUNKS": CHUNKS}, 8,
                     heap="12g").wait(timeout)
        t.need_ok()
        n = 0
        for c in range(CHUNKS):
            with open(os.path.join(d, "chunk_%d" % c)) as f:
                for i, l in enumerate(f):
                    n += 1
                    if l.startswith("op=begin"):
                        self.histories += 1
                    m = dict(x.split("=", 1) for x in l.split()[:6] if "=" in x)
                    op = m.get("op", "?")
                    if op in ("row", "row1"):
                        w = re.search(r" w=(\d+)", l)
                        k = 2 ** int(w.group(1)) if w else 1
                        self.by_op[m.get("of", "?")] += k
                    else:
                        k = 1
                        self.by_op[op] += 1
                    self.by_fmt[m.get("f", "?")] += k
                    self.distinct.add(hash(inputs_of(l)))
                    if c == 3 and i % 997 == 5 and len(self.samples) < 6:
                        self.samples.append(l.strip()[:400])
        if t.distinct != n + CHUNKS:
            raise Broken("TLC consumed %d of %d events" % (t.distinct - CHUNKS, n))
        self.events += n
        self.trace_states += t.distinct
        self.trace_transitions += n
        bad = rejects(t.text)
        if "REJECT" in t.text and not bad:
            raise Broken("unreadable REJECT in TLC's output")
        if spec == "Trace":
            self.confirm(d, bad)
        else:
            self.confirm_histories(d, bad)

    def confirm(self, d, bad):
        """Runs the rejected calls once more on the real code."""
        if not bad:
            return
        lines = {}
        for c in {c for c, _, _ in bad}:
            lines[c] = open(os.path.join(d, "chunk_%d" % c)).read().split("\n")
        kn = known(self.pid)
        picked = []
        for c, i, fields in bad:
            line = lines[c][i]
            if inputs_of(line) in kn:
                self.known_hits.append((line, kn[inputs_of(line)]))
            else:
                picked.append((line, fields))
        if not picked:
            return
        f = os.path.join(d, "confirm")
        open(f, "w").write("\n".join(l for l, _ in picked[:50]) + "\n")
        p = subprocess.run([BIN, "replay", f], capture_output=True, text=True)
        again = p.stdout.split("\n")
        for k, (line, fields) in enumerate(picked):
            same = k < len(again) and again[k].strip() == line.strip()
            self.violations.append((line, fields, "the same again when replayed" if same
                                    else "not rerun" if k >= 50 else "a different outcome when replayed: " + (again[k] if k < len(again) else "-")))

    def execute(self, name, lines):
        """Runs step lines on the real code; the recorded lines."""
        d = os.path.join(self.run, name)
        os.makedirs(d)
        f = os.path.join(d, "program")
        open(f, "w").write("\n".join(lines) + "\n")
        cmd = [BIN, "exec", f, d]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if not self.survived(p, d, cmd):
            return None
        r = open(os.path.join(d, "chunk_0")).read().split("\n")[:-1]
        shutil.rmtree(d)
        return r

    def confirm_histories(self, d, bad):
        """Runs the history up to the rejected step again."""
        seen = set()
        for c, i, fields in bad:
            lines = open(os.path.join(d, "chunk_%d" % c)).read().split("\n")
            b = i
            while not lines[b].startswith("op=begin"):
                b -= 1
            if (c, b) in seen:          # later steps of a history that already departed
                continue
            seen.add((c, b))
            if len(seen) > 20:
                break
            again = self.execute("again_%d_%d" % (c, i), lines[b:i + 1])
            same = again is not None and again[-1].strip() == lines[i].strip()
            self.violations.append(("\n".join(lines[b:i + 1]), fields,
                                    "the same again when the history is run again" if same else "a different outcome when run again"))

    # -- 3: programs from the specification
    def start_sims(self, rnd):
        n = 4
        return [(i, self.tlc("sim_%d_%d" % (rnd, i), "SimFPU.tla", "SimFPU.cfg",
                             {"SIM_OUT": os.path.join(self.run, "sim_%d_%d.out" % (rnd, i))}, 1,
                             extra=("-simulate", "num=%d" % (1500 if self.deep else 200), "-depth", "100",
                                    "-seed", str(self.seed * 1000003 + rnd * 101 + i)), heap="3g")) for i in range(n)]

    def finish_sims(self, rnd, sims):
        for i, t in sims:
            t.wait(780)
            if t.p.returncode or "Error" in t.text:
                raise Broken("TLC simulator: " + t.text[-3000:])
            out = os.path.join(self.run, "sim_%d_%d.out" % (rnd, i))
            left, right = [], []
            for l in open(out):
                a, b = l.rstrip("\n").split(" | ")
                left.append(a)
                right.append(b)
            os.unlink(out)
            if not left or not left[0].startswith("op=begin"):
                raise Broken("no programs from the simulator")
            got = self.execute("exec_%d_%d" % (rnd, i), left)
            if got is None:
                return
            if len(got) != len(left):
                raise Broken("executed %d of %d instructions" % (len(got), len(left)))
            skip, begin = False, 0
            for k in range(len(left)):
                op = left[k][3:].split(" ", 1)[0]
                if op == "begin":
                    skip, begin = False, k
                    self.programs += 1
                self.by_op[op] += 1
                self.instructions += 1
                if skip:
                    continue
                want = dict(x.split("=", 1) for x in right[k].split())
                have = dict(x.split("=", 1) for x in got[k].split() if "=" in x)
                diff = [x for x in want if have.get(x) != want[x]] + (["panic"] if "panic" in have else [])
                if diff:
                    skip = True
                    self.violations.append(("\n".join(got[begin:k + 1]), diff, "a program from the specification; it delivers " + right[k][:300]))
            self.samples.append(" ; ".join(left[1:6])[:400])

    # -- 1: laws
    def start_mc(self):
        deep = "1" if self.deep else "0"
        # the integers everything is evaluated with
        z = [self.tlc("integers", "MCZ.tla", "MCZ.cfg", {"DEEP": deep}, 1)] if self.deep or self.pid == "C01" else []
        if self.pid == "C22":
            return z + [self.tlc("machine_" + f, "MCFPU.tla", "MCFPU.cfg", {"FPUFMT": f, "DEEP": deep}, 4 if self.deep else 2)
                    for f in ("u6", "n6")]
        return z + [self.tlc("laws", "MC.tla", "MC.cfg", {"LAW": self.pid, "DEEP": deep}, 8 if self.deep else 4)]

    def finish_mc(self, ts):
        for t in ts:
            t.wait(3000 if self.deep else 780)
            t.need_ok()
            self.mc.append((t.name, t.distinct, t.generated))

    def main(self):
        with Lock("lock_java"):
            build_java()
        mcs = self.start_mc()
        if self.deep:
            self.finish_mc(mcs)
            mcs = []
        with Lock("lock_cargo"):
            build_harness()
        rnd = 0
        t_rounds = time.time()
        while True:
            sims = self.start_sims(rnd) if self.pid == "C22" else []
            d = self.record(rnd)
            if d is None:
                break
            self.judge(d, rnd)
            shutil.rmtree(d)
            if self.pid == "C22":
                d = self.record(rnd, "hist")
                if d is None:
                    break
                self.judge(d, rnd, "TraceFPU")
                shutil.rmtree(d)
                self.finish_sims(rnd, sims)
            rnd += 1
            self.rounds = rnd
            if self.violations or time.time() - t_rounds >= self.budget:
                break
        self.finish_mc(mcs)

    def evidence(self):
        states = sum(m[1] for m in self.mc) + self.trace_states
        trans = sum(m[2] for m in self.mc) + self.trace_transitions
        cov = {
            "states": states,
            "transitions": trans,
            "traces_validated_against_impl": (self.histories or self.events) + self.programs,
            "distinct_events": len(self.distinct),
            "rounds": self.rounds,
            "events_by_operation": dict(self.by_op.most_common()),
            "events_by_format": dict(self.by_fmt.most_common()),
            "law_states": {m[0]: m[1] for m in self.mc},
            "rule": "states: distinct states of the exhaustive law checking on small formats plus one per recorded "
                    "event; every recorded event of the real code is one accepted or rejected step of the specification "
                    "(a row event holds a whole row of an 8-bit operation table).",
            "samples": self.samples or ["none recorded"],
        }
        if self.programs:
            cov["programs_from_specification_executed"] = self.programs
            cov["instructions_of_those_programs"] = self.instructions
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": ["TLC and the Java big-integer override of Z.tla (checked against its TLA+ definition by MCZ)",
                              "the recording harness reports what the public API returned"],
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", self.pid + ".json"), "w"), indent=1)

    def report(self):
        for line, what in self.known_hits[:20]:
            log("KNOWN-FINDING: property=%s %s (%s)" % (self.pid, what, inputs_of(line)))
        if not self.violations:
            log("OK property=%s tier=%s seed=%d: %d events, %d law states, %.1f s" % (
                self.pid, self.tier, self.seed, self.events, sum(m[1] for m in self.mc), time.time() - self.t0))
            return 0
        d = os.path.join(HERE, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, self.pid + ".txt")
        with open(path, "w") as f:
            f.write("# property %s, tier %s, seed %d: %d rejected event(s)\n" % (self.pid, self.tier, self.seed, len(self.violations)))
            f.write("# re-run with: %s replay %s\n" % (BIN, path))
            for line, fields, how in self.violations[:200]:
                f.write("# departs from the specification in: %s; %s\n%s\n" % (",".join(fields), how, line))
        for line, fields, how in self.violations[:5]:
            log("rejected [%s; %s]: %s" % (",".join(fields), how, line[-300:]))
        log("VIOLATION property=%s replay=%s" % (self.pid, path))
        return 1

    def cleanup(self):
        for t in self.tlcs:
            t.kill()
        shutil.rmtree(self.run, ignore_errors=True)


def main():
    if sys.argv[1:] == ["--setup"]:
        with Lock("lock_java"):
            build_java()
        with Lock("lock_cargo"):
            build_harness()
        return 0
    c = Check(sys.argv[1])
    try:
        c.main()
        c.evidence()
        return c.report()
    except Broken as e:
        if c.violations:                # what was found stands
            c.evidence()
            return c.report()
        log("ERROR: %s" % e)
        return 2
    finally:
        c.cleanup()


if __name__ == "__main__":
    sys.exit(main())
