#!/usr/bin/env python3
"""check.py PROPERTY [--replay CALLS]

Decides one property for /repo's current tree:
  1. compiles the library and the driver into a scratch directory;
  2. model-checks the property's design modules with TLC, if it has any;
  3. lets TLC draw call sessions from the specification (GenCalls.tla), replays them in the driver, and
  4. lets TLC validate the recorded trace against the specification (TraceCheck.tla).
Exit 0: held. Exit 1 with a VIOLATION line: a recorded session is not a behaviour of the specification (confirmed by a
second run). Exit 2: the check itself failed.
"""
import collections, json, os, re, shutil, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
TLA = os.environ.get("TLA_HOME", "/opt/veriftools/tla")
sys.path.insert(0, os.path.join(VERIF, "bin"))
from plan import PLAN

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = "thorough" if os.environ.get("VERIF_TIER", "quick") == "thorough" else "quick"
JVM = ["java", "-XX:+UseParallelGC", "-Xss16m", "-Xmx10g", "-Dtlc2.overrides.TLCOverrides=slav.Overrides"]


class Broken(Exception):
    pass


def sh(cmd, timeout, what):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken("%s: no answer within %d s" % (what, timeout))
    return p.returncode, p.stdout.decode("utf-8", "replace")


class Run:
    def __init__(self, prop, work):
        self.prop, self.work, self.plan = prop, work, PLAN[prop]
        self.cls = os.path.join(work, "cls")
        self.states = self.transitions = self.sessions = self.calls = 0
        self.per_op = collections.Counter()
        self.samples, self.models = [], []
        self.digest = set()

    def build(self):
        os.environ.update(self.plan.get("build", {}))
        rc, out = sh(["bash", os.path.join(VERIF, "harness", "build.sh"), os.path.join(self.work, "b")], 600, "build")
        if rc:
            raise Broken("the library and driver do not build:\n" + out[-3000:])
        src = [os.path.join(VERIF, "java", "slav", f) for f in sorted(os.listdir(os.path.join(VERIF, "java", "slav"))) if f.endswith(".java")]
        rc, out = sh(["javac", "-nowarn", "-cp", TLA + "/tla2tools.jar", "-d", self.cls] + src, 300, "javac")
        if rc:
            raise Broken("javac: " + out[-2000:])

    def tlc(self, module, cfg, workers, timeout, **props):
        meta = tempfile.mkdtemp(dir=self.work)
        cmd = JVM + ["-Dslav.shared=no", "-Dslav.data=" + os.path.join(SPEC, "data")] + ["-Dslav.%s=%s" % kv for kv in props.items()]
        cmd += ["-cp", ":".join([self.cls, TLA + "/tla2tools.jar", TLA + "/CommunityModules-deps.jar"]), "tlc2.TLC", "-noGenerateSpecTE",
                "-metadir", meta, "-workers", str(workers), "-config", os.path.join(SPEC, cfg), os.path.join(SPEC, module + ".tla")]
        rc, out = sh(cmd, timeout, "TLC " + module)
        shutil.rmtree(meta, ignore_errors=True)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        return rc, out, gen, dist

    def model_check(self):
        for module, cfg, expect in self.plan.get("models", {}).get(TIER, self.plan.get("models", {}).get("quick", [])):
            t = time.time()
            rc, out, gen, dist = self.tlc(module, cfg, 8, 800 if TIER == "quick" else 7200, tier=TIER)
            if rc or "No error has been found" not in out:
                raise Broken("model %s does not satisfy its properties:\n%s" % (module, out[-3000:]))
            if dist < expect:
                raise Broken("model %s explored only %d states" % (module, dist))
            init = re.search(r"Finished computing initial states: (\d+)", out)
            self.states += dist
            self.transitions += gen - (int(init.group(1)) if init else 0)
            self.models.append({"module": module, "config": cfg, "distinct_states": dist, "states_generated": gen, "wall_s": round(time.time() - t, 1)})

    def generate(self, seed, blocks, calls):
        rc, out, gen, dist = self.tlc(self.plan.get("gen", "GenCalls"), "GenCalls.cfg", 1, 800, seed=seed, prop=self.prop, blocks=blocks, calls=calls, tier=TIER)
        if rc or "No error has been found" not in out or not os.path.exists(calls):
            raise Broken("generating calls:\n" + out[-3000:])

    def drive(self, calls, trace):
        rc, out = sh([os.path.join(self.work, "b", "driver"), calls, trace, "8"], 800, "driver")
        if rc:
            raise Broken("driver: " + out[-2000:])

    def validate(self, trace, seed):
        """None if every session is accepted, otherwise (session number, position)"""
        sessions = read_sessions(trace)
        rc, out, gen, dist = self.tlc(self.plan.get("check", "TraceCheck"), "TraceCheck.cfg", 8, 800 if TIER == "quick" else 3600,
                                      trace=trace, seed=seed, prop=self.prop, tier=TIER, blocks=self.plan["blocks"][0 if TIER == "quick" else 1])
        good = "No error has been found" in out and rc == 0
        if good:
            expect = len(sessions) + sum(len(x) for x in sessions)
            if dist != expect:
                raise Broken("TLC saw %d states, the trace has %d" % (dist, expect))
            return None, sessions, out, dist
        ss, ps, ok = re.findall(r"/\\ s = (\d+)", out), re.findall(r"/\\ pos = (\d+)", out), re.findall(r"/\\ ok = (\w+)", out)
        if not ss or "Finished in" not in out:
            raise Broken("TLC:\n" + out[-3000:])
        # an invariant violation ends in the rejecting state; an evaluation error (a result outside the domain of the
        # specification's operators) in the state before
        pos = int(ps[-1]) if ok[-1] == "FALSE" else int(ps[-1]) + 1
        return (int(ss[-1]), pos), sessions, out, dist


def read_sessions(path):
    out = []
    for l in open(path):
        l = l.rstrip("\n")
        if l.startswith("#"):
            out.append([])
        elif l:
            out[-1].append(l)
    return out


def show(line):
    def d(w):
        if w[0] == "d" and len(w) == 17:
            return repr(struct.unpack(">d", bytes.fromhex(w[1:]))[0])
        if w[0] == "f" and len(w) == 9:
            return repr(struct.unpack(">f", bytes.fromhex(w[1:]))[0])
        return w[1:] if w[0] in "ibs" and len(w) > 1 else w
    w = line.split()
    return " ".join([w[0]] + [d(x) for x in w[1:]])


def write_sessions(path, sessions):
    with open(path, "w") as f:
        for i, s in enumerate(sessions):
            f.write("# %d\n" % i + "\n".join(s) + "\n")


def round_(run, seed, blocks, calls=None):
    work = run.work
    trace = os.path.join(work, "trace")
    if calls is None:
        calls = os.path.join(work, "calls")
        run.generate(seed, blocks, calls)
    run.drive(calls, trace)
    bad, sessions, out, dist = run.validate(trace, seed)
    run.states += dist
    run.sessions += len(sessions)
    asked = read_sessions(calls)
    for i, s in enumerate(sessions):
        for j, l in enumerate(s):
            op = l.split(" ", 1)[0]
            if op in ("begin", "end"):
                # an event of a concurrent session: count the call it ends
                if op == "begin":
                    continue
                op = re.split("[:=]", asked[i][int(l.split()[2][1:]) - 1].split(" ", 1)[0])[-1]
            run.per_op[op] += 1
            run.calls += 1
            if TIER == "quick" or len(run.digest) < 2000000:
                run.digest.add(hash(l))
    step = max(1, len(sessions) // 6)
    run.samples += [show(s[len(s) // 2])[:600] for s in sessions[::step] if s][:8 - min(8, len(run.samples))]
    if bad is None:
        run.transitions += sum(len(s) for s in sessions)
        return None
    # confirm: the same calls again, whole (history matters), in fresh processes
    s, pos = bad
    event = sessions[s - 1][pos - 1] if pos <= len(sessions[s - 1]) else sessions[s - 1][-1]
    keep = [read_sessions(calls)[s - 1]] if run.plan.get("single_replay", True) else None
    one = os.path.join(work, "one.calls")
    if keep is None:
        shutil.copy(calls, one)
    else:
        write_sessions(one, keep)
    confirmed = False
    for _ in range(3):
        run.drive(one, os.path.join(work, "one.trace"))
        again, ses2, out2, _d = run.validate(os.path.join(work, "one.trace"), seed)
        if again is not None:
            confirmed = True
            break
    if not confirmed and run.plan.get("must_repeat"):
        # measured on the machine's clock: what does not repeat is the machine
        return None
    if not confirmed and "!" in event.split("|", 1)[-1]:
        # a crash or hang that happens only sometimes may be the machine's; a wrong value that was recorded is a wrong value
        raise Broken("a rejection did not repeat: " + show(event))
    rep = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rep, exist_ok=True)
    path = os.path.join(rep, "%s-%s-%d.calls" % (run.prop, TIER, SEED))
    shutil.copy(one, path)
    with open(path + ".txt", "w") as f:
        f.write("replay: python3 bin/check.py %s --replay %s   (VERIF_SEED=%d VERIF_TIER=%s)\nrejected call: %s\nsession:\n" % (run.prop, path, seed, TIER, show(event)))
        for l in sessions[s - 1]:
            f.write("  " + show(l)[:2000] + "\n")
    return path, event


def main():
    t0 = time.time()
    prop = sys.argv[1]
    replay = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == "--replay" else None
    work = tempfile.mkdtemp(prefix="slav.")
    found, err = None, None
    run = Run(prop, work)
    try:
        run.build()
        if replay:
            found = round_(run, SEED, 0, replay)
        else:
            run.model_check()
            blocks = run.plan["blocks"][0 if TIER == "quick" else 1]
            rounds = 1 if TIER == "quick" else run.plan.get("rounds", 6)
            for i in range(rounds):
                found = round_(run, SEED + 7919 * i, blocks)
                if found:
                    break
            missing = [op for op in run.plan["ops"] if not run.per_op[op]]
            if not found and missing:
                raise Broken("no call of " + " ".join(missing))
    except Broken as e:
        err = str(e)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    ev = {
        "property": prop, "tier": TIER, "seed": SEED, "level": "model_checking", "wall_s": round(time.time() - t0, 2),
        "violations": 1 if found else 0,
        "coverage": {
            "states": run.states, "transitions": run.transitions, "traces_validated_against_impl": run.sessions,
            "calls_validated": run.calls, "distinct_calls": len(run.digest), "calls_per_operation": dict(run.per_op),
            "design_models": run.models, "samples": run.samples,
        },
        "assumptions": run.plan.get("assumptions", []) + [
            "the arithmetic of the specification is IEEE double (java.lang.Math); agreement is judged within the tolerances stated in the modules",
            "inputs outside the drawn domains, and builds other than g++ -O2 on this machine, are not explored"],
    }
    if err:
        ev["coverage"]["error"] = err[:500]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not replay:
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if err:
        print("ERROR property=%s %s" % (prop, err))
        return 2
    if found:
        print("rejected: " + show(found[1])[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, found[0]))
        return 1
    print("HELD property=%s sessions=%d calls=%d states=%d wall=%.1fs" % (prop, run.sessions, run.calls, run.states, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
