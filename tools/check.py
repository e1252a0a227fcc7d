"""check.py ID [--tier quick|thorough]

Decides one property: scenarios generated by TLC from the specification are run
on the code in /repo, and what the code does is compared with what the
specification allows.  Exit 0: held; 1: VIOLATION; 2: the check itself failed."""
import json, os, subprocess, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, observe, suites

VERIF = suites.VERIF
EVIDENCE = ["grid", "edge", "version", "slot", "variant", "content", "malformed", "layout", "bits", "honest"]
RANDOM = ["rand-pairs", "rand-submits"]
SUBMIT = ["arrange", "claims", "over", "proxy", "window", "buffer", "ix", "fund", "combo"]
CLOSE = ["close-epochs", "close-dests", "close-junk", "close-forms"]
ONCE = ["once-short", "once-long"]
LIFE = ["life-one", "life-two", "life-nodes", "walk-free", "walk-nominal"]
API = ["helper", "codec", "facts"]
ALL = EVIDENCE + SUBMIT + RANDOM + CLOSE + ONCE + LIFE + API

# property -> suites TLC checks afresh in every run; all the program's suites are run
# on the code, but those that cannot bear on the property
PROGRAM = {
    "C01": ["honest"], "C02": ["honest-two", "grid"], "C03": ["claims"], "C04": ["window", "life-two", "numbers"], "C05": ["life-two"],
    "C06": ["life-nodes"], "C07": ["fund", "life-nodes"], "C08": ["fund", "life-two"], "C09": ["close-epochs", "life-two", "numbers"],
    "C10": ["close-dests", "life-two"], "C11": ["close-junk"], "C12": ["life-nominal", "once-short"], "C13": ["layout"],
    "C14": ["buffer", "codec"], "C15": ["fund", "malformed"], "C16": ["helper", "facts"], "C17": ["ix"], "C18": ["combo"],
}

# properties that the judgement of single recorded invocations has no part in
UNSEEN = ("C12", "C16")

# property -> theorems Apalache proves in every run
THEOREMS = {"C01": ["blocks"], "C04": ["clock"], "C05": ["clock"], "C09": ["clock"], "C12": ["clock"]}


def bears(prop, name):
    if prop == "C12":
        return name in ONCE
    if name in ONCE:
        return prop in ("C15", "C18")
    if name in API:
        return prop in ("C15", "C18", "C16", "C14", "C06", "C07") and not (prop in ("C06", "C07") and name != "facts") and not (prop == "C14" and name != "codec")
    return prop != "C16"


# property -> (command, suites run on the command-line client, suites TLC checks afresh)
CLIENT = {
    "C19": ("attach", ["attach-pairs", "attach-states", "attach-ranges", "attach-window", "attach-options", "attach-continuous", "attach-random", "attach-faults"],
            ["attach-pairs", "attach-faults"]),
    "C20": ("close", ["cli-close-filters", "cli-close-worlds", "cli-close-ages", "cli-close-faults", "cli-close-dests", "cli-close-options", "cli-close-random", "cli-close-upset"],
            ["cli-close-worlds", "cli-close-faults"]),
    "C21": ("display", ["cli-show-filters", "cli-show-worlds", "cli-show-order", "cli-show-proofs", "cli-show-random", "cli-close-options"], ["cli-show-worlds"]),
}


def say(s):
    print(s, flush=True)


def known(prop):
    """Listed findings of the property: {signature: text}."""
    out = {}
    f = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(f):
        for l in open(f):
            if l.startswith(f"known: property={prop} "):
                sig, text = l.strip().split(" ", 2)[2].split(" ", 1)
                out[sig.removeprefix("id=")] = text
    return out


def run_suite(exe, prop, s, replays, out):
    """One suite through the harness."""
    p1 = subprocess.Popen(["gzip", "-dc", s.path()], stdout=subprocess.PIPE)
    p2 = subprocess.run([exe, "run", "/dev/stdin", "--prop", prop, "--replays", replays, "--out", out], stdin=p1.stdout,
                        stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    p1.stdout.close()
    if p2.returncode != 0 or p1.wait() != 0:
        raise RuntimeError(f"the harness failed on {s.name} (exit {p2.returncode}):\n{p2.stderr[-3000:]}")
    return json.load(open(out))


class Run:
    """Collects what a check did, and says so in the evidence file."""

    def __init__(self, prop, tier):
        self.prop, self.tier, self.t0 = prop, tier, time.time()
        self.dir = os.path.join(VERIF, "replays", f"{prop}-{tier}")
        subprocess.run(["rm", "-rf", self.dir])
        os.makedirs(self.dir)
        self.work = os.path.join(VERIF, "work", f"run-{prop}-{tier}-{os.getpid()}")
        os.makedirs(self.work)
        self.violations, self.samples, self.suites, self.fresh = [], [], [], []
        self.extra, self.observed = {}, 0
        self.assumptions = ["Merkle hashing is collision free and Ed25519 unforgeable (the model's terms are free)",
                            "the stand-in runtime (harness/src/rt.rs) enforces the account rules of the real one",
                            "the program is run natively, not as SBF bytecode"]

    def traces(self):
        return sum(x["executed"] for x in self.suites) + self.observed

    def violation(self, replay, text):
        self.violations.append({"replay": replay, "text": text})

    def finish(self, level="model_checking"):
        cov = {
            "states": sum(f["states"] or 0 for f in self.fresh),
            "transitions": sum(f["transitions"] or 0 for f in self.fresh),
            "traces_validated_against_impl": self.traces(),
            "steps_bearing_on_the_property": sum(x["bearing"] for x in self.suites),
            "checked_afresh_by_tlc": self.fresh,
            "suites": self.suites,
            "samples": self.samples[:4],
            "explanation": "states and transitions: what TLC explored in this run, checking the invariants named. Each trace is a "
                           "scenario generated by TLC from the specification and executed on the code under test in this run, with "
                           "outcome, error code and every account compared with what the specification allows; recorded invocations are "
                           "counted as traces too. A step bears on the property if breaking it there would be reported for this property.",
        }
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED") or 1), "level": level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", f"{self.prop}.json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.rename(path + ".tmp", path)
        subprocess.run(["rm", "-rf", self.work])
        for v in self.violations[:5]:
            say(f"VIOLATION property={self.prop} replay={v['replay']}")
            say("  " + v["text"][:600])
        n = self.traces()
        say(f"{self.prop}: {n} traces executed, {cov['steps_bearing_on_the_property']} steps bear on it, "
            f"{len(self.violations)} violations, {ev['wall_s']} s")
        return 1 if self.violations else 0


def program(run, exe, names, fresh, deep):
    for n in fresh:
        s = suites.suite(n, False)
        run.fresh.append(s.ensure(force=True))
    todo = [(n, False) for n in names] + ([(n, True) for n in names] if deep else [])
    for n, d in todo:
        s = suites.suite(n, d)
        info = s.ensure()
        if deep and d:
            run.fresh.append(info)
        if s.theory:
            continue
        r = run_suite(exe, run.prop, s, os.path.join(run.dir, s.name), os.path.join(run.work, "out.json"))
        run.suites.append({"suite": s.name, "what": s.what, "executed": r["scenarios"], "steps": r["steps"], "bearing": r["decisive"],
                           "outcomes": r["tags"]})
        if len(run.samples) < 4 and r["samples"]:
            run.samples.append(r["samples"][-1])
        for v in r["violations"]:
            ms = [m for m in v["mismatches"] if run.prop in m["props"]]
            run.violation(v["replay"], "; ".join(f"step {m['step']}: {m['text']}" for m in ms))


def client(run, exe, command, names, fresh, deep):
    """The command-line client against the stand-in cluster."""
    run.assumptions = ["the stand-in cluster (harness/src/chain.rs) answers as the JSON-RPC interface of a node does, and executes "
                       "transactions with the slashing program of this tree in the stand-in runtime",
                       "the limit on open files, which the ledger library insists on, is answered by a stand-in (harness/nofile.c)",
                       "the ledgers are fixtures (fixtures/ledgers.tar.xz), written once with the ledger library from TLC's shreds"]
    cli = build.client()
    fx, so = build.stage(run.work)
    for n in fresh:
        run.fresh.append(suites.suite(n, False).ensure(force=True))
    for n, d in [(n, False) for n in names] + ([(n, True) for n in names] if deep else []):
        s = suites.suite(n, d)
        info = s.ensure()
        if d:
            run.fresh.append(info)
        text, out = os.path.join(run.work, "suite"), os.path.join(run.work, "out.json")
        with open(text, "wb") as f:
            subprocess.run(["gzip", "-dc", s.path()], stdout=f, check=True)
        p = subprocess.run([exe, "cli", text, "--exe", cli, "--fixtures", fx, "--work", os.path.join(run.work, "c"), "--preload", so,
                            "--replays", os.path.join(run.dir, s.name), "--only", command, "--out", out],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode != 0:
            raise RuntimeError(f"the harness failed on {s.name} (exit {p.returncode}):\n{p.stderr[-3000:]}")
        r = json.load(open(out))
        run.suites.append({"suite": s.name, "what": s.what, "executed": r["scenarios"], "steps": r["steps"], "bearing": r["decisive"],
                           "outcomes": r["tags"]})
        if len(run.samples) < 4 and r["samples"]:
            run.samples.append(r["samples"][-1])
        for v in r["violations"]:
            run.violation(v["replay"], "; ".join(v["mismatches"]))


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    deep = tier == "thorough"
    run = Run(prop, tier)
    try:
        exe = build.build()
        if prop in PROGRAM:
            if prop in THEOREMS:
                run.extra["proved_by_apalache"] = [suites.prove(t, run.work) for t in THEOREMS[prop]]
            program(run, exe, [n for n in ALL if bears(prop, n)], PROGRAM[prop], deep)
            if prop not in UNSEEN:
                observe.observe(run, exe, deep)
        elif prop in CLIENT:
            client(run, exe, *CLIENT[prop], deep)
        else:
            raise RuntimeError(f"no check for {prop}")
        code = run.finish()
    except (RuntimeError, suites.SpecError) as e:
        say(f"{prop}: the check failed: {e}")
        subprocess.run(["rm", "-rf", run.work])
        sys.exit(2)
    sys.exit(code)


if __name__ == "__main__":
    main()
