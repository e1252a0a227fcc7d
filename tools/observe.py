"""Trace validation: invocations of the program recorded from the code under test,
judged by TLC with module Observed.  The inputs are scenarios of the suites bent
at random places, so these are inputs no generator wrote down."""
import collections, json, os, random, subprocess, time
import suites

SUBMITS = ["honest", "grid", "edge", "variant", "content", "malformed", "bits", "rand-pairs", "rand-submits", "rand-submits", "rand-submits",
           "claims", "over", "arrange", "proxy", "buffer", "ix", "fund", "window", "combo"]
CLOSES = ["close-epochs", "close-dests", "close-junk", "close-forms"]
HISTORIES = ["life-one", "life-two", "life-nodes", "walk-free"]
# how many of each to draw from every suite
MIX = {"C09": (20, 200, 120), "C10": (20, 200, 120), "C11": (20, 200, 120), "C17": (60, 150, 60), "C05": (50, 60, 200), "C07": (60, 40, 200), "C08": (80, 40, 150)}
CFG = "INIT Init\nNEXT Next\nINVARIANT Say\nCHECK_DEADLOCK FALSE\n"


def bases(prop, seed, path):
    r = random.Random(f"{prop} {seed}")
    s, c, h = MIX.get(prop, (120, 60, 60))
    with open(path, "w") as out:
        for names, n in ((SUBMITS, s), (CLOSES, c), (HISTORIES, h)):
            for name in names:
                x = suites.suite(name, False)
                x.ensure()
                p = subprocess.Popen(["gzip", "-dc", x.path()], stdout=subprocess.PIPE, text=True)
                ls = p.stdout.readlines()
                p.wait()
                out.writelines(r.sample(ls, min(n, len(ls))))


def judge(work, prefix, parts):
    """TLC on every part; yields what it says of each invocation."""
    cfg = os.path.join(work, "observed.cfg")
    with open(cfg, "w") as f:
        f.write(CFG)
    ps = []
    for i in range(parts):
        f = f"{prefix}.{i}"
        n = sum(1 for _ in open(f))
        log = open(f"{f}.log", "w")
        ps.append((f, n, log, subprocess.Popen(
            ["timeout", "600", "tlc", "-workers", "1", "-noGenerateSpecTE", "-metadir", f"{f}.md", "-config", cfg, "Observed.tla"],
            cwd=suites.SPEC, stdout=log, stderr=subprocess.STDOUT, env=dict(os.environ, TRACE=f))))
    said = []
    for f, n, log, p in ps:
        p.wait()
        log.close()
        text = open(log.name).read().splitlines()
        mine = [json.loads(json.loads(l)) for l in text if l.startswith('"{')]
        if p.returncode != 0 or len(mine) != n or not any("No error has been found" in l for l in text):
            raise suites.SpecError(f"TLC failed on recorded invocations (exit {p.returncode}, {len(mine)} of {n} judged):\n"
                                   + "\n".join(l[:300] for l in text if not l.startswith('"{'))[-3000:])
        said += mine
    return said


def observe(run, exe, deep):
    """Records and judges invocations; reports deviations that break the property."""
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    kinds, why, shows = collections.Counter(), collections.Counter(), collections.Counter()
    total, found, sample = 0, 0, None
    for b in range(8 if deep else 1):
        base, prefix, parts = os.path.join(run.work, "bases"), os.path.join(run.work, "seen"), 6
        bases(run.prop, f"{seed} {b} {deep}", base)
        p = subprocess.run([exe, "trace", base, "--count", str(24000 if deep else 4800), "--seed", str(seed * 1000 + b), "--parts", str(parts), "--out", prefix],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise RuntimeError(f"recording failed (exit {p.returncode}):\n{p.stdout[-3000:]}")
        said = judge(run.work, prefix, parts)
        total += len(said)
        bad = {}
        for j in said:
            if j["must"] == "unbound":
                raise RuntimeError(f"the recorder did not provide a Merkle root the judgement needs (invocation {j['n']})")
            kinds[f"{j['kind']}: expected {'either' if j['must'] == 'any' else j['must']}, {j['out']}"] += 1
            for f in j["faults"]:
                why[f] += 1
            if j["out"] == "ok":
                for f in j["shows"]:
                    shows[f] += 1
            ds = [d for d in j["devs"] if run.prop in d["props"]]
            if ds:
                bad[j["n"]] = ds
        if bad:
            found += len(bad)
            lines = {}
            for i in range(parts):
                for l in open(f"{prefix}.{i}"):
                    n = json.loads(l[:l.index(",", l.index('"n":'))] + "}")["n"] if l.startswith('{"n":') else json.loads(l)["n"]
                    if n in bad:
                        lines[n] = json.loads(l)
            notes = {n["n"]: n for n in map(json.loads, open(f"{prefix}.notes")) if n["n"] in bad}
            for n in sorted(bad)[:5]:
                d = os.path.join(run.dir, "observed")
                os.makedirs(d, exist_ok=True)
                f = os.path.join(d, f"{b}-{n}.json")
                json.dump({"judgement": bad[n], "bent": notes.get(n), "invocation": lines.get(n),
                           "how": "TRACE=<file with the invocation on one line> tlc -config <INIT Init NEXT Next INVARIANT Say> spec/Observed.tla"},
                          open(f, "w"), indent=1)
                run.violation(f, "; ".join(x["text"] for x in bad[n]) + f" (recorded invocation {n}: {', '.join((notes.get(n) or {}).get('bent', []))})")
        if sample is None:
            sample = next((j for j in said if j["out"] == "ok"), None)
        for i in range(parts):
            for s in ("", ".log"):
                os.remove(f"{prefix}.{i}{s}")
    run.extra["recorded_invocations"] = {
        "judged_by": "spec/Observed.tla, evaluated by TLC on every recorded invocation", "count": total, "seed": seed,
        "outcomes": dict(sorted(kinds.items())), "faults_present": dict(why.most_common()), "conflicts_in_accepted_reports": dict(shows),
        "deviating": found, "seconds": round(time.time() - t0, 1)}
    run.observed = total
