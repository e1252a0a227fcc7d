"""The suites of scenarios TLC generates from the specification, and the
TLC-only checks ("theory")."""
import hashlib, gzip, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
GEN = os.path.join(VERIF, "work", "gen")


class Suite:
    """One TLC run."""

    def __init__(self, name, module, consts, invs, nxt="Next", args=(), theory=False, workers=None, what="", tool="tlc"):
        self.name, self.module, self.consts, self.invs = name, module, consts, invs
        self.nxt, self.args, self.theory, self.what = nxt, list(args), theory, what
        self.workers = workers
        self.tool = tool

    def cfg(self):
        c = "CONSTANTS\n" + "".join(f"  {k} {v}\n" if str(v).startswith("<-") else f"  {k} = {v}\n" for k, v in self.consts.items())
        return c + f"INIT Init\nNEXT {self.nxt}\n" + "".join(f"INVARIANT {i}\n" for i in self.invs) + "CHECK_DEADLOCK FALSE\n"

    def modules(self):
        """This module and everything it extends, in the spec directory."""
        seen, todo = [], [self.module]
        while todo:
            m = todo.pop()
            f = os.path.join(SPEC, m + ".tla")
            if m in seen or not os.path.exists(f):
                continue
            seen.append(m)
            t = open(f).read()
            for e in re.findall(r"^EXTENDS (.*)$", t, re.M) + re.findall(r"INSTANCE (\w+)", t):
                todo += [x.strip() for x in e.split(",")]
        return sorted(seen)

    def key(self):
        h = hashlib.sha256()
        h.update((self.cfg() + repr(self.args) + self.module + repr(self.workers)).encode())
        for m in self.modules():
            h.update(open(os.path.join(SPEC, m + ".tla"), "rb").read())
        return h.hexdigest()[:16]

    def path(self):
        return os.path.join(GEN, f"{self.name}-{self.key()}.gz")

    def info_path(self):
        return self.path()[:-3] + ".info"

    def ensure(self, workers=8, limit=850, force=False):
        """Generates the suite unless it is there; returns TLC's statistics."""
        os.makedirs(GEN, exist_ok=True)
        # (a check that is to measure for itself runs TLC again: `force`)
        if not force and os.path.exists(self.path()) and os.path.exists(self.info_path()):
            return eval(open(self.info_path()).read())
        for f in os.listdir(GEN):
            if re.fullmatch(re.escape(self.name) + r"-[0-9a-f]{16}\.(gz|info|cfg)", f):
                os.remove(os.path.join(GEN, f))
        cfg = self.path()[:-3] + ".cfg"
        open(cfg, "w").write(self.cfg())
        meta = self.path()[:-3] + f".md{os.getpid()}"
        t0 = time.time()
        p = subprocess.Popen(
            ["timeout", str(limit), "tlc", "-workers", str(self.workers or workers), "-noGenerateSpecTE", "-metadir", meta, "-config", cfg] + self.args + [self.module + ".tla"],
            cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        other, n = [], 0
        tmp = self.path() + f".{os.getpid()}"
        with gzip.open(tmp, "wt", compresslevel=1) as out:
            for line in p.stdout:
                if line.startswith('"{') or line.startswith("{"):
                    out.write(line)
                    n += 1
                else:
                    other.append(line[:500])
        rc = p.wait()
        subprocess.run(["rm", "-rf", meta])
        text = "".join(other)
        done = "No error has been found" in text or ("-simulate" in self.args and rc == 0 and "Error" not in text)
        if rc != 0 or not done:
            os.remove(tmp)
            raise SpecError(f"TLC failed on {self.name} (exit {rc}):\n" + text[-4000:])
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
        d = re.search(r"depth of the complete state graph search is (\d+)", text)
        info = {
            "suite": self.name, "module": self.module, "what": self.what, "scenarios": n,
            "constants": self.consts, "invariants": self.invs,
            "states": int(m.group(2)) if m else None, "transitions": int(m.group(1)) if m else None, "depth": int(d.group(1)) if d else None,
            "seconds": round(time.time() - t0, 1),
        }
        open(self.info_path(), "w").write(repr(info))
        os.rename(tmp, self.path())
        return info


class SpecError(Exception):
    pass


# theorems over numbers of any size: name -> (module, [(initial predicate, invariant, steps)], what)
THEOREMS = {
    "clock": ("Arith", [("Init", "Inv", 0), ("Inv", "Inv", 1), ("Inv", "Safe", 0)],
              "for epochs of any length and any clock: a violation is reported at most once, a report stands two epochs and can be closed after three"),
    "blocks": ("Blocks", [("Init", "NoFalseConviction", 0)],
               "no two shreds of one block, of any number of FEC sets of any sizes, satisfy any of the rules"),
}


def prove(name, work):
    """Has Apalache prove a theorem; returns what it did."""
    module, steps, what = THEOREMS[name]
    t0, out = time.time(), []
    ps = []
    for i, (init, inv, n) in enumerate(steps):
        d = os.path.join(work, f"apalache-{name}-{i}")
        ps.append((init, inv, n, d, subprocess.Popen(
            ["timeout", "600", "apalache-mc", "check", f"--out-dir={d}", f"--run-dir={d}/run", f"--init={init}", f"--inv={inv}", f"--length={n}", module + ".tla"],
            cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for init, inv, n, d, p in ps:
        text = p.communicate()[0]
        if p.returncode != 0 or "The outcome is: NoError" not in text:
            raise SpecError(f"Apalache does not prove {module}: {init} => {inv} after {n} steps (exit {p.returncode}):\n" + text[-3000:])
        out.append(f"{init} => {inv} after {n} steps")
    return {"theorem": name, "module": module, "what": what, "proved": out, "tool": "Apalache", "seconds": round(time.time() - t0, 1)}


def fam(module, family, what, **extra):
    def mk(deep):
        c = {"Family": f'"{family}"', "Deep": "TRUE" if deep else "FALSE"}
        c.update(extra)
        name = family if module not in ("GenClose", "GenOnce") else module[3:].lower() + "-" + family
        return Suite(name + ("-deep" if deep else ""), module, c, ["Sane"] + (["Agree"] if module == "GenEvidence" else []) + ["Send"], what=what)
    return mk


def numbers(base, width):
    """Module Num against the integers, in a small base."""
    def mk(deep):
        b, w = (base[1], width[1]) if deep else (base[0], width[0])
        return Suite("numbers" + ("-deep" if deep else ""), "NumCheck", {"Base": b, "Width": w, "LimbBase": "<- Base"},
                     ["Order", "Sum", "Difference", "Saturating"], theory=True, what="the arithmetic of limbs against the integers")
    return mk


def honest(what, nxt, invs, theory):
    def mk(deep):
        c = {"MaxSets": 3 if deep and theory else 2, "MaxN": 2 if not deep or theory else 2, "Deep": "TRUE" if deep else "FALSE"}
        name = "honest-two" if theory else "honest"
        return Suite(name + ("-deep" if deep else ""), "Honest", c, invs, nxt=nxt, theory=theory, what=what)
    return mk


def seed(deep):
    return int(os.environ.get("VERIF_SEED") or 1) * 2 + (1 if deep else 0)


def attach(family, what, budget=(0, 0), count=(0, 0)):
    def mk(deep):
        c = {"Family": f'"{family}"', "Budget": budget[1 if deep else 0], "Deep": "TRUE" if deep else "FALSE",
             "Seed": seed(deep) if count[0] else 0, "Count": count[1 if deep else 0]}
        return Suite("attach-" + family + ("-deep" if deep else ""), "Attach", c,
                     ["NoStray", "Complete", "Once", "Clean", "OldStay", "Isolated", "Send"], what=what)
    return mk


def client(family, what, budget=(0, 0), count=(0, 0)):
    def mk(deep):
        c = {"Family": f'"{family}"', "Budget": budget[1 if deep else 0], "Deep": "TRUE" if deep else "FALSE",
             "Seed": seed(deep) if count[0] else 0, "Count": count[1 if deep else 0]}
        return Suite("cli-" + family + ("-deep" if deep else ""), "Client", c,
                     ["Exactly", "NotEarly", "OnlyReports", "Dry", "Send"], what=what)
    return mk


def rand(family, what, quick, deep):
    def mk(isdeep):
        c = {"Family": f'"{family}"', "Seed": seed(isdeep), "Count": deep if isdeep else quick}
        return Suite("rand-" + family + ("-deep" if isdeep else ""), "GenRandom", c, ["Sane", "Send"], what=what)
    return mk


LIFE_INV = ["Steps", "AtMostOnce", "Closable", "Reportable", "Conserved", "Edges"]


def life(name, what, mode, quick, deep, theory=False):
    def mk(isdeep):
        c = dict(Nodes='{"N1"}', Slots="{1}", Slot0=1, Epoch0=0, Money=21000000, L=2, Nominal="FALSE",
                 MaxSlot=4, MaxEpoch=4, Menu='"all"', Mode=f'"{mode}"', Depth=1)
        c.update(deep if isdeep else quick)
        return Suite(name + ("-deep" if isdeep else ""), "Lifecycle", c, LIFE_INV, theory=theory, what=what)
    return mk


def walk(name, what, quick, deep):
    def mk(isdeep):
        c = dict(Nodes='{"N1", "N2"}', Slots="{2, 5, 9, 14}", Slot0=2, Epoch0=0, Money=2000000000, L=3, Nominal="FALSE",
                 MaxSlot=0, MaxEpoch=0, Menu='"all"', Mode='"walk"', Depth=40)
        over = dict(deep if isdeep else quick)
        num, seed = over.pop("num"), over.pop("seed")
        c.update(over)
        return Suite(name + ("-deep" if isdeep else ""), "Lifecycle", c, ["AtMostOnce", "Closable", "Reportable", "Conserved", "Walks"],
                     nxt="Walk", args=["-simulate", f"num={num}", "-depth", str(c["Depth"] + 2), "-seed", str(seed + 1000 * int(os.environ.get("VERIF_SEED") or 1))], workers=1, what=what)
    return mk


SUITES = {
    "grid": fam("GenEvidence", "grid", "pairs of shreds with all fields near one FEC set"),
    "edge": fam("GenEvidence", "edge", "pairs of shreds with fields at the edges of their ranges"),
    "version": fam("GenEvidence", "version", "pairs of shreds with every relation of shred versions"),
    "slot": fam("GenEvidence", "slot", "shred slots and reported slot differing in every limb"),
    "variant": fam("GenEvidence", "variant", "pairs over all Merkle shred variants"),
    "content": fam("GenEvidence", "content", "a shred twice, changed in one respect: what is content and what is not"),
    "malformed": fam("GenEvidence", "malformed", "malformed, legacy, cut and misplaced shreds"),
    "layout": fam("GenEvidence", "layout", "all 256 variant bytes at the lengths that matter to each"),
    "bits": fam("GenEvidence", "bits", "every bit of every header field flipped"),
    "honest": honest("all pairs of shreds of every block an honest leader can produce, within bounds", "NextSame", ["NoFalseConviction", "Refused", "SendSame"], False),
    "honest-two": honest("theorem: two different blocks of one slot always contain a conflicting pair", "NextTwo", ["AlwaysConvictable"], True),
    "arrange": fam("GenSubmit", "arrange", "arrangements of the Ed25519 instruction: counts, offsets, indices, entries, placement"),
    "claims": fam("GenSubmit", "claims", "whose signatures over which roots against which accused"),
    "over": fam("GenSubmit", "over", "signatures, keys and messages read elsewhere than in the submission, at the submission's offsets"),
    "proxy": fam("GenSubmit", "proxy", "submissions through another program"),
    "window": fam("GenSubmit", "window", "clock, slot and slots-per-epoch over the u64 range"),
    "buffer": fam("GenSubmit", "buffer", "offsets, prefixes, lengths and cuts of the proof buffer"),
    "ix": fam("GenSubmit", "ix", "instruction data and account lists, each bent in every place"),
    "fund": fam("GenSubmit", "fund", "funding around the rent-exempt minimum, report addresses"),
    "combo": fam("GenSubmit", "combo", "combinations of two and three faults"),
    "rand-pairs": rand("pairs", "random pairs: full-range fields, the second shred made from the first", 12000, 95000),
    "rand-submits": rand("submits", "random submissions: random conflicting pairs, up to eight parts drawn at random", 12000, 95000),
    "helper": fam("GenHelper", "helper", "the published instruction helpers: report with prefunding, submit alone, close"),
    "codec": fam("GenHelper", "codec", "packing and unpacking of proofs over length pairs, cuts and stated lengths"),
    "facts": fam("GenHelper", "facts", "published addresses, sizes and report accessors"),
    "close-epochs": fam("GenClose", "epochs", "closes around every distance of epochs over the u64 range"),
    "close-dests": fam("GenClose", "dests", "recorded and offered destinations, balances"),
    "close-junk": fam("GenClose", "junk", "closes of accounts that are no reports"),
    "close-forms": fam("GenClose", "forms", "account lists, flags, data and calling context of a close"),
    "once-short": fam("GenOnce", "short", "report, close, report again: every schedule over short epochs", L=1, Nominal="TRUE"),
    "once-long": fam("GenOnce", "long", "report, close, report again: boundary schedules over real epochs", L=1, Nominal="TRUE"),
    "attach-pairs": attach("pairs", "the attach command on every pair of neighbouring slots: kinds of proof, chain states, leaders"),
    "attach-states": attach("states", "the attach command on every combination of chain states of three slots"),
    "attach-ranges": attach("ranges", "the attach command on slot ranges and whole ledgers"),
    "attach-window": attach("window", "the attach command around the reporting window"),
    "attach-options": attach("options", "the attach command with every combination of options"),
    "attach-continuous": attach("continuous", "the attach command in continuous mode, the ledger growing between scans"),
    "attach-random": attach("random", "the attach command on random ranges, chain states, leaders, clocks and options, two things failing", (2, 2), (400, 4000)),
    "attach-faults": attach("faults", "the attach command with one request or transaction failing, anywhere", (1, 2)),
    "cli-show-filters": client("show-filters", "the display command with every combination of filters"),
    "cli-show-worlds": client("show-worlds", "the display command on every subset of reports and junk, both ways round, all formats"),
    "cli-show-order": client("show-order", "the display command on reports in every order"),
    "cli-show-proofs": client("show-proofs", "the display command on all kinds of recorded proofs, all formats"),
    "cli-close-filters": client("close-filters", "the close command with every combination of filters"),
    "cli-close-worlds": client("close-worlds", "the close command on every subset of reports and junk, both ways round, all formats"),
    "cli-close-ages": client("close-ages", "the close command around every report's third epoch"),
    "cli-close-faults": client("close-faults", "the close command with one transaction failing, anywhere", (1, 3)),
    "cli-close-dests": client("close-dests", "the close command with destinations that cannot be paid, and odd balances"),
    "cli-close-options": client("close-options", "the close and display commands with every combination of options"),
    "cli-show-random": client("show-random", "the display command on random reports and junk with random filters", count=(3000, 20000)),
    "cli-close-random": client("close-random", "the close command on random reports and junk with random filters", count=(3000, 12000)),
    "cli-close-upset": client("close-upset", "the close command on random reports and junk, one transaction failing, anywhere", (1, 2), count=(300, 800)),
    "life-one": life("life-one", "every transition of the state machine, one violation, all operations", "edges", {},
                     dict(MaxEpoch=5, Money=26000000)),
    "life-two": life("life-two", "every transition, two violations of one node", "edges",
                     dict(Slots="{1, 2}", Slot0=2, Money=44000000, MaxEpoch=3, Menu='"time"'),
                     dict(Slots="{1, 2}", Slot0=2, Money=44000000, MaxEpoch=5, MaxSlot=5, Menu='"time"')),
    "life-nodes": life("life-nodes", "every transition, one slot, two nodes", "edges",
                       dict(Nodes='{"N1", "N2"}', Money=44000000, MaxEpoch=3, MaxSlot=3, Menu='"time"'),
                       dict(Nodes='{"N1", "N2"}', Money=44000000, MaxEpoch=5, MaxSlot=4, Menu='"time"')),
    "numbers": numbers((3, 4), (4, 4)),
    "life-nominal": life("life-nominal", "the state machine on nominal epochs: a violation is reported at most once", "check",
                         dict(Slots="{1, 2}", Money=100000000, Nominal="TRUE", MaxSlot=12, Menu='"time"'),
                         dict(Slots="{1, 2, 3}", L=3, Money=150000000, Nominal="TRUE", MaxSlot=18, Menu='"time"'), theory=True),
    "life-check": life("life-check", "the state machine with all operations, deeper, without emission", "check",
                       dict(MaxEpoch=4, Money=26000000), dict(MaxEpoch=7, Money=40000000), theory=True),
    "walk-free": walk("walk-free", "random histories of 40 transactions, clock and epoch advancing freely", dict(num=60, seed=11), dict(num=400, seed=12, Depth=60)),
    "walk-nominal": walk("walk-nominal", "random histories of 40 transactions on nominal epochs", dict(num=40, seed=21, Nominal="TRUE", L=4), dict(num=300, seed=22, Nominal="TRUE", L=4, Depth=60)),
}


def suite(name, deep=False):
    return SUITES[name](deep)


def prepare(names, deep=False, par=4):
    """Generates several suites at once; returns {name: info}."""
    from concurrent.futures import ThreadPoolExecutor
    ss = [suite(n, deep) for n in names]
    with ThreadPoolExecutor(par) as ex:
        infos = list(ex.map(lambda s: s.ensure(workers=max(2, 8 // par)), ss))
    return dict(zip(names, infos))


if __name__ == "__main__":
    t0 = time.time()
    deep = "--deep" in sys.argv
    names = [a for a in sys.argv[1:] if not a.startswith("--")] or list(SUITES)
    for n, i in prepare(names, deep, par=int(os.environ.get("PAR", "4"))).items():
        print(f"{n}: {i['scenarios']} scenarios, {i['states']} states, {i['seconds']} s")
    print(f"total {time.time() - t0:.0f} s")
