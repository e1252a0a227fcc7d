#!/usr/bin/env python3
"""A sweep of small mechanical changes of the code under test, to find what the
suites do not notice.

  mutate.py list program|cli              what would be tried
  mutate.py run program|cli OUT [N/M]     try them (every Mth from the Nth)

Works on copies under /tmp/mut; writes one line of JSON per mutant to OUT:
caught (by which suite), nobuild, or alive."""
import glob, gzip, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
import build, suites, check

FILES = {
    "program": ["duplicate_block_proof.rs", "shred.rs", "sigverify.rs", "state.rs", "processor.rs", "instruction.rs", "address.rs", "error.rs", "lib.rs"],
    "cli": ["main.rs", "output.rs", "cli.rs", "config.rs"],
}
ROOT = {"program": "program/src", "cli": "clients/cli/src"}


def code_lines(path):
    """(number, line) of the code proper: no tests, comments, messages, attributes."""
    out, msg = [], 0
    for n, l in enumerate(open(path).read().split("\n")):
        if re.match(r"\s*#\[cfg\(test\)\]", l):
            break
        s = l.strip()
        if msg:
            if s.startswith(");") or s == ")," or s == ")":
                msg = 0
            continue
        if re.match(r"(msg|println|eprintln|info|error|warn|log::\w+)!\($", s):
            msg = 1
            continue
        if not s or s.startswith(("//", "#[", "use ", "pub use", "msg!", "println!", "eprintln!", "#![")):
            continue
        out.append((n, l))
    return out


SWAPS = [
    (r" == ", [" != "]), (r" != ", [" == "]), (r" < ", [" <= ", " > "]), (r" > ", [" >= ", " < "]), (r" <= ", [" < "]), (r" >= ", [" > "]),
    (r" && ", [" || "]), (r" \|\| ", [" && "]), (r"\bif !", ["if "]), (r"\bif (?=[a-z])(?!let)", ["if !"]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"shred1", ["shred2"]), (r"shred2", ["shred1"]),
    (r"reporter\b", ["destination"]), (r"destination\b", ["reporter"]),
    (r"report_account", ["destination_account"]), (r"destination_account", ["report_account"]),
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]),
    (r"saturating_add", ["saturating_sub"]), (r"saturating_sub", ["saturating_add"]), (r"saturating_mul", ["saturating_add"]),
    (r"checked_add", ["checked_sub", "wrapping_add"]), (r"checked_sub", ["wrapping_sub"]), (r"checked_mul", ["checked_add"]),
    (r"\bu64\b", ["u32"]), (r"\bu32\b", ["u16"]), (r"\bu16\b", ["u8"]), (r"\busize\b(?=\))", ["u16"]),
    (r"\.continue\b", []), (r"\bcontinue;", ["break;"]), (r"\bbreak;", ["continue;"]),
    (r"Ok\(\(\)\)", []), (r"next_fec_set_index", ["fec_set_index"]), (r"\.is_empty\(\)", [".is_empty() == false"]),
    (r"\.min\(", [".max("]), (r"\.max\(", [".min("]),
    (r"\.is_some\(\)", [".is_none()"]), (r"\.is_none\(\)", [".is_some()"]), (r"is_some_and", ["is_none_or"]), (r"is_none_or", ["is_some_and"]),
    (r"is_ok\(\)", ["is_err()"]), (r"is_err\(\)", ["is_ok()"]),
    (r"\.any\(", [".all("]), (r"\.all\(", [".any("]), (r"\.filter\(\|", [".skip_while(|"]), (r"\.take\(", [".skip("]),
    (r"LengthOf|packed_len\(\)", ["packed_len().saturating_add(1)"]),
]
SUITES = os.environ.get("SUITES", "/tmp/mut/suites")
ERRS = re.findall(r"^    (\w+),$", open("/repo/program/src/error.rs").read(), re.M)


def mutants(kind):
    out, seen = [], set()

    def add(f, n, new, how):
        k = (f, n, new)
        if k not in seen:
            seen.add(k)
            out.append(dict(id=len(out), file=f, line=n + 1, how=how, new=new))

    for f in FILES[kind]:
        rel = ROOT[kind] + "/" + f
        path = "/repo/" + rel
        if not os.path.exists(path):
            continue
        text = open(path).read().split("\n")
        for n, l in code_lines(path):
            for pat, news in SWAPS:
                for m in re.finditer(pat, l):
                    for w in news:
                        add(rel, n, l[:m.start()] + w + l[m.end():], f"{m.group().strip()} -> {w.strip()}")
            for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", l):
                v = int(m.group(1))
                for w in {v + 1, v - 1} if v > 0 else {1}:
                    add(rel, n, l[:m.start()] + str(w) + l[m.end():], f"{v} -> {w}")
            for m in re.finditer(r"\b0x([0-9a-fA-F_]+)\b", l):
                add(rel, n, l[:m.start()] + hex(int(m.group(1).replace("_", ""), 16) ^ 1) + l[m.end():], "hex")
            s = l.strip()
            if re.match(r"return Err\(.*\);$", s) or s == "continue;" or s == "break;":
                add(rel, n, "", "dropped " + s)
            if re.match(r"[\w:.]+\(.*\)\??;$", s) or re.match(r"\w+(\.\w+)* [+*-]?= .*;$", s):
                add(rel, n, "", "dropped " + s)
            if kind == "program":
                for m in re.finditer(r"SlashingError::(\w+)", l):
                    if m.group(1) in ERRS:
                        w = ERRS[(ERRS.index(m.group(1)) + 1) % len(ERRS)]
                        add(rel, n, l[:m.start(1)] + w + l[m.end(1):], f"{m.group(1)} -> {w}")
        # multi-line: a guard that returns an error is dropped
        for n, l in code_lines(path):
            if re.match(r"\s*return Err\($", l) or re.match(r"\s*return Err\(\w.*[^;]$", l):
                d = n
                while d < len(text) and not text[d].strip().endswith(";"):
                    d += 1
                k = dict(id=len(out), file=rel, line=n + 1, upto=d + 1, how="dropped return Err", new="")
                out.append(k)
    return out


def sh(c, cwd, env=None, t=1200):
    return subprocess.run(c, shell=True, cwd=cwd, env=env, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)


def apply(repo, m):
    p = f"{repo}/{m['file']}"
    ls = open(p).read().split("\n")
    m["old"] = ls[m["line"] - 1].strip()
    ls[m["line"] - 1] = m["new"]
    for k in range(m["line"], m.get("upto", 0)):
        ls[k] = ""
    open(p, "w").write("\n".join(ls))


def program_worker(w, ms, out):
    base = f"/tmp/mut/{os.environ.get('TAG', '')}{w}"
    if not os.path.isdir(base):
        os.makedirs(base + "/verif")
        subprocess.run(["cp", "-a", V + "/harness", base + "/verif/harness"], check=True)
        subprocess.run(["cp", "-a", V + "/target", base + "/verif/target"], check=True)
        subprocess.run(["rsync", "-a", "--exclude", "target", "/repo", base] if shutil.which("rsync") else
                       ["bash", "-c", f"mkdir {base}/repo && cd /repo && git archive HEAD | tar -x -C {base}/repo"], check=True)
    repo = base + "/repo"
    e = build.env()
    e["CARGO_TARGET_DIR"] = base + "/verif/target"
    e["RAYON_NUM_THREADS"] = os.environ.get("THREADS", "3")
    exe = base + "/verif/target/release/slashing-conformance"
    names = sorted({n for n in check.ALL}, key=lambda n: os.path.getsize(suites.suite(n).path()))
    os.makedirs(SUITES, exist_ok=True)
    for n in names:
        f = SUITES + "/" + n
        if not os.path.exists(f):
            with open(f + ".tmp%d" % os.getpid(), "wb") as o:
                subprocess.run(["gzip", "-dc", suites.suite(n).path()], stdout=o, check=True)
            os.rename(f + ".tmp%d" % os.getpid(), f)
    for m in ms:
        sh("rm -rf %s/program && mkdir %s/program && cd /repo && git archive HEAD program | tar -x -C %s" % (repo, repo, repo), "/tmp")
        apply(repo, m)
        sh(f"touch {repo}/program/src/*.rs", "/tmp")
        t0 = time.time()
        p = sh("timeout 600 cargo build --release --offline", base + "/verif/harness", e)
        if p.returncode != 0:
            m["res"] = "nobuild"
        else:
            m["res"] = "alive"
            for n in names:
                try:
                    p = sh(f"{exe} run {SUITES}/{n} --out {base}/out.json", base, e, 300)
                    bad = p.returncode != 0 or json.load(open(base + "/out.json"))["violations"]
                except subprocess.TimeoutExpired:
                    bad = True
                if bad:
                    m["res"] = "caught:" + n
                    break
        m["s"] = round(time.time() - t0)
        with open(out, "a") as fh:
            fh.write(json.dumps(m) + "\n")


def cli_worker(w, ms, out):
    base = f"/tmp/mut/cli{w}"
    repo = base + "/repo"
    if not os.path.isdir(base):
        os.makedirs(base)
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
    fx, so = base + "/fx/fixtures", base + "/fx/nofile.so"
    if not os.path.exists(so):
        build.stage(base + "/fx")
    e = build.env()
    e.update(CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TARGET_DIR=repo + "/target")
    exe = V + "/target/release/slashing-conformance"
    cli = repo + "/target/debug/spl-slashing"
    todo = [(c, n) for c, names, _ in check.CLIENT.values() for n in names]
    todo.sort(key=lambda x: os.path.getsize(suites.suite(x[1]).path()))
    os.makedirs(SUITES, exist_ok=True)
    for _, n in todo:
        with open(SUITES + "/" + n, "wb") as o:
            subprocess.run(["gzip", "-dc", suites.suite(n).path()], stdout=o, check=True)
    for m in ms:
        sh("git checkout -q -- .", repo)
        apply(repo, m)
        t0 = time.time()
        p = sh("timeout 600 cargo build --workspace --features solana-slashing-program/test-sbf --offline --bins --examples", repo, e)
        if p.returncode != 0:
            m["res"] = "nobuild"
        else:
            m["res"] = "alive"
            for c, n in todo:
                try:
                    p = sh(f"{exe} cli {SUITES}/{n} --exe {cli} --fixtures {fx} --work {base}/c --preload {so} --only {c} --out {base}/out.json", base, e, 300)
                    bad = p.returncode != 0 or json.load(open(base + "/out.json"))["violations"]
                except subprocess.TimeoutExpired:
                    bad = True
                if bad:
                    m["res"] = "caught:" + n
                    break
        m["s"] = round(time.time() - t0)
        with open(out, "a") as fh:
            fh.write(json.dumps(m) + "\n")


if __name__ == "__main__":
    ms = mutants(sys.argv[2])
    if sys.argv[1] == "list":
        for m in ms:
            print(m["id"], m["file"].split("/")[-1], m["line"], m["how"])
    else:
        n, k = map(int, sys.argv[4].split("/")) if len(sys.argv) > 4 else (0, 1)
        # ONLY: a file of results; what stayed alive there is run again
        ids = None
        if os.environ.get("ONLY"):
            ids = {r["id"] for r in map(json.loads, open(os.environ["ONLY"])) if r["res"] == "alive"}
        mine = [m for i, m in enumerate(x for x in ms if ids is None or x["id"] in ids) if i % k == n]
        (program_worker if sys.argv[2] == "program" else cli_worker)(n, mine, sys.argv[3])
