import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
TECH = "TLA+ specification checked with TLC; TLC-generated behaviours replayed on the real program"
NOTE = ("Exhaustive within the bounds of the suites named in the evidence: TLC enumerates the specification's domain, checks its "
        "invariants, and every case is executed on the real program code in a stand-in runtime with outcome, error code and all "
        "accounts compared. Trusted: the stand-in runtime (system program, account rules), free terms for hashes and signatures, "
        "native execution instead of SBF.")
sys.path.insert(0, V + "/tools")
from check import PROGRAM, CLIENT
CNOTE = ("Exhaustive within the bounds of the suites named in the evidence: TLC explores the specification of the command as a state "
         "machine against a chain and a ledger, with failing requests and transactions, checks its invariants, and every behaviour "
         "is a world the real command is run on, against a stand-in cluster that executes its transactions with the real program; "
         "transactions, output and the resulting chain are compared. Trusted: the stand-in cluster, the ledger fixtures.")
special = {i: (TECH.replace("real program", "real command-line client"), CNOTE) for i in CLIENT}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROGRAM or i in special:
        checks.append({"property": i, "quick_cmd": f"./check {i} --tier quick", "thorough_cmd": f"./check {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": special.get(i, (TECH,))[0], "level": "model_checking",
                       "level_note": special.get(i, (None, NOTE))[1]})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks use the crates' public interface."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
