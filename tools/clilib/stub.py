"""A stand-in for a node's JSON-RPC interface, and how to run the client on it."""
import base64, hashlib, http.server, json, os, struct, subprocess, threading

ABC = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
SYSTEM = bytes(32)


def b58(b):
    n, s = int.from_bytes(b, "big"), ""
    while n:
        n, r = divmod(n, 58)
        s = ABC[r] + s
    return "1" * (len(b) - len(b.lstrip(b"\0"))) + s


def unb58(s):
    n = 0
    for c in s:
        n = n * 58 + ABC.index(c)
    b = n.to_bytes((n.bit_length() + 7) // 8, "big")
    return bytes(len(s) - len(s.lstrip("1"))) + b


SLASHING = unb58("S1ashing11111111111111111111111111111111111")
RECORD = unb58("recr1L3PCGKLbckBqMNcJhuuyU1zgo8nBhfLVsJNwr5")
RENT = unb58("SysvarRent111111111111111111111111111111111")


def key(name):
    """A public key nobody signs with."""
    return hashlib.sha256(name.encode()).digest()


def u64(n):
    return struct.pack("<Q", n)


# ------------------------------------------------------- keys and addresses
P = 2**255 - 19
D = -121665 * pow(121666, P - 2, P) % P
I = pow(2, (P - 1) // 4, P)


def on_curve(b):
    y = int.from_bytes(b, "little") & ((1 << 255) - 1)
    if y >= P:
        y %= P
    u, v = (y * y - 1) % P, (D * y * y + 1) % P
    x = u * pow(v, P - 2, P) % P
    return x == 0 or pow(x, (P - 1) // 2, P) == 1


def pda(node, slot):
    for bump in range(255, -1, -1):
        h = hashlib.sha256(node + u64(slot) + b"\1" + bytes([bump]) + SLASHING + b"ProgramDerivedAddress").digest()
        if not on_curve(h):
            return h


def _add(p, q):
    (x1, y1, z1, t1), (x2, y2, z2, t2) = p, q
    a, b = (y1 - x1) * (y2 - x2) % P, (y1 + x1) * (y2 + x2) % P
    c, d = 2 * t1 * t2 * D % P, 2 * z1 * z2 % P
    e, f, g, h = b - a, d - c, d + c, b + a
    return e * f % P, g * h % P, f * g % P, e * h % P


def public(seed):
    h = hashlib.sha512(seed).digest()
    s = (int.from_bytes(h[:32], "little") & ((1 << 254) - 8)) | (1 << 254)
    gy = 4 * pow(5, P - 2, P) % P
    xx = (gy * gy - 1) * pow(D * gy * gy + 1, P - 2, P) % P
    gx = pow(xx, (P + 3) // 8, P)
    if (gx * gx - xx) % P:
        gx = gx * I % P
    if gx % 2:
        gx = P - gx
    q, r = (0, 1, 1, 0), (gx, gy, 1, gx * gy % P)
    while s:
        if s & 1:
            q = _add(q, r)
        r, s = _add(r, r), s >> 1
    z = pow(q[2], P - 2, P)
    x, y = q[0] * z % P, q[1] * z % P
    return (y | ((x & 1) << 255)).to_bytes(32, "little")


class Signer:
    def __init__(self, name, folder):
        seed = hashlib.sha256(b"signer" + name.encode()).digest()
        self.key = public(seed)
        self.path = os.path.join(folder, name + ".json")
        json.dump(list(seed + self.key), open(self.path, "w"))


# --------------------------------------------------------------- the cluster
def report(node, slot, reporter, destination, epoch, proof=b""):
    return b"\1" + reporter + destination + u64(epoch) + node + u64(slot) + b"\1" + (proof or struct.pack("<I", 3) + b"abc" + struct.pack("<I", 2) + b"de")


class Ix:
    def __init__(self, program, keys, data):
        self.program, self.keys, self.data = program, keys, data


def short(b, i):
    n = s = 0
    while True:
        n |= (b[i] & 127) << s
        s += 7
        i += 1
        if b[i - 1] < 128:
            return n, i


def parse(b):
    n, i = short(b, 0)
    sigs = [b[i + 64 * k:i + 64 * k + 64] for k in range(n)]
    i += 64 * n + 3
    n, i = short(b, i)
    keys = [b[i + 32 * k:i + 32 * k + 32] for k in range(n)]
    i += 32 * n + 32
    m, i = short(b, i)
    out = []
    for _ in range(m):
        p = b[i]
        n, i = short(b, i + 1)
        acc = list(b[i:i + n])
        n, i = short(b, i + n)
        out.append(Ix(keys[p], [keys[a] for a in acc], b[i:i + n]))
        i += n
    return sigs, out


class Cluster:
    """accounts: key -> (lamports, owner, data).  `on_send(instructions)` says
    what becomes of a transaction: "ok", "failed" (it lands and fails) or
    "refused" (the node does not take it)."""

    def __init__(self, epoch=10, slot=5000, leader=None):
        self.accounts, self.epoch, self.slot, self.leader = {}, epoch, slot, leader
        self.accounts[RENT] = (1009200, unb58("Sysvar1111111111111111111111111111111111111"), u64(3480) + struct.pack("<d", 2.0) + b"\x32")
        self.sent, self.landed, self.n = [], {}, 0
        self.on_send = lambda ixs: "ok"
        self.lock = threading.Lock()

    def add(self, k, data, lamports=20000000, owner=SLASHING):
        self.accounts[k] = (lamports, owner, data)
        return k

    def ui(self, k):
        if k not in self.accounts:
            return None
        l, o, d = self.accounts[k]
        return {"lamports": l, "owner": b58(o), "data": [base64.b64encode(d).decode(), "base64"], "executable": False, "rentEpoch": 2**64 - 1, "space": len(d)}

    def call(self, m, p):
        ctx = lambda v: {"context": {"slot": self.slot, "apiVersion": "2.3.0"}, "value": v}
        if m == "getAccountInfo":
            return ctx(self.ui(unb58(p[0])))
        if m == "getProgramAccounts":
            r = [{"pubkey": b58(k), "account": self.ui(k)} for k, a in self.accounts.items() if b58(a[1]) == p[0]]
            return ctx(r) if p[1].get("withContext") else r
        if m == "getEpochInfo":
            return {"epoch": self.epoch, "slotIndex": 1, "slotsInEpoch": 432000, "absoluteSlot": self.slot, "blockHeight": self.slot, "transactionCount": 1}
        if m == "getSlotLeaders":
            return [b58(self.leader(p[0] + k)) for k in range(p[1])]
        if m == "getLatestBlockhash":
            self.n += 1
            return ctx({"blockhash": b58(hashlib.sha256(b"%d" % self.n).digest()), "lastValidBlockHeight": 10**6})
        if m == "isBlockhashValid":
            return ctx(True)
        if m in ("getSlot", "getBlockHeight"):
            return self.slot
        if m == "getVersion":
            return {"solana-core": "2.3.0", "feature-set": 1}
        if m == "getMinimumBalanceForRentExemption":
            return (128 + p[0]) * 6960
        if m == "getSignatureStatuses":
            return ctx([None if s not in self.landed else {"slot": self.slot, "confirmations": None, "err": self.landed[s], "confirmationStatus": "finalized",
                        "status": {"Ok": None} if self.landed[s] is None else {"Err": self.landed[s]}} for s in p[0]])
        if m == "simulateTransaction":
            return ctx({"err": None, "logs": [], "accounts": None, "unitsConsumed": 1000, "returnData": None, "innerInstructions": None, "replacementBlockhash": None})
        if m == "sendTransaction":
            b = base64.b64decode(p[0]) if len(p) > 1 and p[1].get("encoding") == "base64" else unb58(p[0])
            sigs, ixs = parse(b)
            how = self.on_send(ixs)
            self.sent.append((ixs, how))
            if how == "refused":
                raise ValueError("Node is unhealthy")
            self.landed[b58(sigs[0])] = None if how == "ok" else {"InstructionError": [0, {"Custom": 77}]}
            return b58(sigs[0])
        raise KeyError(m)

    def serve(self):
        c = self

        class H(http.server.BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"

            def do_POST(self):
                q = json.loads(self.rfile.read(int(self.headers["Content-Length"])))
                with c.lock:
                    try:
                        r = {"jsonrpc": "2.0", "id": q["id"], "result": c.call(q["method"], q.get("params") or [])}
                    except Exception as e:
                        r = {"jsonrpc": "2.0", "id": q["id"], "error": {"code": -32005, "message": repr(e)}}
                out = json.dumps(r).encode()
                self.send_response(200)
                self.send_header("Content-Type", "application/json")
                self.send_header("Content-Length", str(len(out)))
                self.end_headers()
                self.wfile.write(out)

            def log_message(self, *a):
                pass

        s = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
        s.daemon_threads = True
        threading.Thread(target=s.serve_forever, daemon=True).start()
        return s.server_address[1]

    def instructions(self, program, tag, how=("ok", "failed", "refused")):
        return [i for ixs, h in self.sent for i in ixs if i.program == program and i.data[:1] == bytes([tag]) and h in how]


NOFILE = """
#include <sys/resource.h>
int getrlimit(__rlimit_resource_t r, struct rlimit *l) { l->rlim_cur = l->rlim_max = r == RLIMIT_NOFILE ? 1000000 : RLIM_INFINITY; return 0; }
int setrlimit(__rlimit_resource_t r, const struct rlimit *l) { return 0; }
int getrlimit64(__rlimit_resource_t r, struct rlimit64 *l) { l->rlim_cur = l->rlim_max = r == RLIMIT_NOFILE ? 1000000 : RLIM64_INFINITY; return 0; }
int setrlimit64(__rlimit_resource_t r, const struct rlimit64 *l) { return 0; }
"""


def run(exe, folder, cluster, *args):
    """Runs the client; returns (exit code, stdout, stderr)."""
    me = Signer("me", folder)
    cluster.accounts.setdefault(me.key, (10**10, SYSTEM, b""))
    cfg = os.path.join(folder, "config.yml")
    open(cfg, "w").write(f'json_rpc_url: "http://127.0.0.1:{cluster.serve()}"\nwebsocket_url: ""\nkeypair_path: {me.path}\naddress_labels: {{}}\ncommitment: confirmed\n')
    env = {"HOME": folder, "PATH": "/usr/bin:/bin", "RUST_LOG": "off"}
    if "attach" in args:
        # the ledger library insists on a high limit of open files
        so = os.path.join(folder, "nofile.so")
        open(so + ".c", "w").write(NOFILE)
        subprocess.run(["gcc", "-D_GNU_SOURCE", "-shared", "-fPIC", "-o", so, so + ".c"], check=True)
        env["LD_PRELOAD"] = so
    p = subprocess.run([exe, "--config", cfg, *args], cwd=folder, env=env, stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=80)
    print("$", *args, "\n", p.stdout[-3000:], p.stderr[-3000:], "exit", p.returncode)
    return p.returncode, p.stdout, p.stderr


def ledger(folder):
    """Unpacks the ledger beside this file."""
    import tarfile
    here = os.path.dirname(os.path.abspath(__file__))
    name = [f for f in os.listdir(here) if f.endswith(".tar.xz")][0]
    tarfile.open(os.path.join(here, name)).extractall(folder)
    return os.path.join(folder, name[:-7])
