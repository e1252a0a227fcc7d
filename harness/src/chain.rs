//! A cluster of one: a JSON-RPC node on the stand-in runtime, for the
//! command-line client. Requests and transactions can be made to fail as the
//! specification asks.
use {
    crate::{
        conc::{key, num, sha, Terms},
        rt::{exec, ids, Acct, Env, Fail, Ix, World},
        scen,
    },
    ed25519_dalek::{PublicKey, Signature, Verifier},
    serde_json::{json, Value},
    solana_program::{instruction::AccountMeta, pubkey::Pubkey},
    std::{
        collections::{HashMap, HashSet},
        io::{BufRead, BufReader, Read, Write},
        net::{TcpListener, TcpStream},
        str::FromStr,
        sync::{Arc, Mutex, RwLock},
        time::Instant,
    },
};

// ------------------------------------------------------------------ encodings
const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub fn b64(d: &[u8]) -> String {
    let mut s = String::with_capacity(d.len() / 3 * 4 + 4);
    for c in d.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            s.push(if i <= c.len() { B64[(n >> (18 - 6 * i)) as usize & 63] as char } else { '=' });
        }
    }
    s
}
pub fn unb64(s: &str) -> Option<Vec<u8>> {
    let (mut o, mut acc, mut n) = (vec![], 0u32, 0);
    for b in s.bytes().filter(|b| *b != b'=') {
        acc = acc << 6 | B64.iter().position(|x| *x == b)? as u32;
        n += 6;
        if n >= 8 {
            n -= 8;
            o.push((acc >> n) as u8);
        }
    }
    Some(o)
}
const B58: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
pub fn b58(d: &[u8]) -> String {
    let mut digits: Vec<u8> = vec![];
    for b in d {
        let mut c = *b as u32;
        for x in digits.iter_mut() {
            c += (*x as u32) << 8;
            *x = (c % 58) as u8;
            c /= 58;
        }
        while c > 0 {
            digits.push((c % 58) as u8);
            c /= 58;
        }
    }
    let zeros = d.iter().take_while(|b| **b == 0).count();
    "1".repeat(zeros) + &digits.iter().rev().map(|x| B58[*x as usize] as char).collect::<String>()
}
pub fn unb58(s: &str) -> Option<Vec<u8>> {
    let mut bytes: Vec<u8> = vec![];
    for ch in s.bytes() {
        let mut c = B58.iter().position(|x| *x == ch)? as u32;
        for x in bytes.iter_mut() {
            c += *x as u32 * 58;
            *x = c as u8;
            c >>= 8;
        }
        while c > 0 {
            bytes.push(c as u8);
            c >>= 8;
        }
    }
    bytes.extend(s.bytes().take_while(|b| *b == b'1').map(|_| 0));
    bytes.reverse();
    Some(bytes)
}

// --------------------------------------------------------------- transactions
pub struct Tx {
    pub sigs: Vec<[u8; 64]>,
    pub keys: Vec<Pubkey>,
    pub blockhash: [u8; 32],
    pub ixs: Vec<Ix>,
    message: Vec<u8>,
    signers: usize,
}
struct Cur<'a>(&'a [u8], usize);
impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        let r = self.0.get(self.1..self.1.checked_add(n)?)?;
        self.1 += n;
        Some(r)
    }
    fn u8(&mut self) -> Option<u8> {
        Some(self.take(1)?[0])
    }
    fn len(&mut self) -> Option<usize> {
        let mut v = 0usize;
        for i in 0..3 {
            let b = self.u8()? as usize;
            v |= (b & 0x7f) << (7 * i);
            if b & 0x80 == 0 {
                return Some(v);
            }
        }
        None
    }
}
pub fn parse_tx(d: &[u8]) -> Option<Tx> {
    let mut c = Cur(d, 0);
    let n = c.len()?;
    let mut sigs = vec![];
    for _ in 0..n {
        sigs.push(c.take(64)?.try_into().unwrap());
    }
    let message = d[c.1..].to_vec();
    let v0 = *message.first()? & 0x80 != 0;
    if v0 && c.u8()? != 0x80 {
        return None;
    }
    let (s, ros, rou) = (c.u8()? as usize, c.u8()? as usize, c.u8()? as usize);
    let k = c.len()?;
    let mut keys = vec![];
    for _ in 0..k {
        keys.push(Pubkey::try_from(c.take(32)?).ok()?);
    }
    let blockhash = c.take(32)?.try_into().unwrap();
    let m = c.len()?;
    let mut ixs = vec![];
    for _ in 0..m {
        let p = c.u8()? as usize;
        let na = c.len()?;
        let idx = c.take(na)?.to_vec();
        let nd = c.len()?;
        let data = c.take(nd)?.to_vec();
        let mut accounts = vec![];
        for i in idx {
            let i = i as usize;
            accounts.push(AccountMeta {
                pubkey: *keys.get(i)?,
                is_signer: i < s,
                is_writable: if i < s { i + ros < s } else { i + rou < k },
            });
        }
        ixs.push(Ix { program: *keys.get(p)?, accounts, data, inner: vec![] });
    }
    if v0 && c.len()? != 0 {
        return None; // no lookup tables here
    }
    if c.1 != d.len() || sigs.len() != s || s == 0 || s > k {
        return None;
    }
    Some(Tx { sigs, keys, blockhash, ixs, message, signers: s })
}
impl Tx {
    pub fn verified(&self) -> bool {
        (0..self.signers).all(|i| {
            PublicKey::from_bytes(self.keys[i].as_ref())
                .and_then(|k| k.verify(&self.message, &Signature::from(self.sigs[i])))
                .is_ok()
        })
    }
}

// ---------------------------------------------------------------------- chain
pub struct Fault {
    pub at: String,
    pub slot: u64,
    pub how: String,
    pub j: u64,
    pub key: Option<Pubkey>,
    pub put: Vec<(Pubkey, Acct)>,
    pub used: bool,
}
/// A transaction handed to the cluster.
#[derive(Clone, Debug)]
pub enum Sent {
    Create(Pubkey),
    Write(Pubkey),
    Submit { slot: u64, node: Pubkey },
    CloseProof(Pubkey),
    CloseReport(Pubkey),
    Other(String),
}
pub struct Chain {
    pub env: Env,
    pub world: World,
    pub leaders: HashMap<u64, Pubkey>,
    pub order: Vec<Pubkey>,
    pub reverse: bool,
    pub faults: Vec<Fault>,
    pub sent: Vec<(Sent, bool)>,
    pub problems: Vec<String>,
    pub last: Instant,
    pub requests: usize,
    /// the slot the client is busy with, as far as its requests tell
    slot: u64,
    accounts_of: HashMap<Pubkey, u64>,
    written: HashMap<Pubkey, HashSet<u64>>,
    hashes: HashSet<[u8; 32]>,
    nonce: u64,
    landed: HashMap<[u8; 64], Value>,
}

fn answer(v: Value) -> Result<Value, Value> {
    Ok(json!({"context": {"slot": 5000, "apiVersion": "2.3.0"}, "value": v}))
}
fn rpc_err(code: i64, text: &str) -> Value {
    json!({"code": code, "message": text})
}
fn tx_err(n: usize, f: &Fail, len: usize) -> Value {
    if n >= len {
        return json!("InvalidRentPayingAccount");
    }
    let e = match f {
        Fail::Custom(c) => json!({"Custom": c}),
        Fail::Precompile => json!({"Custom": 0}),
        Fail::Panic(_) => json!("ProgramFailedToComplete"),
        _ => json!("InvalidArgument"),
    };
    json!({"InstructionError": [n, e]})
}
fn preflight(err: Value) -> Value {
    json!({"code": -32002, "message": "Transaction simulation failed", "data":
        {"err": err, "logs": ["Program log: refused"], "accounts": null, "unitsConsumed": 100, "returnData": null}})
}

impl Chain {
    pub fn new(v: &Value, t: &Terms) -> Chain {
        let mut env = Env::default();
        scen::set_env(&mut env, &v["env"]);
        let mut c = Chain {
            env,
            world: World::new(),
            leaders: HashMap::new(),
            order: vec![],
            reverse: v.get("rev").and_then(|x| x.as_bool()).unwrap_or(false),
            faults: vec![],
            sent: vec![],
            problems: vec![],
            last: Instant::now(),
            requests: 0,
            slot: 0,
            accounts_of: HashMap::new(),
            written: HashMap::new(),
            hashes: HashSet::new(),
            nonce: 0,
            landed: HashMap::new(),
        };
        c.place(v, t);
        for f in v.get("faults").and_then(|x| x.as_array()).into_iter().flatten() {
            c.faults.push(Fault {
                at: f["at"].as_str().unwrap().into(),
                slot: f.get("slot").map_or(0, num),
                how: f["how"].as_str().unwrap().into(),
                j: f.get("j").map_or(0, num),
                key: f.get("key").map(key),
                put: f.get("put").and_then(|p| p.as_array()).into_iter().flatten().map(|a| scen::acct(t, a)).collect(),
                used: false,
            });
        }
        c
    }
    /// Accounts and leaders of a scenario (or of a later phase of one).
    pub fn place(&mut self, v: &Value, t: &Terms) {
        for a in v.get("accts").and_then(|x| x.as_array()).into_iter().flatten() {
            let (k, a) = scen::acct(t, a);
            if !self.order.contains(&k) {
                self.order.push(k);
            }
            self.world.insert(k, a);
        }
        for l in v.get("leaders").and_then(|x| x.as_array()).into_iter().flatten() {
            self.leaders.insert(num(&l[0]), key(&l[1]));
        }
    }
    fn fault(&mut self, at: &str, slot: u64, j: u64) -> Option<usize> {
        let i = self.faults.iter().position(|f| !f.used && f.key.is_none() && f.at == at && f.slot == slot && f.j == j)?;
        self.faults[i].used = true;
        Some(i)
    }
    fn fault_key(&mut self, at: &str, k: &Pubkey) -> Option<usize> {
        let i = self.faults.iter().position(|f| !f.used && f.at == at && f.key.as_ref() == Some(k))?;
        self.faults[i].used = true;
        Some(i)
    }
    fn ui_account(&self, a: &Acct, cfg: &Value) -> Value {
        let mut d = &a.data[..];
        if let (Some(o), Some(l)) = (cfg["dataSlice"]["offset"].as_u64(), cfg["dataSlice"]["length"].as_u64()) {
            let o = (o as usize).min(d.len());
            d = &d[o..(o + l as usize).min(d.len())];
        }
        let data = match cfg["encoding"].as_str() {
            Some("base58") => json!([b58(d), "base58"]),
            _ => json!([b64(d), "base64"]),
        };
        json!({"lamports": a.lamports, "owner": a.owner.to_string(), "data": data, "executable": a.executable,
               "rentEpoch": u64::MAX, "space": a.data.len()})
    }
    fn get(&self, k: &Pubkey) -> Option<Acct> {
        if *k == solana_program::sysvar::rent::id() {
            let r = &self.env.rent;
            let mut d = r.lamports_per_byte_year.to_le_bytes().to_vec();
            d.extend(r.exemption_threshold.to_le_bytes());
            d.push(r.burn_percent);
            return Some(Acct { lamports: 1009200, owner: ids::sysvar_owner(), data: d, executable: false });
        }
        if *k == ids::clock() {
            let d = bincode::serialize(&self.env.clock).unwrap();
            return Some(Acct { lamports: 1169280, owner: ids::sysvar_owner(), data: d, executable: false });
        }
        self.world.get(k).cloned()
    }
    /// Which report a key is the address of, among the slots of the scenario.
    fn report_slot(&self, k: &Pubkey) -> Option<u64> {
        self.leaders.iter().find(|(s, n)| crate::conc::pda(n, **s, 1) == *k).map(|x| *x.0)
    }
    fn classify(&mut self, tx: &Tx) -> Sent {
        let mut r = Sent::Other(format!("{} instructions", tx.ixs.len()));
        for i in &tx.ixs {
            let a0 = i.accounts.first().map(|m| m.pubkey);
            if i.program == ids::record() {
                let Some(a0) = a0 else { continue };
                match i.data.first() {
                    Some(0) => r = Sent::Create(a0),
                    Some(1) => r = Sent::Write(a0),
                    Some(3) => r = Sent::CloseProof(a0),
                    _ => (),
                }
            } else if i.program == ids::slashing() {
                match i.data.first() {
                    Some(1) if i.data.len() >= 49 => {
                        r = Sent::Submit {
                            slot: u64::from_le_bytes(i.data[9..17].try_into().unwrap()),
                            node: Pubkey::try_from(&i.data[17..49]).unwrap(),
                        }
                    }
                    Some(0) if a0.is_some() => r = Sent::CloseReport(a0.unwrap()),
                    _ => (),
                }
            }
        }
        r
    }
    fn send(&mut self, p: &Value) -> Result<Value, Value> {
        let raw = p[0].as_str().unwrap_or("");
        let d = if p[1]["encoding"] == "base64" { unb64(raw) } else { unb58(raw) };
        let d = d.ok_or_else(|| rpc_err(-32602, "invalid encoding"))?;
        if d.len() > 1232 {
            self.problems.push(format!("a transaction of {} bytes was sent", d.len()));
            return Err(rpc_err(-32602, "transaction too large"));
        }
        let Some(tx) = parse_tx(&d) else {
            self.problems.push("something that is no transaction was sent".into());
            return Err(rpc_err(-32602, "failed to deserialize"));
        };
        let kind = self.classify(&tx);
        if !tx.verified() {
            self.sent.push((kind, false));
            return Err(rpc_err(-32003, "Transaction signature verification failure"));
        }
        if !self.hashes.contains(&tx.blockhash) {
            self.sent.push((kind, false));
            return Err(preflight(json!("BlockhashNotFound")));
        }
        if self.landed.contains_key(&tx.sigs[0]) {
            return Err(preflight(json!("AlreadyProcessed")));
        }
        if self.world.get(&tx.keys[0]).is_none_or(|a| a.lamports == 0 || a.owner != ids::system()) {
            self.sent.push((kind, false));
            return Err(preflight(json!("AccountNotFound")));
        }
        let f = match &kind {
            Sent::Create(k) => {
                let s = *self.accounts_of.entry(*k).or_insert(self.slot);
                self.fault("create", s, 0)
            }
            Sent::Write(k) => {
                let s = self.accounts_of.get(k).copied().unwrap_or(self.slot);
                let off = tx.ixs.iter().find(|i| i.program == ids::record()).map_or(0, |i| {
                    i.data.get(1..9).map_or(0, |b| u64::from_le_bytes(b.try_into().unwrap()))
                });
                // chunks are told apart by the order in which they first come
                let w = self.written.entry(*k).or_default();
                w.insert(off);
                let j = w.len() as u64 - 1;
                self.fault("write", s, j)
            }
            Sent::Submit { slot, .. } => self.fault("submit", *slot, 0),
            Sent::CloseProof(k) => {
                let s = self.accounts_of.get(k).copied().unwrap_or(0);
                self.fault("close", s, 0)
            }
            Sent::CloseReport(k) => self.fault_key("closereport", k),
            Sent::Other(_) => None,
        };
        let how = f.map(|f| self.faults[f].how.clone()).unwrap_or_default();
        let sig = b58(&tx.sigs[0]);
        match how.as_str() {
            "refused" => {
                self.sent.push((kind, false));
                return Err(rpc_err(-32005, "Node is unhealthy"));
            }
            "failed" => {
                self.sent.push((kind, false));
                self.landed.insert(tx.sigs[0], json!({"InstructionError": [0, {"Custom": 4242}]}));
                return Ok(json!(sig));
            }
            "raced" => {
                for (k, a) in std::mem::take(&mut self.faults[f.unwrap()].put) {
                    // what the address already held is not lost
                    self.world.insert(k, a);
                }
            }
            _ => (),
        }
        let o = exec(&self.env, &mut self.world, &tx.ixs);
        self.sent.push((kind, o.result.is_ok()));
        match o.result {
            Err((n, f)) => Err(preflight(tx_err(n, &f, tx.ixs.len()))),
            Ok(()) => {
                self.landed.insert(tx.sigs[0], Value::Null);
                if how == "lost" {
                    return Err(rpc_err(-32603, "Internal error"));
                }
                Ok(json!(sig))
            }
        }
    }
    fn simulate(&mut self, p: &Value) -> Result<Value, Value> {
        let d = if p[1]["encoding"] == "base64" { unb64(p[0].as_str().unwrap_or("")) } else { unb58(p[0].as_str().unwrap_or("")) };
        let tx = d.and_then(|d| parse_tx(&d)).ok_or_else(|| rpc_err(-32602, "failed to deserialize"))?;
        let mut w = self.world.clone();
        let o = exec(&self.env, &mut w, &tx.ixs);
        let err = o.result.err().map(|(n, f)| tx_err(n, &f, tx.ixs.len()));
        answer(json!({"err": err, "logs": ["Program log: simulated"], "accounts": null, "unitsConsumed": 1000, "returnData": null, "innerInstructions": null, "replacementBlockhash": null}))
    }
    pub fn call(&mut self, method: &str, p: &Value) -> Result<Value, Value> {
        self.last = Instant::now();
        self.requests += 1;
        let at = |i: usize| Pubkey::from_str(p[i].as_str().unwrap_or("")).map_err(|_| rpc_err(-32602, "Invalid param"));
        let hit = |c: &mut Chain, f: Option<usize>| f.map(|f| c.faults[f].how.clone());
        match method {
            "getAccountInfo" => {
                let k = at(0)?;
                if let Some(s) = self.report_slot(&k) {
                    self.slot = s;
                    let submitted = self.sent.iter().any(|(x, _)| matches!(x, Sent::Submit { slot, .. } if *slot == s));
                    let f = self.fault(if submitted { "seen" } else { "lookup" }, s, 0);
                    match hit(self, f).as_deref() {
                        Some("none") => return answer(Value::Null),
                        Some(_) => return Err(rpc_err(-32603, "Internal error")),
                        None => (),
                    }
                }
                answer(self.get(&k).map_or(Value::Null, |a| self.ui_account(&a, &p[1])))
            }
            "getMultipleAccounts" => {
                let mut r = vec![];
                for x in p[0].as_array().into_iter().flatten() {
                    let k = Pubkey::from_str(x.as_str().unwrap_or("")).map_err(|_| rpc_err(-32602, "Invalid param"))?;
                    r.push(self.get(&k).map_or(Value::Null, |a| self.ui_account(&a, &p[1])));
                }
                answer(json!(r))
            }
            "getBalance" => {
                let k = at(0)?;
                answer(json!(self.get(&k).map_or(0, |a| a.lamports)))
            }
            "getSlotLeaders" => {
                let (s, n) = (p[0].as_u64().unwrap_or(0), p[1].as_u64().unwrap_or(1));
                self.slot = s;
                let f = self.fault("leader", s, 0);
                match hit(self, f).as_deref() {
                    Some("empty") => return Ok(json!([])),
                    Some(_) => return Err(rpc_err(-32602, "Invalid slot range: leader schedule is unavailable")),
                    None => (),
                }
                Ok(json!((s..s + n).map(|s| self.leaders.get(&s).copied().unwrap_or_else(|| crate::conc::pubkey("N9")).to_string()).collect::<Vec<_>>()))
            }
            "getSlotLeader" => Ok(json!(crate::conc::pubkey("N9").to_string())),
            "getLatestBlockhash" => {
                self.nonce += 1;
                let h = sha(&[b"blockhash", &self.nonce.to_le_bytes()]);
                self.hashes.insert(h);
                answer(json!({"blockhash": b58(&h), "lastValidBlockHeight": 100_000}))
            }
            "isBlockhashValid" => answer(json!(unb58(p[0].as_str().unwrap_or("")).and_then(|h| h.try_into().ok()).is_some_and(|h: [u8; 32]| self.hashes.contains(&h)))),
            "sendTransaction" => self.send(p),
            "simulateTransaction" => self.simulate(p),
            "getSignatureStatuses" => {
                let l: Vec<Value> = p[0]
                    .as_array()
                    .into_iter()
                    .flatten()
                    .map(|s| {
                        let sig: Option<[u8; 64]> = unb58(s.as_str().unwrap_or("")).and_then(|b| b.try_into().ok());
                        match sig.and_then(|s| self.landed.get(&s)) {
                            None => Value::Null,
                            Some(e) => json!({"slot": 5000, "confirmations": null, "err": e,
                                "status": if e.is_null() { json!({"Ok": null}) } else { json!({"Err": e}) },
                                "confirmationStatus": "finalized"}),
                        }
                    })
                    .collect();
                answer(json!(l))
            }
            "getEpochInfo" => Ok(json!({"epoch": self.env.clock.epoch, "slotIndex": 10, "slotsInEpoch": self.env.schedule.slots_per_epoch,
                "absoluteSlot": self.env.clock.slot, "blockHeight": self.env.clock.slot, "transactionCount": 1})),
            "getEpochSchedule" => {
                let s = &self.env.schedule;
                Ok(json!({"slotsPerEpoch": s.slots_per_epoch, "leaderScheduleSlotOffset": s.leader_schedule_slot_offset, "warmup": s.warmup,
                    "firstNormalEpoch": s.first_normal_epoch, "firstNormalSlot": s.first_normal_slot}))
            }
            "getProgramAccounts" => {
                let owner = at(0)?;
                let mut ks: Vec<Pubkey> = self.order.clone();
                ks.extend(self.world.keys().filter(|k| !self.order.contains(k)).copied().collect::<Vec<_>>());
                if self.reverse {
                    ks.reverse();
                }
                let mut r = vec![];
                'next: for k in ks {
                    let Some(a) = self.world.get(&k) else { continue };
                    if a.owner != owner {
                        continue;
                    }
                    for f in p[1]["filters"].as_array().into_iter().flatten() {
                        if let Some(n) = f["dataSize"].as_u64() {
                            if a.data.len() as u64 != n {
                                continue 'next;
                            }
                        }
                        if let Some(m) = f.get("memcmp") {
                            let o = m["offset"].as_u64().unwrap_or(0) as usize;
                            let b = match &m["bytes"] {
                                Value::Array(a) => a.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect(),
                                x if m["encoding"] == "base64" => unb64(x.as_str().unwrap_or("")).unwrap_or_default(),
                                x => unb58(x.as_str().unwrap_or("")).unwrap_or_default(),
                            };
                            if a.data.get(o..o + b.len()) != Some(&b[..]) {
                                continue 'next;
                            }
                        }
                    }
                    r.push(json!({"pubkey": k.to_string(), "account": self.ui_account(a, &p[1])}));
                }
                if p[1]["withContext"] == true {
                    return answer(json!(r));
                }
                Ok(json!(r))
            }
            "getMinimumBalanceForRentExemption" => Ok(json!(self.env.rent.minimum_balance(p[0].as_u64().unwrap_or(0) as usize))),
            "getSlot" | "getBlockHeight" => Ok(json!(self.env.clock.slot)),
            "getVersion" => Ok(json!({"solana-core": "2.3.0", "feature-set": 1})),
            "getHealth" => Ok(json!("ok")),
            "getIdentity" => Ok(json!({"identity": crate::conc::pubkey("N9").to_string()})),
            "getGenesisHash" => Ok(json!(b58(&[7; 32]))),
            m => {
                self.problems.push(format!("the stand-in cluster does not know the request {m}"));
                Err(rpc_err(-32601, "Method not found"))
            }
        }
    }
}

// --------------------------------------------------------------------- server
pub type Chains = Arc<RwLock<HashMap<String, Arc<Mutex<Chain>>>>>;

fn serve_one(s: TcpStream, chains: Chains) -> std::io::Result<()> {
    s.set_nodelay(true)?;
    let mut w = s.try_clone()?;
    let mut r = BufReader::new(s);
    loop {
        let mut line = String::new();
        if r.read_line(&mut line)? == 0 {
            return Ok(());
        }
        let id = line.split(' ').nth(1).unwrap_or("/").trim_matches('/').to_string();
        let mut len = 0usize;
        loop {
            let mut h = String::new();
            if r.read_line(&mut h)? == 0 {
                return Ok(());
            }
            if h == "\r\n" || h == "\n" {
                break;
            }
            if let Some((k, v)) = h.split_once(':') {
                if k.eq_ignore_ascii_case("content-length") {
                    len = v.trim().parse().unwrap_or(0);
                }
            }
        }
        let mut body = vec![0; len];
        r.read_exact(&mut body)?;
        let req: Value = serde_json::from_slice(&body).unwrap_or(Value::Null);
        let chain = chains.read().unwrap().get(&id).cloned();
        let res = match chain {
            None => Err(rpc_err(-32600, "no such cluster")),
            Some(c) => {
                let mut c = c.lock().unwrap_or_else(|e| e.into_inner());
                if std::env::var_os("SHOW").is_some() {
                    let mut t = req["params"].to_string();
                    t.truncate(150);
                    eprintln!("[{id}] {} {t}", req["method"]);
                }
                c.call(req["method"].as_str().unwrap_or(""), &req["params"])
            }
        };
        let out = match res {
            Ok(v) => json!({"jsonrpc": "2.0", "id": req["id"], "result": v}),
            Err(e) => json!({"jsonrpc": "2.0", "id": req["id"], "error": e}),
        }
        .to_string();
        write!(w, "HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: {}\r\n\r\n{}", out.len(), out)?;
        w.flush()?;
    }
}
/// Serves clusters under `http://127.0.0.1:PORT/<id>`; returns the port.
pub fn serve(chains: Chains) -> u16 {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let port = l.local_addr().unwrap().port();
    std::thread::spawn(move || {
        for s in l.incoming().flatten() {
            let c = chains.clone();
            std::thread::spawn(move || {
                let _ = serve_one(s, c);
            });
        }
    });
    port
}
