//! Concretization: turns the symbolic terms the specification emits (keys,
//! report addresses, Merkle roots, signatures, byte layouts) into real bytes.
//! Nothing here uses the code under test.
use {
    crate::rt::ids,
    ed25519_dalek::{Keypair, PublicKey, SecretKey, Signer},
    serde_json::Value,
    sha2::{Digest, Sha256},
    solana_program::pubkey::Pubkey,
    std::{
        collections::HashMap,
        sync::{Arc, OnceLock, RwLock},
    },
};

pub fn sha(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}

static KEYS: OnceLock<RwLock<HashMap<String, Arc<Keypair>>>> = OnceLock::new();
pub fn keypair(name: &str) -> Arc<Keypair> {
    let m = KEYS.get_or_init(Default::default);
    if let Some(k) = m.read().unwrap().get(name) {
        return k.clone();
    }
    let secret = SecretKey::from_bytes(&sha(&[b"key:", name.as_bytes()])).unwrap();
    let public = PublicKey::from(&secret);
    let k = Arc::new(Keypair { secret, public });
    m.write().unwrap().insert(name.to_string(), k.clone());
    k
}
pub fn pubkey(name: &str) -> Pubkey {
    match name {
        "slashing" => ids::slashing(),
        "system" => ids::system(),
        "ed25519" => ids::ed25519(),
        "ixsysvar" => ids::ixsysvar(),
        "clock" => ids::clock(),
        "record" => ids::record(),
        "proxy" => ids::proxy(),
        "noop" => ids::noop(),
        "sysvar" => ids::sysvar_owner(),
        n => Pubkey::new_from_array(keypair(n).public.to_bytes()),
    }
}

static PDAS: OnceLock<RwLock<HashMap<(Pubkey, u64, u8), Pubkey>>> = OnceLock::new();
pub fn pda(node: &Pubkey, slot: u64, ty: u8) -> Pubkey {
    let m = PDAS.get_or_init(Default::default);
    if let Some(k) = m.read().unwrap().get(&(*node, slot, ty)) {
        return *k;
    }
    let k = Pubkey::find_program_address(&[node.as_ref(), &slot.to_le_bytes(), &[ty]], &ids::slashing()).0;
    m.write().unwrap().insert((*node, slot, ty), k);
    k
}

/// An integer, or big-endian 16-bit limbs.
pub fn num(v: &Value) -> u64 {
    match v {
        Value::Number(n) => n.as_u64().unwrap_or_else(|| panic!("bad number {n}")),
        Value::Array(a) => a.iter().fold(0u64, |acc, l| (acc << 16) | l.as_u64().unwrap()),
        Value::String(s) => s.parse().unwrap(),
        _ => panic!("not a number: {v}"),
    }
}

pub fn key(v: &Value) -> Pubkey {
    match v {
        Value::String(s) => pubkey(s),
        Value::Array(a) if a.len() == 1 => pubkey(a[0].as_str().unwrap()),
        Value::Array(a) => match a[0].as_str().unwrap() {
            "pda" => pda(&key(&a[1]), num(&a[2]), num(&a[3]) as u8),
            // differing in one bit of byte a[2]
            "near" => {
                let (mut k, n) = (key(&a[1]).to_bytes(), num(&a[2]) as usize);
                k[n] ^= 1 << (n % 8);
                Pubkey::new_from_array(k)
            }
            "raw" => Pubkey::new_from_array([num(&a[1]) as u8; 32]),
            x => panic!("bad key {x}"),
        },
        _ => panic!("bad key {v}"),
    }
}

pub struct Shred {
    pub payload: Vec<u8>,
    pub root: [u8; 32],
    /// the signature it carries (whole, even if the payload is cut)
    pub sig: Vec<u8>,
}
#[derive(Default)]
pub struct Terms {
    pub shreds: HashMap<String, Shred>,
}

pub fn fill(seed: &str, n: usize, out: &mut Vec<u8>) {
    let mut st = sha(&[b"fill:", seed.as_bytes()]);
    let mut left = n;
    while left > 0 {
        let k = left.min(32);
        out.extend_from_slice(&st[..k]);
        left -= k;
        if left > 0 {
            // xorshift-style expansion, cheap and deterministic
            let mut x = u64::from_le_bytes(st[..8].try_into().unwrap()) | 1;
            for c in st.chunks_mut(8) {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                c.copy_from_slice(&x.to_le_bytes());
            }
        }
    }
}

impl Terms {
    pub fn bytes(&self, parts: &Value) -> Vec<u8> {
        let mut out = vec![];
        for p in parts.as_array().unwrap_or_else(|| panic!("parts: {parts}")) {
            self.part(p, &mut out);
        }
        out
    }
    fn shred(&self, v: &Value) -> &Shred {
        self.shreds.get(v.as_str().unwrap()).unwrap_or_else(|| panic!("unknown shred {v}"))
    }
    fn part(&self, p: &Value, out: &mut Vec<u8>) {
        let a = p.as_array().unwrap_or_else(|| panic!("part: {p}"));
        match a[0].as_str().unwrap() {
            "b" => out.extend(a[1].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8)),
            "z" => out.resize(out.len() + num(&a[1]) as usize, 0),
            "f" => fill(a[1].as_str().unwrap(), num(&a[2]) as usize, out),
            "u8" => out.push(num(&a[1]) as u8),
            "u16" => out.extend_from_slice(&(num(&a[1]) as u16).to_le_bytes()),
            "u32" => out.extend_from_slice(&(num(&a[1]) as u32).to_le_bytes()),
            "u64" => out.extend_from_slice(&num(&a[1]).to_le_bytes()),
            // a root in the place of a key
            "key" if a[1][0] == "rootof" => out.extend_from_slice(&self.shred(&a[1][1]).root),
            "key" => out.extend_from_slice(key(&a[1]).as_ref()),
            "root" => out.extend_from_slice(&self.shred(&a[1]).root),
            "sig" => {
                let s = self.shred(&a[1]);
                out.extend_from_slice(&s.sig)
            }
            // signature by a[1] over the root of shred a[2]
            "sigby" => {
                let s = self.shred(&a[2]);
                out.extend_from_slice(&keypair(a[1].as_str().unwrap()).sign(&s.root).to_bytes())
            }
            // signature by a[1] over the bytes a[2]
            "signed" => out.extend_from_slice(
                &keypair(a[1].as_str().unwrap()).sign(&self.bytes(&a[2])).to_bytes(),
            ),
            "shred" => out.extend_from_slice(&self.shred(&a[1]).payload),
            "shredlen" => {
                out.extend_from_slice(&(self.shred(&a[1]).payload.len() as u32).to_le_bytes())
            }
            // the parts a[2], without the first a[1] bytes
            "drop" => {
                let b = self.bytes(&a[2]);
                out.extend_from_slice(b.get(num(&a[1]) as usize..).unwrap_or(&[]))
            }
            // the parts a[2], cut to a[1] bytes
            "cut" => {
                let mut b = self.bytes(&a[2]);
                b.truncate(num(&a[1]) as usize);
                out.extend(b);
            }
            // the parts a[3] with the byte at a[1] xor a[2]
            "xor" => {
                let mut b = self.bytes(&a[3]);
                let i = num(&a[1]) as usize;
                if i < b.len() {
                    b[i] ^= num(&a[2]) as u8;
                }
                out.extend(b);
            }
            x => panic!("unknown part {x}"),
        }
    }

    /// Builds the shreds of a scenario:
    /// `{name: {by, tree, leaf, depth, pre: parts, post: parts, cut?, sig?: parts}}`.
    /// `pre` is the payload from the end of the signature to the Merkle proof;
    /// shreds naming the same tree are leaves of one Merkle tree.
    pub fn build_shreds(&mut self, v: &Value) {
        let Some(m) = v.as_object() else { return };
        struct L {
            name: String,
            tree: String,
            leaf: u64,
            depth: u32,
            pre: Vec<u8>,
        }
        let mut ls: Vec<L> = vec![];
        for (name, s) in m {
            ls.push(L {
                name: name.clone(),
                tree: s["tree"].as_str().unwrap().to_string(),
                leaf: num(&s["leaf"]),
                depth: num(&s["depth"]) as u32,
                pre: self.bytes(&s["pre"]),
            });
        }
        for l in &ls {
            let s = &m[&l.name];
            // known nodes of the tree: (level, index) -> hash
            let mut known: HashMap<(u32, u64), [u8; 32]> = HashMap::new();
            for x in ls.iter().filter(|x| x.tree == l.tree && x.depth == l.depth) {
                let h = sha(&[b"\x00SOLANA_MERKLE_SHREDS_LEAF", &x.pre]);
                let idx = x.leaf & ((1u64 << l.depth) - 1);
                if let Some(old) = known.insert((0, idx), h) {
                    assert!(old == h, "two different leaves at one place of tree {}", l.tree);
                }
            }
            let rnd = |lev: u32, i: u64| {
                sha(&[b"node:", l.tree.as_bytes(), &lev.to_le_bytes(), &i.to_le_bytes()])
            };
            for lev in 0..l.depth {
                let mut ix: Vec<u64> =
                    known.keys().filter(|(v, _)| *v == lev).map(|(_, i)| i >> 1).collect();
                ix.sort();
                ix.dedup();
                for p in ix {
                    let a = known.get(&(lev, 2 * p)).copied().unwrap_or_else(|| rnd(lev, 2 * p));
                    let b =
                        known.get(&(lev, 2 * p + 1)).copied().unwrap_or_else(|| rnd(lev, 2 * p + 1));
                    let h = sha(&[b"\x01SOLANA_MERKLE_SHREDS_NODE", &a[..20], &b[..20]]);
                    known.insert((lev + 1, p), h);
                }
            }
            let mut i = l.leaf & ((1u64 << l.depth) - 1);
            let mut proof = vec![];
            for lev in 0..l.depth {
                let sib = i ^ 1;
                let h = known.get(&(lev, sib)).copied().unwrap_or_else(|| rnd(lev, sib));
                proof.extend_from_slice(&h[..20]);
                i >>= 1;
            }
            let root = known[&(l.depth, 0)];
            let by = s["by"].as_str().unwrap().to_string();
            let signed = s.get("sigcut").map_or(32, |n| num(n) as usize);
            let mut message = root;
            if let Some(n) = s.get("signear").map(|n| num(n) as usize) {
                message[n] ^= 1 << (n % 8);
            }
            let mut sig = keypair(&by).sign(&message[..signed]).to_bytes().to_vec();
            if let Some(n) = s.get("sigflip").map(|n| num(n) as usize) {
                sig[n] ^= 1 << (n % 8);
            }
            let mut payload = match s.get("sig") {
                Some(p) if !p.is_null() => self.bytes(p),
                _ => sig.clone(),
            };
            payload.extend_from_slice(&l.pre);
            payload.extend_from_slice(&proof);
            payload.extend_from_slice(&self.bytes(&s["post"]));
            if let Some(c) = s.get("cut").and_then(|c| c.as_u64()) {
                payload.truncate(c as usize);
            }
            self.shreds.insert(l.name.clone(), Shred { payload, root, sig });
        }
        // signatures of something longer than a root
        for (name, s) in m {
            if let Some(parts) = s.get("sigmsg") {
                let sig = keypair(s["by"].as_str().unwrap()).sign(&self.bytes(parts)).to_bytes();
                let to = self.shreds.get_mut(name).unwrap();
                let n = to.payload.len().min(64);
                to.payload[..n].copy_from_slice(&sig[..n]);
                to.sig = sig.to_vec();
            }
        }
        // signatures carried over from another shred
        let own: HashMap<String, Vec<u8>> = self.shreds.iter().map(|(n, s)| (n.clone(), s.sig.clone())).collect();
        for (name, s) in m {
            if let Some(of) = s.get("sigof").and_then(|o| o.as_str()) {
                let to = self.shreds.get_mut(name).unwrap();
                let n = to.payload.len().min(64);
                to.payload[..n].copy_from_slice(&own[of][..n]);
                to.sig = own[of].clone();
            }
        }
    }
}
