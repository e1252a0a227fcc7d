//! Records invocations of the program under test for module Observed of the
//! specification, which judges them from their bytes alone.  The inputs are
//! scenarios of the suites, bent at random places.
use {
    crate::{
        conc::{keypair, pda, pubkey, sha, Terms},
        rt::{exec, ids, record_invocations, Acct, Env, Fail, Invocation, Ix, World},
        scen::{acct, expand, set_env},
    },
    ed25519_dalek::Signer,
    rayon::prelude::*,
    serde_json::{json, Value},
    solana_program::{instruction::AccountMeta, pubkey::Pubkey},
    std::{collections::HashMap, io::Write},
};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    fn has(&mut self, n: usize, d: usize) -> bool {
        self.below(d) < n
    }
    fn one<T: Clone>(&mut self, a: &[T]) -> T {
        a[self.below(a.len())].clone()
    }
}

// ------------------------------------------------------ the network's format
// (an account of it that the code under test has no part in)

pub struct Layout {
    pub code: bool,
    pub depth: usize,
    /// where the Merkle proof starts
    pub at: usize,
    pub resigned: bool,
}
pub fn layout(variant: u8) -> Option<Layout> {
    let depth = (variant & 15) as usize;
    if variant == 0x5a || variant == 0xa5 {
        return None;
    }
    let (code, chained, resigned) = match variant >> 4 {
        4 => (true, false, false),
        6 => (true, true, false),
        7 => (true, true, true),
        8 => (false, false, false),
        9 => (false, true, false),
        11 => (false, true, true),
        _ => return None,
    };
    let _ = chained;
    let whole = if code { 1228 } else { 1203 };
    Some(Layout { code, depth, at: whole - 20 * depth - if resigned { 64 } else { 0 }, resigned })
}
fn u16at(s: &[u8], i: usize) -> usize {
    s.get(i..i + 2).map_or(0, |b| u16::from_le_bytes(b.try_into().unwrap()) as usize)
}
fn u32at(s: &[u8], i: usize) -> usize {
    s.get(i..i + 4).map_or(0, |b| u32::from_le_bytes(b.try_into().unwrap()) as usize)
}
fn u64at(s: &[u8], i: usize) -> u64 {
    s.get(i..i + 8).map_or(0, |b| u64::from_le_bytes(b.try_into().unwrap()))
}
/// the position in the erasure batch, and the root, of a shred that has them
pub fn root(s: &[u8]) -> Option<(Layout, usize, [u8; 32])> {
    let l = layout(*s.get(64)?)?;
    let proof = s.get(l.at..l.at + 20 * l.depth)?;
    let leaf = if l.code { u16at(s, 83) + u16at(s, 87) } else { u32at(s, 73).checked_sub(u32at(s, 79))? };
    if leaf >> l.depth != 0 {
        return None;
    }
    let mut h = sha(&[b"\x00SOLANA_MERKLE_SHREDS_LEAF", &s[64..l.at]]);
    for (i, e) in proof.chunks(20).enumerate() {
        h = if (leaf >> i) & 1 == 0 {
            sha(&[b"\x01SOLANA_MERKLE_SHREDS_NODE", &h[..20], e])
        } else {
            sha(&[b"\x01SOLANA_MERKLE_SHREDS_NODE", e, &h[..20]])
        };
    }
    Some((l, leaf, h))
}
/// where the two shreds of a proof lie, read at `off`
pub fn packed(b: &[u8], off: usize) -> Option<((usize, usize), (usize, usize))> {
    b.get(off..off.checked_add(4)?)?;
    let l1 = u32at(b, off);
    b.get(off + 4..off.checked_add(8)?.checked_add(l1)?)?;
    let l2 = u32at(b, off + 4 + l1);
    b.get(off + 8 + l1..(off + 8 + l1).checked_add(l2)?)?;
    Some(((off + 4, l1), (off + 8 + l1, l2)))
}

// ---------------------------------------------------------------- a situation

struct Sit {
    env: Env,
    world: World,
    ixs: Vec<Ix>,
    notes: Vec<String>,
    /// keys whose secret is known
    known: HashMap<Pubkey, String>,
}
const NAMES: [&str; 10] = ["N1", "N2", "N3", "R", "D", "E", "X", "F", "N", "S"];

impl Sit {
    /// the last invocation of the program: (instruction, whether inner)
    fn target(&self) -> Option<(usize, bool)> {
        for (i, x) in self.ixs.iter().enumerate().rev() {
            if x.program == ids::slashing() {
                return Some((i, false));
            }
            if x.inner.iter().any(|y| y.program == ids::slashing()) {
                return Some((i, true));
            }
        }
        None
    }
    fn ix(&mut self) -> Option<&mut Ix> {
        let (i, inner) = self.target()?;
        let x = &mut self.ixs[i];
        Some(if inner { x.inner.iter_mut().rev().find(|y| y.program == ids::slashing()).unwrap() } else { x })
    }
    fn ed(&self) -> Option<usize> {
        self.ixs.iter().position(|x| x.program == ids::ed25519())
    }
    fn proof_key(&mut self) -> Option<Pubkey> {
        self.ix()?.accounts.first().map(|m| m.pubkey)
    }
    fn report_key(&mut self) -> Option<Pubkey> {
        let close = self.ix()?.data.first() == Some(&0);
        self.ix()?.accounts.get(if close { 0 } else { 1 }).map(|m| m.pubkey)
    }
    fn proof(&mut self) -> Option<&mut Vec<u8>> {
        let k = self.proof_key()?;
        self.world.get_mut(&k).map(|a| &mut a.data)
    }
    fn offset(&mut self) -> usize {
        self.ix().map_or(0, |x| u64at(&x.data, 1) as usize)
    }
    fn ranges(&mut self) -> Option<((usize, usize), (usize, usize))> {
        let off = self.offset();
        packed(self.proof()?, off)
    }
    fn note(&mut self, s: String) {
        self.notes.push(s);
    }

    /// Makes everything consistent again after a change: positions that fit,
    /// roots, signatures by the accused, the address, the funding.
    fn repair(&mut self, r: &mut Rng) {
        let Some(x) = self.ix() else { return };
        if x.data.first() != Some(&1) || x.data.len() < 305 {
            return;
        }
        let node = Pubkey::new_from_array(x.data[17..49].try_into().unwrap());
        let Some(name) = self.known.get(&node).cloned() else { return };
        let Some((a, b)) = self.ranges() else { return };
        let fit = r.has(3, 4);
        let key = keypair(&name);
        let mut put: Vec<(usize, Vec<u8>)> = vec![];
        let buf = self.proof().unwrap();
        for (i, (at, n)) in [a, b].into_iter().enumerate() {
            let s = &mut buf[at..at + n];
            if fit && n > 90 {
                if let Some(l) = layout(s[64]) {
                    // a position that fits the Merkle proof
                    if l.code {
                        let nd = u16at(s, 83) % (1 << l.depth).max(1);
                        let room = (1usize << l.depth) - nd;
                        let pos = u16at(s, 87) % room.max(1);
                        s[83..85].copy_from_slice(&(nd as u16).to_le_bytes());
                        s[87..89].copy_from_slice(&(pos as u16).to_le_bytes());
                    } else {
                        let (idx, fec) = (u32at(s, 73), u32at(s, 79));
                        if idx < fec || idx - fec >= 1 << l.depth {
                            let to = (fec + idx % (1 << l.depth)).min(u32::MAX as usize);
                            s[73..77].copy_from_slice(&(to as u32).to_le_bytes());
                        }
                    }
                }
            }
            if let Some((_, _, h)) = root(s) {
                let sig = key.sign(&h).to_bytes();
                s[..64].copy_from_slice(&sig);
                let o = 113 + 96 * i;
                put.push((o, h.to_vec()));
                put.push((o + 32, sig.to_vec()));
            }
        }
        let keep_outer = r.has(1, 4);
        let x = self.ix().unwrap();
        let before = x.data.clone();
        for (o, b) in put {
            x.data[o..o + b.len()].copy_from_slice(&b);
        }
        let after = x.data.clone();
        // an outer program carrying the same data
        for y in self.ixs.iter_mut() {
            if y.data == before && !keep_outer {
                y.data = after.clone();
            }
        }
        let slot = u64at(&after, 9);
        let to = pda(&node, slot, 1);
        if let Some(from) = self.report_key() {
            if from != to && r.has(7, 8) {
                for y in self.ixs.iter_mut() {
                    for x in y.inner.iter_mut().chain(std::iter::empty()) {
                        x.accounts.iter_mut().filter(|m| m.pubkey == from).for_each(|m| m.pubkey = to);
                    }
                    y.accounts.iter_mut().filter(|m| m.pubkey == from).for_each(|m| m.pubkey = to);
                }
                if !self.world.contains_key(&to) {
                    let a = self.world.get(&from).cloned().unwrap_or_default();
                    self.world.insert(to, a);
                }
            }
        }
    }

    fn bend(&mut self, r: &mut Rng) -> bool {
        let Some((at, inner)) = self.target() else { return false };
        let close = self.ix().unwrap().data.first() == Some(&0);
        let kind = if close { r.one(&[0, 2, 5, 6, 8, 10, 10, 10, 11, 12]) } else { r.below(13) };
        match kind {
            // the instruction's data
            0 => {
                let x = self.ix().unwrap();
                if x.data.is_empty() {
                    return false;
                }
                let (i, b) = (r.below(x.data.len()), r.below(8));
                x.data[i] ^= 1 << b;
                self.note(format!("data[{i}] bit {b}"));
            }
            1 => {
                let f = [(1, 8), (9, 8), (17, 32), (49, 32), (81, 32), (113, 32), (145, 64), (209, 32), (241, 64)];
                let (o, n) = r.one(&f);
                let (p, _) = r.one(&f.iter().copied().filter(|g| g.1 == n && g.0 != o).collect::<Vec<_>>());
                let x = self.ix().unwrap();
                if x.data.len() < 305 {
                    return false;
                }
                if n == 32 && r.has(1, 3) {
                    let k = pubkey(r.one(&NAMES));
                    x.data[o..o + 32].copy_from_slice(k.as_ref());
                    self.note(format!("data[{o}..] another key"));
                } else if n == 8 {
                    let v = u64at(&x.data, o);
                    let w = r.one(&[v.wrapping_add(1), v.wrapping_sub(1), v ^ 0x100, 0, u64::MAX, v.wrapping_add(432_000), v << 1]);
                    x.data[o..o + 8].copy_from_slice(&w.to_le_bytes());
                    self.note(format!("data[{o}..] {v} -> {w}"));
                } else {
                    let b = x.data[p..p + n].to_vec();
                    x.data[o..o + n].copy_from_slice(&b);
                    self.note(format!("data[{o}..] from {p}"));
                }
            }
            2 => {
                let n = r.one(&[1, 2, 8, 32, 64, 256]);
                let cut = r.has(1, 2);
                let fill = r.next() as u8;
                let x = self.ix().unwrap();
                let len = x.data.len();
                x.data.resize(if cut { len.saturating_sub(n) } else { len + n }, fill);
                self.note(format!("data length {len}, cut {cut} {n}"));
            }
            // the verification instruction
            3 => {
                let Some(e) = self.ed() else { return false };
                let d = &mut self.ixs[e].data;
                if d.len() < 16 {
                    return false;
                }
                let text = match r.below(6) {
                    0 => {
                        let (i, b) = (r.below(d.len()), r.below(8));
                        d[i] ^= 1 << b;
                        format!("ed25519[{i}] bit {b}")
                    }
                    1 | 2 => {
                        let i = 2 + 2 * r.below((d.len() - 2) / 2);
                        let v = r.one(&[0u16, at as u16, (at as u16).wrapping_sub(1), at as u16 + 1, 65535, 17, 49, 81, 113, 145, 209, 241, 32, 64, 16, 242, 18]);
                        d[i..i + 2].copy_from_slice(&v.to_le_bytes());
                        format!("ed25519[{i}..] {v}")
                    }
                    3 if d.len() >= 30 => {
                        let (a, b) = (d[2..16].to_vec(), d[16..30].to_vec());
                        d[2..16].copy_from_slice(&b);
                        d[16..30].copy_from_slice(&a);
                        "ed25519 entries swapped".into()
                    }
                    4 => {
                        let n = (d.len() - 2) / 14;
                        let i = r.below(n);
                        let e = d[2 + 14 * i..16 + 14 * i].to_vec();
                        let j = 2 + 14 * r.below(n + 1);
                        d.splice(j..j, e);
                        if r.has(2, 3) {
                            d[0] = d[0].wrapping_add(1);
                        }
                        format!("ed25519 entry {i} again at {j}")
                    }
                    _ => {
                        d[0] = r.one(&[0, 1, 2, 3]);
                        if r.has(1, 2) {
                            let n = 2 + 14 * d[0] as usize;
                            d.resize(n, 0);
                        }
                        format!("ed25519 count {}", d[0])
                    }
                };
                self.note(text);
            }
            // the proof buffer
            4 | 7 | 9 => {
                let Some((a, b)) = self.ranges() else { return false };
                let which = r.below(2);
                let (at, n) = [a, b][which];
                let both = r.has(1, 3);
                let off = self.offset();
                let choice = if kind == 7 { 1 } else { r.below(10) };
                let flip = (r.below(n.max(1)), r.below(8));
                let head = (r.one(&[64, 65, 66, 69, 72, 73, 73, 74, 76, 77, 78, 79, 79, 80, 82, 83, 84, 85, 85, 86, 87, 88]), r.next() as u8);
                let val = r.one(&[0u8, 1, 2, 3, 31, 32, 33, 63, 64, 127, 128, 192, 255, head.1]);
                let small = r.has(1, 2);
                let m = r.one(&[1usize, 2, 20, 32, 64, 100, 1000]);
                let v = r.one(&[0x46u8, 0x66, 0x76, 0x86, 0x96, 0xb6, 0x5a, 0xa5, 0x40, 0x80, 0x4f, 0x8f, 0x56, 0x6f, 0x7f, 0x9f, 0xbf]);
                let buf = self.proof().unwrap();
                let text = match choice {
                    0 => {
                        if n == 0 {
                            return false;
                        }
                        buf[at + flip.0] ^= 1 << flip.1;
                        format!("shred {which}[{}] bit {}", flip.0, flip.1)
                    }
                    1 | 2 | 3 | 4 => {
                        let tos: Vec<(usize, usize)> = if both { vec![a, b] } else { vec![(at, n)] };
                        for (at, n) in tos {
                            if head.0 < n {
                                let c = &mut buf[at + head.0];
                                *c = if small { c.wrapping_add(val % 4).wrapping_sub(2) } else { val };
                            }
                        }
                        format!("shred {which} (both {both}) [{}] {val} (small {small})", head.0)
                    }
                    5 => {
                        // one becomes the other
                        let s = buf[a.0..a.0 + a.1].to_vec();
                        let t = buf[b.0..b.0 + b.1].to_vec();
                        let (x, y) = match r.below(3) {
                            0 => (t.clone(), s.clone()),
                            1 => (s.clone(), s.clone()),
                            _ => (t.clone(), t.clone()),
                        };
                        let mut p = (x.len() as u32).to_le_bytes().to_vec();
                        p.extend(&x);
                        p.extend((y.len() as u32).to_le_bytes());
                        p.extend(&y);
                        buf.splice(off..b.0 + b.1, p);
                        "shreds exchanged or doubled".into()
                    }
                    6 => {
                        // the length stated for one
                        let l = at - 4;
                        let w = r.one(&[n as u32 + 1, (n as u32).wrapping_sub(1), 0, u32::MAX, n as u32 ^ 0x100, n as u32 + 64, 64, 65, 1203, 1228]);
                        buf[l..l + 4].copy_from_slice(&w.to_le_bytes());
                        format!("shred {which} length {n} -> {w}")
                    }
                    7 => {
                        // bytes more or fewer at its end, stated so
                        let cut = r.has(1, 2);
                        let w = if cut { n.saturating_sub(m) } else { n + m };
                        let mut s = buf[at..at + n].to_vec();
                        s.resize(w, val);
                        buf.splice(at..at + n, s);
                        buf[at - 4..at].copy_from_slice(&(w as u32).to_le_bytes());
                        format!("shred {which} {n} -> {w} bytes")
                    }
                    8 => {
                        if n <= 64 {
                            return false;
                        }
                        buf[at + 64] = v;
                        let want = if layout(v).is_some_and(|l| l.code) { 1228 } else { 1203 };
                        let mut s = buf[at..at + n].to_vec();
                        s.resize(want, val);
                        buf.splice(at..at + n, s);
                        buf[at - 4..at].copy_from_slice(&(want as u32).to_le_bytes());
                        format!("shred {which} variant {v}")
                    }
                    _ => {
                        let cut = r.has(1, 2);
                        let len = buf.len();
                        buf.resize(if cut { len.saturating_sub(m) } else { len + m }, val);
                        format!("buffer {len}, cut {cut} {m}")
                    }
                };
                self.note(text);
            }
            // the accounts
            5 => {
                let other = r.one(&[pubkey("N1"), pubkey("D"), pubkey("proof"), ids::ixsysvar(), ids::system(), ids::slashing(), ids::clock()]);
                let (c, i, j, w) = (r.below(6), r.below(8), r.below(8), r.has(1, 2));
                let x = self.ix().unwrap();
                let n = x.accounts.len();
                if n == 0 {
                    return false;
                }
                match c {
                    0 => drop(x.accounts.remove(i % n)),
                    1 => {
                        let m = x.accounts[i % n].clone();
                        x.accounts.insert(j % (n + 1), m)
                    }
                    2 => x.accounts.swap(i % n, j % n),
                    3 => x.accounts[i % n].pubkey = other,
                    4 => x.accounts[i % n].is_writable ^= true,
                    _ => x.accounts.push(AccountMeta { pubkey: other, is_signer: false, is_writable: w }),
                }
                self.note(format!("accounts: {c} {i} {j}"));
            }
            // the clock and the schedule
            6 => {
                let slot = self.ix().map_or(0, |x| u64at(&x.data, 9));
                let e = &mut self.env;
                let spe = e.schedule.slots_per_epoch;
                match r.below(6) {
                    0 => e.clock.slot = slot.saturating_add(spe).saturating_add(r.below(3) as u64).saturating_sub(1),
                    1 => e.clock.slot = slot.saturating_add(r.below(3) as u64).saturating_sub(1),
                    2 => e.schedule.slots_per_epoch = r.one(&[0, 1, 32, spe.saturating_sub(1), spe.saturating_add(1), 432_000, u64::MAX]),
                    3 => e.clock.epoch = r.one(&[0, 1, 2, 3, 255, 256, u64::MAX, u64::MAX - 1]),
                    4 => e.clock.epoch = e.clock.epoch.wrapping_add(r.below(9) as u64).wrapping_sub(4),
                    _ => {
                        e.rent.lamports_per_byte_year = r.one(&[0, 1, 3479, 3480, 3481, 6960, 20_000]);
                        e.rent.exemption_threshold = r.one(&[1.0, 2.0, 3.0]);
                    }
                }
                self.note("clock, schedule or rent".into());
            }
            // the report account
            8 => {
                let Some(k) = self.report_key() else { return false };
                let stored = self.ranges().map_or(0, |(a, b)| 122 + a.1 + b.1);
                let min = self.env.rent.minimum_balance(stored);
                let a = self.world.entry(k).or_default();
                match r.below(5) {
                    0 | 1 => a.lamports = min.saturating_add(r.below(3) as u64).saturating_sub(1),
                    2 => a.lamports = r.one(&[0, 1, 890_880, 2_000_000, 1 << 40, (min / 2).max(1)]),
                    3 => {
                        a.owner = r.one(&[ids::slashing(), ids::system(), ids::record()]);
                        let n = r.one(&[0, 1, 114, 200, 2500]);
                        a.data = vec![r.one(&[0u8, 1, 2, 255]); n];
                    }
                    _ => a.executable = r.has(1, 4),
                }
                self.note("report account".into());
            }
            // an existing report
            10 => {
                let Some(k) = self.report_key() else { return false };
                let now = self.env.clock.epoch;
                let Some(a) = self.world.get_mut(&k) else { return false };
                if a.data.len() < 114 {
                    return false;
                }
                match r.below(6) {
                    0 => {
                        let (i, b) = (r.below(115.min(a.data.len())), r.below(8));
                        a.data[i] ^= 1 << b;
                    }
                    1 | 2 => {
                        let e = now.wrapping_sub(r.below(6) as u64);
                        a.data[65..73].copy_from_slice(&e.to_le_bytes());
                    }
                    3 => {
                        let n = r.one(&[0, 1, 33, 65, 73, 113, 114, 115, 200]);
                        a.data.truncate(n);
                    }
                    4 => {
                        let i = r.one(&[0usize, 113]);
                        a.data[i] = r.one(&[0u8, 1, 2, 255]);
                    }
                    _ => a.owner = r.one(&[ids::slashing(), ids::record(), ids::system()]),
                }
                self.note("an existing report".into());
            }
            // the transaction
            11 => {
                let noop = Ix { program: ids::noop(), accounts: vec![], data: vec![1, 2, 3], inner: vec![] };
                match r.below(4) {
                    0 => self.ixs.insert(0, noop),
                    1 => self.ixs.insert(at, noop),
                    2 => {
                        if let Some(e) = self.ed() {
                            let x = self.ixs[e].clone();
                            self.ixs.insert(r.below(self.ixs.len() + 1), x);
                        }
                    }
                    _ => {
                        let n = self.ixs.len();
                        let (i, j) = (r.below(n), r.below(n));
                        self.ixs.swap(i, j);
                    }
                }
                self.note("instructions moved".into());
            }
            _ => {
                if inner {
                    // called directly
                    let x = self.ix().unwrap().clone();
                    self.ixs[at] = x;
                    self.note("called directly".into());
                } else {
                    let x = self.ixs[at].clone();
                    let mut accounts = x.accounts.clone();
                    accounts.push(AccountMeta::new_readonly(ids::slashing(), false));
                    let data = if r.has(2, 3) { x.data.clone() } else { vec![] };
                    self.ixs[at] = Ix { program: ids::proxy(), accounts, data, inner: vec![x] };
                    self.note("called through another program".into());
                }
            }
        }
        true
    }
}

fn situation(v: &Value, r: &mut Rng) -> Option<Sit> {
    let mut t = Terms::default();
    if let Some(s) = v.get("shreds") {
        t.build_shreds(s);
    }
    let mut env = Env::default();
    if let Some(e) = v.get("env") {
        set_env(&mut env, e);
    }
    let mut w = World::new();
    for x in v.get("accts").and_then(|a| a.as_array()).into_iter().flatten() {
        let (k, a) = acct(&t, x);
        w.insert(k, a);
    }
    let txs = v["txs"].as_array()?;
    let stop = r.below(txs.len());
    for (n, tx) in txs.iter().enumerate() {
        if let Some(e) = tx.get("env") {
            set_env(&mut env, e);
        }
        for x in tx.get("put").and_then(|a| a.as_array()).into_iter().flatten() {
            let (k, a) = acct(&t, x);
            w.insert(k, a);
        }
        let list = tx["ixs"].as_array()?;
        if list.iter().any(|i| i.get("help").is_some()) {
            return None;
        }
        let ixs: Vec<Ix> = list.iter().flat_map(|i| expand(&t, i)).collect();
        if n == stop {
            let known = NAMES.iter().map(|n| (pubkey(n), n.to_string())).collect();
            return Some(Sit { env, world: w, ixs, notes: vec![], known });
        }
        exec(&env, &mut w, &ixs);
    }
    None
}

// ------------------------------------------------------------------ recording

fn bytes(b: &[u8]) -> Value {
    Value::Array(b.iter().map(|x| Value::from(*x)).collect())
}
fn limbs(x: u64) -> Value {
    json!([x >> 48, (x >> 32) & 0xffff, (x >> 16) & 0xffff, x & 0xffff])
}
fn account(k: &Pubkey, a: &Acct) -> Value {
    json!({"k": bytes(k.as_ref()), "lam": limbs(a.lamports), "own": bytes(a.owner.as_ref()), "dat": bytes(&a.data), "exe": a.executable})
}
fn line(n: usize, env: &Env, ixs: &[Ix], i: &Invocation) -> Value {
    let mut d = i.data.clone();
    d.resize(d.len().max(305), 0);
    let node = Pubkey::new_from_array(d[17..49].try_into().unwrap());
    let mut roots = vec![];
    if i.data.first() == Some(&1) {
        if let Some(a) = i.metas.first().and_then(|m| i.pre.iter().find(|p| p.0 == m.pubkey)) {
            let off = u64at(&d, 1);
            if let Some((x, y)) = usize::try_from(off).ok().and_then(|o| packed(&a.1.data, o)) {
                for (w, (at, len)) in [x, y].into_iter().enumerate() {
                    if let Some((l, leaf, h)) = root(&a.1.data[at..at + len]) {
                        roots.push(json!({"sh": w + 1, "from": 64, "to": l.at, "depth": l.depth, "leaf": leaf, "root": bytes(&h)}));
                    }
                }
            }
        }
    }
    let (k, c) = match &i.result {
        Ok(()) => ("ok", 0),
        Err(Fail::Custom(c)) => ("custom", *c),
        Err(Fail::Panic(_)) => ("panic", 0),
        Err(Fail::Runtime(_)) => ("runtime", 0),
        Err(_) => ("other", 0),
    };
    // (the specification's integers have 31 bits)
    let c = if c > 1_000_000 { 1_000_000 } else { c };
    json!({
        "n": n, "d": bytes(&i.data),
        "acc": i.metas.iter().map(|m| json!({"k": bytes(m.pubkey.as_ref()), "w": m.is_writable})).collect::<Vec<_>>(),
        "env": {"slot": limbs(env.clock.slot), "epoch": limbs(env.clock.epoch), "spe": limbs(env.schedule.slots_per_epoch),
                "rate": limbs(env.rent.lamports_per_byte_year), "thr": env.rent.exemption_threshold as u64},
        "ixs": ixs.iter().map(|x| json!({"p": bytes(x.program.as_ref()), "d": bytes(&x.data)})).collect::<Vec<_>>(),
        "cur": i.current, "direct": i.depth == 0,
        "pre": i.pre.iter().map(|(k, a)| account(k, a)).collect::<Vec<_>>(),
        "post": i.post.iter().map(|(k, a)| account(k, a)).collect::<Vec<_>>(),
        "r": {"k": k, "n": c},
        "pda": bytes(pda(&node, u64at(&d, 9), 1).as_ref()),
        "roots": roots,
    })
}

/// `trace FILE --count N --seed S --out PREFIX --parts K --notes FILE`: records at
/// least N invocations, if the scenarios in FILE yield them.
pub fn cmd(args: &[String]) {
    let get = |n: &str| args.iter().position(|a| a == n).map(|i| args[i + 1].clone());
    let count: usize = get("--count").map_or(1000, |s| s.parse().unwrap());
    let seed: u64 = get("--seed").map_or(1, |s| s.parse().unwrap());
    let parts: usize = get("--parts").map_or(1, |s| s.parse().unwrap());
    let out = get("--out").unwrap();
    let text = std::fs::read_to_string(&args[0]).unwrap();
    let lines: Vec<&str> = text.lines().filter(|l| l.starts_with('{') || l.starts_with("\"{")).collect();
    crate::rt::install();
    let mut files: Vec<_> = (0..parts).map(|i| std::io::BufWriter::new(std::fs::File::create(format!("{out}.{i}")).unwrap())).collect();
    let mut notes = std::io::BufWriter::new(std::fs::File::create(format!("{out}.notes")).unwrap());
    let (mut done, mut from) = (0, 0);
    while done < count && from < count * 4 {
        let made: Vec<(Vec<String>, String)> = (from..from + 1000).into_par_iter().map(|n| {
            let f = std::panic::AssertUnwindSafe(|| one(n, seed, &lines));
            std::panic::catch_unwind(f).unwrap_or_else(|_| {
                eprintln!("recording failed at {n}: {}", crate::rt::last_panic());
                std::process::exit(3)
            })
        }).collect();
        from += 1000;
        for (ls, note) in made {
            if done >= count {
                break;
            }
            for l in &ls {
                writeln!(files[done % parts], "{l}").unwrap();
                done += 1;
            }
            if !ls.is_empty() {
                writeln!(notes, "{note}").unwrap();
            }
        }
    }
}

/// One situation, bent and run.
fn one(n: usize, seed: u64, lines: &[&str]) -> (Vec<String>, String) {
    let mut r = Rng(seed.wrapping_mul(1_000_003).wrapping_add(n as u64));
    r.next();
    let v = crate::parse(lines[r.below(lines.len())]);
    let Some(mut s) = situation(&v, &mut r) else { return (vec![], String::new()) };
    let times = r.one(&[0, 1, 1, 1, 2, 2, 3, 5]);
    let mut k = 0;
    while k < times {
        if s.bend(&mut r) || r.has(1, 10) {
            k += 1;
        }
    }
    if r.has(3, 4) {
        s.repair(&mut r);
    }
    let ixs = s.ixs.clone();
    let mut w = s.world.clone();
    let (_, invs) = record_invocations(|| exec(&s.env, &mut w, &ixs));
    // (the specification's rent has a whole exemption threshold)
    let whole = s.env.rent.exemption_threshold.fract() == 0.0 && s.env.rent.exemption_threshold < 1000.0;
    let ls = invs.iter().filter(|_| whole).map(|i| line(n, &s.env, &ixs, i).to_string()).collect::<Vec<_>>();
    (ls, json!({"n": n, "seed": seed, "bent": s.notes, "group": v.get("g"), "scenario": v}).to_string())
}
