//! Executes one scenario against the code under test and compares the outcome
//! with what the specification allows.
use {
    crate::{
        conc::{key, num, Terms},
        rt::{exec, Acct, Env, Fail, Ix, TxOut, World},
    },
    serde_json::{json, Value},
    solana_program::{instruction::AccountMeta, pubkey::Pubkey},
};

pub struct Mismatch {
    pub kind: &'static str,
    pub step: usize,
    pub text: String,
    /// the properties this breaks
    pub props: Vec<String>,
}
#[derive(Default)]
pub struct Outcome {
    pub mismatches: Vec<Mismatch>,
    /// one short tag per step: ok / refusal text
    pub tags: Vec<String>,
    pub panicked: bool,
}

pub fn metas(v: &Value) -> Vec<AccountMeta> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|a| {
            let f = a[1].as_str().unwrap();
            AccountMeta {
                pubkey: key(&a[0]),
                is_signer: f.contains('s'),
                is_writable: f.contains('w'),
            }
        })
        .collect()
}
pub fn ix(t: &Terms, v: &Value) -> Ix {
    Ix {
        program: key(&v["p"]),
        accounts: metas(&v["a"]),
        data: t.bytes(&v["d"]),
        inner: v
            .get("inner")
            .and_then(|i| i.as_array())
            .map(|a| a.iter().map(|x| ix(t, x)).collect())
            .unwrap_or_default(),
    }
}
/// An instruction of a scenario: bytes of its own, or a published helper's.
pub fn expand(t: &Terms, v: &Value) -> Vec<Ix> {
    use {
        solana_program::rent::Rent,
        solana_slashing_program::{
            get_violation_report_address,
            instruction::{
                close_violation_report, duplicate_block_proof,
                duplicate_block_proof_with_sigverify_and_prefund, DuplicateBlockProofInstructionData,
            },
            state::ProofType,
        },
    };
    let Some(kind) = v.get("help").and_then(|k| k.as_str()) else { return vec![ix(t, v)] };
    let h = &v["h"];
    let sig = |n: &Value| -> [u8; 64] {
        t.bytes(&json!([["sig", n]])).try_into().unwrap()
    };
    let data = DuplicateBlockProofInstructionData {
        offset: num(&h["off"]).into(),
        slot: num(&h["slot"]).into(),
        node_pubkey: key(&h["node"]),
        reporter: key(&h["rep"]),
        destination: key(&h["dst"]),
        shred_1_merkle_root: t.shreds[h["s1"].as_str().unwrap()].root.into(),
        shred_1_signature: sig(&h["s1"]),
        shred_2_merkle_root: t.shreds[h["s2"].as_str().unwrap()].root.into(),
        shred_2_signature: sig(&h["s2"]),
    };
    let proof = key(&h["proof"]);
    let funder = h["funder"].as_array().filter(|a| !a.is_empty()).map(|_| key(&h["funder"]));
    let rent = Rent {
        lamports_per_byte_year: num(&h["rate"]),
        exemption_threshold: num(&h["thr"]) as f64,
        ..Rent::default()
    };
    match kind {
        "three" => duplicate_block_proof_with_sigverify_and_prefund(&proof, &data, funder.as_ref(), &rent)
            .into_iter()
            .map(Ix::from)
            .collect(),
        "submit" => vec![duplicate_block_proof(&proof, &data).into()],
        "close" => {
            let (k, _) = get_violation_report_address(
                &data.node_pubkey,
                num(&h["slot"]),
                ProofType::DuplicateBlockProof,
            );
            vec![close_violation_report(&k, &data.destination).into()]
        }
        x => panic!("unknown helper {x}"),
    }
}

/// Size of a transaction of these instructions on the wire.
fn wire_size(ixs: &[Ix], payer: &Pubkey) -> usize {
    let list: Vec<solana_program::instruction::Instruction> = ixs
        .iter()
        .map(|i| solana_program::instruction::Instruction {
            program_id: i.program,
            accounts: i.accounts.clone(),
            data: i.data.clone(),
        })
        .collect();
    let m = solana_program::message::Message::new(&list, Some(payer));
    1 + 64 * m.header.num_required_signatures as usize + m.serialize().len()
}

/// Pure functions of the published interface.
fn call(t: &Terms, c: &Value) -> Result<(), (&'static str, String)> {
    use solana_slashing_program::{
        duplicate_block_proof::DuplicateBlockProofData,
        get_violation_report_address,
        instruction::DuplicateBlockProofInstructionData,
        state::{ProofType, SlashingProofData, ViolationReport},
    };
    let content = |s: String| Err(("content", s));
    match c["f"].as_str().unwrap() {
        "pack" => {
            let (a, b, w) = (t.bytes(&c["a"]), t.bytes(&c["b"]), t.bytes(&c["want"]));
            let got = DuplicateBlockProofData { shred1: &a, shred2: &b }.pack_proof();
            if got != w {
                return content(format!("pack_proof of {} and {} bytes is not the two prefixed by their lengths", a.len(), b.len()));
            }
        }
        "lens" => {
            let (a, b) = (t.bytes(&c["a"]), t.bytes(&c["b"]));
            let p = DuplicateBlockProofData { shred1: &a, shred2: &b };
            let got = [p.packed_len() as u64, ViolationReport::packed_len(&p) as u64];
            if got != [num(&c["want"][0]), num(&c["want"][1])] {
                return content(format!("packed lengths for {} and {} bytes: {got:?}, not {}", a.len(), b.len(), c["want"]));
            }
        }
        "roundtrip" => {
            let (a, b) = (t.bytes(&c["a"]), t.bytes(&c["b"]));
            let p = DuplicateBlockProofData { shred1: &a, shred2: &b }.pack_proof();
            match DuplicateBlockProofData::unpack_proof(&p) {
                Ok(q) if q.shred1 == a && q.shred2 == b => (),
                r => return content(format!("{} and {} bytes do not survive packing: {:?}", a.len(), b.len(), r.map(|q| (q.shred1.len(), q.shred2.len())))),
            }
        }
        "unpack" => {
            // placed so that nothing about its alignment can be relied upon
            let mut d = vec![0u8; 1];
            d.extend(t.bytes(&c["d"]));
            let d = &d[1..];
            match (DuplicateBlockProofData::unpack_proof(d), c.get("err")) {
                (Ok(q), None) => {
                    let (a, b) = (t.bytes(&c["a"]), t.bytes(&c["b"]));
                    if q.shred1 != a || q.shred2 != b {
                        return content(format!("unpacked {} and {} bytes, not the {} and {} stated", q.shred1.len(), q.shred2.len(), a.len(), b.len()));
                    }
                }
                (Ok(q), Some(_)) => return Err(("accepted", format!("{} bytes were unpacked as {} and {}", d.len(), q.shred1.len(), q.shred2.len()))),
                (Err(e), None) => return Err(("refused", format!("{} bytes were not unpacked: {e:?}", d.len()))),
                (Err(e), Some(_)) => {
                    let n = e as u64;
                    if !c["codes"].as_array().unwrap().iter().any(|x| num(x) == n) {
                        return Err(("code", format!("refused with error {n}, not {}", c["codes"])));
                    }
                }
            }
        }
        "address" => {
            let (k, bump) = get_violation_report_address(&key(&c["node"]), num(&c["slot"]), ProofType::DuplicateBlockProof);
            let again = Pubkey::create_program_address(
                &[key(&c["node"]).as_ref(), &num(&c["slot"]).to_le_bytes(), &[1], &[bump]],
                &crate::rt::ids::slashing(),
            );
            if k != key(&c["want"]) || again != Ok(k) {
                return content(format!("report address {k} is not {}", key(&c["want"])));
            }
        }
        "sizes" => {
            let p = ProofType::DuplicateBlockProof.proof_account_length() as u64;
            let r = ViolationReport::size::<DuplicateBlockProofData>() as u64;
            let s = DuplicateBlockProofInstructionData::sigverify_data_offset() as u64;
            if p < num(&c["proof"]) || r < num(&c["report"]) || s != num(&c["sigdata"]) {
                return content(format!("sizes: proof account {p}, report {r}, verified data at {s}"));
            }
        }
        "report" => {
            let d = t.bytes(&c["d"]);
            let v = ViolationReport::version(&d) as u64;
            let r: &ViolationReport = spl_pod::bytemuck::pod_from_bytes(&d).unwrap();
            if v != num(&c["version"])
                || v != ViolationReport::VERSION as u64
                || r.epoch() != num(&c["epoch"])
                || r.slot() != num(&c["slot"])
                || r.violation_type() != ProofType::DuplicateBlockProof
            {
                return content(format!("a report is read as version {v}, epoch {}, slot {}", r.epoch(), r.slot()));
            }
        }
        x => panic!("unknown call {x}"),
    }
    Ok(())
}

pub fn set_env(e: &mut Env, v: &Value) {
    let Some(m) = v.as_object() else { return };
    for (k, x) in m {
        match k.as_str() {
            "slot" => e.clock.slot = num(x),
            "epoch" => {
                // the rest of the clock has no bearing on anything: let it look as on a cluster
                e.clock.epoch = num(x);
                e.clock.leader_schedule_epoch = num(x).saturating_add(1);
                e.clock.epoch_start_timestamp = 1_700_000_000;
                e.clock.unix_timestamp = 1_700_100_000;
            }
            "ts" => e.clock.unix_timestamp = num(x) as i64,
            "spe" => e.schedule.slots_per_epoch = num(x),
            "lso" => e.schedule.leader_schedule_slot_offset = num(x),
            "fne" => e.schedule.first_normal_epoch = num(x),
            "fns" => e.schedule.first_normal_slot = num(x),
            "warmup" => e.schedule.warmup = x.as_bool().unwrap(),
            "rate" => e.rent.lamports_per_byte_year = num(x),
            "thr" => e.rent.exemption_threshold = num(x) as f64,
            _ => panic!("unknown env field {k}"),
        }
    }
}
pub fn acct(t: &Terms, v: &Value) -> (Pubkey, Acct) {
    (
        key(&v["k"]),
        Acct {
            lamports: num(&v["lam"]),
            owner: key(&v["own"]),
            data: t.bytes(&v["data"]),
            executable: v.get("exe").and_then(|x| x.as_bool()).unwrap_or(false),
        },
    )
}

fn brief(a: Option<&Acct>) -> String {
    match a {
        None => "absent".into(),
        Some(a) => {
            let h = crate::conc::sha(&[&a.data]);
            format!(
                "lamports={} owner={} len={} sha={:02x}{:02x}{:02x}{:02x}",
                a.lamports,
                a.owner,
                a.data.len(),
                h[0], h[1], h[2], h[3]
            )
        }
    }
}

/// The outcome the property is judged by: the program's own last invocation, or
/// `None` if it was never reached.
fn program_outcome(o: &TxOut) -> Option<&Result<(), Fail>> {
    o.program.last()
}

pub fn run(v: &Value) -> Outcome {
    let mut out = Outcome::default();
    let mut t = Terms::default();
    if let Some(s) = v.get("shreds") {
        t.build_shreds(s);
    }
    let mut env = Env::default();
    if let Some(e) = v.get("env") {
        set_env(&mut env, e);
    }
    let mut w: World = World::new();
    if let Some(a) = v.get("accts").and_then(|a| a.as_array()) {
        for x in a {
            let (k, a) = acct(&t, x);
            w.insert(k, a);
        }
    }
    for (n, tx) in v["txs"].as_array().unwrap().iter().enumerate() {
        if let Some(e) = tx.get("env") {
            set_env(&mut env, e);
        }
        // accounts placed from outside (other programs' doing)
        if let Some(a) = tx.get("put").and_then(|a| a.as_array()) {
            for x in a {
                let (k, a) = acct(&t, x);
                w.insert(k, a);
            }
        }
        let before = w.clone();
        let made = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            tx["ixs"].as_array().unwrap().iter().flat_map(|i| expand(&t, i)).collect::<Vec<Ix>>()
        }));
        let helped = tx["ixs"].as_array().unwrap().iter().any(|i| i.get("help").is_some());
        let (ixs, o) = match made {
            Ok(ixs) => {
                let o = exec(&env, &mut w, &ixs);
                (ixs, o)
            }
            Err(_) if helped => (
                vec![],
                TxOut { result: Err((0, Fail::Runtime("a published helper aborted".into()))), program: vec![] },
            ),
            Err(_) => panic!("bad scenario: {}", crate::rt::last_panic()),
        };
        if std::env::var_os("SHOW").is_some() {
            eprintln!("step {n}: {:?}", o);
            let mut ks: Vec<_> = w.iter().collect();
            ks.sort_by_key(|k| k.0);
            for (k, a) in ks {
                eprintln!("   {k}: {}", brief(Some(a)));
            }
        }
        judge(n, tx, &t, &before, &w, &o, &ixs, &mut out);
    }
    for (n, c) in v.get("calls").and_then(|c| c.as_array()).into_iter().flatten().enumerate() {
        crate::rt::install();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| call(&t, c)))
            .unwrap_or_else(|_| Err(("panic", format!("{} aborted: {}", c["f"], crate::rt::last_panic()))));
        if let Err((kind, text)) = r {
            let mut props: Vec<String> = c["pr"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
            if kind == "code" {
                props = vec!["C18".into()];
            }
            out.tags.push(kind.to_string());
            out.mismatches.push(Mismatch { kind, step: n, text, props });
        } else {
            out.tags.push(format!("{} as specified", c["f"].as_str().unwrap()));
        }
    }
    // no two of these steps may both have succeeded
    if let Some(a) = v.get("once").and_then(|a| a.as_array()) {
        let ok: Vec<usize> =
            a.iter().map(|x| num(x) as usize).filter(|i| out.tags[*i] == "ok").collect();
        if ok.len() > 1 {
            out.mismatches.push(Mismatch {
                kind: "twice",
                step: ok[1],
                text: format!("one violation was reported {} times, in steps {ok:?}", ok.len()),
                props: vec!["C12".into()],
            });
        }
    }
    out
}

pub fn judge(
    n: usize,
    tx: &Value,
    t: &Terms,
    before: &World,
    after: &World,
    o: &TxOut,
    ixs: &[Ix],
    out: &mut Outcome,
) {
    let po = program_outcome(o);
    let tag = match (&o.result, po) {
        (Ok(()), _) => "ok".to_string(),
        (Err((_, f)), _) => f.text(),
    };
    let props = |kind: &str| -> Vec<String> {
        match kind {
            "panic" => vec!["C15".into()],
            "code" => vec!["C18".into()],
            k => tx["x"]["pr"][k]
                .as_array()
                .map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect())
                .unwrap_or_default(),
        }
    };
    let mut bad = |kind: &'static str, text: String| {
        out.mismatches.push(Mismatch { kind, step: n, text, props: props(kind) })
    };
    for p in &o.program {
        if let Err(Fail::Panic(m)) = p {
            bad("panic", format!("the program aborted: {m}"));
        }
    }
    let e = &tx["x"];
    let at_tx = e.get("at").and_then(|a| a.as_str()) == Some("tx");
    let want = e.get("v").and_then(|a| a.as_str()).unwrap_or("any");
    match want {
        "ok" => {
            if let Err((i, f)) = &o.result {
                bad("refused", format!("must succeed, but instruction {i} failed with {}", f.text()));
            }
        }
        "err" => {
            let refused = if at_tx { o.result.is_err() } else { po.is_none_or(|r| r.is_err()) };
            if !refused {
                bad("accepted", "must be refused, but succeeded".into());
            }
        }
        "any" => (),
        x => panic!("unknown verdict {x}"),
    }
    if let Some(codes) = e.get("codes").and_then(|c| c.as_array()) {
        // judged per invocation of the program; a list per transaction
        if let Some(Err(Fail::Custom(c))) = po {
            if !codes.iter().any(|x| num(x) == *c as u64) {
                bad("code", format!("refused with error {c}, but the faults present are {codes:?}"));
            }
        }
    }
    if let Some(s) = e.get("signers").and_then(|s| s.as_array()) {
        let mut want: Vec<Pubkey> = s.iter().map(key).collect();
        let mut got: Vec<Pubkey> =
            ixs.iter().flat_map(|i| &i.accounts).filter(|m| m.is_signer).map(|m| m.pubkey).collect();
        want.sort();
        got.sort();
        got.dedup();
        if want != got {
            bad("refused", format!("signatures are needed of {got:?}, not of {want:?}"));
        }
    }
    if let Some(p) = e.get("payer") {
        let n = wire_size(ixs, &key(p));
        if n > 1232 {
            bad("refused", format!("the transaction takes {n} bytes"));
        }
    }
    if o.result.is_ok() && e.get("delta").is_some() {
        let mut want: Vec<(Pubkey, Option<Acct>)> = vec![];
        for d in e["delta"].as_array().unwrap() {
            if d.get("gone").is_some() {
                want.push((key(&d["k"]), None));
            } else {
                let (k, a) = acct(t, d);
                want.push((k, Some(a)));
            }
        }
        let lam = |w: &World, k: &Pubkey| w.get(k).map_or(0, |a| a.lamports);
        // a payment of an amount that is not specified, only that it is enough
        if let Some(p) = e.get("pay").and_then(|p| p.as_array()) {
            let (from, to, min) = (key(&p[0]), key(&p[1]), num(&p[2]));
            let paid = lam(before, &from).saturating_sub(lam(after, &from));
            if paid < min {
                bad("money", format!("{from} paid {paid}, which is less than {min}"));
            }
            for (k, a) in want.iter_mut() {
                let Some(a) = a else { continue };
                if *k == from {
                    a.lamports = a.lamports.saturating_sub(paid);
                }
                if *k == to {
                    a.lamports += paid;
                }
            }
        }
        // a whole balance, whatever it is
        if let Some(p) = e.get("sweep").and_then(|p| p.as_array()) {
            let (from, to) = (key(&p[0]), key(&p[1]));
            let mut a = before.get(&to).cloned().unwrap_or_default();
            a.lamports += lam(before, &from);
            want.push((to, Some(a)));
        }
        let report = |a: Option<&Acct>| {
            a.is_some_and(|a| a.owner == crate::rt::ids::slashing() && !a.data.is_empty())
        };
        for (k, a) in &want {
            let (e, f) = (a.as_ref(), after.get(k));
            if e == f {
                continue;
            }
            let text = format!("account {k}: expected {}, found {}", brief(e), brief(f));
            let body = |a: Option<&Acct>| a.map(|a| (a.owner, a.data.clone(), a.executable));
            if e.map_or(0, |a| a.lamports) != f.map_or(0, |a| a.lamports) {
                bad("money", text.clone());
            }
            if body(e) != body(f) {
                bad("content", text);
            }
        }
        let mut keys: Vec<&Pubkey> = before.keys().chain(after.keys()).collect();
        keys.sort();
        keys.dedup();
        for k in keys {
            if want.iter().any(|(x, _)| x == k) {
                continue;
            }
            if before.get(k) != after.get(k) {
                let text = format!(
                    "account {k} was changed: {} -> {}",
                    brief(before.get(k)),
                    brief(after.get(k))
                );
                if report(before.get(k)) {
                    bad("altered", text.clone());
                }
                if before.get(k).map_or(0, |a| a.lamports) != after.get(k).map_or(0, |a| a.lamports) {
                    bad("money", text.clone());
                }
                bad("other", text);
            }
        }
    }
    out.panicked |= tag.starts_with("panic");
    out.tags.push(tag);
}

pub fn report(v: &Value, o: &Outcome) -> Value {
    json!({
        "scenario": v,
        "observed": o.tags,
        "mismatches": o.mismatches.iter().map(|m| json!({"kind": m.kind, "step": m.step, "text": m.text, "props": m.props})).collect::<Vec<_>>(),
    })
}
