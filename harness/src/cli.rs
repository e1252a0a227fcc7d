//! Runs the command-line client on scenarios: real binary, stand-in cluster.
use {
    crate::{
        chain::{serve, Chain, Chains, Sent},
        conc::{key, keypair, num, Terms},
        rt::{ids, Acct, World},
    },
    rayon::prelude::*,
    serde_json::{json, Value},
    solana_program::pubkey::Pubkey,
    std::{
        collections::{BTreeMap, HashMap},
        io::{BufRead, Read, Write},
        path::{Path, PathBuf},
        process::{Command, Stdio},
        sync::{Arc, Mutex},
        time::{Duration, Instant},
    },
};

struct Ran {
    stdout: String,
    stderr: String,
    code: Option<i32>,
    timeout: bool,
}

fn write_key(dir: &Path, name: &str) -> PathBuf {
    let p = dir.join(format!("{name}.json"));
    let b = keypair(name).to_bytes();
    std::fs::write(&p, serde_json::to_string(&b.to_vec()).unwrap()).unwrap();
    p
}
fn copy_dir(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).unwrap_or_else(|e| panic!("{}: {e}", from.display())).flatten() {
        if e.file_type().unwrap().is_dir() {
            copy_dir(&e.path(), &to.join(e.file_name()));
        } else {
            std::fs::copy(e.path(), to.join(e.file_name())).unwrap();
        }
    }
}

fn args(v: &Value, dir: &Path) -> Vec<String> {
    v["args"]
        .as_array()
        .unwrap()
        .iter()
        .map(|a| {
            if let Some(s) = a.get("s") {
                s.as_str().unwrap().to_string()
            } else if let Some(n) = a.get("n") {
                num(n).to_string()
            } else if let Some(k) = a.get("k") {
                key(k).to_string()
            } else {
                write_key(dir, a["f"].as_str().unwrap()).display().to_string()
            }
        })
        .collect()
}

pub struct Setup {
    pub exe: PathBuf,
    pub fixtures: PathBuf,
    pub work: PathBuf,
    pub chains: Chains,
    pub port: u16,
    pub preload: Option<String>,
}

struct Out {
    buf: Arc<Mutex<String>>,
    at: std::thread::JoinHandle<()>,
}
fn drain(r: impl Read + Send + 'static) -> Out {
    let buf = Arc::new(Mutex::new(String::new()));
    let b = buf.clone();
    let at = std::thread::spawn(move || {
        let mut r = std::io::BufReader::new(r);
        let mut line = vec![];
        loop {
            line.clear();
            match r.read_until(b'\n', &mut line) {
                Ok(0) | Err(_) => return,
                Ok(_) => b.lock().unwrap().push_str(&String::from_utf8_lossy(&line)),
            }
        }
    });
    Out { buf, at }
}
const LIMIT: Duration = Duration::from_secs(120);

fn launch(s: &Setup, id: &str, v: &Value, dir: &Path, chain: &Arc<Mutex<Chain>>, t: &Terms) -> Ran {
    std::fs::create_dir_all(dir).unwrap();
    let me = write_key(dir, "Me");
    let cfg = dir.join("config.yml");
    std::fs::write(
        &cfg,
        format!(
            "json_rpc_url: \"http://127.0.0.1:{}/{id}\"\nwebsocket_url: \"\"\nkeypair_path: {}\naddress_labels: {{}}\ncommitment: confirmed\n",
            s.port,
            if v.get("nokey").is_some() { dir.join("none.json").display().to_string() } else { me.display().to_string() }
        ),
    )
    .unwrap();
    let command = v["cli"].as_str().unwrap();
    let mut c = Command::new(&s.exe);
    c.arg("--config").arg(&cfg).arg(command);
    let ledger = dir.join("ledger");
    let leds: Vec<&str> = v.get("led").and_then(|l| l.as_array()).map(|a| a.iter().map(|x| x.as_str().unwrap()).collect()).unwrap_or_default();
    if let Some(l) = leds.first() {
        copy_dir(&s.fixtures.join(l), &ledger);
        c.arg("--ledger").arg(&ledger);
    }
    c.args(args(v, dir));
    c.env_clear().env("HOME", dir).env("PATH", "/usr/bin:/bin").env("RUST_LOG", "off").env("RUST_BACKTRACE", "0").current_dir(dir);
    if let Some(p) = &s.preload {
        c.env("LD_PRELOAD", p);
    }
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let t0 = Instant::now();
    let mut child = c.spawn().unwrap_or_else(|e| panic!("{}: {e}", s.exe.display()));
    let (o, e) = (drain(child.stdout.take().unwrap()), drain(child.stderr.take().unwrap()));
    let mut phase = 0usize;
    let (mut base, mut marks) = (0usize, 0usize);
    let mut status = None;
    let mut timeout = false;
    loop {
        if let Some(st) = child.try_wait().unwrap() {
            status = Some(st);
            break;
        }
        if t0.elapsed() > LIMIT {
            timeout = true;
            let _ = child.kill();
            break;
        }
        if leds.len() > 1 {
            // continuous: a scan is over when the client says so, or is silent
            let n = o.buf.lock().unwrap().matches("Scanning again").count();
            let (idle, req) = {
                let c = chain.lock().unwrap();
                (c.last.elapsed(), c.requests)
            };
            if n > marks || (req > base && idle > Duration::from_secs(4)) {
                phase += 1;
                if phase == leds.len() {
                    let _ = child.kill();
                    let _ = child.wait();
                    break;
                }
                let next = dir.join("next");
                copy_dir(&s.fixtures.join(leds[phase]), &next);
                std::fs::rename(&ledger, dir.join(format!("old{phase}"))).unwrap();
                std::fs::rename(&next, &ledger).unwrap();
                let mut c = chain.lock().unwrap();
                if let Some(p) = v.get("phases").and_then(|p| p.as_array()).and_then(|p| p.get(phase)) {
                    c.place(p, t);
                }
                base = c.requests;
                marks = n;
                c.last = Instant::now();
            }
        }
        std::thread::sleep(Duration::from_millis(if leds.len() > 1 { 50 } else { 3 }));
    }
    let _ = child.wait();
    let _ = o.at.join();
    let _ = e.at.join();
    let stdout = o.buf.lock().unwrap().clone();
    let stderr = e.buf.lock().unwrap().clone();
    Ran { stdout, stderr, code: status.and_then(|s| s.code()), timeout }
}

/// The text without terminal decorations.
fn plain(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}
fn words(l: &str) -> Vec<&str> {
    l.split(|c: char| !c.is_ascii_alphanumeric()).filter(|w| !w.is_empty()).collect()
}
/// Some line of the text that mentions `label` has the word.
fn says(text: &str, label: &str, word: &str) -> bool {
    text.lines().any(|l| l.to_lowercase().contains(label) && words(l).contains(&word))
}
fn only(text: &str, label: &str, word: &str) -> bool {
    let ls: Vec<&str> = text.lines().filter(|l| l.to_lowercase().contains(label)).collect();
    !ls.is_empty() && ls.iter().all(|l| words(l).contains(&word))
}

fn judge_attach(v: &Value, t: &Terms, before: &World, c: &Chain, r: &Ran, bad: &mut Vec<String>) {
    let x = &v["x"];
    let w = &c.world;
    let mut known: HashMap<Pubkey, (&Value, Pubkey)> = HashMap::new();
    for s in x["slots"].as_array().unwrap() {
        let node = key(&s["node"]);
        known.insert(crate::conc::pda(&node, num(&s["slot"]), 1), (s, node));
    }
    let mut spent: i128 = 0;
    let mut tags: BTreeMap<&str, usize> = BTreeMap::new();
    for (k, (s, node)) in &known {
        let slot = num(&s["slot"]);
        let (pre, post) = (before.get(k), w.get(k));
        let is_report = |a: Option<&Acct>| a.is_some_and(|a| a.owner == ids::slashing());
        let what = s["rep"].as_str().unwrap();
        *tags.entry(what).or_default() += 1;
        match what {
            "old" if pre != post => bad.push(format!("slot {slot}: the report that existed was changed")),
            "none" if pre != post => bad.push(format!("slot {slot}: there is a report now")),
            "theirs" if post.is_none_or(|a| a.lamports != 31000000 || a.data.len() != 114 + 2464) => {
                bad.push(format!("slot {slot}: the report made by somebody else was changed"))
            }
            "ours" if !is_report(post) => bad.push(format!("slot {slot}: was not reported")),
            _ => (),
        }
        if matches!(what, "ours" | "any") && is_report(post) {
            let a = post.unwrap();
            if a.data != t.bytes(&s["data"]) {
                bad.push(format!("slot {slot}: the report recorded is not the one asked for"));
            }
            spent += a.lamports as i128;
        }
        if matches!(what, "ours" | "any") {
            spent -= pre.map_or(0, |a| a.lamports) as i128;
            if !is_report(post) {
                spent += post.map_or(0, |a| a.lamports) as i128;
            }
        }
        let sends = c.sent.iter().filter(|(y, _)| matches!(y, Sent::Submit { slot: z, .. } if *z == slot)).count();
        for (y, _) in &c.sent {
            if let Sent::Submit { slot: z, node: n } = y {
                if *z == slot && n != node {
                    bad.push(format!("slot {slot}: {n} was accused, the slot's leader is {node}"));
                }
            }
        }
        match s["sends"].as_i64().unwrap() {
            0 if sends > 0 => bad.push(format!("slot {slot}: {sends} submissions were sent for a slot that has none to make")),
            1 if sends != 1 => bad.push(format!("slot {slot}: {sends} submissions were sent instead of one")),
            _ => (),
        }
    }
    for (y, _) in &c.sent {
        if let Sent::Submit { slot, .. } = y {
            if !x["slots"].as_array().unwrap().iter().any(|s| num(&s["slot"]) == *slot) {
                bad.push(format!("a submission was sent for slot {slot}, which has no duplicate proof in the range"));
            }
        }
        if x["dry"] == true {
            bad.push(format!("a dry run sent a transaction: {y:?}"));
        }
    }
    // what else is on chain now
    let slack = x["slots"].as_array().unwrap().iter().filter(|s| s["open"] == true).count();
    let mut left = 0;
    let payer = key(&x["payer"]);
    for (k, a) in w {
        if known.contains_key(k) || *k == payer || before.get(k) == Some(a) {
            continue;
        }
        if a.owner == ids::record() && !before.contains_key(k) {
            left += 1;
            spent += a.lamports as i128;
        } else {
            bad.push(format!("account {k} was changed or made: {} lamports, {} bytes, owner {}", a.lamports, a.data.len(), a.owner));
        }
    }
    for k in before.keys() {
        if !w.contains_key(k) {
            bad.push(format!("account {k} is gone"));
        }
    }
    if left > slack {
        bad.push(format!("{left} proof accounts were left open, {slack} of them for want of a working transaction"));
    }
    let paid = before[&payer].lamports as i128 - w.get(&payer).map_or(0, |a| a.lamports) as i128;
    let theirs = c.faults.iter().any(|f| f.how == "raced" && f.used);
    if paid != spent && !theirs {
        bad.push(format!("the fee payer paid {paid} lamports, {spent} of them for reports and accounts left"));
    }
    let count = x["count"].as_i64().unwrap();
    if count >= 0 {
        let said = r
            .stdout
            .lines()
            .rev()
            .find(|l| l.contains("Reported") && l.contains("violations"))
            .and_then(|l| words(l).iter().find_map(|w| w.parse::<i64>().ok()));
        if v.get("phases").is_none() && said != Some(count) {
            bad.push(format!("it announced {said:?} reports, {count} were made"));
        }
    }
}

fn facts(s: &Value) -> Vec<(&'static str, String)> {
    // label in the text, value
    vec![
        ("violator", key(&s["node"]).to_string()),
        ("slot", num(&s["slot"]).to_string()),
        ("reporter", key(&s["rep"]).to_string()),
        ("epoch", num(&s["epoch"]).to_string()),
        ("destination", key(&s["dst"]).to_string()),
    ]
}

fn judge_display(v: &Value, t: &Terms, before: &World, c: &Chain, r: &Ran, bad: &mut Vec<String>) {
    let x = &v["x"];
    if c.world != *before || !c.sent.is_empty() {
        bad.push("displaying changed something".into());
    }
    let want = x["list"].as_array().unwrap();
    let addr = |s: &Value| key(&s["at"]).to_string();
    // reports of one slot may come in any order
    let listed: Vec<String>;
    let text = plain(&r.stdout);
    match x["fmt"].as_str().unwrap() {
        "json" | "json-compact" => {
            let Ok(j) = serde_json::from_str::<Value>(&r.stdout) else {
                bad.push("the output is not JSON".into());
                return;
            };
            let l = j["commandOutput"].as_array().cloned().unwrap_or_default();
            listed = l.iter().map(|e| e["reportAddress"].as_str().unwrap_or("").to_string()).collect();
            for s in want {
                let Some(e) = l.iter().find(|e| e["reportAddress"] == addr(s).as_str()) else { continue };
                let ok = e["reporter"] == key(&s["rep"]).to_string().as_str()
                    && e["destination"] == key(&s["dst"]).to_string().as_str()
                    && e["pubkey"] == key(&s["node"]).to_string().as_str()
                    && e["epoch"].as_u64() == Some(num(&s["epoch"]))
                    && e["slot"].as_u64() == Some(num(&s["slot"]))
                    && e["violationType"] == "duplicate block";
                let proof: Vec<u8> = e["proof"].as_array().into_iter().flatten().map(|b| b.as_u64().unwrap_or(999) as u8).collect();
                if !ok || proof != t.bytes(&s["proof"]) {
                    bad.push(format!("the report of slot {} is listed with other facts than recorded", num(&s["slot"])));
                }
            }
        }
        _ => {
            // blocks beginning with a report's address
            let mut at: Vec<(usize, String)> = vec![];
            for (k, _) in before.iter() {
                let k = k.to_string();
                let mut from = 0;
                while let Some(p) = text[from..].find(&k) {
                    let line = text[..from + p].rfind('\n').map_or(0, |x| x + 1);
                    if text[line..from + p].to_lowercase().contains("report account") {
                        at.push((from + p, k.clone()));
                    }
                    from += p + k.len();
                }
            }
            at.sort();
            listed = at.iter().map(|x| x.1.clone()).collect();
            for (n, (p, k)) in at.iter().enumerate() {
                let block = &text[*p..at.get(n + 1).map_or(text.len(), |x| x.0)];
                let Some(s) = want.iter().find(|s| addr(s) == *k) else { continue };
                for (label, val) in facts(s) {
                    if !says(block, label, &val) {
                        bad.push(format!("the report of slot {} is listed without its {label}", num(&s["slot"])));
                    }
                }
            }
            // the kind of violation, in every block
            for (n, (p, k)) in at.iter().enumerate() {
                let block = &text[*p..at.get(n + 1).map_or(text.len(), |x| x.0)];
                if !block.lines().any(|l| l.to_lowercase().contains("violation type") && l.contains("duplicate block")) {
                    bad.push(format!("{k} is listed without its violation type"));
                }
            }
            if !says(&text, "open reports", &want.len().to_string()) {
                bad.push(format!("the number of reports is not given as {}", want.len()));
            }
        }
    }
    let slot_of: HashMap<String, u64> = want.iter().map(|s| (addr(s), num(&s["slot"]))).collect();
    for s in want {
        let n = listed.iter().filter(|k| **k == addr(s)).count();
        if n != 1 {
            bad.push(format!("the report of slot {} is listed {n} times", num(&s["slot"])));
        }
    }
    for k in &listed {
        if !slot_of.contains_key(k) {
            bad.push(format!("{k} is listed, which is no report asked for"));
        }
    }
    let order: Vec<u64> = listed.iter().filter_map(|k| slot_of.get(k).copied()).collect();
    if order.windows(2).any(|w| w[0] > w[1]) {
        bad.push(format!("the slots are listed in the order {order:?}"));
    }
}

fn judge_close(v: &Value, before: &World, c: &Chain, r: &Ran, bad: &mut Vec<String>) {
    let x = &v["x"];
    let mut gone: Vec<Pubkey> = vec![];
    let mut gain: HashMap<Pubkey, u64> = HashMap::new();
    let want = x["close"].as_array().unwrap();
    let mut listed_want: Vec<&Value> = vec![];
    let dry = x["dry"] == true;
    // (a dry run may list what would be closed, and need not)
    for s in want.iter().filter(|_| !dry) {
        let k = key(&s["at"]);
        let sends = c.sent.iter().filter(|(y, _)| matches!(y, Sent::CloseReport(z) if *z == k)).count();
        let closed = !c.world.contains_key(&k);
        match s["v"].as_str().unwrap() {
            "yes" => {
                if sends != 1 {
                    bad.push(format!("{sends} closes were sent for the report of slot {}", num(&s["slot"])));
                }
                if !closed {
                    bad.push(format!("the report of slot {} was not closed", num(&s["slot"])));
                }
                listed_want.push(s);
            }
            // a close was due, and cannot or must not have worked
            "no" => {
                if sends < 1 {
                    bad.push(format!("no close was sent for the report of slot {}", num(&s["slot"])));
                }
                if closed {
                    bad.push(format!("the report of slot {} is gone", num(&s["slot"])));
                }
            }
            _ => {
                if sends < 1 {
                    bad.push(format!("no close was sent for the report of slot {}", num(&s["slot"])));
                }
            }
        }
        if closed {
            gone.push(k);
            *gain.entry(key(&s["dst"])).or_default() += before[&k].lamports;
        }
    }
    for (y, _) in &c.sent {
        match y {
            Sent::CloseReport(k) if want.iter().any(|s| key(&s["at"]) == *k) => (),
            y => bad.push(format!("it sent {y:?}")),
        }
    }
    if x["dry"] == true && !c.sent.is_empty() {
        bad.push("a dry run sent a transaction".into());
    }
    let mut keys: Vec<&Pubkey> = before.keys().chain(c.world.keys()).collect();
    keys.sort();
    keys.dedup();
    for k in keys {
        if gone.contains(k) {
            continue;
        }
        let mut e = before.get(k).cloned().unwrap_or_default();
        e.lamports += gain.get(k).copied().unwrap_or(0);
        let have = c.world.get(k).cloned().unwrap_or_default();
        if e != have {
            bad.push(format!("account {k} holds {} lamports and {} bytes, not {} and {}", have.lamports, have.data.len(), e.lamports, e.data.len()));
        }
    }
    // what it says it did
    let early = num(&x["early"]).to_string();
    let addr = |s: &Value| key(&s["at"]).to_string();
    let (listed, lenient): (Vec<String>, Vec<String>) = {
        let lenient = want.iter().filter(|s| dry || s["v"] == "any").map(addr).collect();
        match x["fmt"].as_str().unwrap() {
            "json" | "json-compact" => {
                let Ok(j) = serde_json::from_str::<Value>(&r.stdout) else {
                    bad.push("the output is not JSON".into());
                    return;
                };
                if j["commandOutput"][0].as_u64().map(|n| n.to_string()) != Some(early.clone()) {
                    bad.push(format!("{} reports are said to be too early, {early} are", j["commandOutput"][0]));
                }
                let l = j["commandOutput"][1].as_array().cloned().unwrap_or_default();
                for s in &listed_want {
                    let Some(e) = l.iter().find(|e| e["reportAccount"] == addr(s).as_str()) else { continue };
                    if e["pubkey"] != key(&s["node"]).to_string().as_str()
                        || e["reporter"] != key(&s["rep"]).to_string().as_str()
                        || e["destination"] != key(&s["dst"]).to_string().as_str()
                        || e["lamports"].as_u64() != Some(before[&key(&s["at"])].lamports)
                        || (x["dry"] != true && !e["signature"].is_string())
                    {
                        bad.push(format!("the close of slot {} is reported with other facts", num(&s["slot"])));
                    }
                }
                (l.iter().map(|e| e["reportAccount"].as_str().unwrap_or("").to_string()).collect(), lenient)
            }
            _ => {
                let text = plain(&r.stdout);
                if !only(&text, "too soon", &early) {
                    bad.push(format!("the number of reports too early is not given as {early}"));
                }
                let mut l = vec![];
                for k in before.keys() {
                    let k = k.to_string();
                    for line in text.lines() {
                        if line.to_lowercase().contains("closed report account") && line.contains(&k) {
                            l.push(k.clone());
                        }
                    }
                }
                if lenient.is_empty() {
                    if !says(&text, "closed reports", &listed_want.len().to_string()) {
                        bad.push(format!("the number of closed reports is not given as {}", listed_want.len()));
                    }
                    let sum: u64 = listed_want.iter().map(|s| before[&key(&s["at"])].lamports).sum();
                    if !says(&text, "total", &sum.to_string()) {
                        bad.push(format!("the lamports recovered are not given as {sum}"));
                    }
                }
                for s in &listed_want {
                    let Some(p) = text.find(&format!("Closed report account {}", addr(s))).or_else(|| text.find(&addr(s))) else { continue };
                    let block: String = text[p..].lines().take(5).collect::<Vec<_>>().join("\n");
                    for (label, val) in [
                        ("violator", key(&s["node"]).to_string()),
                        ("reporter", key(&s["rep"]).to_string()),
                        ("destination", key(&s["dst"]).to_string()),
                        ("reclaimed", before[&key(&s["at"])].lamports.to_string()),
                    ] {
                        if !says(&block, label, &val) {
                            bad.push(format!("the close of slot {} is reported without its {label}", num(&s["slot"])));
                        }
                    }
                }
                (l, lenient)
            }
        }
    };
    for s in &listed_want {
        if listed.iter().filter(|k| **k == addr(s)).count() != 1 {
            bad.push(format!("the close of slot {} is not reported once", num(&s["slot"])));
        }
    }
    for k in &listed {
        if !listed_want.iter().any(|s| addr(s) == *k) && !lenient.contains(k) {
            bad.push(format!("{k} is reported as closed"));
        }
    }
}

/// Runs one scenario; returns what is wrong, and a tag.
pub fn run(s: &Setup, id: &str, v: &Value) -> (Vec<String>, String) {
    let mut t = Terms::default();
    t.build_shreds(&v["shreds"]);
    let chain = Arc::new(Mutex::new(Chain::new(v, &t)));
    let mut before = chain.lock().unwrap().world.clone();
    s.chains.write().unwrap().insert(id.to_string(), chain.clone());
    let dir = s.work.join(id);
    let r = launch(s, id, v, &dir, &chain, &t);
    s.chains.write().unwrap().remove(id);
    let _ = std::fs::remove_dir_all(&dir);
    let c = chain.lock().unwrap_or_else(|e| e.into_inner());
    let mut bad = vec![];
    if r.timeout {
        bad.push("the command did not come to an end".into());
    }
    if r.stderr.contains("panicked at") {
        let l = r.stderr.lines().skip_while(|l| !l.contains("panicked at")).take(2).collect::<Vec<_>>().join(" ");
        bad.push(format!("the command aborted: {l}"));
    } else if v["x"]["clean"] == true && v.get("phases").is_none() && r.code != Some(0) {
        bad.push(format!("the command failed ({:?}): {}", r.code, r.stderr.lines().last().unwrap_or("")));
    }
    // accounts placed later belong to the state before, too
    for p in v.get("phases").and_then(|p| p.as_array()).into_iter().flatten() {
        for a in p.get("accts").and_then(|x| x.as_array()).into_iter().flatten() {
            let (k, a) = crate::scen::acct(&t, a);
            before.insert(k, a);
        }
    }
    match v["cli"].as_str().unwrap() {
        "attach" => judge_attach(v, &t, &before, &c, &r, &mut bad),
        "display" => judge_display(v, &t, &before, &c, &r, &mut bad),
        "close" => judge_close(v, &before, &c, &r, &mut bad),
        x => panic!("unknown command {x}"),
    }
    bad.extend(c.problems.iter().cloned());
    if std::env::var_os("SHOW").is_some() {
        eprintln!("--- stdout\n{}--- stderr\n{}--- code {:?}\n--- sent {:?}", r.stdout, r.stderr, r.code, c.sent);
    }
    let tag = format!(
        "{}: exit {}",
        v["cli"].as_str().unwrap(),
        r.code.map_or("by signal".to_string(), |c| c.to_string()),
    );
    (bad, tag)
}

/// `cli FILE --exe BINARY --fixtures DIR --work DIR --replays DIR --out FILE [--only COMMAND] [--one]`
pub fn cmd(a: &[String], stdout: &mut std::fs::File) {
    let get = |n: &str| a.iter().position(|x| x == n).map(|i| a[i + 1].clone());
    let file = a[0].clone();
    let work = PathBuf::from(get("--work").expect("--work"));
    std::fs::create_dir_all(&work).unwrap();
    let chains: Chains = Default::default();
    let port = serve(chains.clone());
    let s = Setup {
        exe: get("--exe").expect("--exe").into(),
        fixtures: get("--fixtures").expect("--fixtures").into(),
        work,
        chains,
        port,
        preload: get("--preload"),
    };
    crate::rt::install();
    let text = std::fs::read_to_string(&file).unwrap_or_else(|e| panic!("{file}: {e}"));
    let mut all: Vec<Value> = if a.iter().any(|x| x == "--one") {
        let v: Value = serde_json::from_str(&text).unwrap();
        vec![v.get("scenario").cloned().unwrap_or(v)]
    } else {
        text.lines().filter(|l| l.starts_with('{') || l.starts_with("\"{")).map(crate::parse).collect()
    };
    if let Some(o) = get("--only") {
        all.retain(|v| v["cli"] == o.as_str());
    }
    // the slow ones first
    all.sort_by_key(|v| v.get("phases").is_none());
    let pool = rayon::ThreadPoolBuilder::new().num_threads(12).build().unwrap();
    let res: Vec<(usize, Vec<String>, String)> = pool.install(|| {
        all.par_iter()
            .with_max_len(1)
            .enumerate()
            .map(|(n, v)| {
                let (bad, tag) = run(&s, &format!("c{n}"), v);
                (n, bad, tag)
            })
            .collect()
    });
    let mut tags: BTreeMap<String, usize> = BTreeMap::new();
    let mut violations = vec![];
    let mut total_bad = 0;
    for (n, bad, tag) in &res {
        *tags.entry(tag.clone()).or_default() += 1;
        if bad.is_empty() {
            continue;
        }
        total_bad += 1;
        if violations.len() < 20 {
            let r = json!({"scenario": all[*n], "mismatches": bad});
            let mut path = String::new();
            if let Some(d) = get("--replays") {
                std::fs::create_dir_all(&d).unwrap();
                path = format!("{d}/{}.json", violations.len());
                std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).unwrap();
            }
            violations.push(json!({"replay": path, "g": all[*n]["g"], "mismatches": bad}));
        }
    }
    let samples: Vec<Value> = all
        .iter()
        .take(1)
        .map(|v| {
            let mut t = v.to_string();
            t.truncate(1200);
            json!({"scenario": t, "observed": res[0].2})
        })
        .collect();
    let sum = json!({"scenarios": all.len(), "steps": all.len(), "decisive": all.len(), "tags": tags, "failing": total_bad,
                     "violations": violations, "samples": samples});
    let text = serde_json::to_string_pretty(&sum).unwrap();
    match get("--out") {
        Some(o) => std::fs::write(o, text).unwrap(),
        None => writeln!(stdout, "{text}").unwrap(),
    }
}

/// `ledgers FILE`: the proofs of a scenario file as bytes, for making fixtures.
pub fn ledgers(a: &[String], stdout: &mut std::fs::File) {
    let text = std::fs::read_to_string(&a[0]).unwrap();
    for l in text.lines().filter(|l| l.starts_with('{') || l.starts_with("\"{")) {
        let v = crate::parse(l);
        let mut t = Terms::default();
        t.build_shreds(&v["shreds"]);
        for s in v["slots"].as_array().unwrap() {
            let n = num(s);
            let hex = |x: &[u8]| x.iter().map(|b| format!("{b:02x}")).collect::<String>();
            writeln!(stdout, "{} {n} {} {}", v["led"].as_str().unwrap(), hex(&t.shreds[&format!("a{n}")].payload), hex(&t.shreds[&format!("b{n}")].payload)).unwrap();
        }
    }
}
