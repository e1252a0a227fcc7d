mod chain;
mod cli;
mod conc;
mod rt;
mod scen;
mod trace;

use {
    rayon::prelude::*,
    serde_json::{json, Value},
    std::{collections::BTreeMap, io::Write},
};

pub fn parse(l: &str) -> Value {
    let bad = |e| panic!("bad line: {e}: {}", &l[..l.len().min(200)]);
    if l.starts_with('"') {
        let s: String = serde_json::from_str(l).unwrap_or_else(bad);
        serde_json::from_str(&s).unwrap_or_else(|e| panic!("bad line: {e}"))
    } else {
        serde_json::from_str(l).unwrap_or_else(|e| panic!("bad line: {e}"))
    }
}

/// `run FILE... --replays DIR --prop ID,.. --out FILE`
/// Runs every scenario; exit 0, result summary as JSON in `--out`.
fn cmd_run(args: &[String], stdout: &mut std::fs::File) {
    let (mut files, mut dir, mut out, mut kinds) = (vec![], None, None, None);
    let mut i = 0;
    while i < args.len() {
        match args[i].as_str() {
            "--replays" => { dir = Some(args[i + 1].clone()); i += 1 }
            "--out" => { out = Some(args[i + 1].clone()); i += 1 }
            "--prop" => { kinds = Some(args[i + 1].clone()); i += 1 }
            f => files.push(f.to_string()),
        }
        i += 1;
    }
    let kinds: Option<Vec<String>> = kinds.map(|k| k.split(',').map(|s| s.to_string()).collect());
    let mut total = 0usize;
    // steps whose expectation has a bearing on the property asked for
    let bearing = |v: &Value| -> usize {
        let Some(k) = &kinds else { return 0 };
        if k.iter().any(|p| p == "C12") && v.get("once").is_some() {
            return 1;
        }
        let calls = v.get("calls").and_then(|c| c.as_array()).map_or(0, |a| {
            a.iter()
                .filter(|c| {
                    k.iter().any(|p| p == "C15")
                        || k.iter().any(|p| p == "C18") && c.get("codes").is_some()
                        || c["pr"].as_array().unwrap().iter().any(|p| k.iter().any(|q| Some(q.as_str()) == p.as_str()))
                })
                .count()
        });
        calls + v["txs"].as_array().map_or(0, |a| {
            a.iter()
                .filter(|tx| {
                    let x = &tx["x"];
                    if k.iter().any(|p| p == "C15") {
                        return true;
                    }
                    if k.iter().any(|p| p == "C18") {
                        return x.get("codes").is_some() && x["v"] != "ok";
                    }
                    let has = |f: &str| {
                        x["pr"][f].as_array().is_some_and(|a| {
                            a.iter().any(|p| k.iter().any(|q| Some(q.as_str()) == p.as_str()))
                        })
                    };
                    match x["v"].as_str() {
                        Some("err") => has("accepted"),
                        Some("ok") => ["refused", "content", "money", "other", "altered"].iter().any(|f| has(f)),
                        _ => false,
                    }
                })
                .count()
        })
    };
    let mut decisive = 0usize;
    let mut steps = 0usize;
    let mut tags: BTreeMap<String, usize> = BTreeMap::new();
    let mut groups: BTreeMap<String, usize> = BTreeMap::new();
    let mut violations: Vec<Value> = vec![];
    let mut kindcount: BTreeMap<String, usize> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    for f in &files {
        let text = std::fs::read_to_string(f).unwrap_or_else(|e| panic!("{f}: {e}"));
        // JSON lines, or TLC's output, where each is printed as a quoted string
        let lines: Vec<&str> =
            text.lines().filter(|l| l.starts_with('{') || l.starts_with("\"{")).collect();
        let res: Vec<(Value, scen::Outcome)> = lines
            .par_iter()
            .map(|l| {
                let v = parse(l);
                let o = scen::run(&v);
                let keep = o.mismatches.is_empty();
                let d = bearing(&v);
                (if keep { json!({"id": v.get("id"), "g": v.get("g"), "d": d}) } else { v }, o)
            })
            .collect();
        for (n, (v, o)) in res.into_iter().enumerate() {
            total += 1;
            steps += o.tags.len();
            decisive += v.get("d").and_then(|d| d.as_u64()).map_or_else(|| bearing(&v), |d| d as usize);
            for t in &o.tags {
                let t = if t.starts_with("panic") { "panic".to_string() } else { t.clone() };
                *tags.entry(t).or_default() += 1;
            }
            if let Some(g) = v.get("g").and_then(|g| g.as_str()) {
                *groups.entry(g.to_string()).or_default() += 1;
            }
            if n % (lines.len() / 2 + 1) == 0 && samples.len() < 4 {
                let s = parse(lines[n]);
                let mut text = s.to_string();
                text.truncate(1200);
                samples.push(json!({"scenario": text, "observed": o.tags}));
            }
            for m in &o.mismatches {
                *kindcount.entry(m.kind.to_string()).or_default() += 1;
            }
            let hit = o
                .mismatches
                .iter()
                .any(|m| kinds.as_ref().is_none_or(|k| k.iter().any(|x| m.props.contains(x))));
            if hit {
                let r = scen::report(&v, &o);
                if violations.len() < 20 {
                    let mut path = String::new();
                    if let Some(d) = &dir {
                        std::fs::create_dir_all(d).unwrap();
                        path = format!("{d}/{}.json", violations.len());
                        let mut fh = std::fs::File::create(&path).unwrap();
                        writeln!(fh, "{}", serde_json::to_string_pretty(&r).unwrap()).unwrap();
                    }
                    violations.push(json!({"replay": path, "id": v.get("id"), "g": v.get("g"), "mismatches": r["mismatches"]}));
                }
            }
        }
    }
    let summary = json!({
        "scenarios": total, "steps": steps, "decisive": decisive, "tags": tags, "groups": groups,
        "kinds": kindcount, "violations": violations, "samples": samples,
    });
    let text = serde_json::to_string_pretty(&summary).unwrap();
    match out {
        Some(o) => std::fs::write(o, text).unwrap(),
        None => writeln!(stdout, "{text}").unwrap(),
    }
}

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}

/// The program logs to stdout; send that to /dev/null and keep the real stdout.
pub fn quiet() -> std::fs::File {
    use std::os::fd::{AsRawFd, FromRawFd};
    let null = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
    unsafe {
        let keep = dup(1);
        dup2(null.as_raw_fd(), 1);
        std::fs::File::from_raw_fd(keep)
    }
}

fn main() {
    let mut stdout = quiet();
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(|s| s.as_str()) {
        Some("run") => cmd_run(&args[1..], &mut stdout),
        Some("trace") => trace::cmd(&args[1..]),
        Some("cli") => cli::cmd(&args[1..], &mut stdout),
        Some("ledgers") => cli::ledgers(&args[1..], &mut stdout),
        Some("one") => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[1]).unwrap()).unwrap();
            let v = v.get("scenario").cloned().unwrap_or(v);
            let o = scen::run(&v);
            writeln!(stdout, "{}", serde_json::to_string_pretty(&scen::report(&v, &o)).unwrap()).unwrap();
            if !o.mismatches.is_empty() {
                std::process::exit(1);
            }
        }
        _ => {
            eprintln!("usage: slashing-conformance run|one|...");
            std::process::exit(2);
        }
    }
}
