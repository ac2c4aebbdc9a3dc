//! vx: mechanical extraction of the real sources of /repo into one Verus crate.
//!
//! The tool parses every source file with `syn`, keeps the text of each function under contract
//! verbatim, and only (a) inserts the contracts, loop invariants, closure contracts and ghost blocks
//! found in /verif/contracts, and (b) applies the lowering rules listed in DESIGN.md section
//! "What the extraction changes".  It prints a JSON report of everything it did.
mod contracts;
mod lower;

use contracts::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;

pub struct Report {
    pub lost: Vec<(String, String)>,      // (fn id, what)
    pub unlisted: Vec<String>,            // functions in /repo without an entry
    pub rules: BTreeMap<String, usize>,   // lowering rule -> count
    pub inlined: Vec<String>,
    pub fns: Vec<serde_json::Value>,
}
impl Report {
    pub fn rule(&mut self, r: &str) {
        *self.rules.entry(r.to_string()).or_insert(0) += 1;
    }
}

fn main() {
    let mut args = std::env::args().skip(1);
    let (mut src, mut con, mut out, mut rep) = (None, None, None, None);
    let mut vacuity = false;
    let mut stub: BTreeSet<String> = BTreeSet::new();
    let mut dump_hash = false;
    let mut upto: Option<String> = None;
    while let Some(a) = args.next() {
        match a.as_str() {
            "--src" => src = args.next(),
            "--contracts" => con = args.next(),
            "--out" => out = args.next(),
            "--report" => rep = args.next(),
            "--vacuity" => vacuity = true,
            "--stub" => {
                for f in args.next().unwrap().split(';') {
                    if !f.is_empty() {
                        stub.insert(f.to_string());
                    }
                }
            }
            // only the modules of modules.txt up to and including this one
            "--upto" => upto = args.next(),
            "--hash" => dump_hash = true,
            _ => panic!("unknown argument {a}"),
        }
    }
    let src = PathBuf::from(src.expect("--src"));
    let con = PathBuf::from(con.expect("--contracts"));
    let mut report = Report {
        lost: vec![],
        unlisted: vec![],
        rules: BTreeMap::new(),
        inlined: vec![],
        fns: vec![],
    };
    let mut text = String::new();
    text.push_str(&std::fs::read_to_string(con.join("crate_head.rs")).unwrap());
    let mut mods: Vec<(String, String)> = std::fs::read_to_string(con.join("modules.txt"))
        .unwrap()
        .lines()
        .filter(|l| !l.trim().is_empty() && !l.starts_with('#'))
        .map(|l| {
            let mut p = l.split_whitespace();
            (p.next().unwrap().to_string(), p.next().unwrap().to_string())
        })
        .collect();
    if let Some(u) = upto {
        if let Some(k) = mods.iter().position(|m| m.0 == u) {
            mods.truncate(k + 1);
        }
    }
    let mut open: Vec<String> = vec![];
    let mut hashes = serde_json::Map::new();
    // contracts of all modules are read first: inlining and stubs need the global table
    let mut all: BTreeMap<String, ModContracts> = BTreeMap::new();
    for (m, _) in &mods {
        let p = con.join(format!("{}.vrs", m.replace("::", "_")));
        all.insert(m.clone(), ModContracts::read(&p));
    }
    // two modules over one file (the second takes functions that need later modules): each leaves
    // the other's functions alone
    for (m, file) in &mods {
        for (m2, file2) in &mods {
            if m != m2 && file == file2 {
                let theirs: Vec<String> = all[m2].fns.keys().cloned().chain(all[m2].drop.iter().cloned()).collect();
                let mine = all.get_mut(m).unwrap();
                for k in theirs {
                    if !mine.fns.contains_key(&k) && (mine.only || k.contains("::")) {
                        mine.drop.insert(k);
                    }
                }
            }
        }
    }
    for (m, file) in &mods {
        let path: Vec<String> = m.split("::").map(|s| s.to_string()).collect();
        // close modules that are not a prefix
        while !(open.len() < path.len() && path[..open.len()] == open[..]) {
            text.push_str(&format!("}} // mod {}\n", open.pop().unwrap()));
        }
        for seg in &path[open.len()..] {
            text.push_str(&format!("#[macro_use]\npub mod {} {{\n", seg));
        }
        open = path;
        let f = src.join(file);
        let code = match std::fs::read_to_string(&f) {
            Ok(c) => c,
            Err(e) => {
                report.lost.push((format!("{m}::*"), format!("source file {file}: {e}")));
                continue;
            }
        };
        let mut code = code;
        for (key, tr, me, tf) in &all[m].inherit {
            let r = std::fs::read_to_string(src.join(tf))
                .map_err(|e| format!("source file {tf}: {e}"))
                .and_then(|t| lower::inherit(&code, key, tr, me, &t));
            match r {
                Ok(c) => {
                    if c.len() != code.len() {
                        report.rule("trait default method copied into an impl that inherits it");
                    }
                    code = c;
                }
                Err(e) => report.lost.push((format!("{m}::{key}::{me}"), e)),
            }
        }
        match lower::lower_module(m, &code, &all[m], &mut report, vacuity, &stub) {
            Ok((s, h)) => {
                text.push_str(&s);
                for (k, v) in h {
                    hashes.insert(format!("{m}::{k}"), json!(v));
                }
            }
            Err(e) => report.lost.push((format!("{m}::*"), e)),
        }
    }
    while let Some(o) = open.pop() {
        text.push_str(&format!("}} // mod {o}\n"));
    }
    text.push_str("\nfn main() {}\n");
    std::fs::write(out.expect("--out"), &text).unwrap();
    report.lost.sort();
    report.lost.dedup();
    let mut j = json!({
        "lost": report.lost, "unlisted": report.unlisted, "rules": report.rules,
        "inlined": report.inlined, "fns": report.fns,
    });
    if dump_hash {
        j["hashes"] = serde_json::Value::Object(hashes);
    }
    std::fs::write(rep.expect("--report"), serde_json::to_string_pretty(&j).unwrap()).unwrap();
}
