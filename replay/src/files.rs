//! C25: file name completion, on a directory tree made for it.
use crate::util::*;
use liner::{BasicCompleter, Completer, FilenameCompleter};
use std::path::{Path, PathBuf};

/// what a typed word means
fn typed(w: &str) -> String {
    let mut c = w.chars();
    match c.next() {
        Some(q) if q == '"' || q == '\'' => {
            let rest: Vec<char> = c.collect();
            let n = if rest.last() == Some(&q) { rest.len() - 1 } else { rest.len() };
            rest[..n].iter().collect()
        }
        _ => {
            let t: Vec<char> = w.chars().collect();
            let mut o = String::new();
            let mut i = 0;
            while i < t.len() {
                if t[i] == '\\' && i + 1 < t.len() && t[i + 1] == ' ' {
                    o.push(' ');
                    i += 2;
                } else {
                    o.push(t[i]);
                    i += 1;
                }
            }
            o
        }
    }
}
/// the typed directory (ending in `/` unless empty) and the name behind it
fn split(t: &str) -> (String, String) {
    let i = t.rfind('/').map(|i| i + 1).unwrap_or(0);
    let (d, n) = (&t[..i], &t[i..]);
    if n == "." || n == ".." {
        (format!("{t}/"), String::new())
    } else {
        (d.to_string(), n.to_string())
    }
}
/// without redundant `/` and `/.`
fn norm(p: &str) -> String {
    let dir = p.ends_with('/');
    let abs = p.starts_with('/');
    let parts: Vec<&str> = p.split('/').filter(|c| !c.is_empty() && *c != ".").collect();
    format!("{}{}{}", if abs { "/" } else if p.starts_with("./") { "./" } else { "" }, parts.join("/"), if dir && !parts.is_empty() { "/" } else { "" })
}
fn want(wd: Option<&Path>, cs: bool, w: &str) -> Vec<String> {
    let t = typed(w);
    let (d, n) = split(&t);
    let base: PathBuf = match wd {
        _ if d.starts_with('/') => PathBuf::from(&d),
        Some(wd) => wd.join(&d),
        None => PathBuf::from(&d),
    };
    let base = if base.as_os_str().is_empty() { PathBuf::from(".") } else { base };
    let mut v = vec![];
    let Ok(rd) = std::fs::read_dir(&base) else { return v };
    for e in rd.flatten() {
        let f = e.file_name().to_string_lossy().to_string();
        let ok = if cs { f.starts_with(&n) } else { f.to_lowercase().starts_with(&n.to_lowercase()) };
        if ok {
            let dir = base.join(e.file_name()).is_dir();
            v.push(norm(&format!("{d}{f}{}", if dir { "/" } else { "" })).replace(' ', "\\ "));
        }
    }
    v.sort();
    v
}
fn ask(wd: Option<&Path>, cs: bool, w: &str) -> Vec<String> {
    let mut c = if cs { FilenameCompleter::new(wd) } else { FilenameCompleter::with_case_sensitivity(wd, false) };
    c.completions(w)
}
fn one(wd: Option<&Path>, cs: bool, w: &str) -> Ck {
    let raw = ask(wd, cs, w);
    let mut got: Vec<String> = raw.iter().map(|c| norm(&c.replace("\\ ", " ")).replace(' ', "\\ ")).collect();
    got.sort();
    eq("candidates", got, want(wd, cs, w))?;
    for c in &raw {
        // as typed, if it has nothing to drop
        let (d, _) = split(&typed(w));
        if norm(&d) == d && !c.starts_with(&d.replace(' ', "\\ ")) {
            return Err(format!("candidate {c:?} does not keep the typed directory {d:?}"));
        }
        // a candidate typed again is the file
        if !c.starts_with('"') && !c.starts_with('\'') {
            let again = ask(wd, true, c);
            let t = typed(c);
            if !t.ends_with('/') && !again.iter().any(|x| norm(x) == norm(c)) {
                return Err(format!("candidate {c:?} completed again gives {again:?}"));
            }
        }
    }
    let mut b = if cs { FilenameCompleter::with_case_sensitivity(wd, true) } else { FilenameCompleter::with_case_sensitivity(wd, false) };
    eq("with_case_sensitivity", b.completions(w).len(), raw.len())?;
    Ok(())
}
pub fn c25(r: &mut Run) -> &'static str {
    let root = r.scratch.join("tree");
    let _ = std::fs::remove_dir_all(&root);
    let dirs = ["", "sub dir", "sub dir/in ner", "dir", "Dir2", ".hid", "été", "dir/a b", "..x", "empty"];
    for d in dirs {
        std::fs::create_dir_all(root.join(d)).unwrap();
    }
    let names = ["a", "ab", "a b", "A", "Ab", "étée", "É", "世界", ".h", "..h", "x.y", "q'uo", "\"dq", "'sq", "back\\slash", "tail ", " lead", "ab.d", "a  b"];
    for d in &dirs[..8] {
        for (i, n) in names.iter().enumerate() {
            if d.is_empty() || (i + d.len()) % 3 != 0 {
                let _ = std::fs::write(root.join(d).join(n), ""); // unless it is a directory
            }
        }
    }
    let _ = std::os::unix::fs::symlink(root.join("dir"), root.join("link"));
    let _ = std::os::unix::fs::symlink(root.join("nowhere"), root.join("broken"));
    let _ = std::fs::write(root.join(<std::ffi::OsStr as std::os::unix::ffi::OsStrExt>::from_bytes(b"bad\xff\xfename")), "");
    let _ = std::env::set_current_dir(&root);
    let rs = root.to_str().unwrap().to_string();
    let sub = root.join("sub dir");
    let gone = root.join("gone");
    let wds: Vec<Option<&Path>> = vec![Some(&root), None, Some(&sub), Some(Path::new("dir")), Some(&gone), Some(Path::new("")), Some(Path::new("dir/"))];
    let mut words: Vec<String> = vec![];
    let dparts = ["", "dir/", "sub dir/", "sub dir/in ner/", "Dir2/", "./", "../", "dir//", "dir/./", "dir/../", ".hid/", "été/", "empty/", "link/", "gone/", "a/", "..x/", "dir/a b/", "dir"];
    let nparts = ["", ".", "..", "a", "ab", "A", "a ", "a b", "é", "É", "世", ".h", "..h", "..x", "...", "x.", "d", "D", "s", "sub", "sub d", "l", "b", "bad", "br", "q", "\"", "'", "back\\", "back\\s", "t", " ", " l", "zz", "a  "];
    for d in dparts {
        for n in nparts {
            words.push(format!("{d}{n}"));
        }
    }
    for d in ["", "dir/", "sub dir/", "/"] {
        for n in ["", ".", "a", "su", "."] {
            words.push(format!("{rs}/{d}{n}"));
        }
    }
    words.push(rs.clone());
    words.push(rs[..rs.len() - 2].to_string());
    words.push("/".into());
    words.push("//".into());
    words.push("/.".into());
    words.push("/..".into());
    r.section(0.7);
    'all: for wd in &wds {
        for cs in [true, false] {
            for w in &words {
                let forms = [w.replace(' ', "\\ "), format!("\"{w}"), format!("\"{w}\""), format!("'{w}"), format!("'{w}'"), w.clone()];
                for (i, f) in forms.iter().enumerate() {
                    if i == 5 && !w.contains(' ') {
                        continue;
                    }
                    if !r.go() {
                        break 'all;
                    }
                    r.case(&|| format!("working directory {:?} (in {rs:?}), case {}, word {f:?}", wd, if cs { "sensitive" } else { "insensitive" }), w.len() > 1, || one(*wd, cs, f));
                }
            }
        }
    }
    r.section(0.6);
    let al = ['a', 'b', 'A', ' ', '\\', '/', '.', '"', '\'', 'd', 'i', 'r', 'é', 's', 'u'];
    while r.go() {
        let mut w: String = match r.rng.below(4) {
            0 => format!("{}{}", r.rng.pick(&dparts), r.rng.pick(&nparts)),
            1 => r.rng.pick(&dparts).to_string(),
            _ => String::new(),
        };
        for _ in 0..r.rng.below(5) {
            let k = r.rng.below(w.chars().count() + 1);
            let at = w.char_indices().nth(k).map(|x| x.0).unwrap_or(w.len());
            w.insert(at, *r.rng.pick(&al));
        }
        let wd = *r.rng.pick(&wds);
        let cs = r.rng.chance(1, 2);
        r.case(&|| format!("working directory {:?} (in {rs:?}), case {}, word {w:?}", wd, if cs { "sensitive" } else { "insensitive" }), w.len() > 1, || one(wd, cs, &w));
    }
    r.section(1.0);
    // an existing working directory whose entries come and go
    let live = root.join("live");
    std::fs::create_dir_all(&live).unwrap();
    let mut comp = FilenameCompleter::new(Some(live.clone()));
    let mut k = 0;
    while r.go() && k < 300 {
        k += 1;
        let n = *r.rng.pick(&names);
        let p = live.join(n);
        let gone = p.exists();
        if gone {
            let _ = std::fs::remove_file(&p);
        } else {
            let _ = std::fs::write(&p, "");
        }
        let w = r.rng.pick(&nparts).replace(' ', "\\ ");
        r.case(&|| format!("a file {n:?} {} a directory, word {w:?}", if gone { "removed from" } else { "added to" }), true, || {
            let mut got: Vec<String> = comp.completions(&w).iter().map(|c| norm(&c.replace("\\ ", " ")).replace(' ', "\\ ")).collect();
            got.sort();
            eq("candidates", got, want(Some(&live), true, &w))
        });
    }
    "file names of a made tree (spaces, quotes, unicode, hidden, directories, links, unreadable) for typed paths plain, escaped and in quotes, with and without a working directory, both case settings; random edits of them"
}
/// words of a BasicCompleter (C12)
pub fn basic(words: &[String], start: &str) -> Ck {
    let mut c = BasicCompleter::new(words.to_vec());
    eq("words that start with it", c.completions(start), words.iter().filter(|w| w.chars().collect::<Vec<_>>().starts_with(&start.chars().collect::<Vec<_>>())).cloned().collect::<Vec<_>>())
}
