//! C04..C07: the history.
use crate::buf::{continues, occurs};
use crate::util::*;
use liner::*;
use std::collections::VecDeque;
use std::fs;
use std::path::PathBuf;

type T = Vec<char>;
fn mk(t: &[char]) -> Buffer {
    Buffer::from(st(t))
}
fn all(h: &History) -> Vec<String> {
    h.buffers.iter().map(text).collect()
}

#[derive(Debug, Clone)]
enum HOp {
    Push(T),
    Max(usize),
    Dups(bool),
    Remove(T),
    Clear,
}
fn run_mem(ops: &[HOp]) -> Ck {
    let mut h = History::new();
    let mut m: VecDeque<T> = VecDeque::new();
    let mut max = 1000;
    let mut dups = h.append_duplicate_entries;
    for (i, op) in ops.iter().enumerate() {
        match op {
            HOp::Push(t) => {
                // the pushed buffer carries its own recorded edits, as lines from the editor do
                let mut b = Buffer::new();
                b.insert(0, t);
                h.push(b).map_err(|e| format!("push failed: {e}"))?;
                if dups || m.back() != Some(t) {
                    m.push_back(t.clone());
                    while m.len() > max {
                        m.pop_front();
                    }
                }
            }
            HOp::Max(n) => {
                h.set_max_buffers_size(*n);
                max = *n;
            }
            HOp::Dups(b) => {
                h.append_duplicate_entries = *b;
                dups = *b;
            }
            HOp::Remove(t) => {
                h.remove_duplicates(&st(t));
                m.retain(|x| x != t);
            }
            HOp::Clear => {
                h.clear_history();
                m.clear();
            }
        }
        let want: Vec<String> = m.iter().map(|x| st(x)).collect();
        eq(&format!("entries after step {} ({op:?})", i + 1), all(&h), want.clone())?;
        eq("len", h.len(), want.len())?;
        eq("is_empty", h.is_empty(), want.is_empty())?;
        eq("iteration", (&h).into_iter().map(text).collect::<Vec<_>>(), want.clone())?;
        for (k, w) in want.iter().enumerate() {
            eq("indexing", text(&h[k]), w.clone())?;
        }
    }
    Ok(())
}
pub fn c04(r: &mut Run) -> &'static str {
    let words: Vec<T> = ["a", "b", "", "ab", "a\nb", "é", "a b", "\n"].iter().map(|s| chars(s)).collect();
    // all sequences of 5 pushes of a, b under limits 0..3 and both settings
    r.section(0.5);
    for max in 0..4usize {
        for dups in [false, true] {
            for code in 0..3usize.pow(5) {
                let mut c = code;
                let mut ops = vec![HOp::Max(max), HOp::Dups(dups)];
                for _ in 0..5 {
                    ops.push(HOp::Push(words[[0, 1, 4][c % 3]].clone()));
                    c /= 3;
                }
                r.case(&|| format!("{ops:?}"), max > 0, || run_mem(&ops));
            }
        }
    }
    r.section(1.0);
    let lim = if r.thorough { 100000 } else { 8000 };
    let mut k = 0;
    while r.go() && k < lim {
        k += 1;
        let n = 1 + r.rng.below(25);
        let mut ops = vec![];
        for _ in 0..n {
            let w = if r.rng.chance(1, 5) { rand_text(&mut r.rng, 6, ALPHA) } else { r.rng.pick(&words).clone() };
            ops.push(match r.rng.below(14) {
                0 => HOp::Max(r.rng.below(6)),
                1 => HOp::Dups(r.rng.chance(1, 2)),
                2 => HOp::Remove(w),
                3 if r.rng.chance(1, 4) => HOp::Clear,
                _ => HOp::Push(w),
            });
        }
        r.case(&|| format!("{ops:?}"), true, || run_mem(&ops));
    }
    "all sequences of 5 pushes of three lines under limits 0..3 and both settings of duplicate suppression, then random sequences of pushes, limit changes, removals and clears; non-trivial when the limit is not 0"
}

// ------------------------------------------------------------------ searches
fn search_case(h: &[T], t: &[char]) -> Ck {
    let mut hi = History::new();
    for x in h {
        hi.buffers.push_back(mk(x));
    }
    let b = mk(t);
    for pos in 0..=h.len() {
        let want = (0..pos).rev().find(|i| continues(&h[*i], t));
        eq(&format!("get_newest_match({pos})"), hi.get_newest_match(Some(pos), &b), want)?;
    }
    let want = (0..h.len()).rev().find(|i| continues(&h[*i], t));
    eq("get_newest_match(None)", hi.get_newest_match(None, &b), want)?;
    eq("get_newest_match(past the end)", hi.get_newest_match(Some(h.len() + 2), &b), want)?;
    let want: Vec<usize> = (0..h.len()).filter(|i| occurs(&h[*i], t)).collect();
    eq("search_index", hi.search_index(&b), want)?;
    let mut want: Vec<usize> = (0..h.len()).filter(|i| occurs(&h[*i], t) && h[*i] != t && !h[*i].starts_with(t)).collect();
    want.extend((0..h.len()).filter(|i| continues(&h[*i], t)));
    eq("get_history_subset", hi.get_history_subset(&b), want)?;
    eq("entries afterwards", all(&hi), strs(h))
}
pub fn c05(r: &mut Run) -> &'static str {
    let small = all_texts(&['a', 'b'], 3);
    let pats = all_texts(&['a', 'b'], 2);
    r.section(0.6);
    for a in &small {
        for b in &small {
            for c in small.iter().step_by(2) {
                if !r.go() {
                    break;
                }
                let h = vec![a.clone(), b.clone(), c.clone()];
                for p in &pats {
                    r.case(&|| format!("history {:?}, search {:?}", strs(&h), st(p)), !p.is_empty(), || search_case(&h, p));
                }
            }
        }
    }
    r.section(1.0);
    let lim = if r.thorough { 100000 } else { 10000 };
    let mut k = 0;
    while r.go() && k < lim {
        k += 1;
        let n = r.rng.below(12);
        let h: Vec<T> = (0..n).map(|_| rand_text(&mut r.rng, 6, &['a', 'b', ' ', 'é', '\n'])).collect();
        let p = if n > 0 && r.rng.chance(2, 3) {
            let e = r.rng.pick(&h).clone();
            let i = if r.rng.chance(1, 2) { 0 } else { r.rng.below(e.len() + 1) };
            let j = i + r.rng.below(e.len() - i + 1);
            e[i..j].to_vec()
        } else {
            rand_text(&mut r.rng, 3, &['a', 'b', ' ', 'é'])
        };
        r.case(&|| format!("history {:?}, search {:?}", strs(&h), st(&p)), n > 0 && !p.is_empty(), || search_case(&h, &p));
    }
    "all histories of three entries over {a,b}^<=3 with all search texts of length <= 2 and all positions, then random histories of up to 11 entries with search texts cut out of entries; non-trivial when the search text is non-empty"
}

// ------------------------------------------------------------------ files
fn dedup(v: Vec<String>) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    for x in v.into_iter().rev() {
        if !out.contains(&x) {
            out.push(x);
        }
    }
    out.reverse();
    out
}
fn newest(mut v: Vec<String>, n: usize) -> Vec<String> {
    if v.len() > n {
        v.drain(..v.len() - n);
    }
    v
}
fn entries_of(content: &str) -> Vec<String> {
    content.lines().filter(|l| !l.starts_with('#')).map(|l| l.to_string()).collect()
}
fn load_case(p: &PathBuf, content: &str, pre: &[String], limit: usize, dups: bool, append: bool, named: bool) -> Ck {
    fs::write(p, content).map_err(|e| e.to_string())?;
    let mut h = History::new();
    h.load_duplicates = dups;
    h.set_max_file_size(limit);
    for x in pre {
        h.buffers.push_back(Buffer::from(x.as_str()));
    }
    let n = if named { h.set_file_name_and_load_history(p) } else { h.load_history_file(p, append) }.map_err(|e| format!("loading failed: {e}"))?;
    eq("reported size", n, content.len() as u64)?;
    let app = append && !named;
    let mut want: Vec<String> = if app { pre.to_vec() } else { vec![] };
    if !content.is_empty() {
        want.extend(entries_of(content));
        want = newest(want, limit);
        if !dups {
            want = dedup(want);
        }
    }
    eq("entries", all(&h), want.clone())?;
    eq("file", fs::read_to_string(p).unwrap(), content.to_string())?;
    if named {
        // same size: left alone
        h.buffers.push_back(Buffer::from("extra"));
        h.load_history(true).map_err(|e| e.to_string())?;
        let mut w2 = want.clone();
        w2.push("extra".into());
        eq("entries after re-loading an unchanged file", all(&h), w2.clone())?;
        if !content.is_empty() {
            h.load_history(false).map_err(|e| e.to_string())?;
            eq("entries after re-loading an unchanged file (replace)", all(&h), w2)?;
        }
        // changed: re-read
        let c2 = format!("{content}new\n");
        fs::write(p, &c2).unwrap();
        h.load_history(false).map_err(|e| e.to_string())?;
        let mut want = newest(entries_of(&c2), limit);
        if !dups {
            want = dedup(want);
        }
        eq("entries after the file changed", all(&h), want.clone())?;
        // and again when it changed once more (append)
        let c3 = format!("{c2}newer\n");
        fs::write(p, &c3).unwrap();
        h.load_history(true).map_err(|e| e.to_string())?;
        want.extend(entries_of(&c3));
        let mut want = newest(want, limit);
        if !dups {
            want = dedup(want);
        }
        eq("entries after the file changed (append)", all(&h), want.clone())?;
        fs::remove_file(p).unwrap();
        if h.load_history(false).is_ok() {
            return Err("loading a missing file reported success".into());
        }
        eq("entries after loading a missing file", all(&h), want)?;
    }
    Ok(())
}
pub fn c06(r: &mut Run) -> &'static str {
    let p = r.scratch.join("hist");
    let lines = ["a", "b", "#c", "", "a b"];
    r.section(0.5);
    for limit in [0usize, 1, 2, 3, 10] {
        for code in 0..5usize.pow(4) {
            if !r.go() {
                break;
            }
            let mut c = code;
            let mut content = String::new();
            for i in 0..4 {
                content.push_str(lines[c % 5]);
                c /= 5;
                if i < 3 || code % 2 == 0 {
                    content.push('\n');
                }
            }
            for dups in [false, true] {
                r.case(&|| format!("file {content:?}, limit {limit}, load_duplicates {dups}, set_file_name_and_load_history"), true, || load_case(&p, &content, &[], limit, dups, false, true));
            }
        }
    }
    r.section(1.0);
    let lim = if r.thorough { 40000 } else { 3000 };
    let mut k = 0;
    while r.go() && k < lim {
        k += 1;
        let n = r.rng.below(12);
        let mut content = String::new();
        for _ in 0..n {
            if r.rng.chance(1, 5) {
                content.push('#');
            }
            let l = rand_text(&mut r.rng, 3, &['a', 'b', ' ', 'é', '#', '\\']);
            content.push_str(&st(&l));
            content.push_str(if r.rng.chance(1, 10) { "\r\n" } else { "\n" });
        }
        if r.rng.chance(1, 5) {
            content.push_str("last");
        }
        let pre: Vec<String> = (0..r.rng.below(4)).map(|_| st(&rand_text(&mut r.rng, 2, &['a', 'b', '\n']))).collect();
        let (limit, dups, append, named) = (r.rng.below(8), r.rng.chance(1, 2), r.rng.chance(1, 2), r.rng.chance(1, 3));
        r.case(&|| format!("file {content:?}, entries before {pre:?}, limit {limit}, load_duplicates {dups}, append {append}, set_file_name {named}"), !content.is_empty(), || load_case(&p, &content, &pre, limit, dups, append, named));
    }
    // missing file, no name
    let q = r.scratch.join("missing");
    r.case(&|| "load from a missing file".into(), false, || {
        let mut h = History::new();
        h.buffers.push_back(Buffer::from("x"));
        if h.load_history_file(&q, false).is_ok() || h.load_history_file(&q, true).is_ok() {
            return Err("success reported".into());
        }
        if h.load_history(false).is_ok() {
            return Err("loading without a file name reported success".into());
        }
        eq("entries", all(&h), vec!["x".to_string()])?;
        h.set_file_name_and_load_history(&q).map_err(|e| e.to_string())?;
        eq("file created", fs::read_to_string(&q).unwrap(), String::new())?;
        eq("entries", all(&h), vec!["x".to_string()])?;
        eq("file name", h.file_name().map(|s| s.to_string()), q.to_str().map(|s| s.to_string()))
    });
    let _ = fs::remove_file(&q);
    let _ = fs::remove_file(&p);
    "all files of four lines out of {a, b, #c, empty, 'a b'} with limits {0,1,2,3,10} and both duplicate settings, then random files with CRLF, comments, missing final newline, previous entries, append; re-load after no change, change and removal"
}

#[derive(Debug, Clone)]
enum FOp {
    Push(String),
    /// another session adds a line to the file
    Other(String),
    Freshen,
    Commit,
}
#[derive(Debug, Clone)]
struct Cfg {
    inc: bool,
    share: bool,
    loaddup: bool,
    appdup: bool,
    maxfile: usize,
    maxbuf: usize,
}
fn is_subseq(a: &[String], b: &[String]) -> bool {
    let mut it = b.iter();
    a.iter().all(|x| it.any(|y| y == x))
}
fn persist(p: &PathBuf, init: &str, cfg: &Cfg, ops: &[FOp]) -> Ck {
    fs::write(p, init).map_err(|e| e.to_string())?;
    let mut h = History::new();
    h.inc_append = cfg.inc;
    h.share = cfg.share;
    h.load_duplicates = cfg.loaddup;
    h.append_duplicate_entries = cfg.appdup;
    h.set_max_file_size(cfg.maxfile);
    h.set_max_buffers_size(cfg.maxbuf);
    h.set_file_name_and_load_history(p).map_err(|e| e.to_string())?;
    let window = cfg.maxfile.min(cfg.maxbuf);
    for (i, op) in ops.iter().enumerate() {
        let at = format!("step {} ({op:?})", i + 1);
        let before = fs::read_to_string(p).unwrap();
        let mem = all(&h);
        match op {
            FOp::Push(x) => {
                h.push(Buffer::from(x.as_str())).map_err(|e| e.to_string())?;
                let after = fs::read_to_string(p).unwrap();
                let suppressed = !cfg.appdup && mem.last() == Some(x);
                if suppressed || !cfg.inc {
                    eq(&format!("file after {at}"), after.clone(), before.clone())?;
                } else {
                    let full = format!("{before}{x}\n");
                    if after != full {
                        if cfg.loaddup {
                            return Err(format!("{at}: file is {after:?}, expected {full:?}"));
                        }
                        // compaction: only duplicates of kept lines, comments and lines beyond the limits go
                        let want = entries_of(&full);
                        let got = entries_of(&after);
                        let lastline = x.lines().last().unwrap_or("");
                        if window > 0 && !lastline.starts_with('#') && got.last().map(|s| s.as_str()) != Some(lastline) {
                            return Err(format!("{at}: the new entry is not at the end of the file: {after:?} (before {before:?})"));
                        }
                        if !is_subseq(&got, &want) {
                            return Err(format!("{at}: compaction reordered or invented lines: {after:?} (before {before:?})"));
                        }
                        let keep = newest(want.clone(), if cfg.share { window } else { cfg.maxfile });
                        for l in &keep {
                            if !got.contains(l) {
                                return Err(format!("{at}: compaction lost {l:?}: {after:?} (before {before:?})"));
                            }
                        }
                    }
                }
                // memory keeps the new entry
                if !suppressed && window > 0 && !x.contains('\n') && !x.starts_with('#') && all(&h).last() != Some(x) {
                    return Err(format!("{at}: the entry is missing from the history in memory: {:?}", all(&h)));
                }
            }
            FOp::Other(x) => {
                fs::write(p, format!("{before}{x}\n")).unwrap();
            }
            FOp::Freshen => {
                if cfg.share {
                    h.load_history(false).map_err(|e| e.to_string())?;
                }
                eq(&format!("file after {at}"), fs::read_to_string(p).unwrap(), before)?;
            }
            FOp::Commit => {
                h.commit_to_file();
                let after = fs::read_to_string(p).unwrap();
                if cfg.inc {
                    eq(&format!("file after {at}"), after, before)?;
                } else {
                    let kept = newest(mem.clone(), cfg.maxfile);
                    let want: String = kept.iter().map(|x| format!("{x}\n")).collect();
                    eq(&format!("file after {at}"), after.clone(), want)?;
                    // reads back the same
                    if kept.iter().all(|x| !x.contains('\n') && !x.contains('\r') && !x.starts_with('#')) {
                        let mut g = History::new();
                        g.set_max_file_size(cfg.maxfile);
                        g.load_history_file(p, false).map_err(|e| e.to_string())?;
                        eq(&format!("entries read back after {at}"), all(&g), kept)?;
                    }
                }
            }
        }
    }
    if cfg.inc && cfg.loaddup {
        // everything pushed in this session is in the file, in order
    }
    Ok(())
}
pub fn c07(r: &mut Run) -> &'static str {
    let p = r.scratch.join("hist");
    // long runs through several compactions, every setting
    r.section(0.6);
    for share in [false, true] {
        for loaddup in [false, true] {
            for other in [0usize, 7, 1] {
                for (maxfile, maxbuf) in [(1000, 1000), (5, 1000), (40, 40), (1000, 5), (31, 31)] {
                    for init in ["", "x\ny\nx\n", "#c\nx\n"] {
                        for distinct in [2usize, 7, 1000] {
                            if !r.go() {
                                break;
                            }
                            let cfg = Cfg { inc: true, share, loaddup, appdup: distinct == 2, maxfile, maxbuf };
                            let mut ops = vec![];
                            for i in 0..70 {
                                if other > 0 && i % other == 0 && i > 0 {
                                    ops.push(FOp::Other(format!("o{}", i % 3)));
                                }
                                ops.push(FOp::Push(format!("e{}", i % distinct)));
                            }
                            r.case(&|| format!("file {init:?}, {cfg:?}, 70 pushes of e(i % {distinct}), another session's line before every {other}th"), true, || persist(&p, init, &cfg, &ops));
                        }
                    }
                }
            }
        }
    }
    r.section(1.0);
    let lim = if r.thorough { 20000 } else { 1500 };
    let mut k = 0;
    while r.go() && k < lim {
        k += 1;
        let cfg = Cfg {
            inc: r.rng.chance(1, 2),
            share: r.rng.chance(1, 2),
            loaddup: r.rng.chance(1, 2),
            appdup: r.rng.chance(1, 2),
            maxfile: *r.rng.pick(&[0, 1, 2, 5, 1000]),
            maxbuf: *r.rng.pick(&[0, 1, 2, 5, 1000]),
        };
        let n = if r.rng.chance(1, 4) { 65 } else { 12 };
        let mut ops = vec![];
        for _ in 0..1 + r.rng.below(n) {
            ops.push(match r.rng.below(12) {
                0 => FOp::Commit,
                1 => FOp::Freshen,
                2 => FOp::Other(format!("o{}", r.rng.below(3))),
                3 => FOp::Push(st(&rand_text(&mut r.rng, 4, &['a', 'é', ' ', '\n', '#']))),
                _ => FOp::Push(format!("e{}", r.rng.below(4))),
            });
        }
        let init = *r.rng.pick(&["", "a\n", "a\nb\na\n"]);
        r.case(&|| format!("file {init:?}, {cfg:?}, {ops:?}"), true, || persist(&p, init, &cfg, &ops));
    }
    let _ = fs::remove_file(&p);
    "70 pushes (two compactions) under every combination of sharing, duplicate loading, limits, initial file and interleaved lines of another session, then random sequences of pushes, commits, re-loads and foreign lines under random settings; after every step the file is compared with what was there before"
}
