//! Concrete oracles: for each property, run the real code of /repo on small-scope exhaustive and
//! seeded random inputs and compare with the mathematical definition the contracts use.  Used to
//! find a failing input for a failed obligation, and as the bounded stand-in for functions that are
//! outside the verifier's reach.
mod buf;
mod ed;
mod files;
mod scr;
mod hist;
mod util;
mod vi;
mod words;
use std::io::Write;
use util::*;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let pid = a[1].clone();
    let get = |k: &str, d: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone()).unwrap_or(d.to_string());
    let seed: u64 = get("--seed", "1").parse().unwrap_or(1);
    let budget: f64 = get("--budget", "20").parse().unwrap();
    let thorough = a.iter().any(|x| x == "--thorough");
    let out = get("--out", "");
    let scratch = std::path::PathBuf::from(get("--scratch", ""));
    let pty = Pty::install();
    let pty_ok = pty.is_ok();
    std::panic::set_hook(Box::new(|i| {
        let at = i.location().map(|l| format!("at {}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = at);
    }));
    watch(&get("--case", ""), 20);
    let mut r = Run::new(seed, budget, thorough, scratch);
    let rule = match pid.as_str() {
        "C01" => buf::c01(&mut r),
        "C02" => buf::c02(&mut r),
        "C03" => buf::c03(&mut r),
        "C04" => hist::c04(&mut r),
        "C05" => hist::c05(&mut r),
        "C06" => hist::c06(&mut r),
        "C07" => hist::c07(&mut r),
        "C08" => ed::c08(&mut r),
        "C09" => ed::c09(&mut r),
        "C10" => ed::c10(&mut r),
        "C11" => ed::c11(&mut r),
        "C12" => ed::c12(&mut r),
        "C13" => ed::c13(&mut r),
        "C14" => ed::c14(&mut r),
        "C15" => words::c15(&mut r),
        "C16" => vi::c16(&mut r),
        "C17" => vi::c17(&mut r),
        "C18" => vi::c18(&mut r),
        "C19" => vi::c19(&mut r),
        "C20" => ed::c20(&mut r),
        "C21" => words::c21(&mut r),
        "C22" => words::c22(&mut r),
        "C23" => ed::c23(&mut r),
        "C24" => scr::c24(&mut r),
        "C25" => files::c25(&mut r),
        _ => panic!("no oracle for {pid}"),
    };
    let samples: Vec<String> = r.samples.iter().map(|s| esc(s)).collect();
    let js = format!(
        "{{\"property\":{},\"seed\":{seed},\"pty\":{pty_ok},\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"violation\":{},\"wall_s\":{:.2}}}\n",
        esc(&pid), r.evals, r.distinct.len(), esc(rule), samples.join(","),
        r.fail.as_ref().map(|f| esc(f)).unwrap_or("null".into()), r.start.elapsed().as_secs_f64()
    );
    if out.is_empty() {
        let fd = pty.map(|p| p.saved).unwrap_or(1);
        unsafe {
            libc::write(fd, js.as_ptr() as *const libc::c_void, js.len());
        }
    } else {
        std::fs::File::create(out).unwrap().write_all(js.as_bytes()).unwrap();
    }
}
