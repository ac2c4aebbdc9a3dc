//! C15, C21, C22.
use crate::util::*;
use liner::*;
use unicode_width::UnicodeWidthStr;

/// words: maximal runs starting at a non-space; a space right behind a backslash does not end a word
pub fn words(t: &[char]) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let mut start: Option<usize> = None;
    for i in 0..t.len() {
        let escaped = i > 0 && t[i - 1] == '\\';
        match start {
            None => {
                if t[i] != ' ' && t[i] != '\\' {
                    start = Some(i)
                }
            }
            Some(s) => {
                if t[i] == ' ' && !escaped {
                    out.push((s, i));
                    start = None;
                }
            }
        }
    }
    if let Some(s) = start {
        out.push((s, t.len()));
    }
    out
}
pub fn classify(c: usize, w: &[(usize, usize)]) -> CursorPosition {
    use CursorPosition::*;
    for (i, (a, b)) in w.iter().enumerate() {
        if c == *a {
            return OnWordLeftEdge(i);
        }
        if c == *b {
            return OnWordRightEdge(i);
        }
        if *a < c && c < *b {
            return InWord(i);
        }
    }
    InSpace(w.iter().rposition(|(_, b)| *b < c), w.iter().position(|(a, _)| c < *a))
}
fn word_case(t: &[char]) -> Ck {
    let b = Buffer::from(st(t));
    let w = get_buffer_words(&b);
    eq("words", w.clone(), words(t))?;
    for c in 0..=t.len() + 1 {
        eq(&format!("classification at {c}"), CursorPosition::get(c, w.clone()), classify(c, &words(t)))?;
    }
    Ok(())
}
pub fn c15(r: &mut Run) -> &'static str {
    r.section(0.5);
    for t in all_texts(&['a', ' ', '\\', '\n'], if r.thorough { 7 } else { 6 }) {
        if !r.go() {
            break;
        }
        r.case(&|| format!("text {:?}", st(&t)), t.len() > 1, || word_case(&t));
    }
    r.section(0.6);
    // arbitrary disjoint ordered word lists (as a user's word divider may give), touching words excluded and included
    let mut lists: Vec<Vec<(usize, usize)>> = vec![vec![]];
    for _ in 0..3 {
        let mut next = vec![];
        for l in &lists {
            let s0 = l.last().map(|x: &(usize, usize)| x.1).unwrap_or(0);
            for gap in 0..3 {
                for len in 1..4 {
                    let mut m = l.clone();
                    m.push((s0 + gap, s0 + gap + len));
                    next.push(m);
                }
            }
        }
        for l in &next {
            for c in 0..20 {
                // a position between two touching words is the edge of either
                let touching = l.windows(2).any(|p| p[0].1 == p[1].0 && p[0].1 == c);
                r.case(&|| format!("words {l:?}, cursor {c}"), true, || {
                    let g = CursorPosition::get(c, l.clone());
                    if touching {
                        let i = l.iter().position(|p| p.1 == c).unwrap();
                        if g == CursorPosition::OnWordRightEdge(i) || g == CursorPosition::OnWordLeftEdge(i + 1) {
                            return Ok(());
                        }
                    }
                    eq("classification", g, classify(c, l))
                });
            }
        }
        lists = next;
    }
    r.section(1.0);
    let lim = if r.thorough { 200000 } else { 20000 };
    let mut k = 0;
    while r.go() && k < lim {
        k += 1;
        let t = rand_text(&mut r.rng, 16, &['a', ' ', '\\', ' ', 'é', '世', '\t', '\n', '.']);
        r.case(&|| format!("text {:?}", st(&t)), true, || word_case(&t));
    }
    "all texts of length <= 6 over {a, space, backslash, newline} with all cursors, all lists of up to 3 ordered words with all cursors, then random texts; non-trivial when longer than 1"
}

// ------------------------------------------------------------------ longest common prefix, through completion
fn lcp(v: &[Vec<char>]) -> Vec<char> {
    let mut p = v[0].clone();
    for x in v {
        while !x.starts_with(&p) {
            p.pop();
        }
    }
    p
}
fn lcp_case(cands: &[Vec<char>], word: &[char]) -> Ck {
    let (mut ed, _t) = editor(&[], word)?;
    ed.complete(&mut Cands(strs(cands))).map_err(|e| e.to_string())?;
    let mut c = cands.to_vec();
    c.sort_by_key(|x| st(x));
    c.dedup();
    let want = if c.is_empty() {
        word.to_vec()
    } else if c.len() == 1 {
        c[0].clone()
    } else {
        let p = lcp(&c);
        if st(&p).len() > st(word).len() && p.starts_with(word) {
            p
        } else {
            word.to_vec()
        }
    };
    eq("line after completing", cur(&ed), st(&want))
}
pub fn c21(r: &mut Run) -> &'static str {
    r.section(0.5);
    let small = all_texts(&['a', 'b'], 3);
    for a in &small {
        for b in &small {
            for c in &small {
                if !r.go() {
                    break;
                }
                let v = vec![a.clone(), b.clone(), c.clone()];
                r.case(&|| format!("candidates {:?} for the empty line", strs(&v)), !lcp(&v).is_empty(), || lcp_case(&v, &[]));
                if c.is_empty() {
                    let v = vec![a.clone(), b.clone()];
                    r.case(&|| format!("candidates {:?} for the empty line", strs(&v)), !lcp(&v).is_empty(), || lcp_case(&v, &[]));
                }
            }
        }
    }
    r.section(1.0);
    let lim = if r.thorough { 100000 } else { 10000 };
    let mut k = 0;
    while r.go() && k < lim {
        k += 1;
        let base = rand_text(&mut r.rng, 12, &['a', 'é', 'b', '世', '😀', 'ß', '-', 'ё', 'Ж']);
        let n = 1 + r.rng.below(5);
        let v: Vec<Vec<char>> = (0..n)
            .map(|_| {
                let mut x = base[..base.len() - r.rng.below(base.len() + 1).min(2)].to_vec();
                x.extend(rand_text(&mut r.rng, 3, &['a', 'é', 'è', 'ё', 'Ж', '😀', '😁']));
                x
            })
            .collect();
        let l = lcp(&v);
        let w = l[..r.rng.below(l.len() + 1)].to_vec();
        let w = if w.contains(&' ') || w.contains(&'\\') { vec![] } else { w };
        r.case(&|| format!("candidates {:?} for {:?}", strs(&v), st(&w)), !l.is_empty(), || lcp_case(&v, &w));
    }
    "all lists of two and three candidates over {a,b}^<=3, then random lists sharing a prefix (multi-byte characters that share leading bytes included), observed through completion of a prefix; non-trivial when there is a common prefix"
}

// ------------------------------------------------------------------ prompt width, through the column moves of continuation lines
fn strip(p: &str) -> String {
    let c: Vec<char> = p.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < c.len() {
        if c[i] != '\x1b' {
            o.push(c[i]);
            i += 1;
        } else if i + 1 < c.len() && c[i + 1] == '[' {
            i += 2;
            while i < c.len() && !c[i].is_ascii_alphabetic() {
                i += 1;
            }
            i += 1;
        } else if i + 1 < c.len() && c[i + 1] == ']' {
            i += 2;
            while i < c.len() && c[i] != '\x07' {
                i += 1;
            }
            i += 1;
        } else {
            i += 2;
        }
    }
    o
}
fn prompt_case(p: &str) -> Ck {
    let (mut ed, t) = editor(&[], &[])?;
    ed.set_prompt(Prompt::from(p));
    t.0.borrow_mut().out.clear();
    ed.insert_str_after_cursor("q\nq").map_err(|e| e.to_string())?;
    let out = String::from_utf8_lossy(&t.0.borrow().out).into_owned();
    // the continuation line starts behind the prompt: CR LF, then blanks or moves to the right up to the prompt's width
    let last = p.rsplit('\n').next().unwrap();
    let want = strip(last).width();
    let mark = "q\r\n";
    let i = out.rfind(mark).ok_or(format!("no continuation line in {out:?}"))?;
    let rest: Vec<char> = out[i + mark.len()..].chars().collect();
    let (mut k, mut col) = (0, 0);
    while k < rest.len() && rest[k] != 'q' {
        if rest[k] == '\x1b' {
            let mut j = k + 2;
            while j < rest.len() && !rest[j].is_ascii_alphabetic() {
                j += 1;
            }
            if rest.get(j) == Some(&'C') {
                col += rest[k + 2..j].iter().collect::<String>().parse::<usize>().unwrap_or(1).max(1);
            }
            k = j;
        } else {
            col += 1;
        }
        k += 1;
    }
    eq("column of the continuation line", col, want)
}
pub fn c22(r: &mut Run) -> &'static str {
    set_cols(200);
    r.section(0.6);
    for t in all_texts(&['\x1b', '[', ']', 'm', '\x07', '5'], if r.thorough { 6 } else { 5 }) {
        if !r.go() {
            break;
        }
        // the prompt is also printed verbatim; keep the marker unambiguous
        r.case(&|| format!("prompt {:?}", st(&t)), t.contains(&'\x1b'), || prompt_case(&st(&t)));
    }
    r.section(1.0);
    let lim = if r.thorough { 50000 } else { 5000 };
    let mut k = 0;
    while r.go() && k < lim {
        k += 1;
        let t = rand_text(&mut r.rng, 16, &['\x1b', '[', ']', 'm', 'K', '\x07', '1', ';', 'é', '世', 'a', '\n', '\\', '@', 'Z', ' ', '~', '😀']);
        r.case(&|| format!("prompt {:?}", st(&t)), t.contains(&'\x1b'), || prompt_case(&st(&t)));
    }
    "all prompts of length <= 5 over {ESC, [, ], m, BEL, 5}, then random prompts with wide characters and line breaks; non-trivial when an escape occurs"
}
