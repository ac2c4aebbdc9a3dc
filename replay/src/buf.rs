//! C01, C02, C03: the buffer.
use crate::util::*;
use liner::*;
use unicode_width::UnicodeWidthStr;

fn mk(t: &[char]) -> Buffer {
    Buffer::from(st(t))
}

pub fn c01(r: &mut Run) -> &'static str {
    let small = all_texts(&['a', 'é', '\n'], 3);
    let ins: Vec<Vec<char>> = all_texts(&['x', '€'], 2);
    let one = |t: &Vec<char>, p: usize, e: usize, s: &Vec<char>| -> Ck {
        let mut b = mk(t);
        b.insert(p, s);
        let mut w = t[..p].to_vec();
        w.extend_from_slice(s);
        w.extend_from_slice(&t[p..]);
        eq("text after insert", text(&b), st(&w))?;
        let mut b = mk(t);
        let n = b.remove(p, e);
        eq("removed count", n, e - p)?;
        let mut w = t[..p].to_vec();
        w.extend_from_slice(&t[e..]);
        eq("text after remove", text(&b), st(&w))?;
        let mut b = mk(t);
        b.truncate(p);
        eq("text after truncate", text(&b), st(&t[..p]))?;
        let mut b = mk(t);
        b.copy_buffer(&mk(s));
        eq("text after copy_buffer", text(&b), st(s))?;
        let mut b = mk(&t[..p]);
        b.insert_from_buffer(&mk(t));
        eq("text after insert_from_buffer", text(&b), st(t))?;
        // appends whatever is behind its own length, even if the texts differ
        if s.len() <= t.len() {
            let mut b = mk(s);
            b.insert_from_buffer(&mk(t));
            let mut w = s.clone();
            w.extend_from_slice(&t[s.len()..]);
            eq("text after insert_from_buffer (other text)", text(&b), st(&w))?;
        }
        // actions
        let mut b = mk(t);
        Action::Insert { start: p, text: s.clone() }.do_on(&mut b);
        let mut w = t[..p].to_vec();
        w.extend_from_slice(s);
        w.extend_from_slice(&t[p..]);
        eq("text after Action::Insert", text(&b), st(&w))?;
        Action::Insert { start: p, text: s.clone() }.undo(&mut b);
        eq("text after undoing Action::Insert", text(&b), st(t))?;
        Action::Remove { start: p, text: t[p..e].to_vec() }.do_on(&mut b);
        let mut w = t[..p].to_vec();
        w.extend_from_slice(&t[e..]);
        eq("text after Action::Remove", text(&b), st(&w))?;
        Action::Remove { start: p, text: t[p..e].to_vec() }.undo(&mut b);
        eq("text after undoing Action::Remove", text(&b), st(t))
    };
    for t in &small {
        for p in 0..=t.len() {
            for e in p..=t.len() {
                for s in &ins {
                    r.case(&|| format!("text {:?}, position {p}, end {e}, inserted {:?}", st(t), st(s)), !t.is_empty() && !s.is_empty(), || one(t, p, e, s));
                }
            }
        }
    }
    r.section(1.0);
    let n = if r.thorough { 200000 } else { 30000 };
    let mut k = 0;
    while r.go() && k < n {
        k += 1;
        let max = if k % 50 == 0 { 300 } else { 24 };
        let t = rand_text(&mut r.rng, max, ALPHA);
        let s = rand_text(&mut r.rng, 8, ALPHA);
        let p = r.rng.below(t.len() + 1);
        let e = p + r.rng.below(t.len() - p + 1);
        r.case(&|| format!("text {:?}, position {p}, end {e}, inserted {:?}", st(&t), st(&s)), !t.is_empty(), || one(&t, p, e, &s));
    }
    "all texts of length <= 3 over {a, é, newline}, all ranges, all insertions of length <= 2, then random texts; a case is non-trivial when text (and insertion) are non-empty"
}

// ------------------------------------------------------------------ undo model
#[derive(Clone, Debug)]
pub enum Tok {
    Start,
    End,
    Edit(Vec<char>, Vec<char>), // text before, after
}
#[derive(Clone, Debug)]
pub enum Op {
    Insert(usize, Vec<char>),
    Remove(usize, usize),
    Truncate(usize),
    Copy(Vec<char>),
    Start,
    End,
    Undo,
    Redo,
    Revert,
    Clear,
}
/// snapshots of the text around every recorded change
#[derive(Clone, Default)]
pub struct Log {
    pub text: Vec<char>,
    pub done: Vec<Tok>,
    pub undone: Vec<Tok>,
}
impl Log {
    pub fn edit(&mut self, after: Vec<char>) {
        self.done.push(Tok::Edit(self.text.clone(), after.clone()));
        self.undone.clear();
        self.text = after;
    }
    fn undo_step(&mut self) -> bool {
        let did = !self.done.is_empty();
        let (mut nest, mut seen) = (0i64, false);
        while let Some(t) = self.done.pop() {
            match &t {
                Tok::End => nest += 1,
                Tok::Start => nest -= 1,
                Tok::Edit(b, _) => {
                    seen = true;
                    self.text = b.clone();
                }
            }
            self.undone.push(t);
            if nest == 0 && seen {
                break;
            }
        }
        did
    }
    pub fn undo(&mut self) -> bool {
        self.undo_step()
    }
    pub fn redo(&mut self) -> bool {
        let did = !self.undone.is_empty();
        let (mut nest, mut seen) = (0i64, false);
        while let Some(t) = self.undone.pop() {
            match &t {
                Tok::Start => nest += 1,
                Tok::End => nest -= 1,
                Tok::Edit(_, a) => {
                    seen = true;
                    self.text = a.clone();
                }
            }
            self.done.push(t);
            if nest == 0 && seen {
                break;
            }
        }
        did
    }
    pub fn revert(&mut self) -> bool {
        let did = !self.done.is_empty();
        while self.undo_step() {}
        did
    }
    pub fn depth(&self) -> i64 {
        self.done.iter().map(|t| match t { Tok::Start => 1, Tok::End => -1, _ => 0 }).sum()
    }
    /// returns what the operation reports, if anything
    pub fn apply(&mut self, op: &Op) -> Option<bool> {
        match op {
            Op::Insert(p, s) => {
                let mut w = self.text[..*p].to_vec();
                w.extend_from_slice(s);
                w.extend_from_slice(&self.text[*p..]);
                self.edit(w);
                None
            }
            Op::Remove(a, b) => {
                let mut w = self.text[..*a].to_vec();
                w.extend_from_slice(&self.text[*b..]);
                self.edit(w);
                None
            }
            Op::Truncate(a) => {
                let w = self.text[..*a].to_vec();
                self.edit(w);
                None
            }
            Op::Copy(s) => {
                self.edit(vec![]);
                self.edit(s.clone());
                None
            }
            Op::Start => {
                self.done.push(Tok::Start);
                None
            }
            Op::End => {
                self.done.push(Tok::End);
                None
            }
            Op::Undo => Some(self.undo()),
            Op::Redo => Some(self.redo()),
            Op::Revert => Some(self.revert()),
            Op::Clear => {
                self.done.clear();
                self.undone.clear();
                None
            }
        }
    }
}
fn real(b: &mut Buffer, op: &Op) -> Option<bool> {
    match op {
        Op::Insert(p, s) => b.insert(*p, s),
        Op::Remove(x, y) => {
            b.remove(*x, *y);
        }
        Op::Truncate(x) => b.truncate(*x),
        Op::Copy(s) => b.copy_buffer(&mk(s)),
        Op::Start => b.start_undo_group(),
        Op::End => b.end_undo_group(),
        Op::Undo => return Some(b.undo()),
        Op::Redo => return Some(b.redo()),
        Op::Revert => return Some(b.revert()),
        Op::Clear => b.clear_actions(),
    }
    None
}
fn run_ops(init: &[char], ops: &[Op]) -> Ck {
    let mut b = mk(init);
    let mut m = Log { text: init.to_vec(), ..Default::default() };
    for (i, op) in ops.iter().enumerate() {
        let x = real(&mut b, op);
        let y = m.apply(op);
        eq(&format!("report of step {} ({op:?})", i + 1), x, y)?;
        eq(&format!("text after step {} ({op:?})", i + 1), text(&b), st(&m.text))?;
    }
    Ok(())
}
pub fn c02(r: &mut Run) -> &'static str {
    // exhaustive: all sequences of length <= 7 over {edit, start, end, undo, redo} with balanced groups
    fn rec(r: &mut Run, ops: &mut Vec<Op>, m: &Log, left: usize, revert: bool) {
        if !r.go() {
            return;
        }
        let o = ops.clone();
        r.case(&|| format!("on \"x\": {o:?}"), o.iter().any(|x| matches!(x, Op::Undo)), || run_ops(&['x'], &o));
        if left == 0 {
            return;
        }
        let mut next = vec![Op::Start, Op::Undo, Op::Redo];
        let c = char::from(b'a' + (ops.len() as u8));
        if m.text.len() < 3 {
            next.push(Op::Insert(m.text.len(), vec![c]));
        } else {
            next.push(Op::Remove(1, 2));
        }
        if m.depth() > 0 {
            next.push(Op::End);
        }
        if revert {
            next.push(Op::Revert);
        }
        for op in next {
            let mut m2 = m.clone();
            m2.apply(&op);
            ops.push(op);
            rec(r, ops, &m2, left - 1, revert);
            ops.pop();
        }
    }
    r.section(0.7);
    let n = if r.thorough { 8 } else { 7 };
    rec(r, &mut vec![], &Log { text: vec!['x'], ..Default::default() }, n, false);
    rec(r, &mut vec![], &Log { text: vec!['x'], ..Default::default() }, 5, true);
    r.section(1.0);
    let lim = if r.thorough { 300000 } else { 30000 };
    let mut k = 0;
    while r.go() && k < lim {
        k += 1;
        let init = rand_text(&mut r.rng, 4, ALPHA);
        let mut m = Log { text: init.clone(), ..Default::default() };
        let mut ops = vec![];
        let len = 1 + r.rng.below(30);
        for _ in 0..len {
            let l = m.text.len();
            let p = r.rng.below(l + 1);
            let op = match r.rng.below(20) {
                0..=4 => Op::Insert(p, rand_text(&mut r.rng, 3, ALPHA)),
                5..=6 => Op::Remove(p, p + r.rng.below(l - p + 1)),
                7 => Op::Truncate(p),
                8 => Op::Copy(rand_text(&mut r.rng, 3, ALPHA)),
                9..=11 => Op::Start,
                12..=14 => {
                    if m.depth() > 0 {
                        Op::End
                    } else {
                        Op::Start
                    }
                }
                15..=16 => Op::Undo,
                17 => Op::Redo,
                18 => Op::Revert,
                _ => {
                    if r.rng.chance(1, 4) {
                        Op::Clear
                    } else {
                        Op::Undo
                    }
                }
            };
            m.apply(&op);
            ops.push(op);
        }
        r.case(&|| format!("on {:?}: {ops:?}", st(&init)), true, || run_ops(&init, &ops));
    }
    "all sequences of up to 7 (thorough: 8) edits, group starts/ends, undos and redos, then random sequences of up to 30 steps; non-trivial when an undo occurs"
}

// ------------------------------------------------------------------ queries
fn lines(t: &[char]) -> Vec<Vec<char>> {
    let mut out = vec![vec![]];
    for c in t {
        if *c == '\n' {
            out.push(vec![]);
        } else {
            out.last_mut().unwrap().push(*c);
        }
    }
    out
}
pub fn last_arg(t: &[char]) -> Option<Vec<char>> {
    t.split(|c| *c == ' ').filter(|s| !s.is_empty()).last().map(|s| s.to_vec())
}
pub fn occurs(t: &[char], p: &[char]) -> bool {
    !p.is_empty() && (0..=t.len()).any(|i| t[i..].starts_with(p))
}
pub fn continues(t: &[char], p: &[char]) -> bool {
    !p.is_empty() && t.len() != p.len() && t.starts_with(p)
}
fn queries(t: &[char], u: &[char], p: usize, e: usize) -> Ck {
    let b = mk(t);
    let c = mk(u);
    eq("String::from(buffer)", String::from(b.clone()), st(t))?;
    eq("to_string", b.to_string(), st(t))?;
    eq("from &str", text(&Buffer::from(&st(t)[..])), st(t))?;
    eq("from chars", text(&t.iter().cloned().collect::<Buffer>()), st(t))?;
    eq("num_chars", b.num_chars(), t.len())?;
    eq("num_bytes", b.num_bytes(), st(t).len())?;
    eq("is_empty", b.is_empty(), t.is_empty())?;
    eq("char_before", b.char_before(p), if p > 0 { Some(t[p - 1]) } else { None })?;
    eq("char_before past the end", b.char_before(t.len() + 2), None)?;
    eq("char_after", b.char_after(p), t.get(p).cloned())?;
    eq("range", b.range(p, e), st(&t[p..e]))?;
    eq("range_chars", b.range_chars(p, e), t[p..e].to_vec())?;
    let w = |x: &[char]| -> Vec<usize> { lines(x).iter().map(|l| st(l).width()).collect() };
    eq("width", b.width(), w(t))?;
    eq("range_width", b.range_width(p, e), w(&t[p..e]))?;
    eq("lines", b.lines(), lines(t).iter().map(|l| st(l)).collect::<Vec<_>>())?;
    eq("chars", b.chars().cloned().collect::<Vec<_>>(), t.to_vec())?;
    eq("as_bytes", b.as_bytes(), st(t).into_bytes())?;
    let mut o: Vec<u8> = vec![];
    b.print(&mut o).map_err(|e| e.to_string())?;
    eq("printed", o, st(t).into_bytes())?;
    let mut o: Vec<u8> = vec![];
    let n = b.print_rest(&mut o, p).map_err(|e| e.to_string())?;
    eq("printed rest", o, st(&t[p..]).into_bytes())?;
    eq("length of printed rest", n, st(&t[p..]).len())?;
    let mut o: Vec<u8> = vec![];
    let n = b.print_rest(&mut o, t.len() + 1).map_err(|e| e.to_string())?;
    eq("printed rest past the end", (o.len(), n), (0, 0))?;
    eq("last_arg", b.last_arg().map(|x| x.to_vec()), last_arg(t))?;
    eq("starts_with", b.starts_with(&c), continues(t, u))?;
    eq("contains", b.contains(&c), occurs(t, u))?;
    eq("==", b == c, t == u)?;
    // equality and queries ignore the recorded changes
    let mut d = mk(u);
    d.insert(0, &['z']);
    d.remove(0, 1);
    eq("== after edits", c == d, true)?;
    eq("contains after edits", b.contains(&d), occurs(t, u))?;
    eq("text of a clone", text(&d.clone()), st(u))
}
pub fn c03(r: &mut Run) -> &'static str {
    r.section(0.7);
    let small = all_texts(&['a', 'b', ' '], 4);
    let pats = all_texts(&['a', 'b', ' '], 3);
    for t in &small {
        for u in &pats {
            if !r.go() {
                break;
            }
            let p = u.len().min(t.len());
            r.case(&|| format!("text {:?}, other {:?}, range {p}..{}", st(t), st(u), t.len()), !t.is_empty() && !u.is_empty(), || queries(t, u, p, t.len()));
        }
    }
    let small = all_texts(&['a', '\n', '世', ' '], 3);
    for t in &small {
        for p in 0..=t.len() {
            for e in p..=t.len() {
                r.case(&|| format!("text {:?}, other {:?}, range {p}..{e}", st(t), st(&t[p..e])), p < e, || queries(t, &t[p..e], p, e));
            }
        }
    }
    r.section(1.0);
    let lim = if r.thorough { 200000 } else { 20000 };
    let mut k = 0;
    while r.go() && k < lim {
        k += 1;
        let t = rand_text(&mut r.rng, 20, ALPHA);
        let p = r.rng.below(t.len() + 1);
        let e = p + r.rng.below(t.len() - p + 1);
        let mut u = match r.rng.below(4) {
            0 => t[p..e].to_vec(),
            1 => t[..e].to_vec(),
            2 => t.clone(),
            _ => rand_text(&mut r.rng, 3, ALPHA),
        };
        if r.rng.chance(1, 4) {
            u.push(*r.rng.pick(ALPHA));
        }
        r.case(&|| format!("text {:?}, other {:?}, range {p}..{e}", st(&t), st(&u)), !u.is_empty(), || queries(&t, &u, p, e));
    }
    "all pairs of texts of length <= 4 and <= 3 over {a, b, space}, all ranges of texts of length <= 3 over {a, newline, wide char, space}, then random pairs (sub-ranges, prefixes, unrelated); non-trivial when the second text or range is non-empty"
}
