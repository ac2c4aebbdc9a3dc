//! C08-C14, C20, C23: the editor, against a plain model of a line editor.
use crate::buf::{continues, last_arg, occurs, Log, Op};
use crate::util::*;
use crate::words::{classify, words};
use liner::*;
use std::io;

type T = Vec<char>;

// ------------------------------------------------------------------ the model
#[derive(Clone, Debug)]
pub enum Ed1 {
    Ins(T),
    Bs,
    Del,
    DelBefore,
    DelAfter,
    DelUntil(usize),
    DelUntilIncl(usize),
    DelWord(bool),
    Left(usize),
    Right(usize),
    To(usize),
    Home,
    End,
    Undo,
    Redo,
    Revert,
    Up,
    Down,
    HStart,
    HEnd,
    Search(bool),
    Accept,
    Newline,
    Complete(Vec<String>),
    Skip,
    Clear,
    Take,
    Eol(bool),
    AtEnd,
    SetPrompt,
}
use Ed1::*;
#[derive(Clone, Debug, PartialEq)]
pub enum Rep {
    None,
    Bool(bool),
    Text(String),
}
#[derive(Clone)]
pub struct Model {
    pub new: Log,
    pub hist: Option<Log>,
    pub loc: Option<usize>,
    pub entries: Vec<T>,
    pub cursor: usize,
    pub no_eol: bool,
    pub search: Option<bool>,
    pub subset: Vec<usize>,
    pub sloc: Option<usize>,
    pub changed: bool,
    pub sugg: Option<T>,
    pub hint: Option<(Vec<String>, Option<usize>)>,
}
fn line(t: &[char]) -> Log {
    Log { text: t.to_vec(), ..Default::default() }
}
impl Model {
    pub fn new(hist: &[T], init: &[char]) -> Model {
        let mut m = Model {
            new: line(init),
            hist: None,
            loc: None,
            entries: hist.to_vec(),
            cursor: init.len(),
            no_eol: false,
            search: None,
            subset: vec![],
            sloc: None,
            changed: false,
            sugg: None,
            hint: None,
        };
        m.show();
        m
    }
    pub fn text(&self) -> &T {
        match (self.loc, &self.hist) {
            (Some(_), Some(h)) => &h.text,
            (Some(i), None) => &self.entries[i],
            _ => &self.new.text,
        }
    }
    fn line(&mut self) -> &mut Log {
        self.changed = true;
        match self.loc {
            Some(i) => {
                if self.hist.is_none() {
                    self.hist = Some(line(&self.entries[i]));
                }
                self.hist.as_mut().unwrap()
            }
            None => &mut self.new,
        }
    }
    fn research(&mut self, fwd: bool) {
        let target = self.sloc.and_then(|k| self.subset.get(k).copied());
        self.subset = (0..self.entries.len()).filter(|i| occurs(&self.entries[*i], &self.new.text)).collect();
        let n = self.subset.len();
        self.sloc = if n == 0 {
            None
        } else {
            let start = if fwd { 0 } else { n - 1 };
            Some(match target {
                None => start,
                Some(t) => match self.subset.iter().position(|m| t <= *m) {
                    None => start,
                    Some(i) if fwd || self.subset[i] == t || i == 0 => i,
                    Some(i) => i - 1,
                },
            })
        };
        self.search = Some(fwd);
        self.loc = None;
        self.hist = None;
        self.changed = false;
    }
    fn show(&mut self) {
        if let (Some(f), true) = (self.search, self.changed) {
            self.research(f);
        }
        self.sugg = if self.loc.is_some() && self.hist.is_some() {
            None
        } else if self.search.is_some() {
            self.sloc.map(|k| self.entries[self.subset[k]].clone())
        } else if let Some(i) = self.loc {
            Some(self.entries[i].clone())
        } else {
            (0..self.entries.len()).rev().map(|i| &self.entries[i]).find(|e| continues(e, &self.new.text)).cloned()
        };
        self.clamp();
    }
    fn clamp(&mut self) {
        let n = self.text().len();
        self.cursor = self.cursor.min(n);
        if self.no_eol && self.cursor > 0 && self.cursor == n {
            self.cursor -= 1;
        }
    }
    fn end(&mut self) {
        self.cursor = self.text().len();
        self.show();
    }
    fn clear_search(&mut self) {
        self.search = None;
        self.sloc = None;
        self.subset.clear();
    }
    pub fn word_before(&self, over_space: bool) -> Option<(usize, usize)> {
        let w = words(self.text());
        use CursorPosition::*;
        match classify(self.cursor, &w) {
            InWord(i) | OnWordRightEdge(i) => Some(w[i]),
            InSpace(Some(i), _) if over_space => Some(w[i]),
            OnWordLeftEdge(i) if over_space && i > 0 => Some(w[i - 1]),
            _ => None,
        }
    }
    fn insert(&mut self, s: &[char]) {
        let c = self.cursor;
        self.line().apply(&Op::Insert(c, s.to_vec()));
        self.cursor += s.len();
        self.show();
    }
    fn remove(&mut self, a: usize, b: usize) {
        self.line().apply(&Op::Remove(a, b));
        self.cursor = a;
        self.show();
    }
    fn accept(&mut self) {
        let s = self.sugg.clone();
        let searching = self.search.is_some();
        let n = self.text().len();
        let l = self.line();
        match s {
            Some(x) if searching => {
                l.apply(&Op::Copy(x));
            }
            Some(x) => {
                l.apply(&Op::Insert(n, x[n..].to_vec()));
            }
            None => {}
        }
        self.clear_search();
        self.end();
    }
    fn replace_word(&mut self, by: &str) {
        if let Some((a, _)) = self.word_before(false) {
            let c = self.cursor;
            self.remove(a, c);
        } else {
            self.show();
        }
        self.insert(&chars(by));
    }
    pub fn apply(&mut self, op: &Ed1) -> Rep {
        let n = self.text().len();
        let c = self.cursor;
        match op {
            Ins(s) => self.insert(s),
            Bs => {
                if c > 0 {
                    self.remove(c - 1, c)
                } else {
                    self.show()
                }
            }
            Del => {
                if c < n {
                    self.remove(c, c + 1)
                } else {
                    self.line();
                    self.show()
                }
            }
            DelBefore => self.remove(0, c),
            DelAfter => self.remove(c, n),
            DelUntil(p) => {
                let p = (*p).min(n);
                self.remove(c.min(p), c.max(p))
            }
            DelUntilIncl(p) => {
                let p = (*p).min(n);
                self.remove(c.min(p), (c.max(p) + 1).min(n))
            }
            DelWord(o) => match self.word_before(*o) {
                Some((a, _)) => self.remove(a, c),
                None => self.show(),
            },
            Left(k) => {
                self.cursor = c.saturating_sub(*k);
                self.show()
            }
            Right(k) => {
                self.cursor = c.saturating_add(*k).min(n);
                self.show()
            }
            To(p) => {
                self.cursor = (*p).min(n);
                self.show()
            }
            Home => {
                self.cursor = 0;
                self.show()
            }
            End => self.end(),
            Undo | Redo | Revert => {
                let l = self.line();
                let did = match op {
                    Undo => l.undo(),
                    Redo => l.redo(),
                    _ => l.revert(),
                };
                if did {
                    self.end()
                } else {
                    self.show()
                }
                return Rep::Bool(did);
            }
            Search(f) => {
                self.search_key(*f);
            }
            Up if self.search.is_some() => self.search_key(false),
            Down if self.search.is_some() => self.search_key(true),
            Up => {
                self.hist = None;
                if self.new.text.is_empty() {
                    self.loc = match self.loc {
                        Some(i) => Some(i.saturating_sub(1)),
                        None => self.entries.len().checked_sub(1),
                    };
                } else {
                    match self.sloc {
                        Some(k) if k > 0 => {
                            self.sloc = Some(k - 1);
                            self.loc = Some(self.subset[k - 1]);
                        }
                        None => {
                            let t = &self.new.text;
                            let starts = |i: &usize| continues(&self.entries[*i], t);
                            let other = |i: &usize| occurs(&self.entries[*i], t) && !starts(i) && &self.entries[*i] != t;
                            self.subset = (0..self.entries.len()).filter(other).chain((0..self.entries.len()).filter(starts)).collect();
                            if let Some(x) = self.subset.last() {
                                self.loc = Some(*x);
                                self.sloc = Some(self.subset.len() - 1);
                            }
                        }
                        _ => {}
                    }
                }
                self.end()
            }
            Down => {
                self.hist = None;
                if self.new.text.is_empty() {
                    self.loc = self.loc.map(|i| i + 1).filter(|i| *i < self.entries.len());
                } else if let Some(k) = self.sloc {
                    if k + 1 < self.subset.len() {
                        self.sloc = Some(k + 1);
                        self.loc = Some(self.subset[k + 1]);
                    } else {
                        self.sloc = None;
                        self.loc = None;
                        self.subset.clear();
                    }
                }
                self.end()
            }
            HStart => {
                self.hist = None;
                if self.entries.is_empty() {
                    self.loc = None;
                    self.show()
                } else {
                    if self.search.is_some() {
                        self.clear_search();
                    }
                    self.loc = Some(0);
                    self.end()
                }
            }
            HEnd => {
                self.hist = None;
                if self.loc.is_some() {
                    self.loc = None;
                    self.sloc = None;
                    self.subset.clear();
                    self.end()
                } else {
                    self.show()
                }
            }
            Accept => self.accept(),
            Newline => {
                if self.search.is_some() {
                    self.accept();
                }
                self.clear_search();
                if self.hint.is_some() {
                    self.hint = None;
                    return Rep::Bool(false);
                }
                let c = self.cursor;
                if c > 0 && self.text()[c - 1] == '\\' {
                    self.insert(&['\n']);
                    return Rep::Bool(false);
                }
                self.cursor = self.text().len();
                self.clamp();
                return Rep::Bool(true);
            }
            Complete(cands) => self.complete(cands),
            Skip => self.hint = None,
            Clear => {
                self.clear_search();
                self.show()
            }
            Take => {
                let t = st(self.text());
                self.cursor = 0;
                *self.line() = line(&[]);
                return Rep::Text(t);
            }
            Eol(b) => self.no_eol = *b,
            AtEnd => return Rep::Bool(c + self.no_eol as usize >= n),
            SetPrompt => {}
        }
        Rep::None
    }
    fn search_key(&mut self, f: bool) {
        if self.search.is_none() {
            self.research(f);
        } else if let Some(p) = self.sloc {
            let n = self.subset.len();
            self.sloc = Some(if f { (p + 1) % n } else { (p + n - 1) % n });
        }
        self.show();
    }
    fn complete(&mut self, cands: &[String]) {
        if let Some((list, at)) = self.hint.take() {
            let i = at.map_or(0, |i| (i + 1) % list.len());
            match at {
                Some(x) if st(self.text()) == list[x] => {
                    let n = self.text().len();
                    self.line().apply(&Op::Remove(0, n));
                    self.cursor = 0;
                    self.insert(&chars(&list[i]));
                }
                _ => self.replace_word(&list[i]),
            }
            self.hint = Some((list, Some(i)));
            self.show();
            return;
        }
        let mut list = cands.to_vec();
        list.sort();
        list.dedup();
        let word = match self.word_before(false) {
            Some((a, b)) => st(&self.text()[a..b]),
            None => String::new(),
        };
        self.line();
        if list.is_empty() {
            return;
        }
        if list.len() == 1 {
            self.replace_word(&list[0]);
            return;
        }
        let mut p = chars(&list[0]);
        for x in &list {
            let k = p.iter().zip(chars(x)).take_while(|(a, b)| **a == *b).count();
            p.truncate(k);
        }
        if p.len() > word.chars().count() && st(&p).starts_with(&word) {
            self.replace_word(&st(&p));
        } else {
            self.hint = Some((list, None));
            self.show();
        }
    }
}
pub fn real(ed: &mut Ed, op: &Ed1) -> io::Result<Rep> {
    match op {
        Ins(s) if s.len() == 1 => ed.insert_after_cursor(s[0])?,
        Ins(s) if s.len() % 2 == 0 => ed.insert_str_after_cursor(&st(s))?,
        Ins(s) => ed.insert_chars_after_cursor(s)?,
        Bs => ed.delete_before_cursor()?,
        Del => ed.delete_after_cursor()?,
        DelBefore => ed.delete_all_before_cursor()?,
        DelAfter => ed.delete_all_after_cursor()?,
        DelUntil(p) => ed.delete_until(*p)?,
        DelUntilIncl(p) => ed.delete_until_inclusive(*p)?,
        DelWord(o) => ed.delete_word_before_cursor(*o)?,
        Left(k) => ed.move_cursor_left(*k)?,
        Right(k) => ed.move_cursor_right(*k)?,
        To(p) => ed.move_cursor_to(*p)?,
        Home => ed.move_cursor_to_start_of_line()?,
        End => ed.move_cursor_to_end_of_line()?,
        Undo => return ed.undo().map(Rep::Bool),
        Redo => return ed.redo().map(Rep::Bool),
        Revert => return ed.revert().map(Rep::Bool),
        Up => ed.move_up()?,
        Down => ed.move_down()?,
        HStart => ed.move_to_start_of_history()?,
        HEnd => ed.move_to_end_of_history()?,
        Search(f) => ed.search(*f)?,
        Accept => ed.accept_autosuggestion()?,
        Newline => return ed.handle_newline().map(Rep::Bool),
        Complete(c) => ed.complete(&mut Cands(c.clone()))?,
        Skip => ed.skip_completions_hint(),
        Clear => ed.clear()?,
        Take => return Ok(Rep::Text(ed.take_exec_buffer())),
        Eol(b) => ed.no_eol = *b,
        AtEnd => return Ok(Rep::Bool(ed.cursor_is_at_end_of_line())),
        SetPrompt => ed.set_prompt(Prompt::from("new> ")),
    }
    Ok(Rep::None)
}
pub fn compare(ed: &Ed, m: &Model, when: &str) -> Ck {
    eq(&format!("line after {when}"), cur(ed), st(m.text()))?;
    eq(&format!("cursor after {when}"), ed.cursor(), m.cursor)?;
    eq(&format!("place in history after {when}"), ed.current_history_location(), m.loc)?;
    eq(&format!("suggestion showing after {when}"), ed.is_currently_showing_autosuggestion(), m.sugg.is_some())?;
    eq(&format!("stored entries after {when}"), hist_of(ed), strs(&m.entries))
}
fn run_ops(hist: &[T], init: &[char], ops: &[Ed1]) -> Ck {
    let (mut ed, _t) = editor(hist, init)?;
    let mut m = Model::new(hist, init);
    compare(&ed, &m, "creation")?;
    for (i, op) in ops.iter().enumerate() {
        let want = m.apply(op);
        let got = real(&mut ed, op).map_err(|e| format!("step {} ({op:?}) failed: {e}", i + 1))?;
        let when = format!("step {} ({op:?})", i + 1);
        eq(&format!("report of {when}"), got, want)?;
        if matches!(op, Eol(_) | Take) {
            continue; // takes effect with the next display
        }
        compare(&ed, &m, &when)?;
    }
    // the text of the editor, consumed
    let want = st(m.text());
    eq("text of the editor as a string", String::from(ed), want)
}
fn show_ops(hist: &[T], init: &[char], ops: &[Ed1]) -> String {
    format!("history {:?}, initial line {:?}, calls {:?}", strs(hist), st(init), ops)
}
const EDA: &[char] = &['a', 'b', 'a', ' ', ' ', '\\', 'é', '世', '\n', 'c'];
fn seqs(r: &mut Run, small: &[Ed1], depth: usize, hists: &[Vec<T>], inits: &[T], rnd: &dyn Fn(&mut Rng) -> Ed1, warm: &dyn Fn(&mut Rng) -> Vec<Ed1>, maxlen: usize) {
    r.section(0.45);
    // all short sequences over the small alphabet
    for d in 1..=depth {
        let mut idx = vec![0usize; d];
        'next: loop {
            for h in hists {
                for t in inits {
                    if !r.go() {
                        return finish(r, rnd, warm, maxlen);
                    }
                    let ops: Vec<Ed1> = idx.iter().map(|i| small[*i].clone()).collect();
                    r.case(&|| show_ops(h, t, &ops), true, || run_ops(h, t, &ops));
                }
            }
            for k in (0..d).rev() {
                idx[k] += 1;
                if idx[k] < small.len() {
                    continue 'next;
                }
                idx[k] = 0;
            }
            break;
        }
    }
    finish(r, rnd, warm, maxlen)
}
fn finish(r: &mut Run, rnd: &dyn Fn(&mut Rng) -> Ed1, warm: &dyn Fn(&mut Rng) -> Vec<Ed1>, maxlen: usize) {
    r.section(1.0);
    let mut k = 0;
    let lim = if r.thorough { 400000 } else { 120000 };
    while r.go() && k < lim {
        k += 1;
        let h = rand_hist(&mut r.rng);
        let t = rand_text(&mut r.rng, 7, EDA);
        let mut ops = warm(&mut r.rng);
        let n = 1 + r.rng.below(maxlen);
        ops.extend((0..n).map(|_| rnd(&mut r.rng)));
        r.case(&|| show_ops(&h, &t, &ops), ops.len() > 2, || run_ops(&h, &t, &ops));
    }
}
fn rand_hist(r: &mut Rng) -> Vec<T> {
    let n = r.below(7);
    (0..n).map(|_| { let m = 1 + r.below(6); let mut t = rand_text(r, m, &['a', 'b', 'a', ' ', '世', '\n']); if t.is_empty() && r.chance(4, 5) { t.push('a') } t }).collect()
}
pub fn ch(s: &str) -> T {
    chars(s)
}
fn edit_op(r: &mut Rng) -> Ed1 {
    let p = |r: &mut Rng| if r.chance(1, 12) { usize::MAX } else { r.below(10) };
    match r.below(22) {
        0..=3 => Ins(rand_text(r, 3, EDA)),
        4 => Bs,
        5 => Del,
        6 => DelBefore,
        7 => DelAfter,
        8 => DelUntil(p(r)),
        9 => DelUntilIncl(p(r)),
        10 => DelWord(r.chance(1, 2)),
        11 | 12 => Left(p(r)),
        13 => Right(p(r)),
        14 => To(p(r)),
        15 => Home,
        16 => End,
        17 | 18 => Undo,
        19 => Redo,
        20 => if r.chance(1, 3) { Revert } else { AtEnd },
        _ => Eol(r.chance(1, 2)),
    }
}
fn list_hists() -> Vec<Vec<T>> {
    vec![
        vec![],
        vec![ch("ab")],
        vec![ch("ab"), ch("b"), ch("abc")],
        vec![ch("xa"), ch("a"), ch("ab"), ch("ba"), ch("ab")],
    ]
}

pub fn c09(r: &mut Run) -> &'static str {
    let small = [Ins(ch("x")), Ins(ch("é\n")), Bs, Del, DelBefore, DelAfter, DelUntil(1), DelUntilIncl(1), DelUntil(9), DelUntilIncl(0), DelWord(true), DelWord(false), Left(1), Right(1), Left(9), Right(9), To(2), Home, End, Undo, Redo, Revert, Eol(true), Up, Clear, SetPrompt, AtEnd, Take];
    let hists = [vec![], vec![ch("ab c"), ch("a 世\\ b")]];
    let inits = [ch(""), ch("ab"), ch("a b\\ é")];
    seqs(r, &small, 3, &hists, &inits,
        &|r| edit_op(r),
        &|r| if r.chance(1, 3) { (0..1 + r.below(3)).map(|_| Up).collect() } else { vec![] },
        14);
    "all sequences of up to 3 of 28 editing calls on 3 lines and on a shown history entry, then random sequences of editing calls on random lines and entries; line, cursor, place in history, stored entries and reported results against a reference editor"
}
pub fn c10(r: &mut Run) -> &'static str {
    let small = [Up, Down, HStart, HEnd, Ins(ch("a")), Bs, Undo, Revert, Del, Home, Clear];
    let inits = [ch(""), ch("a"), ch("b")];
    seqs(r, &small, 4, &list_hists(), &inits,
        &|r| match r.below(20) {
            0..=5 => Up,
            6..=9 => Down,
            10 => HStart,
            11 | 12 => HEnd,
            13 => Accept,
            14 => DelBefore,
            _ => edit_op(r),
        },
        &|_| vec![], 16);
    "all sequences of up to 4 of 11 browsing and editing calls over 4 histories and 3 typed lines, then random ones; the shown line, the place in history and all stored entries against a reference editor"
}
pub fn c11(r: &mut Run) -> &'static str {
    let small = [Search(false), Search(true), Ins(ch("a")), Ins(ch("b")), Bs, Accept, Up, Down, HStart, HEnd, Newline];
    let inits = [ch(""), ch("a"), ch("b")];
    seqs(r, &small, 4, &list_hists(), &inits,
        &|r| match r.below(16) {
            0..=3 => Search(r.chance(1, 2)),
            4..=7 => Ins(rand_text(r, 2, &['a', 'b', ' ', '世'])),
            8 => Bs,
            9 => Accept,
            10 => Up,
            11 => Down,
            12 => if r.chance(1, 3) { HStart } else { HEnd },
            13 => DelBefore,
            14 => Undo,
            _ => if r.chance(1, 4) { Newline } else { Left(1) },
        },
        &|r| vec![Search(r.chance(1, 2))], 12);
    if r.fail.is_some() { return "" }
    // what is offered, made visible by accepting it
    "all sequences of up to 4 of 11 calls (search both ways, typing, accepting, browsing) over 4 histories, then random ones; the offered match is made visible by accepting, everything against a reference editor"
}
fn cands(r: &mut Rng) -> Vec<String> {
    let n = r.below(5);
    let p = st(&rand_text(r, 2, &['a', 'b', 'é']));
    (0..n).map(|_| p.clone() + &st(&rand_text(r, 2, &['a', 'b', ' ', '世']))).collect()
}
pub fn c12(r: &mut Run) -> &'static str {
    for _ in 0..2000 {
        let ws = cands(&mut r.rng);
        let start = match r.rng.below(3) {
            0 => rand_text(&mut r.rng, 3, &['a', 'b', 'é', ' ']).iter().collect(),
            _ => ws.first().map(|w| w.chars().take(r.rng.below(4)).collect::<String>()).unwrap_or_default(),
        };
        let d = || format!("BasicCompleter of {ws:?}, asked for {start:?}");
        r.case(&d, true, || crate::files::basic(&ws, &start));
    }
    let s = |v: &[&str]| Complete(v.iter().map(|x| x.to_string()).collect());
    let small = [s(&[]), s(&["ab"]), s(&["b", "ab", "b"]), s(&["aab", "aaa"]), s(&["aé", "aéb"]), Ins(ch("a")), Ins(ch(" ")), Left(1), Skip, Newline, Undo];
    let hists = [vec![], vec![ch("ab a")]];
    let inits = [ch(""), ch("a"), ch("a b")];
    seqs(r, &small, 4, &hists, &inits,
        &|r| match r.below(14) {
            0..=5 => Complete(cands(r)),
            6 => Skip,
            7 => Ins(rand_text(r, 2, &['a', 'b', ' ', '\\'])),
            8 => Left(1),
            9 => Newline,
            10 => Up,
            11 => Undo,
            _ => edit_op(r),
        },
        &|_| vec![], 10);
    "2000 word lists for a BasicCompleter; all sequences of up to 4 of 11 calls (completion with 5 candidate lists, typing, moving, dismissing), then random ones with random candidates, against a reference editor"
}
pub fn c14(r: &mut Run) -> &'static str {
    let small = [Ins(ch("a")), Ins(ch("b")), Bs, Accept, Left(1), Up, Down, Undo, HEnd, Del, Eol(true)];
    let inits = [ch(""), ch("a")];
    seqs(r, &small, 4, &list_hists(), &inits,
        &|r| match r.below(12) {
            0..=3 => Ins(rand_text(r, 2, &['a', 'b', ' ', '世'])),
            4..=6 => Accept,
            7 => Up,
            8 => Down,
            _ => edit_op(r),
        },
        &|_| vec![], 10);
    "all sequences of up to 4 of 11 calls over 4 histories, then random ones; whether a suggestion shows after each, and what accepting it makes of the line, against a reference editor"
}

// ------------------------------------------------------------------ keys (Emacs)
#[derive(Clone)]
pub struct EmacsModel {
    pub m: Model,
    last: Option<(usize, usize)>, // entry, where its argument was inserted
}
impl EmacsModel {
    pub fn new(hist: &[T], init: &[char]) -> Self {
        EmacsModel { m: Model::new(hist, init), last: None }
    }
    /// what a key ends the line with: Some(Ok) accepted, Some(Err(kind))
    pub fn key(&mut self, k: Key, cands: &[String]) -> Option<Result<(), io::ErrorKind>> {
        let m = &mut self.m;
        let empty = m.text().is_empty();
        let k = if k == Key::Ctrl('h') { Key::Backspace } else { k };
        match k {
            Key::Ctrl('c') => {
                m.apply(&Newline);
                return Some(Err(io::ErrorKind::Interrupted));
            }
            Key::Ctrl('d') if empty => {
                m.apply(&Newline);
                return Some(Err(io::ErrorKind::UnexpectedEof));
            }
            Key::Char('\t') => {
                m.apply(&Complete(cands.to_vec()));
                return None;
            }
            Key::Char('\n') => return if m.apply(&Newline) == Rep::Bool(true) { Some(Ok(())) } else { None },
            Key::Ctrl('f') if m.sugg.is_some() => {
                m.apply(&Accept);
                return None;
            }
            Key::Right if m.sugg.is_some() && m.apply(&AtEnd) == Rep::Bool(true) => {
                m.apply(&Accept);
                return None;
            }
            Key::Ctrl('r') => {
                m.apply(&Search(false));
                return None;
            }
            Key::Ctrl('s') => {
                m.apply(&Search(true));
                return None;
            }
            _ => {}
        }
        if k != Key::Alt('.') {
            self.last = None;
        }
        let m = &mut self.m;
        match k {
            Key::Char(c) => { m.apply(&Ins(vec![c])); }
            Key::Ctrl('l') => { m.apply(&Clear); }
            Key::Ctrl('a') | Key::Home => { m.apply(&Home); }
            Key::Ctrl('e') | Key::End => { m.apply(&End); }
            Key::Ctrl('b') | Key::Left => { m.apply(&Left(1)); }
            Key::Ctrl('f') | Key::Right => { m.apply(&Right(1)); }
            Key::Ctrl('d') | Key::Delete => { m.apply(&Del); }
            Key::Backspace => { m.apply(&Bs); }
            Key::Ctrl('p') | Key::Up => { m.apply(&Up); }
            Key::Ctrl('n') | Key::Down => { m.apply(&Down); }
            Key::Ctrl('u') => { m.apply(&DelBefore); }
            Key::Ctrl('k') => { m.apply(&DelAfter); }
            Key::Ctrl('w') | Key::Alt('\x7F') => { m.apply(&DelWord(true)); }
            Key::Ctrl('x') => { m.apply(&Undo); }
            Key::Alt('r') => { m.apply(&Revert); }
            Key::Alt('<') => { m.apply(&HStart); }
            Key::Alt('>') => { m.apply(&HEnd); }
            Key::Alt('f') | Key::Alt('b') => {
                let w = words(m.text());
                let c = m.cursor;
                let to = if k == Key::Alt('f') {
                    // the end of the word the cursor is in (or starts at), else of the next one; at the
                    // end of the last word the cursor is there already
                    w.iter().find(|(_, e)| *e > c).map(|x| x.1).or(w.last().filter(|x| x.1 == c).map(|x| x.1))
                } else {
                    w.iter().rev().find(|(s, _)| *s < c).map(|x| x.0).or(w.first().filter(|x| x.0 == c).map(|x| x.0))
                };
                if let Some(p) = to {
                    m.apply(&To(p));
                }
            }
            Key::Alt('.') => self.last_arg(),
            _ => {}
        }
        self.m.apply(&Skip);
        None
    }
    fn last_arg(&mut self) {
        let m = &mut self.m;
        if m.entries.is_empty() {
            return;
        }
        let arg = |m: &Model, i: usize| last_arg(&m.entries[i]).unwrap_or_default();
        if let Some((x, start)) = self.last {
            if !(start <= m.cursor && m.text()[start..m.cursor] == arg(m, x)[..]) {
                self.last = None;
            }
        }
        let i = match self.last {
            Some((0, _)) => return,
            Some((x, start)) => {
                m.apply(&DelUntil(start));
                x - 1
            }
            None => m.loc.unwrap_or(m.entries.len() - 1),
        };
        let at = m.cursor;
        if last_arg(&m.entries[i]).is_some() {
            let a = arg(m, i);
            m.apply(&Ins(a));
        }
        self.last = Some((i, at));
    }
}
fn keys_case<'a>(hist: &[T], init: &[char], keys: &[Key], cands: &[String]) -> Ck {
    let (mut ed, _t) = editor(hist, init)?;
    let mut map = Emacs::new();
    map.init(&mut ed).map_err(|e| e.to_string())?;
    let mut m = EmacsModel::new(hist, init);
    let mut h = Cands(cands.to_vec());
    for (i, k) in keys.iter().enumerate() {
        let want = m.key(*k, cands);
        let got = map.handle_key(*k, &mut ed, &mut h);
        let when = format!("key {} ({k:?})", i + 1);
        let g = match got {
            Ok(false) => None,
            Ok(true) => Some(Ok(())),
            Err(e) => Some(Err(e.kind())),
        };
        eq(&format!("outcome of {when}"), g, want.clone())?;
        compare(&ed, &m.m, &when)?;
        if want.is_some() {
            break;
        }
    }
    Ok(())
}
fn show_keys(hist: &[T], init: &[char], keys: &[Key], cands: &[String]) -> String {
    format!("history {:?}, initial line {:?}, candidates {:?}, keys {:?}", strs(hist), st(init), cands, keys)
}
fn key_seqs(r: &mut Run, small: &[Key], depth: usize, hists: &[Vec<T>], inits: &[T], rnd: &dyn Fn(&mut Rng) -> Key, maxlen: usize, f: &dyn Fn(&[T], &[char], &[Key], &[String]) -> Ck) {
    r.section(0.45);
    'all: for d in 1..=depth {
        let mut idx = vec![0usize; d];
        'next: loop {
            for h in hists {
                for t in inits {
                    if !r.go() {
                        break 'all;
                    }
                    let ks: Vec<Key> = idx.iter().map(|i| small[*i]).collect();
                    let c = vec!["ab".to_string(), "b c".to_string()];
                    r.case(&|| show_keys(h, t, &ks, &c), true, || f(h, t, &ks, &c));
                }
            }
            for k in (0..d).rev() {
                idx[k] += 1;
                if idx[k] < small.len() {
                    continue 'next;
                }
                idx[k] = 0;
            }
            break;
        }
    }
    r.section(1.0);
    let mut k = 0;
    let lim = if r.thorough { 400000 } else { 120000 };
    while r.go() && k < lim {
        k += 1;
        let h = rand_hist(&mut r.rng);
        let t = rand_text(&mut r.rng, 9, EDA);
        let c = cands(&mut r.rng);
        let n = 1 + r.rng.below(maxlen);
        let ks: Vec<Key> = (0..n).map(|_| rnd(&mut r.rng)).collect();
        r.case(&|| show_keys(&h, &t, &ks, &c), n > 2, || f(&h, &t, &ks, &c));
    }
}
pub fn emacs_key(r: &mut Rng) -> Key {
    match r.below(30) {
        0..=7 => Key::Char(*r.pick(&['a', 'b', ' ', '\\', '世', 'x', 'é'])),
        8 => Key::Left,
        9 => Key::Right,
        10 => Key::Up,
        11 => Key::Down,
        12 => Key::Home,
        13 => Key::End,
        14 => Key::Backspace,
        15 => Key::Delete,
        16..=18 => Key::Alt(*r.pick(&['<', '>', '\x7F', 'f', 'b', 'r', '.', '.', 'q'])),
        19..=25 => Key::Ctrl(*r.pick(&['l', 'a', 'e', 'b', 'f', 'd', 'p', 'n', 'u', 'k', 'w', 'x', 'h', 'r', 's', 'z', 'q'])),
        26 => Key::Char('\t'),
        27 => *r.pick(&[Key::F(3), Key::PageUp, Key::Insert, Key::Esc, Key::Null, Key::PageDown]),
        28 => Key::Alt('.'),
        _ => Key::Char('\n'),
    }
}
pub fn c20(r: &mut Run) -> &'static str {
    let small = [Key::Char('a'), Key::Char(' '), Key::Ctrl('a'), Key::Ctrl('e'), Key::Ctrl('b'), Key::Ctrl('f'), Key::Ctrl('d'), Key::Ctrl('k'), Key::Ctrl('u'), Key::Ctrl('w'), Key::Ctrl('x'), Key::Alt('\x7F'), Key::Alt('f'), Key::Alt('b'), Key::Alt('r'), Key::Alt('.'), Key::Alt('.'), Key::Alt('<'), Key::Alt('>'), Key::Up, Key::Down, Key::Left, Key::Right, Key::Backspace, Key::Delete, Key::Home, Key::End, Key::Insert, Key::Ctrl('h'), Key::Ctrl('l')];
    let hists = [vec![], vec![ch("a bc"), ch("one  two x\\ y"), ch(" "), ch("z")]];
    let inits = [ch(""), ch("a b"), ch("ab  cd\\ e ")];
    key_seqs(r, &small, 3, &hists, &inits, &|r| loop { let k = emacs_key(r); if k != Key::Char('\t') && k != Key::Char('\n') { break k } }, 14, &keys_case);
    "all sequences of up to 3 of 30 keys over 2 histories and 3 lines, then random key sequences on random lines and histories, against a reference editor driven by the documented key table"
}

// ------------------------------------------------------------------ C13: whole lines
fn context_of(hist: &[T], keys: Vec<io::Result<Key>>, vi: bool) -> (Cx, HTty) {
    let (mut c, t) = context(hist);
    t.0.borrow_mut().keys.extend(keys);
    if vi {
        c.key_bindings = KeyBindings::Vi;
    }
    (c, t)
}
fn line_case(hist: &[T], init: &[char], keys: &[Key], cands: &[String]) -> Ck {
    let mut m = EmacsModel::new(hist, init);
    let mut want: Option<Result<(), io::ErrorKind>> = None;
    let mut used = 0;
    for k in keys {
        used += 1;
        want = m.key(*k, cands);
        if want.is_some() {
            break;
        }
    }
    let (mut c, t) = context_of(hist, keys.iter().map(|k| Ok(*k)).collect(), false);
    let mut h = Cands(cands.to_vec());
    let got = if init.is_empty() { c.read_line(Prompt::from("> "), None, &mut h) } else { (&mut c).read_line_with_init_buffer(Prompt::from("a\n> "), &mut h, None, st(init)) };
    let left = t.0.borrow().keys.len();
    eq("keys read before the line ended", keys.len() - left, used)?;
    match (got, want) {
        (Ok(s), None) | (Ok(s), Some(Ok(()))) => eq("line", s, st(m.m.text()))?,
        (Err(e), Some(Err(k))) => eq("error", e.kind(), k)?,
        (g, w) => return Err(format!("read_line returned {g:?}, expected {w:?}")),
    }
    eq("stored entries", c.history.buffers.iter().map(text).collect::<Vec<_>>(), strs(hist))
}
/// any state of either key mode: what Enter, Ctrl-C and Ctrl-D do there
fn enter_case<M: KeyMap>(mut map: M, hist: &[T], init: &[char], keys: &[Key], last: Key) -> Ck {
    let (mut ed, _t) = editor(hist, init)?;
    map.init(&mut ed).map_err(|e| e.to_string())?;
    for k in keys {
        match map.handle_key(*k, &mut ed, &mut none()) {
            Ok(true) => return Err(format!("key {k:?} ended the line")),
            Ok(false) => {}
            Err(e) => return Err(format!("key {k:?} failed: {e}")),
        }
    }
    let (t, c) = (chars(&cur(&ed)), ed.cursor());
    let (no_eol, at) = (ed.no_eol, ed.current_history_location());
    let got = map.handle_key(last, &mut ed, &mut none());
    let esc = c > 0 && t[c - 1] == '\\';
    let mut broken = t.clone();
    broken.insert(c, '\n');
    match last {
        Key::Char('\n') => {
            let done = got.map_err(|e| format!("Enter failed: {e}"))?;
            eq("Enter ended the line", done, !esc)?;
            eq("line after Enter", cur(&ed), if esc { st(&broken) } else { st(&t) })?;
            eq("place in history", ed.current_history_location(), at)?;
            if esc && !no_eol {
                eq("cursor behind the line break", ed.cursor(), c + 1)?;
            }
            let want = cur(&ed);
            eq("returned line", String::from(ed), want)
        }
        Key::Ctrl('c') => eq("Ctrl-C", got.map_err(|e| e.kind()), Err(io::ErrorKind::Interrupted)),
        _ => {
            if t.is_empty() {
                eq("Ctrl-D on an empty line", got.map_err(|e| e.kind()), Err(io::ErrorKind::UnexpectedEof))
            } else {
                eq("Ctrl-D on a line", got.map_err(|e| e.kind()), Ok(false))
            }
        }
    }
}
pub fn quiet_key(r: &mut Rng) -> Key {
    loop {
        let k = if r.chance(1, 3) { emacs_key(r) } else { vi_key(r) };
        if !matches!(k, Key::Char('\n') | Key::Char('\t') | Key::Ctrl('c') | Key::Ctrl('d') | Key::Ctrl('r') | Key::Ctrl('s')) {
            return k;
        }
    }
}
pub fn vi_key(r: &mut Rng) -> Key {
    match r.below(20) {
        0..=14 => Key::Char(*r.pick(&['a', 'b', 'w', 'e', 'W', 'B', 'E', 'g', 'f', 't', 'F', 'T', ';', ',', 'd', 'c', 'x', 'X', 's', 'S', 'r', 'R', 'D', 'C', 'i', 'I', 'A', 'u', '.', '~', '0', '^', '$', 'h', 'l', 'j', 'k', '1', '2', '3', '9', ' ', '\\', '世', '-', 'p', 'n', 'N', '/', '?', 'v', 'y', '%'])),
        15..=17 => Key::Esc,
        18 => *r.pick(&[Key::Left, Key::Right, Key::Up, Key::Down, Key::Home, Key::End, Key::Backspace, Key::Delete, Key::Null, Key::Insert]),
        _ => Key::Ctrl(*r.pick(&['w', 'u', 'h', 'r', 'l', 'a', 'e'])),
    }
}
pub fn c13(r: &mut Run) -> &'static str {
    let small = [Key::Char('a'), Key::Char('\\'), Key::Char('\n'), Key::Char('\t'), Key::Ctrl('c'), Key::Ctrl('d'), Key::Left, Key::Ctrl('r'), Key::Up, Key::Backspace, Key::Ctrl('f'), Key::Right];
    let hists = [vec![], vec![ch("ab"), ch("xab")]];
    let inits = [ch(""), ch("a\\"), ch("xa")];
    let b = r.budget;
    r.budget = b * 0.7;
    key_seqs(r, &small, 4, &hists, &inits, &|r| if r.chance(1, 4) { *r.pick(&[Key::Char('\\'), Key::Char('\n'), Key::Ctrl('d'), Key::Char('\t')]) } else if r.chance(1, 60) { Key::Ctrl('c') } else { emacs_key(r) }, 12, &line_case);
    r.budget = b;
    r.section(1.0);
    let mut k = 0;
    while r.go() && k < if r.thorough { 200000 } else { 20000 } {
        k += 1;
        let h = rand_hist(&mut r.rng);
        let t = rand_text(&mut r.rng, 6, EDA);
        let vi = r.rng.chance(2, 3);
        let n = r.rng.below(9);
        let ks: Vec<Key> = (0..n).map(|_| quiet_key(&mut r.rng)).collect();
        let last = *r.rng.pick(&[Key::Char('\n'), Key::Char('\n'), Key::Ctrl('c'), Key::Ctrl('d')]);
        r.case(&|| format!("{} keys, history {:?}, line {:?}, keys {:?} then {:?}", if vi { "vi" } else { "emacs" }, strs(&h), st(&t), ks, last), true, || {
            if vi { enter_case(Vi::new(), &h, &t, &ks, last) } else { enter_case(Emacs::new(), &h, &t, &ks, last) }
        });
    }
    "whole lines read through Context::read_line: all sequences of up to 4 of 12 keys, then random ones, against a reference editor (result, error kind, number of keys read); and Enter, Ctrl-C, Ctrl-D after random keys in either key mode"
}

// ------------------------------------------------------------------ C08
struct Any(usize);
impl Completer for Any {
    fn completions(&mut self, s: &str) -> Vec<String> {
        self.0 += 1;
        match self.0 % 5 {
            0 => vec![],
            1 => vec![format!("{s}x")],
            2 => vec![format!("{s}ab"), format!("{s}ac"), s.to_string()],
            3 => vec!["世界".into(), "é".into(), "a b".into()],
            _ => (0..30).map(|i| format!("{}", "w".repeat(i))).collect(),
        }
    }
}
fn fuzz<M: KeyMap>(mut map: M, vi: bool, ed: &mut Ed, keys: &[Key], files: bool) -> Ck {
    map.init(ed).map_err(|e| e.to_string())?;
    let mut any = Any(0);
    let mut fc = FilenameCompleter::new(Some("."));
    for (i, k) in keys.iter().enumerate() {
        let r = if files { map.handle_key(*k, ed, &mut fc) } else { map.handle_key(*k, ed, &mut any) };
        let done = match r {
            Ok(d) => d,
            Err(e) => match e.kind() {
                io::ErrorKind::Interrupted | io::ErrorKind::UnexpectedEof => return Ok(()),
                _ => return Err(format!("key {} ({k:?}) failed: {e}", i + 1)),
            },
        };
        let n = ed.current_buffer().num_chars();
        if ed.cursor() > n {
            return Err(format!("after key {} ({k:?}) the cursor is at {} in a line of {n}", i + 1, ed.cursor()));
        }
        if vi && ed.no_eol && ed.cursor() == n && n > 0 && !done {
            return Err(format!("after key {} ({k:?}) the cursor of normal mode is behind the line of {n}", i + 1));
        }
        if done {
            break;
        }
    }
    Ok(())
}
fn api_fuzz(ed: &mut Ed, ops: &[Ed1]) -> Ck {
    for (i, op) in ops.iter().enumerate() {
        real(ed, op).map_err(|e| format!("call {} ({op:?}) failed: {e}", i + 1))?;
        let n = ed.current_buffer().num_chars();
        if ed.cursor() > n {
            return Err(format!("after call {} ({op:?}) the cursor is at {} in a line of {n}", i + 1, ed.cursor()));
        }
    }
    Ok(())
}
fn any_op(r: &mut Rng) -> Ed1 {
    match r.below(24) {
        0..=9 => edit_op(r),
        10 | 11 => Up,
        12 => Down,
        13 => HStart,
        14 => HEnd,
        15 | 16 => Search(r.chance(1, 2)),
        17 => Accept,
        18 => Newline,
        19 | 20 => Complete(cands(r)),
        21 => Clear,
        22 => Take,
        _ => Ins(rand_text(r, 30, ALPHA)),
    }
}
pub fn c08(r: &mut Run) -> &'static str {
    r.section(1.0);
    let lim = if r.thorough { 1_000_000 } else { 150000 };
    let mut k = 0;
    let widths = [80u16, 1, 2, 3, 5, 7, 20, 200, 0, 65535];
    let dir = r.scratch.join("files");
    let _ = std::fs::create_dir_all(dir.join("sub dir"));
    for f in ["alpha", "al pha", "été", "\"q", "世界"] {
        let _ = std::fs::write(dir.join(f), "");
    }
    let _ = std::env::set_current_dir(&dir);
    while r.go() && k < lim {
        k += 1;
        let h: Vec<T> = if r.rng.chance(1, 2) { rand_hist(&mut r.rng) } else { (0..r.rng.below(6)).map(|_| rand_text(&mut r.rng, 12, ALPHA)).collect() };
        let t = rand_text(&mut r.rng, 12, ALPHA);
        let w = widths[if r.rng.chance(1, 2) { 0 } else { r.rng.below(widths.len()) }];
        let n = 1 + r.rng.below(if k % 7 == 0 { 60 } else { 18 });
        let mode = r.rng.below(5);
        let files = r.rng.chance(1, 6);
        let prompt = *r.rng.pick(&["$ ", "", "a\nb> ", "\u{1b}[31m世\u{1b}[0m", "longer than a narrow terminal> "]);
        let stat = r.rng.chance(1, 2);
        let ks: Vec<Key> = (0..n)
            .map(|_| match r.rng.below(12) {
                0 => *r.rng.pick(&[Key::Char('\t'), Key::Char('\n'), Key::Ctrl('r'), Key::Ctrl('s'), Key::Char('\t'), Key::Ctrl('f'), Key::Right, Key::Char('"')]),
                1 => Key::Char(*r.rng.pick(ALPHA)),
                x if x < 9 && mode < 3 => vi_key(&mut r.rng),
                _ => emacs_key(&mut r.rng),
            })
            .collect();
        let ops: Vec<Ed1> = if mode == 4 { (0..n).map(|_| any_op(&mut r.rng)).collect() } else { vec![] };
        let d = || format!("{}, width {w}, prompt {prompt:?}, history {:?}, line {:?}, {}", ["vi", "vi", "vi", "emacs", "calls"][mode], strs(&h), st(&t), if mode == 4 { format!("{ops:?}") } else { format!("{ks:?}{}", if files { " (file name completion)" } else { "" }) });
        r.case(&d, n > 2, || {
            set_cols(w);
            let (c, _t) = context(&h);
            let p = Prompt { prompt: prompt.into(), vi_status: if stat { Some(ViStatus::default()) } else { None } };
            let mut ed = Editor::new_with_init_buffer(p, None, c, Buffer::from(st(&t))).map_err(|e| format!("creating the editor failed: {e}"))?;
            let res = match mode {
                0..=2 => fuzz(Vi::new(), true, &mut ed, &ks, files),
                3 => fuzz(Emacs::new(), false, &mut ed, &ks, files),
                _ => api_fuzz(&mut ed, &ops),
            };
            set_cols(80);
            res
        });
        set_cols(80);
    }
    "random keys (both key modes, completion, search, history, file names) and random editor calls on random lines, histories, prompts and terminal widths; no panic, cursor inside the line, in Vi normal mode on a character"
}

// ------------------------------------------------------------------ C23
fn fail_keys<M: KeyMap>(mut map: M, hist: &[T], init: &[char], keys: &[Key], at: usize) -> Ck {
    let (mut ed, t) = editor(hist, init)?;
    map.init(&mut ed).map_err(|e| e.to_string())?;
    let mut left = at;
    for (i, k) in keys.iter().enumerate() {
        {
            let mut s = t.0.borrow_mut();
            s.fail_in = Some(left);
            s.failed = false;
            s.writes = 0;
        }
        let r = map.handle_key(*k, &mut ed, &mut Prefixes(vec!["ab".into(), "abc".into(), "b".into()]));
        let (failed, w) = { let s = t.0.borrow(); (s.failed, s.writes) };
        if failed {
            return match r {
                Err(e) if e.kind() == io::ErrorKind::BrokenPipe => Ok(()),
                r => Err(format!("the terminal failed while handling key {} ({k:?}), but the result is {r:?}", i + 1)),
            };
        }
        left -= w.min(left);
        match r {
            Ok(false) => {}
            Ok(true) => return Ok(()),
            Err(e) if matches!(e.kind(), io::ErrorKind::Interrupted | io::ErrorKind::UnexpectedEof) => return Ok(()),
            Err(e) => return Err(format!("key {} ({k:?}) failed without a terminal failure: {e}", i + 1)),
        }
    }
    Ok(())
}
fn fail_ops(hist: &[T], init: &[char], ops: &[Ed1], at: usize) -> Ck {
    let (mut ed, t) = editor(hist, init)?;
    let mut left = at;
    for (i, op) in ops.iter().enumerate() {
        {
            let mut s = t.0.borrow_mut();
            s.fail_in = Some(left);
            s.failed = false;
            s.writes = 0;
        }
        let r = real(&mut ed, op);
        let (failed, w) = { let s = t.0.borrow(); (s.failed, s.writes) };
        if failed {
            return match r {
                Err(e) if e.kind() == io::ErrorKind::BrokenPipe => Ok(()),
                r => Err(format!("the terminal failed in call {} ({op:?}), but the result is {r:?}", i + 1)),
            };
        }
        left -= w.min(left);
        r.map_err(|e| format!("call {} ({op:?}) failed without a terminal failure: {e}", i + 1))?;
    }
    Ok(())
}
fn fail_read(hist: &[T], keys: &[Key], at: usize, vi: bool, kind: io::ErrorKind) -> Ck {
    let mut ks: Vec<io::Result<Key>> = keys.iter().take(at).map(|k| Ok(*k)).collect();
    ks.push(Err(io::Error::new(kind, "injected")));
    ks.extend([Ok(Key::Char('z')), Ok(Key::Char('\n'))]);
    let (mut c, t) = context_of(hist, ks, vi);
    let r = c.read_line(Prompt::from("$ "), None, &mut none());
    match r {
        Err(e) if e.kind() == kind && e.to_string() == "injected" => eq("keys left", t.0.borrow().keys.len(), 2),
        r => Err(format!("reading key {} failed, but read_line returned {r:?}", at + 1)),
    }
}
fn fail_line(hist: &[T], init: &[char], keys: &[Key], at: usize, vi: bool) -> Ck {
    let (mut c, t) = context_of(hist, keys.iter().map(|k| Ok(*k)).collect(), vi);
    t.0.borrow_mut().fail_in = Some(at);
    let r = (&mut c).read_line_with_init_buffer(Prompt::from("$ "), &mut none(), None, st(init));
    if t.0.borrow().failed {
        match r {
            Err(e) if e.kind() == io::ErrorKind::BrokenPipe => Ok(()),
            r => Err(format!("the terminal failed, but read_line returned {r:?}")),
        }
    } else {
        match r {
            Ok(_) => Ok(()),
            Err(e) if matches!(e.kind(), io::ErrorKind::Interrupted | io::ErrorKind::UnexpectedEof) => Ok(()),
            Err(e) => Err(format!("read_line failed without a terminal failure: {e}")),
        }
    }
}
pub fn c23(r: &mut Run) -> &'static str {
    r.section(0.5);
    // every single call and key, every failing write
    let ops = [Ins(ch("x")), Ins(ch("xy")), Bs, Del, DelBefore, DelAfter, DelUntil(1), DelUntilIncl(1), DelWord(true), Left(1), Right(1), To(1), Home, End, Undo, Redo, Revert, Up, Down, HStart, HEnd, Search(true), Search(false), Accept, Newline, Complete(vec!["ab".into(), "c".into()]), Complete(vec!["ab".into()]), Clear];
    let h = vec![ch("ab"), ch("abc")];
    for a in &ops {
        for b in &ops {
            for at in 0..8 {
                r.case(&|| format!("{}; write {at} fails", show_ops(&h, &ch("a b"), &[a.clone(), b.clone()])), true, || fail_ops(&h, &ch("a b"), &[a.clone(), b.clone()], at));
            }
        }
    }
    r.section(1.0);
    let lim = if r.thorough { 400000 } else { 120000 };
    let mut k = 0;
    while r.go() && k < lim {
        k += 1;
        let h = rand_hist(&mut r.rng);
        let t = rand_text(&mut r.rng, 8, EDA);
        let n = 1 + r.rng.below(10);
        let vi = r.rng.chance(2, 3);
        let mut ks: Vec<Key> = (0..n).map(|_| if vi { vi_key(&mut r.rng) } else { emacs_key(&mut r.rng) }).collect();
        if r.rng.chance(1, 4) { ks.push(*r.rng.pick(&[Key::Char('\t'), Key::Char('\n'), Key::Ctrl('r'), Key::Ctrl('c'), Key::Ctrl('d'), Key::Ctrl('f'), Key::Char('~')])) }
        let at = r.rng.below(3 * n + 4);
        match r.rng.below(4) {
            0 | 1 => r.case(&|| format!("{} keys {ks:?}, history {:?}, line {:?}; write {at} fails", if vi { "vi" } else { "emacs" }, strs(&h), st(&t)), true, || {
                if vi { fail_keys(Vi::new(), &h, &t, &ks, at) } else { fail_keys(Emacs::new(), &h, &t, &ks, at) }
            }),
            2 => {
                let kind = *r.rng.pick(&[io::ErrorKind::BrokenPipe, io::ErrorKind::Other, io::ErrorKind::UnexpectedEof, io::ErrorKind::TimedOut, io::ErrorKind::Interrupted, io::ErrorKind::WouldBlock]);
                let ks: Vec<Key> = ks.iter().filter(|k| !matches!(k, Key::Char('\n') | Key::Ctrl('c') | Key::Ctrl('d'))).copied().collect();
                let at = at.min(ks.len());
                r.case(&|| format!("{} keys {ks:?}, history {:?}; reading key {} fails with {kind:?}", if vi { "vi" } else { "emacs" }, strs(&h), at + 1), true, || fail_read(&h, &ks, at, vi, kind))
            }
            _ => r.case(&|| format!("read_line with {} keys {ks:?}, history {:?}, line {:?}; write {at} fails", if vi { "vi" } else { "emacs" }, strs(&h), st(&t)), true, || fail_line(&h, &t, &ks, at, vi)),
        }
    }
    "every pair of 28 editor calls with each of the first 8 terminal writes failing, then random key sequences in both key modes with a random write or key read failing: the call under way returns that error"
}
