//! C16-C19: the Vi key map against a small model of Vi on one line.
use crate::util::*;
use liner::*;

type T = Vec<char>;
const VIA: &[char] = &['a', 'b', 'A', '_', '1', ' ', ' ', '\t', '.', '-', '(', 'é', 'ß', 'Σ', '世', '\u{3000}', 'x'];

const VIK: &[char] = &['a', 'b', 'A', '_', '1', ' ', '.', '-', '(', 'é', 'ß', 'Σ', '世', '\u{3000}', 'x'];
// ------------------------------------------------------------------ motions
fn class(c: char, big: bool) -> u8 {
    if c.is_whitespace() {
        0
    } else if big || c == '_' || c.is_alphanumeric() {
        1
    } else {
        2
    }
}
/// starts of words
fn starts(t: &[char], big: bool) -> Vec<usize> {
    (0..t.len()).filter(|&i| class(t[i], big) != 0 && (i == 0 || class(t[i - 1], big) != class(t[i], big))).collect()
}
/// last characters of words that something follows
fn ends(t: &[char], big: bool) -> Vec<usize> {
    (0..t.len()).filter(|&i| class(t[i], big) != 0 && i + 1 < t.len() && class(t[i + 1], big) != class(t[i], big)).collect()
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Find {
    F,
    T,
    Fb,
    Tb,
}
fn turned(f: Find) -> Find {
    match f {
        Find::F => Find::Fb,
        Find::Fb => Find::F,
        Find::T => Find::Tb,
        Find::Tb => Find::T,
    }
}
/// where a find with count n leads
fn find(t: &[char], c: usize, ch: char, f: Find, n: usize) -> Option<usize> {
    let right: Vec<usize> = (c + 1..t.len()).filter(|&i| t[i] == ch).collect();
    let left: Vec<usize> = (0..c).rev().filter(|&i| t[i] == ch).collect();
    match f {
        Find::F => right.get(n - 1).copied(),
        Find::T => right.get(n - 1).map(|i| i - 1),
        Find::Fb => left.get(n - 1).copied(),
        Find::Tb => left.get(n - 1).map(|i| i + 1),
    }
}
fn word_motion(k: &str, t: &[char], c: usize, n: usize) -> usize {
    let big = k.chars().last().unwrap().is_uppercase();
    let mut p = c;
    for _ in 0..n.min(t.len() + 2) {
        p = match k {
            "w" | "W" => starts(t, big).into_iter().find(|&i| i > p).unwrap_or(t.len()),
            "e" | "E" => ends(t, big).into_iter().find(|&i| i > p).unwrap_or(t.len()),
            "b" | "B" => starts(t, big).into_iter().rev().find(|&i| i < p).unwrap_or(0),
            _ => ends(t, big).into_iter().rev().find(|&i| i < p).unwrap_or(0),
        };
    }
    p
}

// ------------------------------------------------------------------ the model
#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Normal,
    Insert,
    Replace,
    Op,
    Find(Find),
    G,
}
#[derive(Clone, Debug)]
pub struct Vm {
    pub t: T,
    pub c: usize,
    st: St,
    n: u32,
    /// the operator that waits for its motion, and the count given before it
    op: Option<(char, u32)>,
    /// keys of the change under way, without counts
    cmd: Vec<Key>,
    cmd_n: u32,
    last: Option<(Vec<Key>, u32)>,
    found: Option<(char, Find)>,
    /// insert session: how often to insert, what was typed, and if the cursor was moved since
    times: u32,
    typed: Vec<Key>,
    moved: bool,
}
impl Vm {
    pub fn new(t: &[char]) -> Vm {
        Vm { t: t.to_vec(), c: t.len(), st: St::Insert, n: 0, op: None, cmd: vec![Key::Char('i')], cmd_n: 0, last: None, found: None, times: 0, typed: vec![], moved: true }
    }
    pub fn normal(&self) -> bool {
        self.st == St::Normal
    }
    pub fn inserting(&self) -> bool {
        self.st == St::Insert
    }
    fn clamp(&mut self) {
        self.c = self.c.min(if self.st == St::Normal { self.t.len().saturating_sub(1) } else { self.t.len() });
    }
    fn abort(&mut self) {
        self.st = St::Normal;
        self.op = None;
        self.n = 0;
        self.clamp();
    }
    fn insert(&mut self, cmd: Vec<Key>, cmd_n: u32, times: u32) {
        self.st = St::Insert;
        self.cmd = cmd;
        self.cmd_n = cmd_n;
        self.times = times;
        self.typed.clear();
        self.moved = false;
        self.n = 0;
    }
    fn cut(&mut self, a: usize, b: usize) {
        let b = b.min(self.t.len());
        if a < b {
            self.t.drain(a..b);
        }
        self.c = a.min(self.t.len());
    }
    fn count(&self) -> usize {
        (self.n.max(1)) as usize
    }
    /// a motion was given: go there, or let the operator do its work
    fn motion(&mut self, to: usize, incl: bool) {
        match self.op.take() {
            None => {
                self.st = St::Normal;
                self.c = to;
            }
            Some((o, _)) => {
                let (a, b) = (self.c.min(to), self.c.max(to) + incl as usize);
                self.cut(a, b);
                let (cmd, n) = (self.cmd.clone(), self.n);
                if o == 'd' {
                    self.st = St::Normal;
                    self.last = Some((cmd, n));
                } else {
                    self.insert(cmd, n, 0);
                }
            }
        }
        self.n = 0;
        self.clamp();
    }
    fn go_find(&mut self, ch: char, f: Find) {
        match find(&self.t, self.c, ch, f, self.count()) {
            Some(i) => self.motion(i, matches!(f, Find::F | Find::T)),
            None => self.abort(),
        }
    }
    fn motion_key(&mut self, k: Key) -> bool {
        let (n, len) = (self.count(), self.t.len());
        match k {
            Key::Char('h') | Key::Left | Key::Backspace => self.motion(self.c.saturating_sub(n), false),
            Key::Char('l') | Key::Right | Key::Char(' ') => self.motion(self.c.saturating_add(n).min(len), false),
            Key::Char('^') | Key::Home => self.motion(0, false),
            Key::Char('0') => self.motion(0, false),
            Key::Char('$') | Key::End => self.motion(len, false),
            Key::Char(c @ ('w' | 'W' | 'e' | 'E' | 'b' | 'B')) => self.motion(word_motion(&c.to_string(), &self.t, self.c, n), false),
            Key::Char('f') => self.st = St::Find(Find::F),
            Key::Char('F') => self.st = St::Find(Find::Fb),
            Key::Char('t') => self.st = St::Find(Find::T),
            Key::Char('T') => self.st = St::Find(Find::Tb),
            Key::Char('g') => self.st = St::G,
            Key::Char(';') => match self.found {
                Some((c, f)) => self.go_find(c, f),
                None => self.abort(),
            },
            Key::Char(',') => match self.found {
                Some((c, f)) => self.go_find(c, turned(f)),
                None => self.abort(),
            },
            _ => return false,
        }
        true
    }
    pub fn key(&mut self, k: Key) {
        match self.st {
            St::Insert => self.key_insert(k),
            St::Normal => match k {
                Key::Char(d @ '1'..='9') => self.n = self.n.saturating_mul(10).saturating_add(d as u32 - 48),
                Key::Char('0') if self.n > 0 => self.n = self.n.saturating_mul(10),
                Key::Esc => self.n = 0,
                Key::Char(c @ ('i' | 'a' | 'A' | 'I')) => {
                    self.insert(vec![k], self.n, self.n);
                    self.c = match c {
                        'i' => self.c,
                        'a' => (self.c + 1).min(self.t.len()),
                        'A' => self.t.len(),
                        _ => 0,
                    };
                }
                Key::Char('s') => {
                    self.cut(self.c, self.c.saturating_add(self.count()));
                    self.insert(vec![k], self.n, 0);
                }
                Key::Char('C') => {
                    self.cut(self.c, usize::MAX);
                    self.insert(vec![k], 0, 0);
                }
                Key::Char('D') => {
                    self.cut(self.c, usize::MAX);
                    self.last = Some((vec![k], 0));
                    self.n = 0;
                    self.clamp();
                }
                Key::Char('x') | Key::Delete => {
                    self.cut(self.c, self.c.saturating_add(self.count()));
                    self.last = Some((vec![k], self.n));
                    self.n = 0;
                    self.clamp();
                }
                Key::Char('~') => {
                    let e = self.c.saturating_add(self.count()).min(self.t.len());
                    let mut new: T = vec![];
                    for c in &self.t[self.c..e] {
                        if c.is_lowercase() {
                            new.extend(c.to_uppercase());
                        } else if c.is_uppercase() {
                            new.extend(c.to_lowercase());
                        } else {
                            new.push(*c);
                        }
                    }
                    let l = new.len();
                    self.t.splice(self.c..e, new);
                    self.c += l;
                    self.last = Some((vec![k], self.n));
                    self.n = 0;
                    self.clamp();
                }
                Key::Char('r') => self.st = St::Replace,
                Key::Char(c @ ('d' | 'c')) => {
                    self.op = Some((c, self.n));
                    self.cmd = vec![k];
                    self.n = 0;
                    self.st = St::Op;
                }
                Key::Char('.') => self.dot(),
                _ => {
                    self.motion_key(k);
                }
            },
            St::Op => {
                let (o, before) = self.op.unwrap();
                match k {
                    Key::Char(d @ '1'..='9') => self.n = self.n.saturating_mul(10).saturating_add(d as u32 - 48),
                    Key::Char('0') if self.n > 0 => self.n = self.n.saturating_mul(10),
                    Key::Char(c) if c == o => {
                        self.op = None;
                        self.cut(0, usize::MAX);
                        if o == 'd' {
                            self.st = St::Normal;
                            self.last = Some((vec![k, k], 0));
                            self.n = 0;
                        } else {
                            self.insert(vec![k, k], 0, 0);
                        }
                    }
                    _ => {
                        let own = self.n;
                        self.n = match (before, self.n) {
                            (a, 0) => a,
                            (0, b) => b,
                            (a, b) => a.saturating_mul(b),
                        };
                        self.cmd.push(k);
                        if !self.motion_key(k) {
                            self.n = own;
                            self.abort();
                        }
                    }
                }
            }
            St::Replace => match k {
                Key::Char(c) => {
                    self.st = St::Normal;
                    let n = self.count();
                    if n <= self.t.len() - self.c {
                        for i in 0..n {
                            self.t[self.c + i] = c;
                        }
                        self.c += n - 1;
                        self.last = Some((vec![Key::Char('r'), k], self.n));
                    }
                    self.n = 0;
                }
                _ => self.abort(),
            },
            St::Find(f) => match k {
                Key::Char(c) => {
                    self.cmd.push(k);
                    self.found = Some((c, f));
                    self.go_find(c, f);
                }
                _ => self.abort(),
            },
            St::G => {
                self.cmd.push(k);
                match k {
                    Key::Char('e') => self.motion(word_motion("ge", &self.t, self.c, self.count()), true),
                    Key::Char('E') => self.motion(word_motion("gE", &self.t, self.c, self.count()), true),
                    _ => self.abort(),
                }
            }
        }
    }
    fn type_key(&mut self, k: Key) {
        match k {
            Key::Char(c) => {
                self.t.insert(self.c, c);
                self.c += 1;
            }
            Key::Backspace => {
                if self.c > 0 {
                    self.t.remove(self.c - 1);
                    self.c -= 1;
                }
            }
            _ => {
                if self.c < self.t.len() {
                    self.t.remove(self.c);
                }
            }
        }
    }
    fn key_insert(&mut self, k: Key) {
        match k {
            Key::Esc => {
                for _ in 1..self.times {
                    for k in self.typed.clone() {
                        self.type_key(k);
                    }
                }
                let mut all = self.cmd.clone();
                all.extend(self.typed.clone());
                all.push(Key::Esc);
                self.last = Some((all, self.cmd_n));
                self.st = St::Normal;
                self.n = 0;
                self.c = self.c.saturating_sub(1);
                self.clamp();
            }
            Key::Char(_) | Key::Backspace | Key::Delete => {
                if self.moved {
                    self.insert(vec![Key::Char('i')], 0, 0);
                }
                self.typed.push(k);
                self.type_key(k);
            }
            Key::Left | Key::Right | Key::Home | Key::End => {
                self.moved = true;
                self.times = 0;
                if self.cmd.len() == 1 && matches!(self.cmd[0], Key::Char('i' | 'a' | 'A' | 'I')) {
                    self.cmd_n = 0;
                }
                self.c = match k {
                    Key::Left => self.c.saturating_sub(1),
                    Key::Right => (self.c + 1).min(self.t.len()),
                    Key::Home => 0,
                    _ => self.t.len(),
                };
            }
            _ => {}
        }
    }
    /// the last change again: its keys, with its count or the new one
    fn dot(&mut self) {
        let Some((keys, n)) = self.last.clone() else {
            self.n = 0;
            return;
        };
        let n = if self.n > 0 { self.n } else { n };
        self.n = n;
        self.last = Some((keys.clone(), n));
        for (i, k) in keys.iter().enumerate() {
            if i > 0 && self.st == St::Normal && self.op.is_none() {
                break; // given up: a motion that leads nowhere
            }
            self.key(*k);
        }
        self.n = 0;
    }
    /// what is typed in normal mode to do the last change with count n
    pub fn last_change(&self) -> Option<(Vec<Key>, u32)> {
        self.last.clone()
    }
}

// ------------------------------------------------------------------ driving the real key map
struct Vr {
    ed: Ed,
    tty: HTty,
    map: Vi,
}
fn start(t: &[char], hist: &[T]) -> Result<Vr, String> {
    let (c, tty) = context(hist);
    let mut ed = Editor::new_with_init_buffer(vi_prompt(), None, c, Buffer::from(st(t))).map_err(|e| format!("creating the editor failed: {e}"))?;
    let mut map = Vi::new();
    map.init(&mut ed).map_err(|e| e.to_string())?;
    Ok(Vr { ed, tty, map })
}
impl Vr {
    fn key(&mut self, k: Key) -> Ck {
        self.map.handle_key(k, &mut self.ed, &mut none()).map(|_| ()).map_err(|e| format!("key {k:?} failed: {e}"))
    }
    fn text(&self) -> String {
        cur(&self.ed)
    }
    /// the mode shown last
    fn shown(&self) -> Option<&'static str> {
        let s = String::from_utf8_lossy(&self.tty.0.borrow().out).to_string();
        match (s.rfind("<INS>"), s.rfind("<NRM>")) {
            (None, None) => None,
            (i, n) => Some(if i > n { "insert" } else { "normal" }),
        }
    }
    fn agrees(&self, m: &Vm, when: &str) -> Ck {
        eq(&format!("the line {when}"), self.text(), st(&m.t))?;
        eq(&format!("the cursor {when}"), self.ed.cursor(), m.c)?;
        if m.normal() || m.inserting() {
            eq(&format!("normal mode {when}"), self.ed.no_eol, m.normal())?;
            eq(&format!("the mode shown {when}"), self.shown(), Some(if m.normal() { "normal" } else { "insert" }))?;
        }
        Ok(())
    }
}
/// normal mode at position at of t, then the keys: the same state after each
fn run(t: &[char], at: usize, keys: &[Key], each: bool) -> Result<(Vr, Vm), String> {
    let mut v = start(t, &[])?;
    let mut m = Vm::new(t);
    v.key(Key::Esc)?;
    m.key(Key::Esc);
    v.ed.move_cursor_to(at).map_err(|e| e.to_string())?;
    m.c = at.min(t.len().saturating_sub(1));
    for (i, k) in keys.iter().enumerate() {
        v.key(*k)?;
        m.key(*k);
        if each {
            v.agrees(&m, &format!("after key {} ({k:?})", i + 1))?;
        }
    }
    Ok((v, m))
}
fn full(t: &[char], at: usize, keys: &[Key]) -> Ck {
    run(t, at, keys, true).map(|_| ())
}
fn ks(s: &str) -> Vec<Key> {
    s.chars().map(|c| if c == '\x1b' { Key::Esc } else { Key::Char(c) }).collect()
}
const MOTIONS: &[&str] = &["h", "l", "0", "^", "$", "w", "W", "b", "B", "e", "E", "ge", "gE", "fa", "Fa", "ta", "Ta", "f.", "t ", "T.", "fa;", "Ta;", "fa,", "ta,", "Fa,", "Ta,", " "];
fn show(k: &[Key]) -> String {
    format!("{k:?}")
}
fn rand_count(r: &mut Rng) -> String {
    match r.below(10) {
        0..=5 => String::new(),
        6 => "99999".into(),
        _ => format!("{}", 1 + r.below(12)),
    }
}
fn rand_motion(r: &mut Rng) -> String {
    let m = *r.pick(MOTIONS);
    if matches!(m.chars().next(), Some('f' | 'F' | 't' | 'T')) && r.chance(3, 4) {
        format!("{}{}{}", m.chars().next().unwrap(), r.pick(VIK), if r.chance(1, 4) { ";" } else { "" })
    } else {
        m.to_string()
    }
}
pub fn c17(r: &mut Run) -> &'static str {
    let texts = all_texts(&['a', ' ', '.'], if r.thorough { 6 } else { 5 });
    r.section(0.6);
    'o: for t in texts {
        for at in 0..t.len().max(1) {
            for m in MOTIONS {
                for n in ["", "2", "3"] {
                    if !r.go() {
                        break 'o;
                    }
                    if *m == "0" && !n.is_empty() {
                        continue;
                    }
                    let k = ks(&format!("{n}{m}"));
                    r.case(&|| format!("line {:?}, cursor {at}, keys {}", st(&t), show(&k)), t.len() > 1, || full(&t, at, &k));
                }
            }
        }
    }
    r.section(1.0);
    while r.go() && r.evals < if r.thorough { 2_000_000 } else { 150_000 } {
        let t = rand_text(&mut r.rng, 14, VIA);
        let at = r.rng.below(t.len().max(1));
        let n = 1 + r.rng.below(4);
        let s: String = (0..n).map(|_| { let c = rand_count(&mut r.rng); let m = rand_motion(&mut r.rng); if m == "0" { m } else { format!("{c}{m}") } }).collect();
        let k: Vec<Key> = ks(&s).into_iter().map(|k| match k {
            Key::Char('h') if s.len() % 3 == 0 => Key::Left,
            k => k,
        }).collect();
        r.case(&|| format!("line {:?}, cursor {at}, keys {}", st(&t), show(&k)), true, || full(&t, at, &k));
    }
    "every line of up to 5 characters over {a, space, .}, every cursor, 27 motions with counts none, 2, 3; then random Unicode lines with 1-4 counted motions; text and cursor after every key against the definition by word starts, word ends and occurrences"
}
fn rand_typed(r: &mut Rng) -> Vec<Key> {
    let n = 1 + r.below(4);
    (0..n)
        .map(|_| match r.below(8) {
            0 => Key::Backspace,
            1 => Key::Delete,
            _ => Key::Char(*r.pick(&['a', 'x', ' ', '.', 'd', '世', '3', 'f'])),
        })
        .collect()
}
/// a command that changes the line, back in normal mode
fn rand_change(r: &mut Rng) -> Vec<Key> {
    let n = rand_small(r);
    match r.below(14) {
        0..=2 => {
            let mut k = ks(&format!("{n}{}", r.pick(&["i", "a", "A", "I"])));
            k.extend(rand_typed(r));
            if r.chance(1, 6) {
                k.push(*r.pick(&[Key::Left, Key::Right, Key::Home, Key::End]));
                if r.chance(2, 3) {
                    k.extend(rand_typed(r));
                }
            }
            k.push(Key::Esc);
            k
        }
        3 => {
            let mut k = ks(&format!("{n}s"));
            k.extend(rand_typed(r));
            if r.chance(1, 6) {
                k.push(*r.pick(&[Key::Left, Key::Right, Key::Home, Key::End]));
                k.extend(rand_typed(r));
            }
            k.push(Key::Esc);
            k
        }
        4 => {
            let mut k = ks("C");
            k.extend(rand_typed(r));
            k.push(Key::Esc);
            k
        }
        5..=6 => {
            let m = rand_motion(r);
            let n2 = rand_small(r);
            let mut k = ks(&format!("{n}c{n2}{}", if r.chance(1, 8) { "c".to_string() } else { m }));
            k.extend(rand_typed(r));
            if r.chance(1, 8) {
                k.push(*r.pick(&[Key::Left, Key::Right, Key::Home, Key::End]));
                k.extend(rand_typed(r));
            }
            k.push(Key::Esc);
            k
        }
        7..=9 => {
            let m = rand_motion(r);
            let n2 = rand_small(r);
            ks(&format!("{n}d{n2}{}", if r.chance(1, 8) { "d".to_string() } else { m }))
        }
        10 => ks(&format!("{n}x")),
        11 => ks(&format!("{n}~")),
        12 => ks(&format!("{n}r{}", r.pick(VIK))),
        _ => ks("D"),
    }
}
fn rand_small(r: &mut Rng) -> String {
    if r.chance(1, 2) {
        String::new()
    } else {
        format!("{}", 1 + r.below(4))
    }
}
pub fn c18(r: &mut Run) -> &'static str {
    let ops: Vec<String> = {
        let mut v = vec!["D".to_string(), "Cz\x1b".into(), "dd".into(), "ccz\x1b".into(), "x".into(), "2x".into(), "9x".into(), "sz\x1b".into(), "3sz\x1b".into(), "r.".into(), "2r.".into(), "~".into(), "3~".into()];
        for m in MOTIONS {
            v.push(format!("d{m}"));
            v.push(format!("d2{m}"));
            v.push(format!("2d{m}"));
            v.push(format!("c{m}z\x1b"));
        }
        v
    };
    let texts = all_texts(&['a', ' ', '.'], if r.thorough { 5 } else { 4 });
    r.section(0.6);
    'o: for t in texts {
        for at in 0..t.len().max(1) {
            for o in &ops {
                if !r.go() {
                    break 'o;
                }
                let k = ks(o);
                r.case(&|| format!("line {:?}, cursor {at}, keys {}", st(&t), show(&k)), t.len() > 1, || full(&t, at, &k));
            }
        }
    }
    r.section(1.0);
    while r.go() && r.evals < if r.thorough { 2_000_000 } else { 150_000 } {
        let t = rand_text(&mut r.rng, 14, VIA);
        let at = r.rng.below(t.len().max(1));
        let n = 1 + r.rng.below(3);
        let mut k: Vec<Key> = vec![];
        for _ in 0..n {
            if r.rng.chance(1, 3) {
                k.extend(ks(&format!("{}{}", rand_small(&mut r.rng), rand_motion(&mut r.rng))));
            }
            k.extend(rand_change(&mut r.rng));
        }
        r.case(&|| format!("line {:?}, cursor {at}, keys {}", st(&t), show(&k)), true, || full(&t, at, &k));
    }
    "every line of up to 4 characters over {a, space, .}, every cursor, d and c with 27 motions and counts before and after, dd cc D C x s r ~; then random Unicode lines with random changes; text, cursor and mode after every key against the spans of the motions"
}
pub fn c19(r: &mut Run) -> &'static str {
    let small: Vec<&str> = vec!["x", "2x", "dw", "d2w", "2dw", "db", "d$", "dfa", "d2fa", "2dfa", "dta", "dTa", "dge", "d;", "dd", "D", "r.", "2r.", "~", "3~", "ib\x1b", "2ib\x1b", "ab.\x1b", "A.\x1b", "Ib\x1b", "sb\x1b", "2s.\x1b", "cwb\x1b", "c2wb\x1b", "2cwb\x1b", "cfab\x1b", "c2fab\x1b", "ccb\x1b", "Cb\x1b", "cgeb\x1b", "cfadd\x1b"];
    let texts = ["", "a", "ab a", "a.a a.a", "ab  a.b ab", "  aa", "aaaa"];
    r.section(0.5);
    'o: for t in texts {
        let t = chars(t);
        for at in 0..t.len().max(1) {
            for s in &small {
                for mid in ["", "w", "0", "$", "b", "cfz", "dfz", "r\x1b"] {
                    for dot in [".", "2.", ".."] {
                        if !r.go() {
                            break 'o;
                        }
                        let k = ks(&format!("{s}{mid}{dot}"));
                        r.case(&|| format!("line {:?}, cursor {at}, keys {}", st(&t), show(&k)), t.len() > 1, || full(&t, at, &k));
                    }
                }
            }
        }
    }
    r.section(1.0);
    while r.go() && r.evals < if r.thorough { 2_000_000 } else { 150_000 } {
        let t = rand_text(&mut r.rng, 14, VIA);
        let at = r.rng.below(t.len().max(1));
        let n = 1 + r.rng.below(3);
        let mut k: Vec<Key> = vec![];
        for _ in 0..n {
            k.extend(rand_change(&mut r.rng));
            for _ in 0..1 + r.rng.below(2) {
                if r.rng.chance(2, 3) {
                    k.extend(ks(&format!("{}{}", rand_small(&mut r.rng), rand_motion(&mut r.rng))));
                }
                if r.rng.chance(1, 6) {
                    k.extend(ks(*r.rng.pick(&["cf\u{7}", "d\x1b", "cz", "r\x1b", "dgz", "3\x1b"])));
                }
                k.extend(ks(&format!("{}.", rand_small(&mut r.rng))));
            }
        }
        r.case(&|| format!("line {:?}, cursor {at}, keys {}", st(&t), show(&k)), true, || full(&t, at, &k));
    }
    "36 changes at every cursor of 7 lines, a motion or an aborted command, then ., 2. or ..; then random changes, motions, aborted commands and repeats on random Unicode lines; text, cursor and mode after every key, . meaning the keys of the last change typed again with its count or the new one"
}
/// any key that leaves the line open
fn mode_key(r: &mut Rng) -> Key {
    loop {
        let k = match r.below(8) {
            0 => Key::Esc,
            1 => *r.pick(&[Key::Left, Key::Right, Key::Up, Key::Down, Key::Home, Key::End, Key::Backspace, Key::Delete, Key::Null, Key::Insert, Key::Ctrl('l'), Key::F(2)]),
            _ => crate::ed::vi_key(r),
        };
        if !matches!(k, Key::Char('\n') | Key::Char('\t') | Key::Ctrl('c') | Key::Ctrl('d') | Key::Ctrl('r') | Key::Ctrl('s') | Key::Ctrl('f')) {
            return k;
        }
    }
}
fn model_key(r: &mut Rng) -> Key {
    loop {
        let k = match r.below(9) {
            0 | 1 => Key::Esc,
            2 => *r.pick(&[Key::Left, Key::Right, Key::Home, Key::End, Key::Backspace, Key::Delete]),
            _ => Key::Char(*r.pick(&['i', 'a', 'A', 'I', 's', 'r', 'd', 'c', 'D', 'C', '.', 'h', 'l', 't', 'T', 'f', 'F', ';', ',', 'w', 'W', 'e', 'E', 'b', 'B', 'g', '0', '^', '$', 'x', '~', '1', '2', '3', ' ', '-'])),
        };
        return k;
    }
}
/// after these keys Esc Esc is normal mode, Esc alone unless a change is pending
fn esc_case(t: &[char], hist: &[T], keys: &[Key]) -> Ck {
    let mut v = start(t, hist)?;
    for k in keys {
        v.key(*k)?;
    }
    v.key(Key::Esc)?;
    v.key(Key::Esc)?;
    eq("the mode shown after Esc Esc", v.shown(), Some("normal"))?;
    eq("normal mode after Esc Esc", v.ed.no_eol, true)?;
    let (a, c) = (chars(&v.text()), v.ed.cursor());
    v.key(Key::Char('i'))?;
    eq("the mode shown after Esc Esc i", v.shown(), Some("insert"))?;
    v.key(Key::Char('Q'))?;
    let mut w = a.clone();
    w.insert(c, 'Q');
    eq("the line after Esc Esc i Q", v.text(), st(&w))?;
    v.key(Key::Esc)?;
    v.key(Key::Char('u'))?;
    eq("the line after Esc Esc i Q Esc u", v.text(), st(&a))
}
/// what is typed in one go is one undo
fn session_case(t: &[char], hist: &[T], before: &[Key], enter: &[Key], typed: &[Key]) -> Ck {
    let mut v = start(t, hist)?;
    for k in before {
        v.key(*k)?;
    }
    v.key(Key::Esc)?;
    v.key(Key::Esc)?;
    let a = v.text();
    for k in enter {
        v.key(*k)?;
    }
    if v.ed.no_eol {
        return Ok(()); // a change that was given up
    }
    let b = v.text();
    for k in typed {
        v.key(*k)?;
    }
    v.key(Key::Esc)?;
    let c = v.text();
    v.key(Key::Char('u'))?;
    let d = v.text();
    if d != a {
        eq(&format!("the line after undoing the insert session ({b:?} when it began, {c:?} when it ended)"), d, a)?;
    }
    Ok(())
}
pub fn c16(r: &mut Run) -> &'static str {
    let keys: Vec<Key> = vec![Key::Esc, Key::Char('i'), Key::Char('a'), Key::Char('c'), Key::Char('d'), Key::Char('f'), Key::Char('g'), Key::Char('r'), Key::Char('2'), Key::Char('w'), Key::Char('s'), Key::Char('.'), Key::Char(';'), Key::Char('~'), Key::Char('e'), Key::Char('0'), Key::Home, Key::Backspace];
    r.section(0.4);
    let n = if r.thorough { 4 } else { 3 };
    let mut seqs: Vec<Vec<Key>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..n {
        let to = seqs.len();
        for i in from..to {
            for k in &keys {
                let mut s = seqs[i].clone();
                s.push(*k);
                seqs.push(s);
            }
        }
        from = to;
    }
    'o: for s in &seqs {
        for t in ["", "a", "ab cd", "2 i.f"] {
            if !r.go() {
                break 'o;
            }
            let t = chars(t);
            r.case(&|| format!("line {:?}, cursor 0, keys {}", st(&t), show(s)), s.len() > 1, || full(&t, 0, s));
        }
    }
    r.section(0.4);
    while r.go() && r.evals < if r.thorough { 1_000_000 } else { 60_000 } {
        let t = rand_text(&mut r.rng, 10, VIA);
        let n = 1 + r.rng.below(14);
        let at = r.rng.below(t.len().max(1));
        let k: Vec<Key> = (0..n).map(|_| model_key(&mut r.rng)).collect();
        r.case(&|| format!("line {:?}, cursor {at}, keys {}", st(&t), show(&k)), true, || full(&t, at, &k));
    }
    r.section(0.5);
    while r.go() && r.evals < if r.thorough { 2_000_000 } else { 110_000 } {
        let t = rand_text(&mut r.rng, 10, VIA);
        let h: Vec<T> = (0..r.rng.below(4)).map(|_| rand_text(&mut r.rng, 5, VIA)).collect();
        let n = r.rng.below(14);
        let k: Vec<Key> = (0..n).map(|_| mode_key(&mut r.rng)).collect();
        r.case(&|| format!("line {:?}, history {:?}, keys {} then Esc Esc i Q Esc u", st(&t), strs(&h), show(&k)), true, || esc_case(&t, &h, &k));
    }
    r.section(1.0);
    while r.go() && r.evals < if r.thorough { 3_000_000 } else { 150_000 } {
        let t = rand_text(&mut r.rng, 10, VIA);
        let h: Vec<T> = (0..r.rng.below(3)).map(|_| rand_text(&mut r.rng, 5, VIA)).collect();
        let n = r.rng.below(10);
        let k: Vec<Key> = (0..n).map(|_| mode_key(&mut r.rng)).collect();
        let e = match r.rng.below(8) {
            0 => ks("C"),
            1 => ks("cc"),
            2 => ks("s"),
            3 | 4 => {
                let m = rand_motion(&mut r.rng);
                ks(&format!("{}c{m}", rand_small(&mut r.rng)))
            }
            _ => ks(&format!("{}{}", rand_small(&mut r.rng), r.rng.pick(&["i", "a", "A", "I"]))),
        };
        let mut ty = vec![Key::Char('q')];
        ty.extend(rand_typed(&mut r.rng));
        r.case(&|| format!("line {:?}, history {:?}, keys {} Esc Esc, then {} {} Esc u", st(&t), strs(&h), show(&k), show(&e), show(&ty)), true, || session_case(&t, &h, &k, &e, &ty));
    }
    "all sequences of up to 3 of 18 keys on 4 lines and random key sequences, against a model of the Vi modes (line, cursor, mode, mode shown in the prompt); Esc Esc after random keys; and u after an insert session following random keys"
}
