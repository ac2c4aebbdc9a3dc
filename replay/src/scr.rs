//! C24: what a terminal shows.
use crate::ed::{real, Ed1, Model};
use crate::util::*;
use liner::*;
use std::collections::BTreeMap;
use unicode_width::UnicodeWidthChar;

/// a terminal with automatic margins: writing into the last column leaves the cursor there until the next character
#[derive(Clone, Default)]
pub struct Scr {
    pub w: i64,
    pub row: i64,
    pub col: i64,
    pub pend: bool,
    /// row 0 is the terminal's first row
    pub top: bool,
    pub cells: BTreeMap<(i64, i64), char>,
}
impl Scr {
    pub fn feed(&mut self, s: &str) -> Result<(), String> {
        let t: Vec<char> = s.chars().collect();
        let mut i = 0;
        while i < t.len() {
            match t[i] {
                '\u{1b}' if t.get(i + 1) == Some(&'[') => {
                    let mut j = i + 2;
                    while j < t.len() && !t[j].is_ascii_alphabetic() {
                        j += 1;
                    }
                    let p: String = t[i + 2..j].iter().collect();
                    let n = p.parse::<i64>().unwrap_or(1).max(1);
                    if j >= t.len() {
                        return Err("unfinished control sequence".into());
                    }
                    match t[j] {
                        'H' => {
                            self.row = 0;
                            self.top = true;
                            self.col = 0;
                            self.pend = false
                        }
                        'J' if p == "2" => self.cells.clear(),
                        'A' => {
                            self.row = if self.top { (self.row - n).max(0) } else { self.row - n };
                            self.pend = false
                        }
                        'B' => {
                            self.row += n;
                            self.pend = false
                        }
                        'C' => {
                            self.col = (self.col + n).min(self.w - 1);
                            self.pend = false
                        }
                        'D' => {
                            self.col = (self.col - n).max(0);
                            self.pend = false
                        }
                        'J' => {
                            let at = (self.row, self.col);
                            self.cells.retain(|k, _| *k < at);
                        }
                        'h' | 'l' | 'm' => {}
                        c => return Err(format!("unknown sequence {c}")),
                    }
                    i = j;
                }
                '\r' => {
                    self.col = 0;
                    self.pend = false
                }
                '\n' => {
                    self.row += 1;
                    self.pend = false
                }
                c => {
                    let w = c.width().unwrap_or(0) as i64;
                    if w > 0 {
                        if self.pend || self.col + w > self.w {
                            self.row += 1;
                            self.col = 0;
                            self.pend = false;
                        }
                        self.cells.insert((self.row, self.col), c);
                        self.col += w;
                        if self.col >= self.w {
                            self.col = self.w - 1;
                            self.pend = true;
                        }
                    }
                }
            }
            i += 1;
        }
        Ok(())
    }
    pub fn at(&self) -> (i64, i64) {
        if self.pend {
            (self.row + 1, 0)
        } else {
            (self.row, self.col)
        }
    }
    pub fn show(&self) -> BTreeMap<(i64, i64), char> {
        self.cells.iter().filter(|x| *x.1 != ' ').map(|x| (*x.0, *x.1)).collect()
    }
}
fn expect(w: i64, prompt: &str, shown: &str, cursor: usize) -> (Scr, (i64, i64)) {
    let mut s = Scr { w, ..Default::default() };
    s.feed(prompt).unwrap();
    let pw = s.cells.len();
    let mut pos = s.at();
    for (i, c) in shown.chars().enumerate() {
        if i == cursor {
            pos = s.at();
        }
        if c == '\n' {
            s.feed("\r\n").unwrap();
            s.feed(&" ".repeat(pw)).unwrap();
        } else {
            s.feed(&c.to_string()).unwrap();
        }
    }
    if cursor >= shown.chars().count() {
        pos = s.at();
    }
    (s, pos)
}
use Ed1::*;
fn op(r: &mut Rng, al: &[char]) -> Ed1 {
    match r.below(24) {
        0..=8 => Ins(rand_text(r, 10, al)),
        9 => Bs,
        10 => Del,
        11..=13 => Left(1 + r.below(6)),
        14 => Right(1 + r.below(6)),
        15 => Home,
        16 => End,
        17 => To(r.below(12)),
        18 => Up,
        19 => Down,
        20 => Accept,
        21 => DelWord(r.below(2) == 0),
        22 => Clear,
        _ => Undo,
    }
}
fn draws(w: i64, prompt: &str, colour: usize, hist: &[Vec<char>], ops: &[Ed1]) -> Ck {
    let (c, t) = context(hist);
    t.0.borrow_mut().width = w as usize;
    let mut scr = Scr { w, ..Default::default() };
    let f: Option<Box<dyn Fn(&str) -> String + Send + Sync>> = match colour {
        0 => None,
        1 => Some(Box::new(|s: &str| s.into())),
        2 => Some(Box::new(|s: &str| format!("\u{1b}[32m{s}\u{1b}[0m"))),
        _ => Some(Box::new(|s: &str| s.chars().map(|c| if c == 'a' { format!("\u{1b}[1;31m{c}\u{1b}[m") } else { c.to_string() }).collect())),
    };
    let mut ed = Editor::new_with_init_buffer(Prompt::from(prompt.to_string()), f, c, Buffer::from("")).map_err(|e| e.to_string())?;
    let mut m = Model::new(hist, &[]);
    let mut when = "creation".to_string();
    for i in 0..ops.len() + 1 {
        if i > 0 {
            m.apply(&ops[i - 1]);
            real(&mut ed, &ops[i - 1]).map_err(|e| e.to_string())?;
            when = format!("step {} ({:?})", i, ops[i - 1]);
        }
        let o = std::mem::take(&mut t.0.borrow_mut().out);
        scr.feed(&String::from_utf8(o).map_err(|e| e.to_string())?)?;
        let line = cur(&ed);
        if line != st(m.text()) || ed.is_currently_showing_autosuggestion() != m.sugg.is_some() {
            return Ok(()); // not a matter of drawing
        }
        let shown = m.sugg.as_ref().map(|s| st(s)).unwrap_or(line.clone());
        let (e, pos) = expect(w, prompt, &shown, ed.cursor());
        if i == 0 {
            // rows count from the one the prompt starts in
            let top = scr.row - pos.0;
            scr.row -= top;
            scr.cells = scr.cells.iter().map(|(k, v)| ((k.0 - top, k.1), *v)).filter(|x| x.0 .0 >= 0).collect();
        }
        let all = format!("{when}, line {line:?}, shown {shown:?}, cursor {}", ed.cursor());
        eq(&format!("screen after {all}"), scr.show(), e.show())?;
        eq(&format!("(row, column) of the terminal's cursor after {all}"), (scr.row, scr.col, scr.pend), (pos.0, pos.1, false))?;
    }
    // the line that is handed over is left without its suggestion
    ed.handle_newline().map_err(|e| e.to_string())?;
    let o = std::mem::take(&mut t.0.borrow_mut().out);
    scr.feed(&String::from_utf8(o).map_err(|e| e.to_string())?)?;
    let line = cur(&ed);
    let (e, _) = expect(w, prompt, &line, 0);
    eq(&format!("screen after Enter, line {line:?}"), scr.show(), e.show())
}
pub fn c24(r: &mut Run) -> &'static str {
    // what the contracts assume of unicode-width and termion
    let widths = || "columns of each of the characters U+0020..U+007E, U+00A1..U+024F without U+00AD; termion's colour sequences".to_string();
    r.case(&widths, true, || {
        for c in (' '..='~').chain('\u{a1}'..='\u{24f}') {
            if c != '\u{ad}' {
                eq(&format!("columns of {c:?}"), Buffer::from(c.to_string()).width(), vec![1])?;
            }
        }
        Ok(())
    });
    let prompts = ["$ ", "", ">>> ", "a rather long prompt> ", "\u{1b}[32mok\u{1b}[0m> ", "é: "];
    let als: [&[char]; 3] = [&['a', 'b', ' ', '\n'], &['a', 'é', 'ø', '\n', ' '], &['a', 'b']];
    r.section(0.3);
    // every text of up to 4 characters, every place of the cursor, small widths
    let al = ['a', ' ', '\n'];
    let mut texts: Vec<Vec<char>> = vec![vec![]];
    let mut k = 0;
    while texts[k].len() < 5 {
        for c in al {
            let mut t = texts[k].clone();
            t.push(c);
            texts.push(t);
        }
        k += 1;
    }
    'all: for w in [1, 2, 3, 4, 5, 7] {
        for p in ["", "$ "] {
            for t in &texts {
                for k in 0..t.len() + 1 {
                    if !r.go() {
                        break 'all;
                    }
                    let ops = [Ins(t.clone()), To(k), Ins(vec!['b'])];
                    let d = || format!("width {w}, prompt {p:?}, no colours, history [], calls {ops:?}");
                    r.case(&d, true, || run_case(w, p, 0, &[], &ops));
                }
            }
        }
    }
    r.section(1.0);
    while r.go() {
        let w = if r.rng.below(12) == 0 { 1 + r.rng.below(2) as i64 } else { 3 + r.rng.below(18) as i64 };
        let prompt = *r.rng.pick(&prompts);
        let al = *r.rng.pick(&als);
        let n = r.rng.below(3);
        let hist: Vec<Vec<char>> = (0..n).map(|_| rand_text(&mut r.rng, 24, al)).collect();
        let n = 1 + r.rng.below(8);
        let ops: Vec<Ed1> = (0..n).map(|_| op(&mut r.rng, al)).collect();
        let colour = r.rng.below(8).saturating_sub(4);
        let d = || format!("width {w}, prompt {prompt:?}, colouring {colour}, history {:?}, calls {ops:?}", strs(&hist));
        r.case(&d, true, || run_case(w, prompt, colour, &hist, &ops));
    }
    "texts of up to 5 characters over a letter, a space and a line break, each with each place of the cursor, in 1 to 7 columns, then random calls with prompts, colours, histories and widths: the output interpreted by a terminal emulator, its screen and cursor after each call against prompt, line and suggestion laid out from scratch"
}
fn run_case(w: i64, prompt: &str, colour: usize, hist: &[Vec<char>], ops: &[Ed1]) -> Ck {
    set_cols(w as u16);
    let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| draws(w, prompt, colour, hist, ops)));
    set_cols(80);
    x.unwrap_or_else(|e| std::panic::resume_unwind(e))
}
