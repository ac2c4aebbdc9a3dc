prop='C24'
needs='the cursor before the first character of a row into which the line wrapped'
breaks='the editor takes the cursor to be in the row above, and draws over the rows above the next time'
edits=[('src/editor.rs',r"""self.term_cursor_line = (new_total_width_to_cursor + terminal_width) / terminal_width;""",r"""self.term_cursor_line = new_total_width_to_cursor.saturating_sub(1) / terminal_width + 1;""")]
demo='''mod util;
use util::*;
fn main() {
    // a terminal with automatic margins, and what it shows after the editor has drawn
    struct Scr { w: usize, row: usize, col: usize, pend: bool, cells: std::collections::BTreeMap<(usize, usize), char> }
    impl Scr {
        fn feed(&mut self, s: &str) {
            let t: Vec<char> = s.chars().collect();
            let mut i = 0;
            while i < t.len() {
                if t[i] == '\\u{1b}' {
                    let mut j = i + 2;
                    while !t[j].is_ascii_alphabetic() { j += 1; }
                    let p: String = t[i + 2..j].iter().collect();
                    let n = p.parse::<usize>().unwrap_or(1).max(1);
                    let at = (self.row, self.col);
                    match t[j] {
                        'A' => { self.row = self.row.saturating_sub(n); self.pend = false }
                        'B' => { self.row += n; self.pend = false }
                        'C' => { self.col = (self.col + n).min(self.w - 1); self.pend = false }
                        'D' => { self.col = self.col.saturating_sub(n); self.pend = false }
                        'H' => { self.row = 0; self.col = 0; self.pend = false }
                        'J' if p == "2" => self.cells.clear(),
                        'J' => self.cells.retain(|k, _| *k < at),
                        _ => {}
                    }
                    i = j;
                } else if t[i] == '\\r' { self.col = 0; self.pend = false }
                else if t[i] == '\\n' { self.row += 1; self.pend = false }
                else {
                    if self.pend { self.row += 1; self.col = 0; self.pend = false }
                    if t[i] != ' ' { self.cells.insert((self.row, self.col), t[i]); } else { self.cells.remove(&(self.row, self.col)); }
                    if self.col + 1 == self.w { self.pend = true } else { self.col += 1 }
                }
                i += 1;
            }
        }
    }
    fn cols(w: u16) { unsafe { let ws = libc::winsize { ws_row: 24, ws_col: w, ws_xpixel: 0, ws_ypixel: 0 }; libc::ioctl(1, libc::TIOCSWINSZ, &ws); } }
    pty();
    let start = |w: u16, hist: &[&str]| { cols(w); let (e, t) = editor(hist, ""); t.0.borrow_mut().out.clear(); (e, t, Scr { w: w as usize, row: 0, col: 0, pend: false, cells: Default::default() }) };
    fn look(s: &mut Scr, t: &T) -> (Vec<String>, (usize, usize)) {
        let o = std::mem::take(&mut t.0.borrow_mut().out);
        s.feed(&String::from_utf8(o).unwrap());
        let n = s.cells.keys().map(|k| k.0 + 1).max().unwrap_or(0);
        let mut v = vec![vec![]; n];
        for (k, c) in &s.cells { while v[k.0].len() < k.1 { v[k.0].push(' '); } v[k.0].push(*c); }
        (v.into_iter().map(|l| l.into_iter().collect()).collect(), (s.row, s.col))
    }
    let rows = |l: &[&str]| l.iter().map(|x| x.to_string()).collect::<Vec<_>>();

    let (mut e, t, mut s) = start(20, &[]);
    e.insert_str_after_cursor("abcdefghijklmnopqrstu").unwrap();
    check("wrapped", look(&mut s, &t), (rows(&["$ abcdefghijklmnopqr", "stu"]), (1, 3)));
    e.move_cursor_to(10).unwrap();
    check("cursor in the first row", look(&mut s, &t), (rows(&["$ abcdefghijklmnopqr", "stu"]), (0, 12)));
    e.move_cursor_to(18).unwrap();
    check("cursor before the second row", look(&mut s, &t), (rows(&["$ abcdefghijklmnopqr", "stu"]), (1, 0)));
    e.insert_after_cursor('x').unwrap();
    check("typed there", look(&mut s, &t), (rows(&["$ abcdefghijklmnopqr", "xstu"]), (1, 1)));
}
'''
