//@ uses
use vstd::prelude::*;
use crate::vx::*;
use crate::vxio as io;
use crate::vxio::{ErrorKind, io_rel, VxOther};
use crate::vxterm::{clear, color, cursor};
use crate::vxterm::color::VxColor;
use crate::util;
use crate::util::*;
use crate::buffer::*;
use crate::history::*;
use crate::context::*;
use crate::complete::*;
use crate::editor::*;
//@ only
//@ text
//@ prelude
broadcast use {crate::vx::lemma_derefs_refs, crate::vx::lemma_derefs_sub};
// ---------------------------------------------------------------- a terminal
/// what a terminal shows, one character per cell: the cells from the top row of the line on, row after row;
/// the place of the next character; and whether the cursor is still in the last column behind the character
/// that filled it
pub ghost struct Scr { pub p: int, pub pend: bool, pub t: Seq<char> }
/// what a terminal makes of the next character
pub ghost enum Ps { Norm, Esc, Csi(int), Csi2(int, int), More, Priv }
pub ghost struct Tm { pub s: Scr, pub ps: Ps }
/// what the terminal makes of anything that is not described here
pub uninterp spec fn tm_other(x: Tm, c: char) -> Tm;
/// characters that take one column
pub open spec fn narrow(c: char) -> bool { (' ' <= c <= '~') || ('\u{a1}' <= c <= '\u{24f}' && c != '\u{ad}') }
pub open spec fn all_narrow(s: Seq<char>) -> bool { forall |i: int| 0 <= i < s.len() ==> narrow(#[trigger] s[i]) }
/// the cell the cursor is in
pub open spec fn at(s: Scr) -> int { if s.pend { s.p - 1 } else { s.p } }
pub open spec fn pad(t: Seq<char>, n: int) -> Seq<char> { if t.len() < n { t + Seq::new((n - t.len()) as nat, |i: int| ' ') } else { t } }
pub open spec fn cell_set(t: Seq<char>, p: int, c: char) -> Seq<char> { if p < 0 { t } else if p < t.len() { t.update(p, c) } else { pad(t, p).push(c) } }
pub open spec fn putc(w: int, s: Scr, c: char) -> Scr { Scr { p: s.p + 1, pend: (s.p + 1) % w == 0, t: cell_set(s.t, s.p, c) } }
pub open spec fn cr(w: int, s: Scr) -> Scr { Scr { p: at(s) / w * w, pend: false, t: s.t } }
pub open spec fn lf(w: int, s: Scr) -> Scr { Scr { p: at(s) + w, pend: false, t: s.t } }
pub open spec fn by(n: int) -> int { if n < 1 { 1 } else { n } }
/// the control sequences with a number: cursor up, down, right and left (the sides are where it stops), erase what is behind it
pub open spec fn csi_do(w: int, s: Scr, n: int, c: char) -> Tm {
    let col = at(s) % w;
    if c == 'A' { Tm { s: Scr { p: at(s) - by(n) * w, pend: false, t: s.t }, ps: Ps::Norm } }
    else if c == 'B' { Tm { s: Scr { p: at(s) + by(n) * w, pend: false, t: s.t }, ps: Ps::Norm } }
    else if c == 'C' { Tm { s: Scr { p: at(s) + (if by(n) < w - 1 - col { by(n) } else { w - 1 - col }), pend: false, t: s.t }, ps: Ps::Norm } }
    else if c == 'D' { Tm { s: Scr { p: at(s) - (if by(n) < col { by(n) } else { col }), pend: false, t: s.t }, ps: Ps::Norm } }
    else if c == 'J' && n == 0 { Tm { s: Scr { t: if at(s) <= 0 { Seq::empty() } else if at(s) < s.t.len() { s.t.subrange(0, at(s)) } else { s.t }, ..s }, ps: Ps::Norm } }
    else if c == 'J' && n == 2 { Tm { s: Scr { t: Seq::empty(), ..s }, ps: Ps::Norm } }
    else if c == 'm' { Tm { s, ps: Ps::Norm } }
    else { tm_other(Tm { s, ps: Ps::Csi(n) }, c) }
}
/// the control sequences with two numbers; to the top left corner: on an empty screen, rows are counted from there from then on
pub open spec fn csi_do2(s: Scr, m: int, n: int, c: char) -> Tm {
    if c == 'm' { norm(s) }
    else if c == 'H' && by(m) == 1 && by(n) == 1 && s.t.len() == 0 { norm(blank()) }
    else { tm_other(Tm { s, ps: Ps::Csi2(m, n) }, c) }
}
pub open spec fn is_num(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn step(w: int, x: Tm, c: char) -> Tm {
    match x.ps {
        Ps::Norm => if narrow(c) { Tm { s: putc(w, x.s, c), ps: Ps::Norm } }
            else if c == '\r' { Tm { s: cr(w, x.s), ps: Ps::Norm } }
            else if c == '\n' { Tm { s: lf(w, x.s), ps: Ps::Norm } }
            else if c == '\x1B' { Tm { s: x.s, ps: Ps::Esc } }
            else { tm_other(x, c) },
        Ps::Esc => if c == '[' { Tm { s: x.s, ps: Ps::Csi(0) } } else { tm_other(x, c) },
        Ps::Csi(n) => if is_num(c) { Tm { s: x.s, ps: Ps::Csi(n * 10 + (c as int - '0' as int)) } }
            else if c == ';' { Tm { s: x.s, ps: Ps::Csi2(n, 0) } }
            else if c == '?' { Tm { s: x.s, ps: Ps::Priv } }
            else { csi_do(w, x.s, n, c) },
        Ps::Csi2(m, n) => if is_num(c) { Tm { s: x.s, ps: Ps::Csi2(m, n * 10 + (c as int - '0' as int)) } }
            else if c == ';' { Tm { s: x.s, ps: Ps::More } }
            else { csi_do2(x.s, m, n, c) },
        Ps::More => if is_num(c) || c == ';' { x } else if c == 'm' { norm(x.s) } else { tm_other(x, c) },
        Ps::Priv => if is_num(c) { x } else if c == 'h' || c == 'l' { Tm { s: x.s, ps: Ps::Norm } } else { tm_other(x, c) },
    }
}
/// a terminal of w columns after reading a text
pub open spec fn run(w: int, x: Tm, s: Seq<char>) -> Tm decreases s.len() { if s.len() == 0 { x } else { step(w, run(w, x, s.drop_last()), s.last()) } }
pub open spec fn put(w: int, s: Scr, v: Seq<char>) -> Scr decreases v.len() { if v.len() == 0 { s } else { putc(w, put(w, s, v.drop_last()), v.last()) } }
pub open spec fn norm(s: Scr) -> Tm { Tm { s, ps: Ps::Norm } }
/// the screen in front of everything
pub open spec fn blank() -> Scr { Scr { p: 0, pend: false, t: Seq::empty() } }
/// what the terminal shows (the rows counted from the top row of the line)
pub uninterp spec fn screen<T: Tty>(t: T) -> Scr;
/// trusted: it shows what it makes of what is written to it
/// it is not within a control sequence
pub uninterp spec fn idle<T: Tty>(t: T) -> bool;
#[verifier::external_body]
pub proof fn ax_screen<T: Tty>(a: T, b: T, out: Seq<char>)
    requires idle(a), b.sent() == a.sent() + utf8(out), run(screen_width(), norm(screen(a)), out).ps == Ps::Norm
    ensures idle(b), screen(b) == run(screen_width(), norm(screen(a)), out).s { }
/// it shows prompt and text, and nothing else behind them, its cursor is where the cursor is in the text, and the
/// editor knows in which row
pub open spec fn shows<T: Tty>(t: T, prompt: Seq<char>, text: Seq<char>, cursor: int, row: int) -> bool {
    let x = screen(t);
    idle(t) && x.t == shown(screen_width(), prompt, text).t && x.p == shown(screen_width(), prompt, text.subrange(0, cursor)).p && !x.pend && tracks(screen_width(), row, x)
}
pub proof fn lemma_shows<T: Tty>(a: T, b: T, prompt: Seq<char>, text: Seq<char>, cursor: int, row: int)
    requires idle(a), exists |out: Seq<char>| b.sent() == a.sent() + utf8(out) && #[trigger] drawn(screen_width(), screen(a), prompt, text, cursor, row, out)
    ensures shows(b, prompt, text, cursor, row)
{
    let out = choose |out: Seq<char>| b.sent() == a.sent() + utf8(out) && #[trigger] drawn(screen_width(), screen(a), prompt, text, cursor, row, out);
    ax_screen(a, b, out);
}

/// text that only consists of narrow characters and colour sequences
pub open spec fn tame_step(a: Option<Ps>, c: char) -> Option<Ps> {
    match a {
        Some(Ps::Norm) => if c == '\x1B' { Some(Ps::Esc) } else if narrow(c) { Some(Ps::Norm) } else { None },
        Some(Ps::Esc) => if c == '[' { Some(Ps::Csi(0)) } else { None },
        Some(Ps::Csi(_)) => if is_num(c) || c == ';' { Some(Ps::Csi(0)) } else if c == 'm' { Some(Ps::Norm) } else { None },
        _ => None,
    }
}
pub open spec fn tame_st(s: Seq<char>) -> Option<Ps> decreases s.len() { if s.len() == 0 { Some(Ps::Norm) } else { tame_step(tame_st(s.drop_last()), s.last()) } }
pub open spec fn tame(s: Seq<char>) -> bool { tame_st(s) == Some(Ps::Norm) }

// ---------------------------------------------------------------- what is to be shown
pub open spec fn lines_of(s: Seq<char>) -> Seq<Seq<char>> { split_spec(s, is_c('\n')) }
pub open spec fn spaces(n: int) -> Seq<char> { Seq::new(if n < 0 { 0 } else { n as nat }, |i: int| ' ') }
/// lines drawn one below the other, the first where the cursor is, the others behind n columns
pub open spec fn draw(w: int, s: Scr, n: int, l: Seq<Seq<char>>) -> Scr decreases l.len() {
    if l.len() == 0 { s }
    else if l.len() == 1 { put(w, s, l[0]) }
    else { put(w, put(w, lf(w, cr(w, draw(w, s, n, l.drop_last()))), spaces(n)), l.last()) }
}
/// prompt and text on an empty screen
pub open spec fn shown(w: int, prompt: Seq<char>, text: Seq<char>) -> Scr {
    draw(w, put(w, blank(), visible(prompt)), visible(prompt).len() as int, lines_of(text))
}
/// (how far l reaches, how much of that its last line takes)
pub open spec fn lay(w: int, n: int, l: Seq<usize>) -> (int, int) decreases l.len() {
    if l.len() == 0 { (0, 1) } else {
        let a = lay(w, n, l.drop_last());
        ((if a.0 % w != 0 || a.1 == 0 { (a.0 / w + 1) * w } else { a.0 }) + n + l.last(), n + l.last())
    }
}
/// text whose characters take one column each, apart from line breaks
pub open spec fn plain_text(s: Seq<char>) -> bool { forall |i: int| 0 <= i < s.len() ==> #[trigger] s[i] == '\n' || narrow(s[i]) }
impl<C: EditorContext> Editor<C> {
    /// the text to show behind the prompt
    pub open spec fn to_show(&self, sugg: bool) -> Seq<char> { if sugg && self.autosuggestion is Some { self.autosuggestion->0@ } else { self.text() } }
    /// the colours leave the text alone
    pub open spec fn colours_ok(&self) -> bool {
        self.closure is Some ==> forall |s: Seq<char>| all_narrow(s) ==> tame(#[trigger] (self.closure->0).out(s)) && visible((self.closure->0).out(s)) == s
    }
    /// no search is running, no completions are listed, and everything to draw has one column per character
    pub open spec fn drawable(&self, sugg: bool) -> bool {
        &&& !self.searching() && self.show_completions_hint is None && self.colours_ok()
        &&& tame(self.prompt.shown()) && plain_text(self.to_show(sugg))
        &&& sugg ==> self.sugg_prefix()
    }
}
/// fewer rows than a control sequence can count
pub open spec fn fits(w: int, prompt: Seq<char>, text: Seq<char>, cursor: int) -> bool {
    shown(w, prompt, text).p < 65536 * w && shown(w, prompt, text.subrange(0, cursor)).p < 65536 * w
}
/// the cursor's row on the terminal is the one the editor takes it to be in
pub open spec fn tracks(w: int, row: int, s: Scr) -> bool { at(s) / w == row - 1 && row <= 65536 }
/// what has been written makes the terminal (showing s) show prompt and text, and nothing else behind them, and puts
/// the cursor where the cursor is in the text
pub open spec fn drawn(w: int, s: Scr, prompt: Seq<char>, text: Seq<char>, cursor: int, row: int, out: Seq<char>) -> bool {
    let x = run(w, norm(s), out);
    x.ps == Ps::Norm && x.s.t == shown(w, prompt, text).t && x.s.p == shown(w, prompt, text.subrange(0, cursor)).p && !x.s.pend && tracks(w, row, x.s)
}

// ---------------------------------------------------------------- the text of the control sequences
pub open spec fn digits(n: int) -> Seq<char> decreases n { if n < 10 { seq![(48 + n) as u8 as char] } else { digits(n / 10).push((48 + n % 10) as u8 as char) } }
pub open spec fn csi(n: int, c: char) -> Seq<char> { (seq!['\x1B', '['] + digits(n)).push(c) }
pub trait VxShow { spec fn sh(&self) -> Seq<char>; }
impl VxShow for cursor::Up { open spec fn sh(&self) -> Seq<char> { csi(self.0 as int, 'A') } }
impl VxShow for cursor::Down { open spec fn sh(&self) -> Seq<char> { csi(self.0 as int, 'B') } }
impl VxShow for cursor::Right { open spec fn sh(&self) -> Seq<char> { csi(self.0 as int, 'C') } }
impl VxShow for cursor::Left { open spec fn sh(&self) -> Seq<char> { csi(self.0 as int, 'D') } }
impl VxShow for clear::AfterCursor { open spec fn sh(&self) -> Seq<char> { seq!['\x1B', '[', 'J'] } }
impl VxShow for clear::All { open spec fn sh(&self) -> Seq<char> { seq!['\x1B', '[', '2', 'J'] } }
impl VxShow for cursor::Goto { open spec fn sh(&self) -> Seq<char> { (csi(self.1 as int, ';') + digits(self.0 as int)).push('H') } }
impl VxShow for String { open spec fn sh(&self) -> Seq<char> { self@ } }
impl VxShow for str { open spec fn sh(&self) -> Seq<char> { self@ } }
impl<'a, T: VxShow + ?Sized> VxShow for &'a T { open spec fn sh(&self) -> Seq<char> { (**self).sh() } }
/// trusted: how termion's control sequences and text are displayed
pub trait VxShows: View<V = Seq<char>> { fn vx_show<T: VxShow + ?Sized>(&mut self, x: &T) ensures final(self)@ == old(self)@ + x.sh(); }
impl VxShows for String { #[verifier::external_body] fn vx_show<T: VxShow + ?Sized>(&mut self, x: &T) { unimplemented!() } }
pub fn vx_written() -> (r: Result<(), VxFmtErr>) ensures r is Ok { Ok(()) }

// ---------------------------------------------------------------- lemmas
pub proof fn lemma_run_add(w: int, x: Tm, a: Seq<char>, b: Seq<char>)
    ensures run(w, x, a + b) == run(w, run(w, x, a), b) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); lemma_run_add(w, x, a, b.drop_last()); }
}
pub proof fn lemma_put_add(w: int, s: Scr, a: Seq<char>, b: Seq<char>)
    ensures put(w, put(w, s, a), b) == put(w, s, a + b) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); lemma_put_add(w, s, a, b.drop_last()); }
}
pub proof fn lemma_put_pos(w: int, s: Scr, v: Seq<char>)
    ensures put(w, s, v).p == s.p + v.len(), v.len() > 0 ==> put(w, s, v).pend == ((s.p + v.len()) % w == 0), v.len() == 0 ==> put(w, s, v) == s
    decreases v.len()
{ if v.len() > 0 { lemma_put_pos(w, s, v.drop_last()); } }
pub proof fn lemma_run1(w: int, x: Tm, c: char) ensures run(w, x, seq![c]) == step(w, x, c)
{ let s = seq![c]; assert(s.drop_last() =~= Seq::<char>::empty()); assert(run(w, x, s.drop_last()) == x); assert(s.last() == c); }
pub proof fn lemma_run_push(w: int, x: Tm, s: Seq<char>, c: char) ensures run(w, x, s.push(c)) == step(w, run(w, x, s), c)
{ assert(s.push(c).drop_last() =~= s); assert(s.push(c).last() == c); }
/// narrow characters are put one behind the other
pub proof fn lemma_run_plain(w: int, s: Scr, v: Seq<char>)
    requires all_narrow(v) ensures run(w, norm(s), v) == norm(put(w, s, v)) decreases v.len()
{ if v.len() > 0 { let d = v.drop_last(); assert forall |i: int| 0 <= i < d.len() implies narrow(#[trigger] d[i]) by { assert(d[i] == v[i]); } lemma_run_plain(w, s, d); assert(narrow(v[v.len() - 1])); } }
pub open spec fn kind(p: Ps, a: AnsiState) -> bool { match p { Ps::Norm => a is Norm, Ps::Esc => a is Esc, Ps::Csi(_) => a is Csi, _ => false } }
pub open spec fn same_kind(p: Ps, q: Ps) -> bool { match p { Ps::Norm => q is Norm, Ps::Esc => q is Esc, Ps::Csi(_) => q is Csi || q is Csi2 || q is More, _ => false } }
/// of text with colours, the visible characters are put
pub proof fn lemma_run_tame(w: int, s: Scr, v: Seq<char>)
    requires tame_st(v) is Some
    ensures ({ let x = run(w, norm(s), v); let q = tame_st(v)->0; x.s == put(w, s, visible(v)) && same_kind(q, x.ps) && kind(q, esc_state(v)) }), all_narrow(visible(v))
    decreases v.len()
{
    if v.len() > 0 {
        let d = v.drop_last();
        lemma_run_tame(w, s, d);
        let r = visible(d);
        let c = v.last();
        if esc_state(d) is Norm && c != '\x1B' {
            assert(visible(v) == r.push(c));
            assert(r.push(c).drop_last() =~= r);
            assert(narrow(c));
            assert forall |i: int| 0 <= i < r.push(c).len() implies narrow(#[trigger] r.push(c)[i]) by { if i < r.len() { assert(r.push(c)[i] == r[i]); } }
        } else { assert(visible(v) == r); }
    }
}
pub proof fn lemma_plain_tame(v: Seq<char>)
    requires all_narrow(v) ensures tame(v), visible(v) == v
    decreases v.len()
{
    assert(!v.contains('\x1B')) by { if v.contains('\x1B') { let i = choose |i: int| 0 <= i < v.len() && v[i] == '\x1B'; assert(narrow(v[i])); } }
    lemma_visible_plain(v);
    if v.len() > 0 { let d = v.drop_last(); assert forall |i: int| 0 <= i < d.len() implies narrow(#[trigger] d[i]) by { assert(d[i] == v[i]); } lemma_plain_tame(d); assert(narrow(v[v.len() - 1])); }
}
pub proof fn lemma_digits(w: int, s: Scr, n: int)
    requires n >= 0 ensures run(w, Tm { s, ps: Ps::Csi(0) }, digits(n)) == (Tm { s, ps: Ps::Csi(n) }) decreases n
{
    if n < 10 { lemma_run1(w, Tm { s, ps: Ps::Csi(0) }, (48 + n) as u8 as char); }
    else { lemma_digits(w, s, n / 10); lemma_run_push(w, Tm { s, ps: Ps::Csi(0) }, digits(n / 10), (48 + n % 10) as u8 as char); }
}
/// a control sequence with a number
pub broadcast proof fn lemma_csi(w: int, x: Tm, n: int, c: char)
    requires n >= 0, x.ps == Ps::Norm, !is_num(c), c != ';', c != '?'
    ensures #[trigger] run(w, x, csi(n, c)) == csi_do(w, x.s, n, c)
{
    let a = seq!['\x1B', '['];
    assert(a =~= seq!['\x1B'].push('['));
    lemma_run1(w, x, '\x1B');
    lemma_run_push(w, x, seq!['\x1B'], '[');
    lemma_digits(w, x.s, n);
    lemma_run_add(w, x, a, digits(n));
    lemma_run_push(w, x, a + digits(n), c);
}
pub proof fn lemma_clear(w: int, x: Tm)
    requires x.ps == Ps::Norm ensures run(w, x, seq!['\x1B', '[', 'J']) == csi_do(w, x.s, 0, 'J')
{
    assert(seq!['\x1B', '[', 'J'] =~= seq!['\x1B'].push('[').push('J'));
    lemma_run1(w, x, '\x1B');
    lemma_run_push(w, x, seq!['\x1B'], '[');
    lemma_run_push(w, x, seq!['\x1B'].push('['), 'J');
}
pub proof fn lemma_crlf(w: int, x: Tm)
    requires x.ps == Ps::Norm ensures run(w, x, seq!['\r', '\n']) == norm(lf(w, cr(w, x.s)))
{
    assert(seq!['\r', '\n'] =~= seq!['\r'].push('\n'));
    lemma_run1(w, x, '\r');
    lemma_run_push(w, x, seq!['\r'], '\n');
}
/// everything erased, to the top left corner
pub proof fn lemma_home_all(w: int, s: Scr)
    ensures run(w, norm(s), seq!['\x1B', '[', '2', 'J'] + (csi(1, ';') + digits(1)).push('H')) == norm(blank())
{
    let a = seq!['\x1B', '[', '2', 'J']; let b = (csi(1, ';') + digits(1)).push('H');
    let e = Seq::<char>::empty();
    assert(a =~= e.push('\x1B').push('[').push('2').push('J'));
    lemma_run_push(w, norm(s), e, '\x1B'); lemma_run_push(w, norm(s), e.push('\x1B'), '['); lemma_run_push(w, norm(s), e.push('\x1B').push('['), '2'); lemma_run_push(w, norm(s), e.push('\x1B').push('[').push('2'), 'J');
    let x = run(w, norm(s), a);
    assert(run(w, norm(s), e) == norm(s));
    assert(x == norm(Scr { t: Seq::empty(), ..s }));
    assert(digits(1) =~= seq!['1']);
    assert(b =~= e.push('\x1B').push('[').push('1').push(';').push('1').push('H'));
    assert(run(w, x, e) == x);
    lemma_run_push(w, x, e, '\x1B'); lemma_run_push(w, x, e.push('\x1B'), '['); lemma_run_push(w, x, e.push('\x1B').push('['), '1'); lemma_run_push(w, x, e.push('\x1B').push('[').push('1'), ';');
    lemma_run_push(w, x, e.push('\x1B').push('[').push('1').push(';'), '1'); lemma_run_push(w, x, e.push('\x1B').push('[').push('1').push(';').push('1'), 'H');
    lemma_run_add(w, norm(s), a, b);
}
pub proof fn lemma_spaces(n: int) ensures repeated(seq![' '], n) == spaces(n), all_narrow(spaces(n)) decreases n
{ if n > 0 { lemma_spaces(n - 1); assert(spaces(n - 1) + seq![' '] =~= spaces(n)); } else { assert(spaces(n) =~= Seq::<char>::empty()); } }

// ---- the pieces that are written
pub open spec fn crlf_t() -> Seq<char> { seq!['\r', '\n'] }
pub open spec fn clear_t() -> Seq<char> { seq!['\x1B', '[', 'J'] }
pub broadcast proof fn lemma_p_add(w: int, x: Tm, a: Seq<char>, b: Seq<char>) ensures #[trigger] run(w, x, a + b) == run(w, run(w, x, a), b) { lemma_run_add(w, x, a, b); }
pub broadcast proof fn lemma_p_put(w: int, s: Scr, a: Seq<char>, b: Seq<char>) ensures #[trigger] put(w, put(w, s, a), b) == put(w, s, a + b) { lemma_put_add(w, s, a, b); }
pub broadcast proof fn lemma_p_tame(w: int, x: Tm, v: Seq<char>) requires #[trigger] tame(v), x.ps == Ps::Norm ensures #[trigger] run(w, x, v) == norm(put(w, x.s, visible(v)))
{ lemma_run_tame(w, x.s, v); assert(x == norm(x.s)); }
pub broadcast proof fn lemma_p_plain(w: int, x: Tm, v: Seq<char>) requires #[trigger] all_narrow(v), x.ps == Ps::Norm ensures #[trigger] run(w, x, v) == norm(put(w, x.s, v))
{ lemma_run_plain(w, x.s, v); assert(x == norm(x.s)); }
pub broadcast proof fn lemma_p_crlf(w: int, x: Tm) requires x.ps == Ps::Norm ensures #[trigger] run(w, x, crlf_t()) == norm(lf(w, cr(w, x.s))) { lemma_crlf(w, x); }
pub broadcast proof fn lemma_p_clear(w: int, x: Tm) requires x.ps == Ps::Norm ensures #[trigger] run(w, x, clear_t()) == csi_do(w, x.s, 0, 'J') { lemma_clear(w, x); }
pub proof fn lemma_p_cr(w: int, x: Tm) requires x.ps == Ps::Norm ensures run(w, x, seq!['\r']) == norm(cr(w, x.s)) { lemma_run1(w, x, '\r'); }
pub open spec fn mode_t() -> Seq<char> { seq!['\x1B', '[', '?', '1', '0', '0', '0', 'l', '\x1B', '[', '?', '1', 'l'] }
pub proof fn lemma_mode(w: int, x: Tm) requires x.ps == Ps::Norm ensures run(w, x, mode_t()) == x
{
    let e = Seq::<char>::empty();
    assert(mode_t() =~= e.push('\x1B').push('[').push('?').push('1').push('0').push('0').push('0').push('l').push('\x1B').push('[').push('?').push('1').push('l'));
    let a = e.push('\x1B'); let b = a.push('['); let c = b.push('?'); let d = c.push('1'); let f = d.push('0'); let g = f.push('0'); let h = g.push('0'); let i = h.push('l');
    lemma_run_push(w, x, e, '\x1B'); lemma_run_push(w, x, a, '['); lemma_run_push(w, x, b, '?'); lemma_run_push(w, x, c, '1'); lemma_run_push(w, x, d, '0'); lemma_run_push(w, x, f, '0'); lemma_run_push(w, x, g, '0'); lemma_run_push(w, x, h, 'l');
    let j = i.push('\x1B'); let k = j.push('['); let l = k.push('?'); let m = l.push('1');
    lemma_run_push(w, x, i, '\x1B'); lemma_run_push(w, x, j, '['); lemma_run_push(w, x, k, '?'); lemma_run_push(w, x, l, '1'); lemma_run_push(w, x, m, 'l');
    assert(run(w, x, e) == x);
}
/// trusted: termion's colours are colour sequences
#[verifier::external_body]
pub broadcast proof fn ax_colour(s: Seq<char>) ensures #[trigger] crate::vxterm::colour_code(s) ==> tame(s) && visible(s).len() == 0 { }
/// trusted: unicode-width's widths of these characters
#[verifier::external_body]
pub proof fn ax_narrow(s: Seq<char>) requires all_narrow(s) ensures width_spec(s) == s.len() { }
/// a colour changes nothing
pub broadcast proof fn lemma_p_colour(w: int, x: Tm, v: Seq<char>) requires #[trigger] crate::vxterm::colour_code(v), x.ps == Ps::Norm ensures #[trigger] run(w, x, v) == x
{ ax_colour(v); lemma_run_tame(w, x.s, v); assert(x == norm(x.s)); lemma_put_none(w, x.s, visible(v)); }
/// a line written in two parts
pub proof fn lemma_split_line(w: int, s: Scr, v: Seq<char>, k: int)
    ensures 0 <= k <= v.len() ==> put(w, put(w, s, v.subrange(0, k)), v.subrange(k, v.len() as int)) == put(w, s, v),
        all_narrow(v) && 0 <= k <= v.len() ==> all_narrow(v.subrange(0, k)) && all_narrow(v.subrange(k, v.len() as int))
{
    if 0 <= k <= v.len() {
        let a = v.subrange(0, k); let b = v.subrange(k, v.len() as int);
        assert(a + b =~= v);
        lemma_put_add(w, s, a, b);
        if all_narrow(v) {
            assert forall |i: int| 0 <= i < a.len() implies narrow(#[trigger] a[i]) by { assert(a[i] == v[i]); }
            assert forall |i: int| 0 <= i < b.len() implies narrow(#[trigger] b[i]) by { assert(b[i] == v[k + i]); }
        }
    }
}
pub proof fn lemma_last_width(l: Seq<Seq<char>>) requires l.len() > 0 ensures widths(l).len() == l.len(), widths(l).last() == width_spec(l.last()) { crate::vx_ax::ax_width(l[l.len() - 1]); assert(widths(l)[l.len() - 1] == width_spec(l[l.len() - 1])); }
pub proof fn lemma_short(l: Seq<Seq<char>>)
    requires forall |i: int| 0 <= i < l.len() ==> all_narrow(#[trigger] l[i])
    ensures forall |i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).len() < 0x1000_0000
{ assert forall |i: int| 0 <= i < l.len() implies (#[trigger] l[i]).len() < 0x1000_0000 by { ax_narrow(l[i]); crate::vx_ax::ax_width(l[i]); } }
pub proof fn lemma_put_none(w: int, s: Scr, v: Seq<char>) ensures v.len() == 0 ==> put(w, s, v) == s { }

// ---- lines
pub proof fn lemma_tame_line(v: Seq<char>)
    requires tame_st(v) is Some ensures last_line(v) == v
{
    assert forall |k: int| 0 <= k < v.len() implies v[k] != '\n' by { lemma_tame_at(v, k); }
    lemma_last_line_none(v);
}
proof fn lemma_tame_at(v: Seq<char>, k: int) requires tame_st(v) is Some, 0 <= k < v.len() ensures v[k] != '\n' decreases v.len()
{ if k < v.len() - 1 { lemma_tame_at(v.drop_last(), k); assert(v.drop_last()[k] == v[k]); } }
pub proof fn lemma_lines_plain(s: Seq<char>)
    requires plain_text(s)
    ensures lines_of(s).len() > 0, forall |i: int| 0 <= i < lines_of(s).len() ==> all_narrow(#[trigger] lines_of(s)[i])
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert forall |i: int| 0 <= i < d.len() implies #[trigger] d[i] == '\n' || narrow(d[i]) by { assert(d[i] == s[i]); }
        lemma_lines_plain(d);
        let r = lines_of(d);
        assert(s[s.len() - 1] == '\n' || narrow(s[s.len() - 1]));
        if s.last() != '\n' {
            let y = r.last().push(s.last());
            assert(all_narrow(r[r.len() - 1]));
            assert forall |i: int| 0 <= i < y.len() implies narrow(#[trigger] y[i]) by { if i < r.last().len() { assert(y[i] == r.last()[i]); } }
            assert(lines_of(s) == r.drop_last().push(y));
            assert forall |i: int| 0 <= i < lines_of(s).len() implies all_narrow(#[trigger] lines_of(s)[i]) by { if i < r.len() - 1 { assert(lines_of(s)[i] == r[i]); } }
        } else { assert(lines_of(s) == r.push(Seq::empty())); assert forall |i: int| 0 <= i < lines_of(s).len() implies all_narrow(#[trigger] lines_of(s)[i]) by { if i < r.len() { assert(lines_of(s)[i] == r[i]); } } }
    }
}
/// one more line
pub proof fn lemma_draw_step(w: int, s: Scr, n: int, l: Seq<Seq<char>>, i: int)
    requires 0 <= i < l.len()
    ensures draw(w, s, n, l.subrange(0, i + 1)) == put(w, if i == 0 { s } else { put(w, lf(w, cr(w, draw(w, s, n, l.subrange(0, i)))), spaces(n)) }, l[i])
{
    let a = l.subrange(0, i + 1);
    assert(a.last() == l[i]); assert(a.drop_last() =~= l.subrange(0, i));
    if i == 0 { assert(a[0] == l[0]); }
}
pub open spec fn row_up(w: int, p: int) -> int { (p / w + 1) * w }
proof fn lemma_rows(w: int, p: int)
    requires w >= 1
    ensures p % w == 0 ==> (p - 1) / w * w + w == p, p / w * w + w == row_up(w, p), p / w * w <= p < row_up(w, p), p / w * w == p - p % w, row_up(w, p) % w == 0, 0 <= p % w < w
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(p, w);
    vstd::arithmetic::div_mod::lemma_mod_bound(p, w);
    let q = p / w;
    assert(q * w == w * q) by (nonlinear_arith);
    assert((q + 1) * w == q * w + w) by (nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q + 1, w);
    if p % w == 0 {
        assert((q - 1) * w == q * w - w) by (nonlinear_arith);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(p - 1, w, q - 1, w - 1);
    }
}
/// how far drawn lines reach
pub proof fn lemma_lay(w: int, s: Scr, n: int, l: Seq<Seq<char>>)
    requires w >= 1, n >= 0, l.len() > 0, s == put(w, blank(), s.t), s.t.len() == n, forall |i: int| 0 <= i < l.len() ==> all_narrow(#[trigger] l[i]), forall |i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).len() < 0x1000_0000
    ensures ({ let d = draw(w, s, n, l); let y = lay(w, n, widths(l)); &&& d.p == y.0 &&& y.1 >= 0 &&& d.pend == (y.1 > 0 && d.p % w == 0) &&& d.p >= 0 &&& y.1 == n + l.last().len() })
    decreases l.len()
{
    let m = l.drop_last();
    assert(widths(l).drop_last() =~= widths(m));
    assert(all_narrow(l[l.len() - 1]));
    ax_narrow(l.last());
    assert(widths(l).last() == l.last().len());
    lemma_put_pos(w, blank(), s.t);
    if l.len() == 1 {
        assert(lay(w, n, widths(m)) == (0int, 1int));
        lemma_put_pos(w, s, l[0]);
        vstd::arithmetic::div_mod::lemma_small_mod(0, w as nat);
    } else {
        assert forall |i: int| 0 <= i < m.len() implies all_narrow(#[trigger] m[i]) && m[i].len() < 0x1000_0000 by { assert(m[i] == l[i]); }
        lemma_lay(w, s, n, m);
        let d = draw(w, s, n, m);
        let c = lf(w, cr(w, d));
        lemma_rows(w, d.p);
        lemma_rows(w, d.p - 1);
        lemma_put_pos(w, c, spaces(n));
        lemma_put_pos(w, put(w, c, spaces(n)), l.last());
    }
}
/// the blank screen with the prompt on it
pub proof fn lemma_put_blank(w: int, v: Seq<char>) ensures put(w, blank(), v).t == v decreases v.len()
{
    if v.len() > 0 {
        lemma_put_blank(w, v.drop_last()); lemma_put_pos(w, blank(), v.drop_last());
        let d = v.drop_last();
        assert(pad(d, d.len() as int) == d);
        assert(d.push(v.last()) =~= v);
    }
}
/// the terminal's state in front of line i of l
pub open spec fn line_start(w: int, s: Scr, n: int, l: Seq<Seq<char>>, i: int) -> Scr {
    if i == 0 { s } else if i >= l.len() { draw(w, s, n, l) } else { lf(w, cr(w, draw(w, s, n, l.subrange(0, i)))) }
}
/// up, to the first column, and everything behind it erased
pub proof fn lemma_home(w: int, s: Scr, k: int)
    requires w >= 1, at(s) / w == k - 1, k >= 1
    ensures k > 1 ==> csi_do(w, cr(w, csi_do(w, s, k - 1, 'A').s), 0, 'J') == norm(blank()), k == 1 ==> csi_do(w, cr(w, s), 0, 'J') == norm(blank())
{
    let q = at(s);
    lemma_rows(w, q);
    let u = q - (k - 1) * w;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(q, w);
    assert(q / w * w == (k - 1) * w);
    assert(0 <= u < w);
    vstd::arithmetic::div_mod::lemma_small_mod(u as nat, w as nat);
    vstd::arithmetic::div_mod::lemma_basic_div(u, w);
    assert(u / w == 0);
    assert(u / w * w == 0) by { assert(0 * w == 0); }
}
/// from the end of what is drawn to the cursor
pub proof fn lemma_to_cursor(w: int, s: Scr, total: int, tc: int, d: int)
    requires w >= 1, s.p == total, !s.pend, total >= 0, tc >= 0, d == (total + w) / w - (tc + w) / w, total < 65536 * w, tc < 65536 * w
    ensures -65536 < d < 65536, 1 <= (tc + w) / w <= 65536, tc / w == (tc + w) / w - 1,
        ({
            let u = if d > 0 { csi_do(w, s, d, 'A').s } else if d < 0 { csi_do(w, s, -d, 'B').s } else { s };
            let k = total - tc - d * w;
            let e = if k > 0 { csi_do(w, u, k, 'D').s } else if k < 0 { csi_do(w, u, -k, 'C').s } else { u };
            -w < k < w && e.p == tc && !e.pend && e.t == s.t
        })
{
    lemma_rows(w, total); lemma_rows(w, tc);
    vstd::arithmetic::div_mod::lemma_div_plus_one(total, w); vstd::arithmetic::div_mod::lemma_div_plus_one(tc, w);
    let a = total / w; let b = tc / w;
    assert(d == a - b);
    assert(d * w == a * w - b * w) by (nonlinear_arith) requires d == a - b;
    assert(0 <= a < 65536) by (nonlinear_arith) requires total >= 0, total < 65536 * w, w >= 1, a * w <= total, total < a * w + w;
    assert(0 <= b < 65536) by (nonlinear_arith) requires tc >= 0, tc < 65536 * w, w >= 1, b * w <= tc, tc < b * w + w;
    let m = total - d * w;
    assert(m == b * w + total % w);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(m, w, b, total % w);
    assert(tc == b * w + tc % w);
    assert((-d) * w == -(d * w)) by (nonlinear_arith);
}
/// d rows up (or -d down), k columns to the left (or -k to the right)
pub open spec fn up_down(w: int, s: Scr, d: int) -> Scr { if d > 0 { csi_do(w, s, d, 'A').s } else if d < 0 { csi_do(w, s, -d, 'B').s } else { s } }
pub open spec fn left_right(w: int, s: Scr, k: int) -> Scr { if k > 0 { csi_do(w, s, k, 'D').s } else if k < 0 { csi_do(w, s, -k, 'C').s } else { s } }
pub proof fn lemma_move(w: int, s: Scr, d: int)
    ensures d > 0 ==> run(w, norm(s), csi(d, 'A')) == norm(up_down(w, s, d)), d < 0 ==> run(w, norm(s), csi(-d, 'B')) == norm(up_down(w, s, d)), d == 0 ==> up_down(w, s, d) == s,
        d > 0 ==> run(w, norm(s), csi(d, 'D')) == norm(left_right(w, s, d)), d < 0 ==> run(w, norm(s), csi(-d, 'C')) == norm(left_right(w, s, d)), d == 0 ==> left_right(w, s, d) == s,
{
    if d > 0 { lemma_csi(w, norm(s), d, 'A'); lemma_csi(w, norm(s), d, 'D'); } else if d < 0 { lemma_csi(w, norm(s), -d, 'B'); lemma_csi(w, norm(s), -d, 'C'); }
}
pub open spec fn flat(s: Scr) -> Scr { Scr { p: s.p, pend: false, t: s.t } }
/// everything is drawn and the cursor in place
pub proof fn lemma_done(w: int, s: Scr, prompt: Seq<char>, text: Seq<char>, cursor: int, row: int, d: int, out: Seq<char>)
    requires fits(w, prompt, text, cursor),
        ({
            let full = shown(w, prompt, text); let tc = shown(w, prompt, text.subrange(0, cursor)).p;
            &&& w >= 1 && full.p >= 0 && tc >= 0 && row == (tc + w) / w && d == (full.p + w) / w - row
            &&& run(w, norm(s), out) == norm(left_right(w, up_down(w, flat(full), d), full.p - tc - d * w))
        })
    ensures drawn(w, s, prompt, text, cursor, row, out)
{
    let full = shown(w, prompt, text);
    lemma_to_cursor(w, flat(full), full.p, shown(w, prompt, text.subrange(0, cursor)).p, d);
}
/// the numbers of a cursor movement fit
pub proof fn lemma_small(w: int, prompt: Seq<char>, text: Seq<char>, cursor: int, d: int)
    requires fits(w, prompt, text, cursor),
        ({
            let full = shown(w, prompt, text); let tc = shown(w, prompt, text.subrange(0, cursor)).p;
            w >= 1 && full.p >= 0 && tc >= 0 && d == (full.p + w) / w - (tc + w) / w
        })
    ensures -65536 < d < 65536, ({ let full = shown(w, prompt, text); let tc = shown(w, prompt, text.subrange(0, cursor)).p; -w < full.p - tc - d * w < w })
{
    let full = shown(w, prompt, text);
    lemma_to_cursor(w, flat(full), full.p, shown(w, prompt, text.subrange(0, cursor)).p, d);
}
//@ epilogue
//@ replace .map_err(io::Error::other) =>> .vx_other()
//@ replace &$s.context.history()[i] =>> $s.context.history().index(i)
//@ replace Editor<C: ?Sized> =>> Editor<C>
//@ fn Editor::display_impl [C24]
//@ rename vx_display_impl
//@ fnattr #[verifier::spinoff_prover]
//@ fnattr #[verifier::rlimit(40)]
//@ replace .as_bytes() =>> .vx_as_bytes()
//@ replace line.is_char_boundary(buf_num_remaining_bytes) =>> line.vx_is_char_boundary(buf_num_remaining_bytes)
//@ replace " ".repeat(prompt_width) =>> " ".vx_repeat(prompt_width)
//@ replace f(start) =>> f.vx_call(start)
//@ replace f(&line) =>> f.vx_call(line.as_str())
//@ replace start.to_owned() =>> vx_str_to_string(start)
//@ replace line.len() =>> line.vx_byte_len()
//@ spec
    requires old(self).inv0()
    ensures final(self).but_cursor(old(self)), final(self).closure == old(self).closure,
        final(self).cursor == clampc(final(self).no_eol, old(self).cursor as int, final(self).text().len() as int) || r is Err,
        r is Ok && old(self).drawable(show_autosuggest) && fits(screen_width(), final(self).prompt.shown(), final(self).to_show(show_autosuggest), final(self).cursor as int) && tracks(screen_width(), old(self).term_cursor_line as int, screen(old(self).context.term())) ==>
            exists |out: Seq<char>| final(self).context.term().sent() == old(self).context.term().sent() + utf8(out) && #[trigger] drawn(screen_width(), screen(old(self).context.term()), final(self).prompt.shown(), final(self).to_show(show_autosuggest), final(self).cursor as int, final(self).term_cursor_line as int, out), // [C24]
//@ at start
hide(run); hide(put); hide(visible); hide(tame_st); hide(digits); hide(split_spec); hide(draw); hide(lay); hide(csi_do); hide(lf); hide(cr); hide(widths); hide(fits); hide(tracks); hide(drawn); hide(shown); hide(row_up); hide(up_down); hide(left_right); hide(flat); hide(csi);
broadcast use {lemma_p_add, lemma_p_tame, lemma_p_plain, lemma_p_crlf, lemma_p_colour};
let ghost w = screen_width();
let ghost y0 = self.context.term().sent();
let ghost x0 = norm(screen(self.context.term()));
let ghost ok = self.drawable(show_autosuggest) && tracks(w, self.term_cursor_line as int, x0.s);
let ghost vis = visible(self.prompt.shown());
let ghost n = vis.len() as int;
let ghost s0 = put(w, blank(), vis);
let ghost text = self.to_show(show_autosuggest);
let ghost l = lines_of(text);
proof {
    reveal_strlit("\r\n"); assert("\r\n"@ =~= crlf_t());
    reveal_strlit("\r"); assert("\r"@ =~= seq!['\r']);
    reveal_strlit(" "); assert(" "@ =~= seq![' ']);
    reveal_strlit("\x1B[?1000l\x1B[?1l"); assert("\x1B[?1000l\x1B[?1l"@ =~= mode_t());
    if ok { lemma_lines_plain(text); lemma_tame_line(self.prompt.shown()); lemma_run_tame(w, blank(), self.prompt.shown()); ax_narrow(vis); lemma_put_blank(w, vis); }
}
//@ at before let buf
proof { crate::vx_ax::ax_width(util::visible(util::last_line(prompt@))); if ok { assert(prompt_width == n); } }
//@ at before let new_total_width
proof {
    lemma_widths_small(buf@);
    lemma_widths_small(buf@.subrange(0, self.cursor as int));
    if self.autosuggestion is Some {
        lemma_widths_small(self.autosuggestion->0@);
        if self.cursor < self.autosuggestion->0@.len() { lemma_widths_small(self.autosuggestion->0@.subrange(0, self.cursor as int)); }
    }
}
let ghost here = text.subrange(0, self.cursor as int);
let ghost lh = lines_of(here);
proof {
    if ok {
        assert(buf_widths@ == widths(l));
        assert(self.cursor <= buf@.len());
        if show_autosuggest && self.autosuggestion is Some {
            if self.cursor >= self.autosuggestion->0@.len() { assert(here =~= buf@.subrange(0, self.cursor as int)); }
        }
        assert(buf_widths_to_cursor@ == widths(lh));
        assert(plain_text(here)) by { assert forall |i: int| 0 <= i < here.len() implies #[trigger] here[i] == '\n' || narrow(here[i]) by { assert(here[i] == text[i]); } }
        lemma_lines_plain(here);
    }
}
//@ at after let new_num_lines
proof {
    lemma_screen_lines(new_total_width as int, terminal_width as int);
    lemma_screen_lines(new_total_width_to_cursor as int, terminal_width as int);
    if ok {
        lemma_short(l); lemma_short(lh);
        lemma_lay(w, s0, n, l);
        lemma_lay(w, s0, n, lh);
    }
}
let ghost vx_tw = terminal_width as int;
let ghost full = shown(w, self.prompt.shown(), text);
let ghost tc = shown(w, self.prompt.shown(), here).p;
let ghost fit = fits(w, self.prompt.shown(), text, self.cursor as int);
proof { if ok { reveal(shown); assert(full == draw(w, s0, n, l)); assert(full.p == new_total_width); assert(tc == new_total_width_to_cursor); } }
//@ at before let completion_lines
proof { if ok {
    reveal(tracks);
    lemma_home(w, x0.s, self.term_cursor_line as int);
    lemma_mode(w, x0);
    let k = self.term_cursor_line - 1;
    let a = mode_t();
    let b = if k > 0 { a + csi(k as int, 'A') } else { a };
    let c = b + seq!['\r'];
    let x1 = run(w, x0, b);
    assert(x1 == (if k > 0 { csi_do(w, x0.s, k as int, 'A') } else { x0 })) by { if k > 0 { lemma_csi(w, x0, k as int, 'A'); } }
    assert(x1.ps == Ps::Norm) by { reveal(csi_do); }
    lemma_p_cr(w, x1);
    lemma_clear(w, run(w, x0, c));
    assert(out_buf@ =~= c + seq!['\x1B', '[', 'J']);
    assert(run(w, x0, out_buf@) == norm(blank()));
} }
//@ at before let lines
proof { if ok { assert(run(w, x0, out_buf@) == norm(s0)); } }
//@ at before loop 1
let ghost vx_ll = lines_len as int;
proof { if ok { assert(strs(lines@) == l); } }
//@ loop 1
    invariant vx_it1@.len() <= lines_len, lines_len <= usize::MAX,
        self.but_cursor(old(self)), self.inv0(), self.tf() == old(self).tf(), self.closure == old(self).closure, self.context == old(self).context,
        forall |k: int| 0 <= k < vx_it1@.len() ==> (#[trigger] vx_it1@[k]).0 == lines_len - vx_it1@.len() + k,
        ok ==> lines_len == l.len() && (forall |k: int| 0 <= k < vx_it1@.len() ==> (#[trigger] vx_it1@[k]).1@ == l[lines_len - vx_it1@.len() + k]),
        ok ==> w >= 1 && l.len() > 0 && prompt_width == n && self.colours_ok() && !self.searching(),
        ok ==> forall |k: int| 0 <= k < l.len() ==> all_narrow(#[trigger] l[k]),
        ok ==> run(w, x0, out_buf@) == norm(line_start(w, s0, n, l, lines_len - vx_it1@.len())),
    ensures vx_it1@.len() == 0,
    decreases vx_it1@.len()
//@ loop 2
    invariant at_byte(line@, 0, 0),
    decreases buf_num_remaining_bytes
//@ at after loop 2
proof { assert(line.bdv() == line@); assert(line.ssv() == line@); }
let ghost vx_k = choose |k: int| at_byte(line@, buf_num_remaining_bytes as int, k);
proof { lemma_split_line(w, pre, line@, vx_k); }
//@ at loop 2 start
proof { assert(!(exists |i: int| #[trigger] at_byte(line.bdv(), buf_num_remaining_bytes as int, i)));  assert(line.bdv() == line@);
  if buf_num_remaining_bytes == 0 { assert(at_byte(line@, buf_num_remaining_bytes as int, 0)); } }
//@ at loop 1 start
broadcast use {lemma_p_add, lemma_p_tame, lemma_p_plain, lemma_p_crlf, lemma_p_colour};
let ghost pre = if i == 0 { s0 } else { put(w, lf(w, cr(w, draw(w, s0, n, l.subrange(0, i as int)))), spaces(n)) };
let ghost post = put(w, pre, line@);
let ghost o0 = out_buf@;
proof { ax_utf8_empty(line@); assert(at_byte(line@, 0, 0));
    reveal_strlit("\r\n"); assert("\r\n"@ =~= crlf_t());
    reveal_strlit(" "); assert(" "@ =~= seq![' ']); assert(" ".rpt() == seq![' ']);
    if ok { lemma_draw_step(w, s0, n, l, i as int); lemma_spaces(n); assert(0 <= i < l.len()); assert(line@ == l[i as int]); assert(all_narrow(l[i as int])); assert(l.subrange(0, l.len() as int) =~= l); } }
//@ at before if#7
proof { if ok {
    assert(i == 0 ==> out_buf@ == o0);
    assert(i > 0 ==> out_buf@ == o0 + spaces(n));
    assert(run(w, x0, o0) == norm(line_start(w, s0, n, l, i as int)));
    assert(run(w, x0, out_buf@) == norm(pre));
} }
let ghost o1 = out_buf@;
//@ at after if#7
proof { if ok { assert(run(w, x0, out_buf@) == norm(post)); } }
//@ at after loop 1
proof { if ok { assert(run(w, x0, out_buf@) == norm(full)); } }
//@ at before let last_width
proof { if ok { assert(run(w, x0, out_buf@) == norm(full)); ax_narrow(l.last()); lemma_last_width(l); lemma_rows(w, full.p); } }
let ghost e = flat(full);
//@ at before assign term_cursor_line#1
proof { if ok {
    assert(run(w, x0, out_buf@) == norm(e)) by { reveal(lf); reveal(cr); reveal(flat); }
} }
//@ at after let cursor_line_diff
proof {
    lemma_line_diff(new_total_width as int, new_total_width_to_cursor as int, vx_tw, cursor_line_diff as int, (terminal_width as isize) as int);
}
let ghost d = cursor_line_diff as int;
let ghost u = up_down(w, e, d);
proof { if ok && fit { lemma_move(w, e, d); lemma_small(w, self.prompt.shown(), text, self.cursor as int, d); } }
//@ at before let cursor_col_diff
proof { if ok && fit { assert(run(w, x0, out_buf@) == norm(u)); } }
//@ at after let cursor_col_diff
let ghost k = full.p - tc - d * w;
let ghost z = left_right(w, u, k);
proof { if ok && fit { assert(cursor_col_diff == k); lemma_move(w, u, k); } }
//@ at before let out
proof { if ok && fit {
    assert(run(w, x0, out_buf@) == norm(z));
    lemma_done(w, x0.s, self.prompt.shown(), text, self.cursor as int, self.term_cursor_line as int, d, out_buf@);
} }
//@ at tail
proof { if ok && fit && vx_r is Ok {
    assert(out_buf.tx() == out_buf@);
    assert(self.context.term().sent() == y0 + utf8(out_buf@));
    assert(drawn(w, x0.s, self.prompt.shown(), self.to_show(show_autosuggest), self.cursor as int, self.term_cursor_line as int, out_buf@));
} }
//@ fn Editor::display_impl/calc_width [C24]
//@ spec
    requires prompt_width < 0x2000_0000, 0 < terminal_width <= 65535, buf_widths@.len() < 0x1000_0000, forall |i: int| 0 <= i < buf_widths@.len() ==> #[trigger] buf_widths@[i] < 0x1000_0000
    ensures r == lay(terminal_width as int, prompt_width as int, buf_widths@).0, r < 0x0400_0000_0000_0000, // [C24]
//@ loop 1
    invariant prompt_width < 0x2000_0000, 0 < terminal_width <= 65535, buf_widths@.len() < 0x1000_0000, forall |i: int| 0 <= i < buf_widths@.len() ==> #[trigger] buf_widths@[i] < 0x1000_0000,
        vx_it1@ == seq_refs(buf_widths@).subrange(buf_widths@.len() - vx_it1@.len(), buf_widths@.len() as int), vx_it1@.len() <= buf_widths@.len(),
        total <= (buf_widths@.len() - vx_it1@.len()) * 0x3001_0000,
        (total as int, drawn as int) == lay(terminal_width as int, prompt_width as int, buf_widths@.subrange(0, buf_widths@.len() - vx_it1@.len())),
    ensures vx_it1@.len() == 0,
    decreases vx_it1@.len()
//@ at loop 1 start
proof {
    let n = buf_widths@.len() - vx_it1@.len() - 1;
    assert(*line == buf_widths@[n]);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(total as int, terminal_width as int);
    let q = total as int / terminal_width as int;
    assert((q + 1) * terminal_width == terminal_width * q + terminal_width) by (nonlinear_arith);
    assert(buf_widths@.subrange(0, n + 1).drop_last() =~= buf_widths@.subrange(0, n));
    assert(buf_widths@.subrange(0, n + 1).last() == buf_widths@[n]);
}
//@ at tail
proof { assert(buf_widths@.subrange(0, buf_widths@.len() as int) =~= buf_widths@); }
//@ fn Editor::display [C24]
//@ rename vx_display
//@ replace self.display_impl(true) =>> self.vx_display_impl(true)
//@ at after assign autosuggestion#1
proof {
    assert(self.text().subrange(0, self.text().len() as int) =~= self.text());
    assert(self.sugg_prefix());
}
//@ spec
    requires old(self).inv0()
    ensures final(self).closure == old(self).closure || old(self).searching(),
        r is Ok && !old(self).searching() && old(self).show_completions_hint is None && old(self).colours_ok() && idle(old(self).context.term()) && tame(old(self).prompt.shown()) && plain_text(final(self).to_show(true))
            && fits(screen_width(), final(self).prompt.shown(), final(self).to_show(true), final(self).cursor as int) && tracks(screen_width(), old(self).term_cursor_line as int, screen(old(self).context.term())) ==>
            shows(final(self).context.term(), final(self).prompt.shown(), final(self).to_show(true), final(self).cursor as int, final(self).term_cursor_line as int), // [C24]
//@ at tail
proof {
    if vx_r is Ok && !old(self).searching() && old(self).show_completions_hint is None && old(self).colours_ok() && idle(old(self).context.term()) && tame(old(self).prompt.shown()) && plain_text(self.to_show(true))
        && fits(screen_width(), self.prompt.shown(), self.to_show(true), self.cursor as int) && tracks(screen_width(), old(self).term_cursor_line as int, screen(old(self).context.term()))
    { lemma_shows(old(self).context.term(), self.context.term(), self.prompt.shown(), self.to_show(true), self.cursor as int, self.term_cursor_line as int); }
}
//@ fn Editor::clear [C24]
//@ rename vx_clear
//@ replace self.display() =>> self.vx_display()
//@ replace .as_bytes() =>> .vx_as_bytes()
//@ at before assign term_cursor_line#1
proof {
    assert(out_buf.tx() == out_buf@);
    assert(out_buf@ =~= seq!['\x1B', '[', '2', 'J'] + (csi(1, ';') + digits(1)).push('H'));
    lemma_home_all(screen_width(), screen(old(self).context.term()));
    assert(0int / screen_width() == 0);
    if idle(old(self).context.term()) {
        ax_screen(old(self).context.term(), self.context.term(), out_buf@);
        assert(screen(self.context.term()) == blank());
    }
}
//@ spec
    requires old(self).wf()
    ensures
        r is Ok && old(self).show_completions_hint is None && old(self).colours_ok() && idle(old(self).context.term()) && tame(old(self).prompt.shown()) && plain_text(final(self).to_show(true))
            && fits(screen_width(), final(self).prompt.shown(), final(self).to_show(true), final(self).cursor as int) ==>
            shows(final(self).context.term(), final(self).prompt.shown(), final(self).to_show(true), final(self).cursor as int, final(self).term_cursor_line as int), // [C24]
//@ fn Editor::handle_newline [C24]
//@ rename vx_handle_newline
//@ replace self.display_impl(false) =>> self.vx_display_impl(false)
//@ replace b"\r\n" =>> "\r\n".vx_as_bytes()
//@ at before assign show_completions_hint#2
proof {
    reveal_strlit("\r\n"); assert("\r\n"@ =~= crlf_t());
    if !old(self).searching() && old(self).show_completions_hint is None && old(self).colours_ok() && idle(old(self).context.term()) && tame(old(self).prompt.shown()) && plain_text(self.text())
        && fits(screen_width(), self.prompt.shown(), self.text(), self.cursor as int) && tracks(screen_width(), old(self).term_cursor_line as int, screen(old(self).context.term()))
    {
        assert(self.to_show(false) == self.text());
        lemma_p_crlf(screen_width(), norm(vx_s));
        ax_screen(vx_t, self.context.term(), crlf_t());
    }
}
//@ at before call write_all#1
let ghost vx_t = self.context.term();
let ghost vx_s = screen(vx_t);
proof {
    if !old(self).searching() && old(self).show_completions_hint is None && old(self).colours_ok() && idle(old(self).context.term()) && tame(old(self).prompt.shown()) && plain_text(self.text())
        && fits(screen_width(), self.prompt.shown(), self.text(), self.cursor as int) && tracks(screen_width(), old(self).term_cursor_line as int, screen(old(self).context.term()))
    { assert(self.to_show(false) == self.text());
      lemma_shows(old(self).context.term(), vx_t, self.prompt.shown(), self.text(), self.cursor as int, self.term_cursor_line as int); }
}
//@ spec
    requires old(self).wf()
    ensures
        r is Ok && r->Ok_0 && !old(self).searching() && old(self).show_completions_hint is None && old(self).colours_ok() && idle(old(self).context.term()) && tame(old(self).prompt.shown()) && plain_text(final(self).text())
            && fits(screen_width(), final(self).prompt.shown(), final(self).text(), final(self).cursor as int) && tracks(screen_width(), old(self).term_cursor_line as int, screen(old(self).context.term())) ==>
            screen(final(self).context.term()).t == shown(screen_width(), final(self).prompt.shown(), final(self).text()).t, // [C24]
//@ end
