//@ uses
use vstd::prelude::*;
use crate::vx::*;
use crate::vxcmp as cmp;
use crate::vxio as io;
use crate::vxio::{ErrorKind, io_rel, VxOther};
use crate::vxterm as termion;
use crate::vxterm::{clear, color, cursor, strip};
use crate::vxterm::color::VxColor;
use crate::util;
use crate::buffer::*;
use crate::history::*;
use crate::context::*;
use crate::complete::*;
//@ prelude
broadcast use {crate::vx::lemma_derefs_refs, crate::vx::lemma_derefs_sub, crate::vx_ax::ax_vec_char_len, crate::vx_ax::ax_deque_len, crate::vx_ax::ax_vec_usize_len};

/// the colouring closure (a pure function of the text, assumed)
pub struct ColorClosure { x: u8 }
impl ColorClosure {
    pub uninterp spec fn out(&self, s: Seq<char>) -> Seq<char>;
    #[verifier::external_body]
    pub fn vx_call(&self, s: &str) -> (r: String) ensures r@ == self.out(s@) { unimplemented!() }
}
pub fn vx_take_buf(b: &mut Buffer) -> (r: String)
    ensures r@ == old(b)@, final(b)@.len() == 0, final(b).ul().len() == 0, final(b).rl().len() == 0, final(b).wf()
{ let r = vx_buf_clone(b).into(); *b = Buffer::default(); r }
pub fn vx_buf_clone(b: &Buffer) -> (r: Buffer) ensures r@ == b@ { b.clone() }
/// what a caller may pass as initial buffer
pub trait VxIntoBuffer: Sized { spec fn ib(&self) -> Seq<char>; spec fn ib_ok(&self) -> bool; fn vx_ib(self) -> (r: Buffer) requires self.ib_ok() ensures r.wf(), r@ == self.ib(); }
impl VxIntoBuffer for Buffer { open spec fn ib(&self) -> Seq<char> { self@ } open spec fn ib_ok(&self) -> bool { self.wf() } fn vx_ib(self) -> (r: Buffer) { self } }
impl VxIntoBuffer for String { open spec fn ib(&self) -> Seq<char> { self@ } open spec fn ib_ok(&self) -> bool { true } fn vx_ib(self) -> (r: Buffer) { Buffer::from(self) } }

// ---------------------------------------------------------------- words and the cursor
/// where position c lies relative to ordered words
pub open spec fn cpos_rel(c: int, ws: Words, r: CursorPosition) -> bool {
    match r {
        CursorPosition::OnWordLeftEdge(i) => i < ws.len() && ws[i as int].0 == c && (i > 0 ==> ws[i - 1].1 < c),
        CursorPosition::OnWordRightEdge(i) => i < ws.len() && ws[i as int].1 == c,
        CursorPosition::InWord(i) => i < ws.len() && ws[i as int].0 < c < ws[i as int].1,
        CursorPosition::InSpace(None, None) => ws.len() == 0,
        CursorPosition::InSpace(None, Some(j)) => j == 0 && ws.len() > 0 && c < ws[0].0,
        CursorPosition::InSpace(Some(i), None) => i + 1 == ws.len() && ws[i as int].1 < c,
        CursorPosition::InSpace(Some(i), Some(j)) => j == i + 1 && j < ws.len() && ws[i as int].1 < c < ws[j as int].0,
    }
}
pub open spec fn words_in_order(w: Words) -> bool { exists |n: int| words_ok(w, n) }
/// each position has exactly one classification
pub proof fn lemma_cpos_unique(c: int, ws: Words, n: int, a: CursorPosition, b: CursorPosition)
    requires words_ok(ws, n), cpos_rel(c, ws, a), cpos_rel(c, ws, b)
    ensures a == b // [C15]
{
    lemma_cpos_index(c, ws, n, a); lemma_cpos_index(c, ws, n, b);
    let x = cpos_key(ws, a); let y = cpos_key(ws, b);
    if x.0 < y.0 { assert(ws[x.0].1 <= ws[y.0].0 || x.0 < 0); } else if y.0 < x.0 { assert(ws[y.0].1 <= ws[x.0].0 || y.0 < 0); }
    if x.0 >= 0 && y.0 >= 0 && x.0 != y.0 {
        if x.0 < y.0 { assert(ws[x.0].0 < ws[x.0].1); if x.0 + 1 < y.0 { assert(ws[x.0 + 1].1 <= ws[y.0].0); assert(ws[x.0].1 <= ws[x.0 + 1].0); assert(ws[x.0 + 1].0 < ws[x.0 + 1].1); } }
        else { assert(ws[y.0].0 < ws[y.0].1); if y.0 + 1 < x.0 { assert(ws[y.0 + 1].1 <= ws[x.0].0); assert(ws[y.0].1 <= ws[y.0 + 1].0); assert(ws[y.0 + 1].0 < ws[y.0 + 1].1); } }
    }
}
/// (the last word that starts before or at c, -1 if none) and which relation
pub open spec fn cpos_key(ws: Words, r: CursorPosition) -> (int, int) {
    match r {
        CursorPosition::OnWordLeftEdge(i) => (i as int, 0),
        CursorPosition::InWord(i) => (i as int, 1),
        CursorPosition::OnWordRightEdge(i) => (i as int, 2),
        CursorPosition::InSpace(Some(i), _) => (i as int, 3),
        CursorPosition::InSpace(None, _) => (-1, 3),
    }
}
pub proof fn lemma_cpos_index(c: int, ws: Words, n: int, a: CursorPosition)
    requires words_ok(ws, n), cpos_rel(c, ws, a)
    ensures -1 <= cpos_key(ws, a).0 < ws.len(),
        cpos_key(ws, a).0 >= 0 ==> ws[cpos_key(ws, a).0].0 <= c,
{
    match a {
        CursorPosition::OnWordRightEdge(i) => { assert(ws[i as int].0 < ws[i as int].1); }
        CursorPosition::InSpace(Some(i), _) => { assert(ws[i as int].0 < ws[i as int].1); }
        _ => {}
    }
}
/// the word the deletion of a word before the cursor starts with
pub open spec fn word_before(ws: Words, pos: CursorPosition, ign: bool) -> Option<(usize, usize)> {
    match pos {
        CursorPosition::InWord(i) => Some(ws[i as int]),
        CursorPosition::OnWordRightEdge(i) => Some(ws[i as int]),
        CursorPosition::InSpace(Some(i), _) => if ign { Some(ws[i as int]) } else { None },
        CursorPosition::InSpace(None, _) => None,
        CursorPosition::OnWordLeftEdge(i) => if ign && i > 0 { Some(ws[i - 1]) } else { None },
    }
}
pub open spec fn cpos(ws: Words, c: int) -> CursorPosition { choose |r: CursorPosition| cpos_rel(c, ws, r) }
pub proof fn lemma_cpos_is(ws: Words, n: int, c: int, r: CursorPosition)
    requires words_ok(ws, n), cpos_rel(c, ws, r) ensures cpos(ws, c) == r
{ lemma_cpos_unique(c, ws, n, cpos(ws, c), r); }
/// a word before the cursor starts before it
pub proof fn lemma_word_before(ws: Words, n: int, c: int, pos: CursorPosition, ign: bool)
    requires words_ok(ws, n), cpos_rel(c, ws, pos)
    ensures word_before(ws, pos, ign) is Some ==> (word_before(ws, pos, ign)->0).0 < c
{
    lemma_cpos_index(c, ws, n, pos);
    match pos {
        CursorPosition::OnWordRightEdge(i) => { assert(ws[i as int].0 < ws[i as int].1); }
        CursorPosition::InSpace(Some(i), _) => { assert(ws[i as int].0 < ws[i as int].1); }
        CursorPosition::OnWordLeftEdge(i) => { if i > 0 { assert(ws[i - 1].0 < ws[i - 1].1); } }
        _ => {}
    }
}

pub proof fn lemma_word_before2(ws: Words, n: int, c: int, pos: CursorPosition, ign: bool)
    requires words_ok(ws, n), cpos_rel(c, ws, pos)
    ensures word_before(ws, pos, ign) is Some ==> { let w = word_before(ws, pos, ign)->0; w.0 < c && w.0 < w.1 <= n && (!ign ==> c <= w.1) }
{
    lemma_word_before(ws, n, c, pos, ign);
    lemma_cpos_index(c, ws, n, pos);
    match pos {
        CursorPosition::OnWordLeftEdge(i) => { if i > 0 { assert(ws[i - 1].0 < ws[i - 1].1); } }
        CursorPosition::OnWordRightEdge(i) => { assert(ws[i as int].0 < ws[i as int].1); }
        CursorPosition::InSpace(Some(i), _) => { assert(ws[i as int].0 < ws[i as int].1); }
        _ => {}
    }
}
/// a longer string that starts with w
pub proof fn lemma_prefix_bytes(w: Seq<char>, s: Seq<char>)
    requires is_prefix(w, s)
    ensures (utf8(s).len() > utf8(w).len()) == (s.len() > w.len())
{
    lemma_boff_mono(s, w.len() as int, s.len() as int);
    assert(s.subrange(0, s.len() as int) =~= s);
}

pub proof fn lemma_widths_small(s: Seq<char>)
    ensures widths(split_spec(s, is_c('\n'))).len() < 0x1000_0000,
        forall |i: int| 0 <= i < widths(split_spec(s, is_c('\n'))).len() ==> #[trigger] widths(split_spec(s, is_c('\n')))[i] < 0x1000_0000,
{
    crate::vx_ax::ax_lines(s, '\n');
    let w = split_spec(s, is_c('\n'));
    assert forall |i: int| 0 <= i < widths(w).len() implies #[trigger] widths(w)[i] < 0x1000_0000 by { crate::vx_ax::ax_width(w[i]); }
}
/// the number of lines taken by `a` columns
/// both ways of writing the row behind p
proof fn lemma_next_row(w: int, p: int) requires w >= 1 ensures (p + w) / w == p / w + 1
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(p, w);
    vstd::arithmetic::div_mod::lemma_mod_bound(p, w);
    let q = p / w;
    assert(p + w == (q + 1) * w + p % w) by (nonlinear_arith) requires p == w * q + p % w;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(p + w, w, q + 1, p % w);
}
pub proof fn lemma_screen_lines(a: int, t: int)
    requires 0 <= a, 1 <= t
    ensures 1 <= (a + t) / t <= a + 1, t <= ((a + t) / t) * t <= a + t, (a + t) / t == a / t + 1
{
    lemma_next_row(t, a);
    let q = (a + t) / t;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a + t, t);
    vstd::arithmetic::div_mod::lemma_div_is_ordered(t, a + t, t);
    vstd::arithmetic::div_mod::lemma_div_by_self(t);
    assert(q * t == t * q) by (nonlinear_arith);
    assert(q >= 1);
    assert(q * t <= a + t);
    assert(q <= a + 1) by (nonlinear_arith) requires q * t <= a + t, t >= 1, q >= 1, a >= 0;
    assert(t <= q * t) by (nonlinear_arith) requires q >= 1, t >= 1;
}
pub proof fn lemma_line_diff(a: int, b: int, t: int, d: int, u: int)
    requires 0 <= a < 0x0400_0000_0000_0000, 0 <= b < 0x0400_0000_0000_0000, 1 <= t <= 65535, u == t, d == (a + t) / t - (b + t) / t
    ensures -0x0500_0000_0000_0000 < d * u < 0x0500_0000_0000_0000, -0x0500_0000_0000_0000 < d < 0x0500_0000_0000_0000
{
    lemma_screen_lines(a, t); lemma_screen_lines(b, t);
    let x = (a + t) / t; let y = (b + t) / t;
    assert((x - y) * t == x * t - y * t) by (nonlinear_arith);
}
pub proof fn lemma_subset(t: Seq<Seq<char>>, q: Seq<char>)
    requires t.len() <= usize::MAX
    ensures forall |i: int| 0 <= i < subset_of(t, q).len() ==> (#[trigger] subset_of(t, q)[i]) < t.len()
{
    lemma_matching(t, p_inner(q)); lemma_matching(t, p_starts(q));
}

// ---------------------------------------------------------------- completion lists
pub open spec fn lex_le(a: Seq<char>, b: Seq<char>) -> bool decreases a.len() {
    a.len() == 0 || (b.len() > 0 && ((a[0] as u32) < (b[0] as u32) || (a[0] == b[0] && lex_le(a.drop_first(), b.drop_first()))))
}
pub proof fn lemma_lex_antisym(a: Seq<char>, b: Seq<char>) requires lex_le(a, b), lex_le(b, a) ensures a == b decreases a.len()
{
    if a.len() == 0 || b.len() == 0 { assert(a =~= b); } else {
        lemma_lex_antisym(a.drop_first(), b.drop_first());
        assert(a =~= seq![a[0]] + a.drop_first()); assert(b =~= seq![b[0]] + b.drop_first());
    }
}
pub open spec fn lex_sorted(s: Seq<Seq<char>>) -> bool { forall |i: int, j: int| 0 <= i < j < s.len() ==> lex_le(#[trigger] s[i], #[trigger] s[j]) }
pub open spec fn same_elems(a: Seq<Seq<char>>, b: Seq<Seq<char>>) -> bool { forall |x: Seq<char>| #[trigger] a.contains(x) <==> b.contains(x) }
/// the list offered for candidates: the same entries, each once, in order
pub open spec fn is_menu(cs: Seq<Seq<char>>, cand: Seq<Seq<char>>) -> bool {
    lex_sorted(cs) && (forall |i: int, j: int| 0 <= i < j < cs.len() ==> #[trigger] cs[i] != #[trigger] cs[j]) && same_elems(cs, cand)
}
/// equal neighbours removed
pub open spec fn dedup_of(s: Seq<Seq<char>>) -> Seq<Seq<char>> decreases s.len() {
    if s.len() <= 1 { s } else if s.last() == s[s.len() - 2] { dedup_of(s.drop_last()) } else { dedup_of(s.drop_last()).push(s.last()) }
}
pub proof fn lemma_dedup(s: Seq<Seq<char>>)
    requires lex_sorted(s)
    ensures is_menu(dedup_of(s), s), s.len() > 0 ==> dedup_of(s).len() > 0 && dedup_of(s).last() == s.last()
    decreases s.len()
{
    if s.len() > 1 {
        let d = s.drop_last(); let p = dedup_of(d); let r = dedup_of(s);
        lemma_dedup(d);
        assert(d.last() == s[s.len() - 2]);
        assert forall |x: Seq<char>| #[trigger] r.contains(x) <==> s.contains(x) by {
            if s.contains(x) { let i = choose |i: int| 0 <= i < s.len() && s[i] == x; if i < d.len() { assert(d[i] == x); assert(d.contains(x)); assert(p.contains(x)); let k = choose |k: int| 0 <= k < p.len() && p[k] == x; assert(r[k] == x); }
                else { if s.last() == s[s.len() - 2] { assert(p[p.len() - 1] == x); assert(p.contains(x)); } else { assert(r[r.len() - 1] == x); } } }
            if r.contains(x) { let k = choose |k: int| 0 <= k < r.len() && r[k] == x; if k < p.len() { assert(p[k] == x); assert(p.contains(x)); assert(d.contains(x)); let i = choose |i: int| 0 <= i < d.len() && d[i] == x; assert(s[i] == x); } else { assert(s[s.len() - 1] == x); } }
        }
        if s.last() != s[s.len() - 2] {
            assert forall |i: int, j: int| 0 <= i < j < r.len() implies lex_le(#[trigger] r[i], #[trigger] r[j]) && r[i] != r[j] by {
                if j == r.len() - 1 {
                    assert(p[i] == r[i]); assert(p.contains(p[i])); assert(d.contains(r[i]));
                    let k = choose |k: int| 0 <= k < d.len() && d[k] == r[i];
                    assert(s[k] == r[i]); assert(lex_le(s[k], s[s.len() - 1]));
                    if r[i] == s.last() { // then the one before the last is equal as well
                        if k < s.len() - 2 { assert(lex_le(s[k], s[s.len() - 2])); }
                        assert(lex_le(s[s.len() - 2], s[s.len() - 1]));
                        lemma_lex_antisym(s[s.len() - 2], s.last());
                    }
                } else { assert(p[i] == r[i] && p[j] == r[j]); }
            }
        }
    }
}
/// trusted: strings are ordered by their characters, a sort keeps the entries
#[verifier::external_body]
pub fn vx_sort(v: &mut Vec<String>) ensures lex_sorted(strs(final(v)@)), same_elems(strs(final(v)@), strs(old(v)@)), final(v)@.len() == old(v)@.len() { v.sort() }
/// trusted: what Vec::dedup does
#[verifier::external_body]
pub fn vx_dedup0(v: &mut Vec<String>) ensures strs(final(v)@) == dedup_of(strs(old(v)@)) { v.dedup() }
pub fn vx_dedup(v: &mut Vec<String>)
    ensures strs(final(v)@) == dedup_of(strs(old(v)@)), lex_sorted(strs(old(v)@)) ==> is_menu(strs(final(v)@), strs(old(v)@))
{
    proof { if lex_sorted(strs(v@)) { lemma_dedup(strs(v@)); } }
    vx_dedup0(v)
}
#[verifier::external_body]
pub fn vx_str_prefix(s: &str, p: &str) -> (r: bool) ensures r == is_prefix(p@, s@) { s.starts_with(p) }
/// p is the longest prefix of all
pub open spec fn prefix_of_all(cs: Seq<Seq<char>>, p: Seq<char>) -> bool { forall |i: int| 0 <= i < cs.len() ==> is_prefix(p, #[trigger] cs[i]) }
pub open spec fn is_lcp(cs: Seq<Seq<char>>, p: Seq<char>) -> bool { prefix_of_all(cs, p) && forall |q: Seq<char>| #[trigger] prefix_of_all(cs, q) ==> q.len() <= p.len() }
pub open spec fn lcp(cs: Seq<Seq<char>>) -> Seq<char> { choose |p: Seq<char>| is_lcp(cs, p) }
pub proof fn lemma_lcp(cs: Seq<Seq<char>>, p: Seq<char>) requires is_lcp(cs, p), cs.len() > 0 ensures lcp(cs) == p
{
    let q = lcp(cs);
    assert(is_prefix(p, cs[0]) && is_prefix(q, cs[0]));
    assert(p =~= q);
}

pub open spec fn views_are(a: Seq<Vec<char>>, cs: Seq<Seq<char>>) -> bool { a.len() == cs.len() && forall |i: int| 0 <= i < cs.len() ==> (#[trigger] a[i])@ == cs[i] }
pub proof fn lemma_menu_prefix(a: Seq<Vec<char>>, cs: Seq<Seq<char>>, r: Option<Vec<char>>, p: Seq<char>)
    requires util::lcp_found(a, r), views_are(a, cs), cs.len() > 0, match r { Some(x) => p == x@, None => p.len() == 0 }
    ensures is_lcp(cs, p)
{
    assert forall |q: Seq<char>| #[trigger] prefix_of_all(cs, q) implies q.len() <= p.len() by {
        assert forall |i: int| 0 <= i < a.len() implies is_prefix(q, #[trigger] a[i]@) by { assert(is_prefix(q, cs[i])); }
        assert(util::common_prefix(a, q));
    }
    assert forall |i: int| 0 <= i < cs.len() implies is_prefix(p, #[trigger] cs[i]) by {
        if r is Some { assert(is_prefix(p, a[i]@)); } else { assert(cs[i].subrange(0, 0) =~= p); }
    }
}

// ---------------------------------------------------------------- the editor
/// where the cursor ends up when it is sent to c: in the text, and in Vi normal mode on a character
pub open spec fn clampc(no_eol: bool, c: int, n: int) -> int {
    let d = if c < n { c } else { n };
    if no_eol && d > 0 && d == n { d - 1 } else { d }
}
/// the offered match that continues a search at history entry `target`
pub open spec fn near(m: Seq<usize>, target: Option<usize>, fwd: bool, k: int) -> bool {
    &&& 0 <= k < m.len()
    &&& match target {
        None => k == (if fwd { 0 } else { m.len() - 1 }),
        Some(t) => {
            ||| (forall |i: int| 0 <= i < m.len() ==> #[trigger] m[i] < t) && k == (if fwd { 0 } else { m.len() - 1 })
            ||| near_some(m, t, fwd, k)
        }
    }
}
pub open spec fn near_some(m: Seq<usize>, t: usize, fwd: bool, k: int) -> bool { exists |i: int| #[trigger] near_at(m, t, fwd, k, i) }
pub open spec fn near_at(m: Seq<usize>, t: usize, fwd: bool, k: int, i: int) -> bool { first_at(m, t, i) && k == (if fwd || m[i] == t || i == 0 { i } else { i - 1 }) }
pub open spec fn first_at(m: Seq<usize>, t: usize, i: int) -> bool {
    0 <= i < m.len() && t <= m[i] && forall |j: int| 0 <= j < i ==> #[trigger] m[j] < t
}
pub proof fn lemma_near(m: Seq<usize>, t: usize, fwd: bool, i: int)
    requires first_at(m, t, i)
    ensures near(m, Some(t), fwd, if fwd || m[i] == t || i == 0 { i } else { i - 1 })
{
    let k = if fwd || m[i] == t || i == 0 { i } else { i - 1 };
    assert(near_at(m, t, fwd, k, i));
    assert(near_some(m, t, fwd, k));
}
impl<C: EditorContext> Editor<C> {
    pub open spec fn h(&self) -> History { self.context.h() }
    pub open spec fn hb(&self) -> Seq<Buffer> { self.context.h().buffers@ }
    pub open spec fn tf(&self) -> Seq<ErrorKind> { self.context.term().failed() }
    /// the line that is shown and edited
    pub open spec fn cur(&self) -> Buffer {
        match self.cur_history_loc { Some(i) => if self.hist_buf_valid { self.hist_buf } else { self.hb()[i as int] }, None => self.new_buf }
    }
    pub open spec fn text(&self) -> Seq<char> { self.cur()@ }
    /// its undo log: a shown history entry has none until it is edited
    pub open spec fn eul(&self) -> Seq<AV> { if self.cur_history_loc is Some && !self.hist_buf_valid { Seq::empty() } else { self.cur().ul() } }
    pub open spec fn erl(&self) -> Seq<AV> { if self.cur_history_loc is Some && !self.hist_buf_valid { Seq::empty() } else { self.cur().rl() } }
    pub open spec fn searching(&self) -> bool { self.reverse_search || self.forward_search }
    pub open spec fn words(&self) -> Words { (self.context.wds())(self.text()) }
    /// the matches of the running search
    pub open spec fn matches(&self) -> Seq<usize> { matching(self.h().t(), p_has(self.new_buf@)) }
    /// structural invariant
    pub open spec fn inv0(&self) -> bool {
        &&& self.new_buf.wf() && self.hist_buf.wf() && bufs_wf(self.hb())
        &&& self.cur_history_loc is Some ==> self.cur_history_loc->0 < self.hb().len()
        &&& self.hist_buf_valid ==> self.cur_history_loc is Some
        &&& self.history_subset_loc is Some ==> self.history_subset_loc->0 < self.history_subset_index@.len()
        &&& forall |i: int| 0 <= i < self.history_subset_index@.len() ==> (#[trigger] self.history_subset_index@[i]) < self.hb().len()
        &&& self.show_completions_hint is Some ==> hint_ok(self.show_completions_hint->0)
        &&& 1 <= self.term_cursor_line < 0x2000_0000_0000_0000
        &&& self.searching() ==> self.cur_history_loc is None && !self.hist_buf_valid
        &&& self.searching() && !self.buffer_changed ==> self.history_subset_index@ == self.matches() && (self.history_subset_loc is Some <==> self.history_subset_index@.len() > 0)
        &&& !self.searching() && self.history_subset_loc is Some ==> self.cur_history_loc is Some && self.new_buf@.len() > 0
            && self.history_subset_index@ == subset_of(self.h().t(), self.new_buf@) && (self.h().share ==> self.history_fresh)
        &&& self.show_autosuggestions && !(self.reverse_search && self.forward_search)
    }
    /// a suggestion that is not a search result continues the line
    pub open spec fn sugg_prefix(&self) -> bool {
        self.autosuggestion is Some && !self.searching() ==> is_prefix(self.text(), self.autosuggestion->0@)
    }
    pub open spec fn wf(&self) -> bool { self.inv0() && self.sugg_prefix() && self.cursor <= self.text().len() }
    /// the suggestion to show
    pub open spec fn sugg_rel(&self) -> bool { self.sugg_of(self.autosuggestion) }
    pub open spec fn sugg_of(&self, s: Option<Buffer>) -> bool {
        if self.hist_buf_valid { s is None }
        else if self.searching() {
            match self.history_subset_loc {
                Some(k) => s is Some && s->0@ == self.h().t()[self.history_subset_index@[k as int] as int],
                None => s is None,
            }
        } else {
            match self.cur_history_loc {
                Some(i) => s is Some && s->0@ == self.h().t()[i as int],
                None => newest_continuation(self.h(), self.new_buf@, s),
            }
        }
    }
    /// every field but the cursor and the state of the terminal is as in o
    pub open spec fn but_cursor(&self, o: &Self) -> bool {
        &&& self.h() == o.h() && self.context.wds() == o.context.wds() && self.context.kb() == o.context.kb()
        &&& self.no_eol == o.no_eol && self.prompt == o.prompt && self.history_fresh == o.history_fresh
        &&& self.cur_history_loc == o.cur_history_loc && self.new_buf == o.new_buf && self.hist_buf == o.hist_buf && self.hist_buf_valid == o.hist_buf_valid
        &&& self.show_autosuggestions == o.show_autosuggestions && self.autosuggestion == o.autosuggestion
        &&& self.show_completions_hint == o.show_completions_hint && self.buffer_changed == o.buffer_changed
        &&& self.same_search(o) && self.history_subset_index == o.history_subset_index && self.history_subset_loc == o.history_subset_loc
    }
    /// every field but the two edited buffers is as in o
    pub open spec fn but_buffers(&self, o: &Self) -> bool {
        &&& self.context == o.context && self.no_eol == o.no_eol && self.prompt == o.prompt && self.history_fresh == o.history_fresh
        &&& self.cur_history_loc == o.cur_history_loc
        &&& self.show_autosuggestions == o.show_autosuggestions && self.cursor == o.cursor && self.autosuggestion == o.autosuggestion
        &&& self.term_cursor_line == o.term_cursor_line && self.show_completions_hint == o.show_completions_hint
        &&& self.same_search(o) && self.history_subset_index == o.history_subset_index && self.history_subset_loc == o.history_subset_loc
    }
    /// every field but the search state is as in o
    pub open spec fn but_search(&self, o: &Self) -> bool {
        &&& self.context == o.context && self.no_eol == o.no_eol && self.prompt == o.prompt && self.history_fresh == o.history_fresh
        &&& self.cur_history_loc == o.cur_history_loc && self.new_buf == o.new_buf && self.hist_buf == o.hist_buf && self.hist_buf_valid == o.hist_buf_valid
        &&& self.show_autosuggestions == o.show_autosuggestions && self.cursor == o.cursor && self.autosuggestion == o.autosuggestion
        &&& self.term_cursor_line == o.term_cursor_line && self.show_completions_hint == o.show_completions_hint && self.buffer_changed == o.buffer_changed
    }
    /// the entry a search stands on
    pub open spec fn target(&self) -> Option<usize> {
        match self.history_subset_loc { Some(i) => if i < self.history_subset_index@.len() { Some(self.history_subset_index@[i as int]) } else { None }, None => None }
    }
    /// the state just after a search is (re)started from o
    pub open spec fn searched(&self, o: &Self, fwd: bool) -> bool {
        &&& self.forward_search == fwd && self.reverse_search == !fwd && self.cur_history_loc is None && !self.hist_buf_valid && !self.buffer_changed
        &&& self.history_subset_index@ == self.matches()
        &&& match self.history_subset_loc { Some(k) => near(self.matches(), o.target(), fwd, k as int), None => self.matches().len() == 0 }
    }
    /// everything but the current line, the cursor, the search state and what is displayed is as it was in o
    pub open spec fn keeps(&self, o: &Self) -> bool {
        &&& self.h() == o.h() && self.context.wds() == o.context.wds() && self.context.kb() == o.context.kb()
        &&& self.no_eol == o.no_eol && self.prompt == o.prompt && self.history_fresh == o.history_fresh
        &&& self.cur_history_loc == o.cur_history_loc
        &&& o.cur_history_loc is Some ==> self.new_buf == o.new_buf
        &&& o.cur_history_loc is None ==> self.hist_buf == o.hist_buf
        &&& self.show_autosuggestions == o.show_autosuggestions
    }
    /// the place in history is as in o
    pub open spec fn same_browse(&self, o: &Self) -> bool { !o.searching() ==> self.history_subset_index == o.history_subset_index && self.history_subset_loc == o.history_subset_loc }
    /// an edit of the typed text while searching keeps the search at the nearest match
    pub open spec fn researched(&self, o: &Self) -> bool { o.searching() ==> self.searched(o, o.forward_search) }
    pub open spec fn same_search(&self, o: &Self) -> bool { self.reverse_search == o.reverse_search && self.forward_search == o.forward_search }
    pub open spec fn same_hint(&self, o: &Self) -> bool { self.show_completions_hint == o.show_completions_hint }
    /// self is o with the current line changed to t (undo log l, nothing to redo)
    pub open spec fn edited(&self, o: &Self, t: Seq<char>, l: Seq<AV>) -> bool {
        &&& self.keeps(o) && self.same_search(o) && self.same_hint(o) && self.same_browse(o) && self.researched(o)
        &&& self.text() == t && self.eul() == l && self.erl().len() == 0
    }
    /// self is o with at most the cursor moved
    pub open spec fn same_text(&self, o: &Self) -> bool {
        &&& self.keeps(o) && self.same_search(o) && self.same_hint(o) && self.same_browse(o)
        &&& self.text() == o.text() && self.eul() == o.eul() && self.erl() == o.erl()
    }
    /// self is o with at most the cursor moved and the search brought up to date
    pub open spec fn redisplayed(&self, o: &Self) -> bool {
        &&& self.same_text(o) && self.hist_buf_valid == o.hist_buf_valid && self.hist_buf == o.hist_buf && self.new_buf == o.new_buf
        &&& self.searching() ==> !self.buffer_changed
        &&& o.searching() && o.buffer_changed ==> self.searched(o, o.forward_search)
        &&& !(o.searching() && o.buffer_changed) ==> self.history_subset_loc == o.history_subset_loc && self.history_subset_index == o.history_subset_index && self.buffer_changed == o.buffer_changed
    }
    /// after an operation that went through: well-formed, displayed, and the cursor sent to c
    pub open spec fn done(&self, c: int) -> bool { self.wf() && self.sugg_rel() && self.cursor == clampc(self.no_eol, c, self.text().len() as int) }
}
impl<C: EditorContext> Editor<C> {
    /// well-formed, and the cursor where it may rest (in Vi normal mode: on a character)
    pub open spec fn live(&self) -> bool { self.wf() && self.cursor == clampc(self.no_eol, self.cursor as int, self.text().len() as int) }
    /// the settings that no key changes
    pub open spec fn same_env(&self, o: &Self) -> bool { self.context.wds() == o.context.wds() && self.context.kb() == o.context.kb() && self.prompt.prompt == o.prompt.prompt && (!o.h().share ==> self.h() == o.h()) }
    /// the history was (or would be) read anew
    pub open spec fn stale(&self) -> bool { self.h().share && !self.history_fresh }
    /// what is left alone by moving through history from o
    pub open spec fn moved(&self, o: &Self) -> bool {
        &&& self.h() == o.h() && self.context.wds() == o.context.wds() && self.context.kb() == o.context.kb()
        &&& self.no_eol == o.no_eol && self.prompt == o.prompt && self.new_buf == o.new_buf && self.same_search(o) && self.same_hint(o)
    }
    /// one step up (back) in history
    pub open spec fn up_from(&self, o: &Self) -> bool {
        if o.new_buf@.len() > 0 {
            match o.history_subset_loc {
                Some(i) => self.history_subset_index@ == o.history_subset_index@
                    && (if i > 0 { self.history_subset_loc == Some((i - 1) as usize) && self.cur_history_loc == Some(o.history_subset_index@[i - 1]) }
                        else { self.history_subset_loc == o.history_subset_loc && self.cur_history_loc == o.cur_history_loc }),
                None => {
                    let m = subset_of(o.h().t(), o.new_buf@);
                    self.history_subset_index@ == m
                    && (if m.len() > 0 { self.history_subset_loc == Some((m.len() - 1) as usize) && self.cur_history_loc == Some(m.last()) }
                        else { self.history_subset_loc is None && self.cur_history_loc == o.cur_history_loc })
                }
            }
        } else {
            self.history_subset_loc == o.history_subset_loc && self.cur_history_loc == (match o.cur_history_loc {
                Some(i) => if i > 0 { Some((i - 1) as usize) } else { Some(i) },
                None => if o.h().t().len() > 0 { Some((o.h().t().len() - 1) as usize) } else { None },
            })
        }
    }
    /// one step down (forward) in history
    pub open spec fn down_from(&self, o: &Self) -> bool {
        if o.new_buf@.len() > 0 {
            match o.history_subset_loc {
                Some(i) => if i + 1 < o.history_subset_index@.len() {
                        self.history_subset_index@ == o.history_subset_index@ && self.history_subset_loc == Some((i + 1) as usize) && self.cur_history_loc == Some(o.history_subset_index@[i + 1])
                    } else { self.history_subset_loc is None && self.cur_history_loc is None },
                None => self.history_subset_loc is None && self.cur_history_loc == o.cur_history_loc,
            }
        } else {
            self.cur_history_loc == (match o.cur_history_loc { Some(i) => if i + 1 < o.h().t().len() { Some((i + 1) as usize) } else { None }, None => None })
        }
    }
    /// what the line is when it is accepted
    pub open spec fn accepted(&self) -> Seq<char> { match self.autosuggestion { Some(x) => x@, None => self.text() } }
    pub open spec fn entered(&self) -> Seq<char> { if self.searching() { self.accepted() } else { self.text() } }
    pub open spec fn entered_at(&self) -> int { if self.searching() { clampc(self.no_eol, self.entered().len() as int, self.entered().len() as int) } else { self.cursor as int } }
    /// the next match of a running search
    pub open spec fn stepped(&self, o: &Self, fwd: bool) -> bool {
        let n = o.history_subset_index@.len();
        &&& self.history_subset_index@ == o.history_subset_index@
        &&& self.history_subset_loc == (match o.history_subset_loc {
                Some(p) => if n == 0 { Some(p) } else if fwd { Some((if p + 1 < n { p + 1 } else { 0 }) as usize) } else { Some((if p > 0 { p - 1 } else { n - 1 }) as usize) },
                None => None,
            })
    }
    /// the word that is completed
    pub open spec fn cword(&self) -> Seq<char> { match self.wb(false) { Some(w) => self.text().subrange(w.0 as int, w.1 as int), None => Seq::empty() } }
    /// the line without what completion replaces, and where the replacement goes
    pub open spec fn cbase(&self) -> Seq<char> { match self.wb(false) { Some(w) => splice_out(self.text(), w.0 as int, self.cursor as int), None => self.text() } }
    pub open spec fn cat(&self) -> int { match self.wb(false) { Some(w) => clampc(self.no_eol, w.0 as int, self.cbase().len() as int), None => clampc(self.no_eol, self.cursor as int, self.cbase().len() as int) } }
    pub open spec fn replaced(&self, o: &Self, x: Seq<char>) -> bool { self.text() == splice_in(o.cbase(), o.cat(), x) && self.done(o.cat() + x.len()) }
    /// completion with the list cs, none showing yet
    pub open spec fn completed(&self, o: &Self, cs: Seq<Seq<char>>) -> bool {
        if cs.len() == 0 { self.text() == o.text() && self.cursor == o.cursor && self.show_completions_hint is None }
        else if cs.len() == 1 { self.replaced(o, cs[0]) && self.show_completions_hint is None }
        else if lcp(cs).len() > o.cword().len() && is_prefix(o.cword(), lcp(cs)) { self.replaced(o, lcp(cs)) && self.show_completions_hint is None }
        else { self.text() == o.text() && self.done(o.cursor as int) && (match self.show_completions_hint { Some(h) => strs(h.0@) == cs && h.1 is None, None => false }) }
    }
    /// the next entry of the list shown is put in place of the previous one
    pub open spec fn cycled(&self, o: &Self, cs: Vec<String>, was: Option<usize>) -> bool {
        let i: int = match was { Some(k) => (k + 1) % (cs@.len() as int), None => 0 };
        &&& self.show_completions_hint == Some((cs, Some(i as usize)))
        &&& if was is Some && o.text() == cs@[was->0 as int]@ { self.text() == cs@[i]@ && self.done(cs@[i]@.len() as int) } else { self.replaced(o, cs@[i]@) }
    }
    pub open spec fn wb(&self, ign: bool) -> Option<(usize, usize)> { word_before(self.words(), cpos(self.words(), self.cursor as int), ign) }
}
pub open spec fn imin(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn imax(a: int, b: int) -> int { if a < b { b } else { a } }
pub open spec fn rem_of(t: Seq<char>, a: int, b: int) -> AV { AV::Rem(a as nat, t.subrange(a, b)) }
pub open spec fn hint_ok(h: (Vec<String>, Option<usize>)) -> bool { h.0@.len() > 0 && (h.1 is Some ==> h.1->0 < h.0@.len()) }
pub open spec fn newest_continuation(h: History, q: Seq<char>, s: Option<Buffer>) -> bool {
    match s {
        Some(b) => exists |i: int| #[trigger] is_match(&h, i, q) && b@ == h.t()[i] && (forall |j: int| i < j < h.t().len() ==> !is_match(&h, j, q)),
        None => forall |j: int| 0 <= j < h.t().len() ==> !is_match(&h, j, q),
    }
}
//@ end
//@ replace Editor<C: ?Sized> =>> Editor<C>
//@ replace .map_err(io::Error::other) =>> .vx_other()
//@ replace &$s.context.history()[i] =>> $s.context.history().index(i)
//@ replace C::WordDividerIter =>> VxIt<(usize, usize)>
//@ derive ViPromptMode: Clone, Copy, PartialEq, Eq, Structural
//@ drop ViStatus::new
//@ drop Default for ViStatus
//@ drop Prompt::from
//@ replace fmt::Display =>> VxDisplay
//@ replace fmt::Formatter<'_> =>> VxFmt
//@ replace fmt::Result =>> Result<(), VxFmtErr>
//@ implx VxDisplay for ViStatus
    open spec fn shown(&self) -> Seq<char> { match self.mode { ViPromptMode::Normal => self.normal@, ViPromptMode::Insert => self.insert@ } }
//@ fn VxDisplay for ViStatus::fmt [C16]
//@ replace write!(f, "{}", self.normal) =>> f.vx_put(self.normal.as_str())
//@ replace write!(f, "{}", self.insert) =>> f.vx_put(self.insert.as_str())
//@ implx VxDisplay for Prompt
    /// the prompt begins with the mode
    open spec fn shown(&self) -> Seq<char> { match self.vi_status { Some(s) => s.shown() + self.prompt@, None => self.prompt@ } }
//@ fn VxDisplay for Prompt::fmt [C16]
//@ replace write!(f, "{}", status) =>> status.fmt(f)
//@ replace write!(f, "{}", self.prompt) =>> f.vx_put(self.prompt.as_str())
//@ at tail
proof { if vx_r is Ok { assert(f.s@ =~= old(f).s@ + self.shown()); } }
//@ fn ViStatus::as_str
//@ replace &self.normal =>> self.normal.as_str()
//@ replace &self.insert =>> self.insert.as_str()
//@ spec
    ensures r@ == (match self.mode { ViPromptMode::Normal => self.normal@, ViPromptMode::Insert => self.insert@ }), // [C16]
//@ fn Prompt::prefix
//@ at start
proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@ spec
    ensures r@ == (match self.vi_status { Some(s) => match s.mode { ViPromptMode::Normal => s.normal@, ViPromptMode::Insert => s.insert@ }, None => Seq::empty() }), // [C16]
//@ fn CursorPosition::get [C15]
//@ fnattr #[verifier::loop_isolation(false)]
//@ fnattr #[verifier::allow_complex_invariants]
//@ at loop 1 init
proof { assert(vx_it1.v.len() == ws.len()); }
//@ replace <I: IntoIterator<Item = (usize, usize)>> =>> <I: VxIntoIt<(usize, usize)>>
//@ replace words.into_iter() =>> words.into_it()
//@ replace iter::once =>> vx_once
//@ spec
    ensures words_in_order(words.it_spec()) ==> cpos_rel(cursor as int, words.it_spec(), r), // [C15]
//@ at start
let ghost ws = words.it_spec();
//@ at before loop 1
proof { assert(seq![first] + words@ =~= ws); }
//@ loop 1
    invariant
        0 <= vx_it1@.len() <= ws.len(),
        len == ws.len() - vx_it1@.len(), ws.len() > 0, ws.len() <= usize::MAX,
        forall |k: int| 0 <= k < vx_it1@.len() ==> #[trigger] vx_it1@[k] == ((len + k) as usize, ws[len + k]),
        cursor >= ws[0].0, cursor != ws[0].0,
        forall |k: int| 0 <= k < len ==> (#[trigger] ws[k]).0 < cursor && !(cursor <= ws[k].1),
    ensures vx_it1@.len() == 0,
    decreases vx_it1@.len()
//@ at loop 1 start
proof { assert(i == len && (start, end) == ws[i as int]); }
//@ end
//@ replace impl<C> From<Editor<C>> for String where C: EditorContext, =>> impl<C: EditorContext> Editor<C>
//@ replace fn from(ed: Editor<C>) -> String =>> fn vx_into_string(ed: Editor<C>) -> String
//@ replace let Prompt { mut prompt, vi_status, } = prompt; =>> let vi_status = prompt.vi_status; let mut prompt = prompt.prompt;
//@ replace buffer.into() =>> buffer.vx_ib()
//@ replace <B: Into<Buffer>> =>> <B: VxIntoBuffer>
//@ replace .as_bytes() =>> .vx_as_bytes()
//@ replace .unwrap_or(80) =>> .vx_unwrap_or(80)
//@ replace b" " =>> " ".vx_as_bytes()
//@ replace b"\r\n" =>> "\r\n".vx_as_bytes()
//@ replace self.history_subset_index.get(i) =>> self.history_subset_index.vx_get(i)
//@ fn Editor::vx_into_string [C13]
//@ spec
    requires ed.inv0()
    ensures r@ == ed.text(), // [C13]
//@ fn Editor::new [C13]
//@ spec
    requires bufs_wf(context.h().buffers@)
    ensures r is Ok ==> r->Ok_0.wf() && r->Ok_0.sugg_rel() && r->Ok_0.text().len() == 0 && r->Ok_0.cursor == 0 && r->Ok_0.cur_history_loc is None && !r->Ok_0.searching() && !r->Ok_0.no_eol && r->Ok_0.h() == context.h(), // [C08,C13]
        r is Ok ==> r->Ok_0.tf() == context.term().failed(), // [C23]
//@ fn Editor::new_with_init_buffer [C13]
//@ loop 1
    invariant out.failed() == vx_f, *final(out) == vx_o,
//@ at then#1
proof {
    let i = choose |i: int| 0 <= i < prompt@.len() && #[trigger] boff(prompt@, i) == index && prompt@[i] == '\n' && (forall |k: int| i < k < prompt@.len() ==> prompt@[k] != '\n');
    ax_utf8_push(prompt@, i);
    assert(at_byte(prompt@, index + 1, i + 1));
}
//@ at before loop 1
let ghost vx_f = out.failed(); let ghost vx_o = *final(out);
//@ fnattr #[verifier::loop_isolation(false)]
//@ replace prompt = prompt.split_at(index + 1).1.into() =>> prompt = vx_str_to_string(prompt.vx_split_at(index + 1).1)
//@ replace prompt.rfind('\n') =>> prompt.vx_rfind('\n')
//@ spec
    requires bufs_wf(context.h().buffers@), buffer.ib_ok()
    ensures r is Ok ==> r->Ok_0.text() == buffer.ib(), // [C13]
        r is Ok ==> r->Ok_0.wf() && r->Ok_0.sugg_rel() && r->Ok_0.cursor == r->Ok_0.text().len() && r->Ok_0.cur_history_loc is None && !r->Ok_0.searching() && !r->Ok_0.no_eol && r->Ok_0.h() == context.h(), // [C08,C13]
        r is Ok ==> r->Ok_0.tf() == context.term().failed(), // [C23]
//@ fn Editor::is_search
//@ spec
    ensures r == self.searching(),
//@ fn Editor::clear_search
//@ spec
    ensures final(self).but_search(old(self)), !final(self).searching(), final(self).history_subset_loc is None, final(self).history_subset_index@.len() == 0, final(self).closure == old(self).closure,
//@ fn Editor::current_history_location
//@ spec
    ensures r == self.cur_history_loc,
//@ fn Editor::get_words_and_cursor_position [C15]
//@ spec
    requires self.inv0()
    ensures r.0@ == self.words(), words_ok(r.0@, self.text().len() as int), // [C15]
        cpos_rel(self.cursor as int, self.words(), r.1), r.1 == cpos(self.words(), self.cursor as int), // [C15]
//@ at tail
proof { assert(words_in_order(self.words())); lemma_cpos_is(self.words(), self.text().len() as int, self.cursor as int, pos); }
//@ fn Editor::context
//@ spec
    ensures *r == self.context,
//@ fn Editor::cursor
//@ spec
    ensures r == self.cursor,
//@ fn Editor::search_history_loc
//@ expand and_then#1 option_and_then
//@ spec
    ensures r == self.target(),
//@ fn Editor::freshen_history [C10]
//@ expand map_or#1 option_map_or
//@ expand any#1 any
//@ spec
    requires old(self).inv0(), !old(self).searching()
    ensures final(self).inv0(), !final(self).searching(),
        !(old(self).h().share && !old(self).history_fresh) ==> *final(self) == *old(self), // [C10]
        final(self).h().share ==> final(self).history_fresh, final(self).new_buf == old(self).new_buf, final(self).cursor == old(self).cursor,
        final(self).cur_history_loc == old(self).cur_history_loc || final(self).cur_history_loc is None,
        final(self).no_eol == old(self).no_eol, final(self).prompt == old(self).prompt, final(self).show_completions_hint == old(self).show_completions_hint,
        final(self).tf() == old(self).tf(), final(self).context.wds() == old(self).context.wds(), final(self).context.kb() == old(self).context.kb(),
        old(self).cur_history_loc is None ==> final(self).hist_buf == old(self).hist_buf, final(self).hist_buf_valid ==> old(self).hist_buf_valid,
//@ loop 1
    invariant_except_break !vx_found,
        forall |k: int| 0 <= k < self.history_subset_index@.len() - vx_it1@.len() ==> self.history_subset_index@[k] < len,
    invariant
        vx_it1@.len() <= self.history_subset_index@.len(),
        forall |k: int| 0 <= k < vx_it1@.len() ==> *(#[trigger] vx_it1@[k]) == self.history_subset_index@[self.history_subset_index@.len() - vx_it1@.len() + k],
    ensures
        !vx_found ==> forall |k: int| 0 <= k < self.history_subset_index@.len() ==> self.history_subset_index@[k] < len,
    decreases vx_it1@.len()
//@ fn Editor::refresh_search [C11]
//@ at start
broadcast use crate::vx::lemma_mod_wrap;
//@ at tail
proof { lemma_matching(self.h().t(), p_has(self.new_buf@)); }
//@ spec
    requires old(self).inv0()
    ensures final(self).inv0(), final(self).searched(old(self), forward), // [C11]
        final(self).context == old(self).context, final(self).no_eol == old(self).no_eol, final(self).prompt == old(self).prompt, final(self).history_fresh == old(self).history_fresh,
        final(self).new_buf == old(self).new_buf, final(self).hist_buf == old(self).hist_buf, final(self).cursor == old(self).cursor,
        final(self).show_completions_hint == old(self).show_completions_hint, final(self).term_cursor_line == old(self).term_cursor_line,
        final(self).autosuggestion == old(self).autosuggestion,
//@ loop 1
    invariant_except_break
        forall |k: int| 0 <= k < self.history_subset_index@.len() - vx_it1@.len() ==> #[trigger] self.history_subset_index@[k] < target_loc,
        self.history_subset_loc == Some((if forward { 0 } else { self.history_subset_index@.len() - 1 }) as usize),
    invariant
        vx_it1@.len() <= self.history_subset_index@.len(), self.history_subset_index@.len() > 0,
        forall |k: int| 0 <= k < vx_it1@.len() ==> (#[trigger] vx_it1@[k]).0 == self.history_subset_index@.len() - vx_it1@.len() + k && *vx_it1@[k].1 == self.history_subset_index@[vx_it1@[k].0 as int],
    ensures
        self.history_subset_loc is Some && near(self.history_subset_index@, Some(target_loc), forward, (self.history_subset_loc->0) as int),
    decreases vx_it1@.len()
//@ at loop 1 start
proof { assert(i == self.history_subset_index@.len() - vx_it1@.len() - 1); assert(*history_loc == self.history_subset_index@[i as int]);
  if target_loc <= *history_loc {
    assert(first_at(self.history_subset_index@, target_loc, i as int));
    lemma_near(self.history_subset_index@, target_loc, forward, i as int);
  } }
//@ fn Editor::current_buffer
//@ spec
    requires self.inv0()
    ensures *r == self.cur(),
//@ fn Editor::is_currently_showing_autosuggestion [C14]
//@ spec
    ensures r == (self.autosuggestion is Some), // [C14]
//@ fn Editor::current_autosuggestion [C14]
//@ replace autosuggestion.cloned() =>> vx_buf_cloned(autosuggestion)
//@ expand map#1 option_map
//@ expand map#1 option_map
//@ expand map#1 option_map
//@ expand or_else#1 option_or_else
//@ spec
    requires old(self).inv0(), old(self).searching() ==> !old(self).buffer_changed
    ensures *final(self) == *old(self), old(self).sugg_of(r), // [C10,C11,C14]
//@ fn Editor::display [C08,C09]
//@ at before call display_impl#1
proof {
    assert(self.text().subrange(0, self.text().len() as int) =~= self.text());
}
//@ spec
    requires old(self).inv0()
    ensures final(self).inv0(), final(self).sugg_prefix(), final(self).sugg_rel(), // [C10,C11,C14]
        final(self).redisplayed(old(self)), // [C09,C10,C11]
        r is Ok ==> final(self).cursor == clampc(final(self).no_eol, old(self).cursor as int, final(self).text().len() as int), // [C08]
        io_rel(old(self).tf(), final(self).tf(), r), // [C23]
//@ fn Editor::search_prompt
//@ spec
    requires old(self).inv0()
    ensures *final(self) == *old(self), r.1 < 0x1000_0010,
        !old(self).searching() ==> r.0@ == old(self).prompt.shown(), // [C16,C24]
//@ fn Editor::print_completion_list [C08]
//@ at start
proof { assert(hint(|m: usize| m >= 1)); crate::vx_ax::ax_slice_string_len(completions); }
//@ closure 1
    [usize; &String] -> (k: usize)
    ensures k >= p0
//@ loop 1
    invariant i <= cols, cols >= 1, vx_it1@.len() <= completions@.len(),
        highlighted == highlighted,
    decreases vx_it1@.len()
//@ fnattr #[verifier::loop_isolation(false)]
//@ replace use std::cmp::max; =>> use crate::vxcmp::max;
//@ spec
    ensures r is Ok ==> r->Ok_0 < 0x1000_0000_0000_0000,
        r is Err ==> io::size_err(r->Err_0.k), // [C23]
//@ fn Editor::display_impl [C08,C23]
//@ fnattr #[verifier::spinoff_prover]
//@ fnattr #[verifier::rlimit(60)]
//@ replace line.is_char_boundary(buf_num_remaining_bytes) =>> line.vx_is_char_boundary(buf_num_remaining_bytes)
//@ replace " ".repeat(prompt_width) =>> " ".vx_repeat(prompt_width)
//@ replace f(start) =>> f.vx_call(start)
//@ replace f(&line) =>> f.vx_call(line.as_str())
//@ replace start.to_owned() =>> vx_str_to_string(start)
//@ replace line.len() =>> line.vx_byte_len()
//@ spec
    requires old(self).inv0()
    ensures final(self).but_cursor(old(self)), final(self).inv0(),
        r is Ok ==> final(self).cursor == clampc(final(self).no_eol, old(self).cursor as int, final(self).text().len() as int), // [C08]
        io_rel(old(self).tf(), final(self).tf(), r), // [C23]
//@ loop 1
    invariant vx_it1@.len() <= lines_len, lines_len <= usize::MAX,
        self.but_cursor(old(self)), self.inv0(), self.tf() == old(self).tf(),
        forall |k: int| 0 <= k < vx_it1@.len() ==> (#[trigger] vx_it1@[k]).0 == lines_len - vx_it1@.len() + k,
    decreases vx_it1@.len()
//@ at before loop 1
let ghost vx_ll = lines_len as int;
//@ at before let buf
proof { crate::vx_ax::ax_width(util::visible(util::last_line(prompt@))); }
//@ at before let new_total_width
proof {
    lemma_widths_small(buf@);
    lemma_widths_small(buf@.subrange(0, self.cursor as int));
    if self.autosuggestion is Some {
        lemma_widths_small(self.autosuggestion->0@);
        if self.cursor < self.autosuggestion->0@.len() { lemma_widths_small(self.autosuggestion->0@.subrange(0, self.cursor as int)); }
    }
}
//@ loop 2
    invariant at_byte(line@, 0, 0),
    decreases buf_num_remaining_bytes
//@ at after loop 2
proof { assert(line.bdv() == line@); assert(line.ssv() == line@); }
//@ at loop 2 start
proof { assert(!(exists |i: int| #[trigger] at_byte(line.bdv(), buf_num_remaining_bytes as int, i)));  assert(line.bdv() == line@);
  if buf_num_remaining_bytes == 0 { assert(at_byte(line@, buf_num_remaining_bytes as int, 0)); } }
//@ at loop 1 start
proof { ax_utf8_empty(line@); assert(at_byte(line@, 0, 0)); }
//@ at after let new_num_lines
proof {
    lemma_screen_lines(new_total_width as int, terminal_width as int);
    lemma_screen_lines(new_total_width_to_cursor as int, terminal_width as int);
}
let ghost vx_tw = terminal_width as int;
//@ at after let cursor_line_diff
proof { lemma_line_diff(new_total_width as int, new_total_width_to_cursor as int, vx_tw, cursor_line_diff as int, (terminal_width as isize) as int); }
//@ fn Editor::display_impl/calc_width [C08]
//@ spec
    requires prompt_width < 0x2000_0000, 0 < terminal_width <= 65535, buf_widths@.len() < 0x1000_0000, forall |i: int| 0 <= i < buf_widths@.len() ==> #[trigger] buf_widths@[i] < 0x1000_0000
    ensures r < 0x0400_0000_0000_0000,
//@ loop 1
    invariant prompt_width < 0x2000_0000, 0 < terminal_width <= 65535, buf_widths@.len() < 0x1000_0000, forall |i: int| 0 <= i < buf_widths@.len() ==> #[trigger] buf_widths@[i] < 0x1000_0000,
        vx_it1@ == seq_refs(buf_widths@).subrange(buf_widths@.len() - vx_it1@.len(), buf_widths@.len() as int), vx_it1@.len() <= buf_widths@.len(),
        total <= (buf_widths@.len() - vx_it1@.len()) * 0x3001_0000,
    decreases vx_it1@.len()
//@ at loop 1 start
proof {
    let n = buf_widths@.len() - vx_it1@.len() - 1;
    assert(*line == buf_widths@[n]);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(total as int, terminal_width as int);
    let q = total as int / terminal_width as int;
    assert((q + 1) * terminal_width == terminal_width * q + terminal_width) by (nonlinear_arith);
}
//@ fn Editor::current_buffer_mut [C09]
//@ spec
    requires old(self).inv0()
    ensures r.ul() == old(self).eul(), r.rl() == old(self).erl(), r@ == old(self).text(), r.wf(), // [C09]
        final(self).but_buffers(old(self)), final(self).buffer_changed,
        old(self).cur_history_loc is Some ==> final(self).hist_buf_valid && final(self).hist_buf == *final(r) && final(self).new_buf == old(self).new_buf, // [C10]
        old(self).cur_history_loc is None ==> final(self).new_buf == *final(r) && final(self).hist_buf == old(self).hist_buf && final(self).hist_buf_valid == old(self).hist_buf_valid, // [C10]
//@ fn Editor::move_cursor_to_end_of_line [C09]
//@ spec
    requires old(self).inv0()
    ensures final(self).redisplayed(old(self)), r is Ok ==> final(self).done(old(self).text().len() as int), // [C09]
        io_rel(old(self).tf(), final(self).tf(), r), // [C23]
//@ fn Editor::insert_chars_after_cursor [C09]
//@ spec
    requires old(self).wf()
    ensures final(self).edited(old(self), splice_in(old(self).text(), old(self).cursor as int, cs@), old(self).eul().push(AV::Ins(old(self).cursor as nat, cs@))), // [C09,C10,C11]
        r is Ok ==> final(self).done(old(self).cursor + cs@.len()), // [C08,C09]
        io_rel(old(self).tf(), final(self).tf(), r), // [C23]
//@ fn Editor::insert_str_after_cursor [C09]
//@ spec
    requires old(self).wf()
    ensures final(self).edited(old(self), splice_in(old(self).text(), old(self).cursor as int, s@), old(self).eul().push(AV::Ins(old(self).cursor as nat, s@))), // [C09,C10,C11]
        r is Ok ==> final(self).done(old(self).cursor + s@.len()), // [C08,C09]
        io_rel(old(self).tf(), final(self).tf(), r), // [C23]
//@ fn Editor::insert_after_cursor [C09]
//@ at start
proof { assert([c]@ =~= seq![c]); }
//@ spec
    requires old(self).wf()
    ensures final(self).edited(old(self), splice_in(old(self).text(), old(self).cursor as int, seq![c]), old(self).eul().push(AV::Ins(old(self).cursor as nat, seq![c]))), // [C09,C10,C11]
        r is Ok ==> final(self).done(old(self).cursor + 1), // [C08,C09]
        io_rel(old(self).tf(), final(self).tf(), r), // [C23]
//@ fn Editor::delete_before_cursor [C09]
//@ spec
    requires old(self).wf()
    ensures old(self).cursor > 0 ==> final(self).edited(old(self), splice_out(old(self).text(), old(self).cursor - 1, old(self).cursor as int), old(self).eul().push(rem_of(old(self).text(), old(self).cursor - 1, old(self).cursor as int))), // [C09,C10,C11]
        old(self).cursor == 0 ==> final(self).same_text(old(self)), // [C09]
        r is Ok ==> final(self).done(imax(old(self).cursor - 1, 0)), // [C08,C09]
        io_rel(old(self).tf(), final(self).tf(), r), // [C23]
//@ fn Editor::delete_after_cursor [C09]
//@ spec
    requires old(self).wf()
    ensures old(self).cursor < old(self).text().len() ==> final(self).edited(old(self), splice_out(old(self).text(), old(self).cursor as int, old(self).cursor + 1), old(self).eul().push(rem_of(old(self).text(), old(self).cursor as int, old(self).cursor + 1))), // [C09,C10,C11]
        old(self).cursor >= old(self).text().len() ==> final(self).same_text(old(self)), // [C09]
        r is Ok ==> final(self).done(old(self).cursor as int), // [C08,C09]
        io_rel(old(self).tf(), final(self).tf(), r), // [C23]
//@ fn Editor::delete_all_before_cursor [C09]
//@ spec
    requires old(self).wf()
    ensures final(self).edited(old(self), splice_out(old(self).text(), 0, old(self).cursor as int), old(self).eul().push(rem_of(old(self).text(), 0, old(self).cursor as int))), // [C09,C10,C11]
        r is Ok ==> final(self).done(0), // [C08,C09]
        io_rel(old(self).tf(), final(self).tf(), r), // [C23]
//@ fn Editor::delete_all_after_cursor [C09]
//@ spec
    requires old(self).wf()
    ensures final(self).edited(old(self), old(self).text().subrange(0, old(self).cursor as int), old(self).eul().push(rem_of(old(self).text(), old(self).cursor as int, old(self).text().len() as int))), // [C09,C10,C11]
        r is Ok ==> final(self).done(old(self).cursor as int), // [C08,C09]
        io_rel(old(self).tf(), final(self).tf(), r), // [C23]
//@ fn Editor::delete_until [C09,C18]
//@ spec
    requires old(self).wf()
    ensures final(self).edited(old(self), splice_out(old(self).text(), imin(old(self).cursor as int, position as int), imin(imax(old(self).cursor as int, position as int), old(self).text().len() as int)), old(self).eul().push(rem_of(old(self).text(), imin(old(self).cursor as int, position as int), imin(imax(old(self).cursor as int, position as int), old(self).text().len() as int)))), // [C09,C10,C11]
        r is Ok ==> final(self).done(imin(old(self).cursor as int, position as int)), // [C08,C09]
        io_rel(old(self).tf(), final(self).tf(), r), // [C23]
//@ fn Editor::delete_until_inclusive [C09,C18]
//@ spec
    requires old(self).wf()
    ensures final(self).edited(old(self), splice_out(old(self).text(), imin(old(self).cursor as int, position as int), imin(imax(old(self).cursor as int, position as int) + 1, old(self).text().len() as int)), old(self).eul().push(rem_of(old(self).text(), imin(old(self).cursor as int, position as int), imin(imax(old(self).cursor as int, position as int) + 1, old(self).text().len() as int)))), // [C09,C10,C11]
        r is Ok ==> final(self).done(imin(old(self).cursor as int, position as int)), // [C08,C09]
        io_rel(old(self).tf(), final(self).tf(), r), // [C23]
//@ fn Editor::move_cursor_left [C09]
//@ spec
    requires old(self).wf()
    ensures final(self).redisplayed(old(self)), r is Ok ==> final(self).done(imax(old(self).cursor - count, 0)), // [C08,C09]
        io_rel(old(self).tf(), final(self).tf(), r), // [C23]
//@ fn Editor::move_cursor_right [C09]
//@ spec
    requires old(self).wf()
    ensures final(self).redisplayed(old(self)), r is Ok ==> final(self).done(old(self).cursor + count), // [C08,C09]
        io_rel(old(self).tf(), final(self).tf(), r), // [C23]
//@ fn Editor::move_cursor_to [C09]
//@ spec
    requires old(self).wf()
    ensures final(self).redisplayed(old(self)), r is Ok ==> final(self).done(pos as int), // [C08,C09]
        io_rel(old(self).tf(), final(self).tf(), r), // [C23]
//@ fn Editor::move_cursor_to_start_of_line [C09]
//@ spec
    requires old(self).wf()
    ensures final(self).redisplayed(old(self)), r is Ok ==> final(self).done(0), // [C08,C09]
        io_rel(old(self).tf(), final(self).tf(), r), // [C23]
//@ fn Editor::cursor_is_at_end_of_line
//@ spec
    requires self.inv0(), self.cursor <= self.text().len()
    ensures r == (self.cursor + (if self.no_eol { 1int } else { 0int }) >= self.text().len()), // [C08]
//@ fn Editor::get_word_before_cursor [C09,C12]
//@ spec
    requires self.inv0()
    ensures r == self.wb(ignore_space_before_cursor), // [C09,C12]
        r is Some ==> (r->0).0 < self.cursor && (r->0).0 < (r->0).1 <= self.text().len(), // [C08]
        r is Some && !ignore_space_before_cursor ==> self.cursor <= (r->0).1, // [C08]
//@ at tail
proof { lemma_word_before2(self.words(), self.text().len() as int, self.cursor as int, pos, ignore_space_before_cursor); }
//@ fn Editor::complete [C12]
//@ cases self.show_completions_hint: Some(_) ;; None
//@ fnattr #[verifier::rlimit(100)]
//@ fnattr #[verifier::spinoff_prover]
//@ at start
let ghost vx_o = *self; let ghost vx_c = *handler;
//@ at before let i
proof { crate::vx_ax::ax_vec_string_len(&completions); }
//@ at before call insert_str_after_cursor#1
proof {
    if self.text().len() == 0 && self.autosuggestion is Some { assert(self.autosuggestion->0@.subrange(0, 0) =~= self.text()); }
    assert(splice_in(Seq::<char>::empty(), 0, completions@[i as int]@) =~= completions@[i as int]@);
    assert(self.words() == (vx_o.context.wds())(self.text()));
    assert(self.wf());
}
//@ at after let completions
let ghost vx_cs = strs(completions@);
proof {
    reveal_strlit(""); assert(""@ =~= Seq::<char>::empty());
    assert(word@ == vx_o.cword());
    assert(is_menu(vx_cs, vx_c.cand(word@)));
    assert(self.text() == vx_o.text() && self.wb(false) == vx_o.wb(false));
}
//@ at before call insert_str_after_cursor#2
proof { assert(self.text() == vx_o.cbase()); assert(self.cursor == vx_o.cat()); assert(vx_cs[0] == completions@[0]@); }
//@ at after let common_prefix
let ghost vx_p: Seq<char> = if common_prefix is Some { (common_prefix->0)@ } else { Seq::empty() };
proof {
    assert(exists |a: Seq<Vec<char>>| #[trigger] util::lcp_found(a, common_prefix) && views_are(a, vx_cs));
    let a = choose |a: Seq<Vec<char>>| #[trigger] util::lcp_found(a, common_prefix) && views_are(a, vx_cs);
    lemma_menu_prefix(a, vx_cs, common_prefix, vx_p);
    lemma_lcp(vx_cs, vx_p);
    if is_prefix(word@, vx_p) { lemma_prefix_bytes(word@, vx_p); }
}
//@ at before call insert_str_after_cursor#3
proof { assert(self.text() == vx_o.cbase()); assert(self.cursor == vx_o.cat()); }
//@ replace handler.on_event(Event::new(self, EventKind::BeforeComplete)) =>> handler.vx_on_event(self)
//@ replace "".into() =>> vx_str_to_string("")
//@ replace word.as_ref() =>> word.as_str()
//@ replace completions[0].as_ref() =>> completions[0].as_str()
//@ replace s.as_ref() =>> s.as_str()
//@ replace completions.sort() =>> vx_sort(&mut completions)
//@ replace completions.dedup() =>> vx_dedup(&mut completions)
//@ replace s.len() =>> s.vx_byte_len()
//@ replace word.len() =>> word.vx_byte_len()
//@ replace s.starts_with(&word[..]) =>> vx_str_prefix(s.as_str(), &word[..])
//@ expand map_or#1 option_map_or
//@ spec
    requires old(self).wf()
    ensures
        final(self).keeps(old(self)), // [C10,C12]
        r is Ok ==> final(self).wf(), // [C08,C12]
        r is Ok && old(self).show_completions_hint is Some ==> final(self).cycled(old(self), (old(self).show_completions_hint->0).0, (old(self).show_completions_hint->0).1), // [C12]
        r is Ok && old(self).show_completions_hint is None ==> exists |cs: Seq<Seq<char>>| #[trigger] is_menu(cs, old(handler).cand(old(self).cword())) && final(self).completed(old(self), cs), // [C12]
        r is Ok && old(self).live() ==> final(self).live(), // [C08]
        io_rel(old(self).tf(), final(self).tf(), r), // [C23]
//@ closure 1
    [&String] -> (k: Vec<char>)
    ensures k@ == p0@
//@ fn Editor::delete_word_before_cursor [C09,C12]
//@ spec
    requires old(self).wf()
    ensures match old(self).wb(ignore_space_before_cursor) { // [C09,C12]
            Some(w) => final(self).edited(old(self), splice_out(old(self).text(), w.0 as int, old(self).cursor as int), old(self).eul().push(rem_of(old(self).text(), w.0 as int, old(self).cursor as int))) && (r is Ok ==> final(self).done(w.0 as int)),
            None => final(self).same_text(old(self)) && (r is Ok ==> final(self).done(old(self).cursor as int)),
        },
        io_rel(old(self).tf(), final(self).tf(), r), // [C23]
//@ fn Editor::clear [C08]
//@ spec
    requires old(self).wf()
    ensures final(self).keeps(old(self)) && final(self).same_hint(old(self)) && final(self).text() == old(self).text() && final(self).eul() == old(self).eul() && final(self).erl() == old(self).erl(), // [C09,C10]
        r is Ok ==> !final(self).searching() && final(self).done(old(self).cursor as int), // [C08]
        io_rel(old(self).tf(), final(self).tf(), r), // [C23]
//@ fn Editor::undo [C09]
//@ spec
    requires old(self).wf()
    ensures final(self).keeps(old(self)) && final(self).same_search(old(self)) && final(self).same_hint(old(self)) && final(self).same_browse(old(self)), // [C09,C10]
        final(self).eul() == undo_stop(old(self).eul(), 0, false), final(self).erl() == old(self).erl() + rev(old(self).eul().subrange(final(self).eul().len() as int, old(self).eul().len() as int)), // [C09]
        final(self).text() == undo_to(old(self).eul(), final(self).eul().len() as int, old(self).text()), // [C09]
        r is Ok ==> r->Ok_0 == (old(self).eul().len() > 0), // [C09]
        r is Ok && r->Ok_0 ==> final(self).done(final(self).text().len() as int), // [C08,C09]
        r is Ok && !r->Ok_0 ==> final(self).done(old(self).cursor as int) && final(self).text() == old(self).text(), // [C08,C09]
        io_rel(old(self).tf(), final(self).tf(), r), // [C23]
//@ fn Editor::redo [C09]
//@ spec
    requires old(self).wf()
    ensures final(self).keeps(old(self)) && final(self).same_search(old(self)) && final(self).same_hint(old(self)) && final(self).same_browse(old(self)), // [C09,C10]
        final(self).erl() == redo_stop(old(self).erl(), 0, false), final(self).eul() == old(self).eul() + rev(old(self).erl().subrange(final(self).erl().len() as int, old(self).erl().len() as int)), // [C09]
        final(self).text() == redo_to(old(self).erl(), final(self).erl().len() as int, old(self).text()), // [C09]
        r is Ok ==> r->Ok_0 == (old(self).erl().len() > 0), // [C09]
        r is Ok && r->Ok_0 ==> final(self).done(final(self).text().len() as int), // [C08,C09]
        r is Ok && !r->Ok_0 ==> final(self).done(old(self).cursor as int) && final(self).text() == old(self).text(), // [C08,C09]
        io_rel(old(self).tf(), final(self).tf(), r), // [C23]
//@ fn Editor::revert [C09]
//@ spec
    requires old(self).wf()
    ensures final(self).keeps(old(self)) && final(self).same_search(old(self)) && final(self).same_hint(old(self)) && final(self).same_browse(old(self)), // [C09,C10]
        final(self).eul().len() == 0, final(self).text() == origin(old(self).eul(), old(self).text()), // [C09]
        r is Ok ==> r->Ok_0 == (old(self).eul().len() > 0), // [C09]
        r is Ok && r->Ok_0 ==> final(self).done(final(self).text().len() as int), // [C08,C09]
        r is Ok && !r->Ok_0 ==> final(self).done(old(self).cursor as int) && final(self).text() == old(self).text(), // [C08,C09]
        io_rel(old(self).tf(), final(self).tf(), r), // [C23]
//@ fn Editor::flush [C23]
//@ spec
    requires true
    ensures io_rel(old(self).tf(), final(self).tf(), r), final(self).but_cursor(old(self)), final(self).cursor == old(self).cursor, final(self).term_cursor_line == old(self).term_cursor_line, // [C23]
//@ fn Editor::skip_completions_hint
//@ spec
    ensures *final(self) == (Editor { show_completions_hint: None, ..*old(self) }), // [C12,C13]
//@ fn Editor::set_vi_mode [C16]
//@ spec
    ensures *final(self) == (Editor { prompt: final(self).prompt, ..*old(self) }), final(self).prompt.prompt == old(self).prompt.prompt, // [C16]
        match old(self).prompt.vi_status { Some(s) => final(self).prompt.vi_status == Some(ViStatus { mode, ..s }), None => final(self).prompt.vi_status is None }, // [C16]
//@ fn Editor::set_prompt [C16]
//@ spec
    ensures *final(self) == (Editor { prompt: final(self).prompt, ..*old(self) }), final(self).prompt.prompt == prompt.prompt, // [C16]
        (match (prompt.vi_status, old(self).prompt.vi_status) { (Some(s), Some(o)) => final(self).prompt.vi_status == Some(ViStatus { mode: o.mode, ..s }), (s, _) => final(self).prompt.vi_status == s }), // [C16]
//@ fn Editor::context_mut
//@ spec
    ensures *r == old(self).context, *final(self) == (Editor { context: *final(r), ..*old(self) }),
//@ fn Editor::take_exec_buffer
//@ at tail
proof {
    assert(self.text() =~= Seq::<char>::empty());
    if self.autosuggestion is Some { assert(self.autosuggestion->0@.subrange(0, 0) =~= Seq::<char>::empty()); }
}
//@ replace mem::take(cur_buf_mut!(self)).into() =>> vx_take_buf(cur_buf_mut!(self))
//@ spec
    requires old(self).wf()
    ensures r@ == old(self).text(), // [C13]
        final(self).wf(), final(self).text().len() == 0, final(self).keeps(old(self)), // [C08,C10]
//@ fn Editor::accept_autosuggestion [C14]
//@ spec
    requires old(self).wf()
    ensures final(self).keeps(old(self)) && final(self).same_hint(old(self)) && !final(self).searching(), // [C10,C11]
        final(self).text() == old(self).accepted(), // [C11,C14]
        r is Ok ==> final(self).done(old(self).accepted().len() as int), // [C11,C14]
        io_rel(old(self).tf(), final(self).tf(), r), // [C23]
//@ fn Editor::handle_newline [C13]
//@ spec
    requires old(self).wf()
    ensures
        r is Ok ==> final(self).show_completions_hint is None && !final(self).searching() && final(self).wf(), // [C13]
        r is Ok && r->Ok_0 ==> old(self).show_completions_hint is None && final(self).text() == old(self).entered() // [C13]
            && !(0 < old(self).entered_at() && old(self).entered()[old(self).entered_at() - 1] == '\\'), // [C13]
        r is Ok && !r->Ok_0 && old(self).show_completions_hint is Some ==> final(self).text() == old(self).entered(), // [C13]
        r is Ok && !r->Ok_0 && old(self).show_completions_hint is None ==> 0 < old(self).entered_at() && old(self).entered()[old(self).entered_at() - 1] == '\\' // [C13]
            && final(self).text() == splice_in(old(self).entered(), old(self).entered_at(), seq!['\n']) && final(self).done(old(self).entered_at() + 1), // [C13]
        final(self).h() == old(self).h(), // [C10]
        final(self).context.wds() == old(self).context.wds(), final(self).context.kb() == old(self).context.kb(), final(self).no_eol == old(self).no_eol, final(self).prompt == old(self).prompt,
        r is Ok && old(self).live() ==> final(self).live(), // [C08]
        io_rel(old(self).tf(), final(self).tf(), r), // [C23]
//@ fn Editor::search [C11]
//@ at start
broadcast use crate::vx::lemma_mod_wrap;
//@ spec
    requires old(self).wf()
    ensures
        r is Ok ==> final(self).wf() && final(self).sugg_rel() && final(self).searching(), // [C08,C11]
        !old(self).searching() && !old(self).stale() ==> final(self).searched(old(self), forward), // [C11]
        !old(self).searching() ==> final(self).forward_search == forward && final(self).history_subset_index@ == final(self).matches(), // [C11]
        old(self).searching() && !old(self).buffer_changed ==> final(self).stepped(old(self), forward) && final(self).same_search(old(self)), // [C11]
        old(self).searching() ==> final(self).text() == old(self).text() && final(self).eul() == old(self).eul() && final(self).erl() == old(self).erl(), // [C10,C11]
        final(self).new_buf == old(self).new_buf, final(self).cur_history_loc is None, // [C10,C11]
        !old(self).stale() || old(self).searching() ==> final(self).h() == old(self).h(), // [C10]
        final(self).context.wds() == old(self).context.wds(), final(self).context.kb() == old(self).context.kb(), final(self).no_eol == old(self).no_eol, final(self).prompt == old(self).prompt, final(self).same_hint(old(self)),
        r is Ok ==> final(self).cursor == clampc(final(self).no_eol, old(self).cursor as int, final(self).text().len() as int), // [C08]
        io_rel(old(self).tf(), final(self).tf(), r), // [C23]
//@ fn Editor::move_up [C10]
//@ at start
broadcast use crate::vx::lemma_mod_wrap;
//@ at before call move_cursor_to_end_of_line#1
proof { crate::vx_ax::ax_deque_len(&self.context.h().buffers); lemma_subset(self.h().t(), self.new_buf@); }
//@ spec
    requires old(self).wf()
    ensures
        r is Ok ==> final(self).wf() && final(self).sugg_rel(), // [C08,C10]
        !old(self).stale() && !old(self).searching() ==> final(self).moved(old(self)) && final(self).up_from(old(self)), // [C10]
        !old(self).searching() && r is Ok ==> final(self).done(final(self).text().len() as int), // [C10]
        !old(self).searching() ==> !final(self).hist_buf_valid && final(self).new_buf == old(self).new_buf, // [C10]
        old(self).searching() && !old(self).buffer_changed ==> final(self).stepped(old(self), false) && final(self).same_search(old(self)), // [C11]
        old(self).searching() ==> final(self).new_buf == old(self).new_buf && final(self).h() == old(self).h(), // [C10,C11]
        final(self).context.wds() == old(self).context.wds(), final(self).context.kb() == old(self).context.kb(), final(self).no_eol == old(self).no_eol, final(self).prompt == old(self).prompt, final(self).same_hint(old(self)),
        r is Ok ==> final(self).live(), // [C08]
        io_rel(old(self).tf(), final(self).tf(), r), // [C23]
//@ fn Editor::move_down [C10]
//@ at start
broadcast use crate::vx::lemma_mod_wrap;
//@ spec
    requires old(self).wf()
    ensures
        r is Ok ==> final(self).wf() && final(self).sugg_rel(), // [C08,C10]
        !old(self).searching() ==> final(self).moved(old(self)) && final(self).down_from(old(self)), // [C10]
        !old(self).searching() && r is Ok ==> final(self).done(final(self).text().len() as int), // [C10]
        !old(self).searching() ==> !final(self).hist_buf_valid && final(self).new_buf == old(self).new_buf, // [C10]
        old(self).searching() && !old(self).buffer_changed ==> final(self).stepped(old(self), true) && final(self).same_search(old(self)), // [C11]
        old(self).searching() ==> final(self).new_buf == old(self).new_buf && final(self).h() == old(self).h(), // [C10,C11]
        final(self).context.wds() == old(self).context.wds(), final(self).context.kb() == old(self).context.kb(), final(self).no_eol == old(self).no_eol, final(self).prompt == old(self).prompt, final(self).same_hint(old(self)),
        r is Ok ==> final(self).live(), // [C08]
        io_rel(old(self).tf(), final(self).tf(), r), // [C23]
//@ fn Editor::move_to_start_of_history [C10]
//@ spec
    requires old(self).wf()
    ensures
        r is Ok ==> final(self).wf() && final(self).sugg_rel(), // [C08,C10]
        !final(self).hist_buf_valid && final(self).new_buf == old(self).new_buf && final(self).h() == old(self).h(), // [C10]
        final(self).cur_history_loc == (if old(self).h().t().len() > 0 { Some(0usize) } else { None }), // [C10]
        old(self).h().t().len() > 0 && r is Ok ==> !final(self).searching() && final(self).done(final(self).text().len() as int), // [C10]
        final(self).context.wds() == old(self).context.wds(), final(self).context.kb() == old(self).context.kb(), final(self).no_eol == old(self).no_eol, final(self).prompt == old(self).prompt, final(self).same_hint(old(self)),
        r is Ok ==> final(self).live(), // [C08]
        io_rel(old(self).tf(), final(self).tf(), r), // [C23]
//@ fn Editor::move_to_end_of_history [C10]
//@ spec
    requires old(self).wf()
    ensures
        r is Ok ==> final(self).wf() && final(self).sugg_rel(), // [C08,C10]
        !final(self).hist_buf_valid && final(self).new_buf == old(self).new_buf && final(self).h() == old(self).h(), // [C10]
        final(self).cur_history_loc is None, // [C10]
        old(self).cur_history_loc is Some && r is Ok ==> final(self).done(final(self).text().len() as int) && (!final(self).searching() ==> final(self).history_subset_loc is None), // [C10]
        final(self).context.wds() == old(self).context.wds(), final(self).context.kb() == old(self).context.kb(), final(self).no_eol == old(self).no_eol, final(self).prompt == old(self).prompt, final(self).same_hint(old(self)),
        r is Ok ==> final(self).live(), // [C08]
        io_rel(old(self).tf(), final(self).tf(), r), // [C23]
//@ end
