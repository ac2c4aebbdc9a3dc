//@ uses
use vstd::prelude::*;
use crate::vx::*;
use crate::vxio as io;
use crate::vxio::{ErrorKind, io_rel};
use crate::vxkey::Key;
use crate::buffer::*;
use crate::history::*;
use crate::context::*;
use crate::editor::*;
use crate::keymap::*;
//@ prelude
// ---------------------------------------------------------------- words
/// the first word that ends behind c
pub open spec fn next_word(ws: Words, c: int, k: int) -> bool { 0 <= k < ws.len() && c < ws[k].1 && forall |j: int| 0 <= j < k ==> (#[trigger] ws[j]).1 <= c }
/// the last word that starts before c
pub open spec fn prev_word(ws: Words, c: int, k: int) -> bool { 0 <= k < ws.len() && ws[k].0 < c && forall |j: int| k < j < ws.len() ==> c <= (#[trigger] ws[j]).0 }
/// where Alt-F goes: the end of the first word that ends behind the cursor
pub open spec fn word_right(ws: Words, c: int) -> int { if exists |k: int| #[trigger] next_word(ws, c, k) { ws[choose |k: int| #[trigger] next_word(ws, c, k)].1 as int } else { c } }
/// where Alt-B goes: the start of the last word that starts before the cursor
pub open spec fn word_left(ws: Words, c: int) -> int { if exists |k: int| #[trigger] prev_word(ws, c, k) { ws[choose |k: int| #[trigger] prev_word(ws, c, k)].0 as int } else { c } }
pub proof fn lemma_next_word(ws: Words, n: int, c: int, k: int)
    requires words_ok(ws, n), next_word(ws, c, k) ensures word_right(ws, c) == ws[k].1
{ let j = choose |j: int| #[trigger] next_word(ws, c, j); assert(next_word(ws, c, j)); assert(j == k); }
pub proof fn lemma_prev_word(ws: Words, n: int, c: int, k: int)
    requires words_ok(ws, n), prev_word(ws, c, k) ensures word_left(ws, c) == ws[k].0
{ let j = choose |j: int| #[trigger] prev_word(ws, c, j); assert(prev_word(ws, c, j)); assert(j == k); }
/// the classification of the cursor determines both
pub proof fn lemma_word_target(ws: Words, n: int, c: int, pos: CursorPosition)
    requires words_ok(ws, n), cpos_rel(c, ws, pos)
    ensures
        word_right(ws, c) == (match pos {
            CursorPosition::InWord(i) => ws[i as int].1 as int,
            CursorPosition::OnWordLeftEdge(i) => ws[i as int].1 as int,
            CursorPosition::OnWordRightEdge(i) => if i + 1 < ws.len() { ws[i + 1].1 as int } else { c },
            CursorPosition::InSpace(_, Some(j)) => ws[j as int].1 as int,
            CursorPosition::InSpace(_, None) => c,
        }), // [C20]
        word_left(ws, c) == (match pos {
            CursorPosition::InWord(i) => ws[i as int].0 as int,
            CursorPosition::OnWordLeftEdge(i) => if i > 0 { ws[i - 1].0 as int } else { c },
            CursorPosition::OnWordRightEdge(i) => ws[i as int].0 as int,
            CursorPosition::InSpace(Some(j), _) => ws[j as int].0 as int,
            CursorPosition::InSpace(None, _) => c,
        }), // [C20]
{
    lemma_cpos_index(c, ws, n, pos);
    let r: int = match pos {
        CursorPosition::InWord(i) => i as int, CursorPosition::OnWordLeftEdge(i) => i as int, CursorPosition::OnWordRightEdge(i) => i + 1,
        CursorPosition::InSpace(_, Some(j)) => j as int, CursorPosition::InSpace(_, None) => ws.len() as int };
    assert forall |j: int| 0 <= j < r && j < ws.len() implies (#[trigger] ws[j]).1 <= c by {
        if r < ws.len() { assert(ws[j].1 <= ws[r].0); }
        match pos { CursorPosition::OnWordRightEdge(i) => { if j < i { assert(ws[j].1 <= ws[i as int].0); } }
            CursorPosition::InSpace(Some(i), _) => { if j < i { assert(ws[j].1 <= ws[i as int].0); assert(ws[i as int].0 < ws[i as int].1); } }
            _ => {} }
    }
    if r < ws.len() {
        match pos { CursorPosition::OnWordRightEdge(i) => { assert(ws[i as int].1 <= ws[r].0); } _ => {} }
        assert(ws[r].0 < ws[r].1);
        assert(next_word(ws, c, r)); lemma_next_word(ws, n, c, r);
    } else {
        assert forall |k: int| !(#[trigger] next_word(ws, c, k)) by {}
    }
    let l: int = match pos {
        CursorPosition::InWord(i) => i as int, CursorPosition::OnWordLeftEdge(i) => i - 1, CursorPosition::OnWordRightEdge(i) => i as int,
        CursorPosition::InSpace(Some(j), _) => j as int, CursorPosition::InSpace(None, _) => -1 };
    assert forall |j: int| l < j < ws.len() implies c <= (#[trigger] ws[j]).0 by {
        if l >= 0 { assert(ws[l].1 <= ws[j].0); }
        match pos { CursorPosition::OnWordLeftEdge(i) => { if i < j { assert(ws[i as int].1 <= ws[j].0); } }
            CursorPosition::InSpace(_, Some(i)) => { if i < j { assert(ws[i as int].1 <= ws[j].0); } }
            _ => {} }
    }
    if l >= 0 {
        match pos { CursorPosition::OnWordLeftEdge(i) => {} _ => {} }
        assert(ws[l].0 < ws[l].1);
        assert(prev_word(ws, c, l)); lemma_prev_word(ws, n, c, l);
    } else {
        assert forall |k: int| !(#[trigger] prev_word(ws, c, k)) by {}
    }
}

// ---------------------------------------------------------------- what each key does (C20)
pub open spec fn moves<C: EditorContext>(a: Editor<C>, b: Editor<C>, ok: bool, c: int) -> bool { b.redisplayed(&a) && (ok ==> b.done(c)) }
pub open spec fn cuts<C: EditorContext>(a: Editor<C>, b: Editor<C>, ok: bool, i: int, j: int) -> bool {
    b.edited(&a, splice_out(a.text(), i, j), a.eul().push(rem_of(a.text(), i, j))) && (ok ==> b.done(i))
}
pub open spec fn nothing_cut<C: EditorContext>(a: Editor<C>, b: Editor<C>, ok: bool) -> bool { b.same_text(&a) && (ok ==> b.done(a.cursor as int)) }
/// the last argument of a line (nothing for a line without one)
pub open spec fn last_arg_of(s: Seq<char>) -> Seq<char> { if args_of(s).len() > 0 { args_of(s).last() } else { Seq::empty() } }
pub fn vx_chars_eq(a: &[char], b: &[char]) -> (r: bool) ensures r == (a@ == b@)
{
    if a.len() != b.len() { return false; }
    let mut i = 0;
    while i < a.len()
        invariant i <= a@.len(), a@.len() == b@.len(), forall |k: int| 0 <= k < i ==> a@[k] == b@[k],
        decreases a@.len() - i
    { if a[i] != b[i] { return false; } i += 1; }
    assert(a@ =~= b@);
    true
}
pub fn vx_or_none<'a>(a: Option<&'a [char]>) -> (r: &'a [char]) ensures r@ == (match a { Some(x) => x@, None => Seq::empty() })
{ match a { Some(x) => x, None => { let e: &'a [char] = &[]; assert(e@ =~= Seq::empty()); e } } }
impl Emacs {
    /// the argument fetched last still stands before the cursor
    pub open spec fn in_place<C: EditorContext>(&self, a: Editor<C>) -> bool {
        self.last_arg_fetch_index is Some && self.last_arg_fetch_index->0 < a.h().t().len() && self.last_arg_fetch_start <= a.cursor
            && a.text().subrange(self.last_arg_fetch_start as int, a.cursor as int) == last_arg_of(a.h().t()[(self.last_arg_fetch_index->0) as int])
    }
    /// Alt-.
    pub open spec fn fetches<C: EditorContext>(&self, o: &Self, a: Editor<C>, b: Editor<C>, ok: bool) -> bool {
        if a.h().t().len() == 0 || (o.in_place(a) && o.last_arg_fetch_index == Some(0usize)) { b == a && *self == *o }
        else {
            let i = if o.in_place(a) { (o.last_arg_fetch_index->0) - 1 } else { match a.cur_history_loc { Some(i) => i as int, None => a.h().t().len() - 1 } };
            let st = if o.in_place(a) { o.last_arg_fetch_start as int } else { a.cursor as int };
            let x = last_arg_of(a.h().t()[i]);
            ok ==> b.keeps(&a) && b.text() == splice_in(splice_out(a.text(), st, a.cursor as int), st, x) && b.cursor == st + x.len()
                && self.last_arg_fetch_index == Some(i as usize) && self.last_arg_fetch_start == st
        }
    }
    pub open spec fn acts<C: EditorContext>(&self, o: &Self, key: Key, a: Editor<C>, b: Editor<C>, ok: bool) -> bool {
        match key {
            Key::Char(c) => b.edited(&a, splice_in(a.text(), a.cursor as int, seq![c]), a.eul().push(AV::Ins(a.cursor as nat, seq![c]))) && (ok ==> b.done(a.cursor + 1)),
            Key::Ctrl('a') | Key::Home => moves(a, b, ok, 0),
            Key::Ctrl('e') | Key::End => moves(a, b, ok, a.text().len() as int),
            Key::Ctrl('b') | Key::Left => moves(a, b, ok, imax(a.cursor - 1, 0)),
            Key::Ctrl('f') | Key::Right => moves(a, b, ok, a.cursor + 1),
            Key::Alt('f') => moves(a, b, ok, word_right(a.words(), a.cursor as int)) || (b == a && word_right(a.words(), a.cursor as int) == a.cursor),
            Key::Alt('b') => moves(a, b, ok, word_left(a.words(), a.cursor as int)) || (b == a && word_left(a.words(), a.cursor as int) == a.cursor),
            Key::Ctrl('d') | Key::Delete => if a.cursor < a.text().len() { cuts(a, b, ok, a.cursor as int, a.cursor + 1) } else { nothing_cut(a, b, ok) },
            Key::Backspace => if a.cursor > 0 { cuts(a, b, ok, a.cursor - 1, a.cursor as int) } else { b.same_text(&a) && (ok ==> b.done(0)) },
            Key::Ctrl('k') => b.edited(&a, a.text().subrange(0, a.cursor as int), a.eul().push(rem_of(a.text(), a.cursor as int, a.text().len() as int))) && (ok ==> b.done(a.cursor as int)),
            Key::Ctrl('u') => cuts(a, b, ok, 0, a.cursor as int),
            Key::Ctrl('w') | Key::Alt('\x7F') => match a.wb(true) { Some(w) => cuts(a, b, ok, w.0 as int, a.cursor as int), None => nothing_cut(a, b, ok) },
            Key::Ctrl('l') => b.keeps(&a) && b.text() == a.text() && b.eul() == a.eul() && b.erl() == a.erl() && (ok ==> b.done(a.cursor as int)),
            Key::Ctrl('x') => b.keeps(&a) && b.eul() == undo_stop(a.eul(), 0, false) && b.text() == undo_to(a.eul(), b.eul().len() as int, a.text()),
            Key::Alt('r') => b.keeps(&a) && b.text() == origin(a.eul(), a.text()) && b.eul().len() == 0,
            Key::Ctrl('p') | Key::Up => !a.searching() ==> b.new_buf == a.new_buf && !b.hist_buf_valid && (!a.stale() ==> b.up_from(&a)) && (ok ==> b.done(b.text().len() as int)),
            Key::Ctrl('n') | Key::Down => !a.searching() ==> b.new_buf == a.new_buf && !b.hist_buf_valid && b.down_from(&a) && (ok ==> b.done(b.text().len() as int)),
            Key::Alt('<') => b.new_buf == a.new_buf && b.cur_history_loc == (if a.h().t().len() > 0 { Some(0usize) } else { None }) && !b.hist_buf_valid,
            Key::Alt('>') => b.new_buf == a.new_buf && b.cur_history_loc is None,
            Key::Alt('.') => self.fetches(o, a, b, ok),
            _ => b == a,
        }
    }
}
//@ drop Default for Emacs
//@ derive EmacsMoveDir: PartialEq, Eq, Structural, Clone, Copy
//@ replace words.nth(i).unwrap() =>> words.nth(i).unwrap()
//@ fn Emacs::new
//@ replace Self::default() =>> Emacs { last_arg_fetch_index: None, last_arg_fetch_start: 0 }
//@ spec
    ensures r.last_arg_fetch_index is None
//@ fn Emacs::handle_ctrl_key [C20]
//@ spec
    requires old(ed).live(), !old(ed).no_eol
    ensures r is Ok ==> final(ed).live() && !final(ed).no_eol, // [C08]
        final(ed).same_env(old(ed)), // [C10]
        final(self).acts(old(self), Key::Ctrl(c), *old(ed), *final(ed), r is Ok), // [C20]
        *final(self) == *old(self), // [C20]
        io_rel(old(ed).tf(), final(ed).tf(), r), // [C23]
//@ fn Emacs::handle_alt_key [C20]
//@ spec
    requires old(ed).live(), !old(ed).no_eol
    ensures r is Ok ==> final(ed).live() && !final(ed).no_eol, // [C08]
        final(ed).same_env(old(ed)), // [C10]
        final(self).acts(old(self), Key::Alt(c), *old(ed), *final(ed), r is Ok), // [C20]
        c != '.' ==> *final(self) == *old(self), // [C20]
        io_rel(old(ed).tf(), final(ed).tf(), r), // [C23]
//@ fn Emacs::handle_last_arg_fetch [C20]
//@ replace &inserted[..] == ed.context().history()[x].last_arg().unwrap_or(&[]) =>> vx_chars_eq(&inserted[..], vx_or_none(ed.context().history().index(x).last_arg()))
//@ at before call clone#1
proof {
    assert(splice_out(old(ed).text(), old(ed).cursor as int, old(ed).cursor as int) =~= old(ed).text());
    assert(splice_in(ed.text(), ed.cursor as int, Seq::empty()) =~= ed.text());
}
//@ replace ed.context().history()[history_index].clone() =>> ed.context().history().index(history_index).clone()
//@ spec
    requires old(ed).live(), !old(ed).no_eol
    ensures r is Ok ==> final(ed).live() && !final(ed).no_eol, // [C08]
        final(ed).same_env(old(ed)), // [C10]
        final(self).fetches(old(self), *old(ed), *final(ed), r is Ok), // [C20]
        io_rel(old(ed).tf(), final(ed).tf(), r), // [C23]
//@ implx KeyMap for Emacs
    open spec fn kmi(&self, no_eol: bool, shown: Option<ViPromptMode>) -> bool { !no_eol }
    open spec fn kms(&self, no_eol: bool) -> bool { !no_eol }
//@ inherit KeyMap for Emacs : KeyMap init keymap/mod.rs
//@ fn KeyMap for Emacs::init [C08,C20]
//@ spec
    ensures r is Ok ==> *final(self) == *old(self) && *final(_editor) == *old(_editor), // [C20]
//@ fn KeyMap for Emacs::handle_key_core [C20]
//@ spec
    ensures final(self).acts((if key == Key::Alt('.') { old(self) } else { &Emacs { last_arg_fetch_index: None, ..*old(self) } }), key, *old(ed), *final(ed), r is Ok), // [C20]
        key != Key::Alt('.') ==> final(self).last_arg_fetch_index is None, // [C20]
//@ end
//@ fn emacs_move_word [C20]
//@ at after let words
proof { lemma_word_target(old(ed).words(), old(ed).text().len() as int, old(ed).cursor as int, pos); }
//@ spec
    requires old(ed).live(), !old(ed).no_eol
    ensures r is Ok ==> final(ed).live() && !final(ed).no_eol, // [C08]
        final(ed).same_env(old(ed)), // [C10]
        ({ let t = if direction == EmacsMoveDir::Left { word_left(old(ed).words(), old(ed).cursor as int) } else { word_right(old(ed).words(), old(ed).cursor as int) };
           moves(*old(ed), *final(ed), r is Ok, t) || (*final(ed) == *old(ed) && t == old(ed).cursor) }), // [C20]
        io_rel(old(ed).tf(), final(ed).tf(), r), // [C23]
//@ end
