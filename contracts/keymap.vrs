//@ uses
use vstd::prelude::*;
use crate::vx::*;
use crate::vxio as io;
use crate::vxio::{ErrorKind, io_rel, size_err};
use crate::vxkey::Key;
use crate::buffer::*;
use crate::history::*;
use crate::context::*;
use crate::complete::*;
use crate::editor::*;
//@ prelude
/// the mode the prompt shows
pub open spec fn shown(p: Prompt) -> Option<ViPromptMode> { match p.vi_status { Some(s) => Some(s.mode), None => None } }
/// as io_rel, but the line may also be ended with `k` without a terminal failure
pub open spec fn ends_with<T>(o: Seq<ErrorKind>, n: Seq<ErrorKind>, r: io::Result<T>, k: ErrorKind) -> bool {
    match r { Ok(_) => false, Err(e) => n == o.push(e.k) || (n == o && (e.k == k || size_err(e.k))) }
}
/// what a key may do to the line and how it may end it (C13): a is the editor before, b after
pub open spec fn key_rel<C: EditorContext>(key: Key, a: Editor<C>, b: Editor<C>, r: io::Result<bool>) -> bool {
    match key {
        Key::Ctrl('c') => r is Err,
        Key::Ctrl('d') if a.text().len() == 0 => r is Err,
        Key::Char('\n') => r is Ok ==> newline_rel(a, b, r->Ok_0),
        _ => r is Ok ==> !(r->Ok_0),
    }
}
/// what Enter does
pub open spec fn newline_rel<C: EditorContext>(a: Editor<C>, b: Editor<C>, done: bool) -> bool {
    let escaped = 0 < a.entered_at() && a.entered()[a.entered_at() - 1] == '\\';
    &&& done == (a.show_completions_hint is None && !escaped)
    &&& b.show_completions_hint is None && !b.searching() && b.h() == a.h()
    &&& done ==> b.text() == a.entered()
    &&& a.show_completions_hint is Some ==> b.text() == a.entered()
    &&& a.show_completions_hint is None && escaped ==> b.text() == splice_in(a.entered(), a.entered_at(), seq!['\n']) && b.cursor == a.entered_at() + 1 - (if b.no_eol && a.entered_at() == a.entered().len() { 1int } else { 0 })
}
/// what handle_key did to the terminal
pub open spec fn key_io(key: Key, empty: bool, o: Seq<ErrorKind>, n: Seq<ErrorKind>, r: io::Result<bool>) -> bool {
    match key {
        Key::Ctrl('c') => ends_with(o, n, r, ErrorKind::Interrupted),
        Key::Ctrl('d') if empty => ends_with(o, n, r, ErrorKind::UnexpectedEof),
        _ => io_rel(o, n, r),
    }
}
//@ replace KeyMap: Default =>> KeyMap: Sized
//@ replace handler.on_event(Event::new(editor, EventKind::BeforeKey(key))) =>> handler.vx_on_event(editor)
//@ replace handler.on_event(Event::new(editor, EventKind::AfterKey(key))) =>> handler.vx_on_event(editor)
//@ implx trait KeyMap
    /// the invariant of the key map; it depends on the editor's Vi normal mode flag and the mode shown in the prompt
    spec fn kmi(&self, no_eol: bool, shown: Option<ViPromptMode>) -> bool;
    /// what holds before init
    spec fn kms(&self, no_eol: bool) -> bool;
//@ fn trait KeyMap::handle_key_core [C08,C23]
//@ spec
    requires old(self).kmi(old(editor).no_eol, shown(old(editor).prompt)), old(editor).live()
    ensures r is Ok ==> final(editor).live() && final(self).kmi(final(editor).no_eol, shown(final(editor).prompt)), // [C08]
        final(editor).same_env(old(editor)), // [C10]
        io_rel(old(editor).tf(), final(editor).tf(), r), // [C23]
//@ fn trait KeyMap::init [C08,C23]
//@ decl
//@ spec
    requires old(self).kms(old(_editor).no_eol), old(_editor).live()
    ensures r is Ok ==> final(_editor).live() && final(self).kmi(final(_editor).no_eol, shown(final(_editor).prompt)) && final(_editor).text() == old(_editor).text(), // [C08]
        final(_editor).same_env(old(_editor)), // [C10]
        io_rel(old(_editor).tf(), final(_editor).tf(), r), // [C23]
//@ fn trait KeyMap::handle_key [C08,C13,C23]
//@ replace mut key: Key =>> key0: Key
//@ at start
let mut key = key0;
let ghost vx_o = *editor;
//@ spec
    requires old(self).kmi(old(editor).no_eol, shown(old(editor).prompt)), old(editor).live()
    ensures r is Ok ==> final(editor).live() && final(self).kmi(final(editor).no_eol, shown(final(editor).prompt)), // [C08]
        key_rel(key0, *old(editor), *final(editor), r), // [C13]
        final(editor).same_env(old(editor)), // [C10]
        key_io(key0, old(editor).text().len() == 0, old(editor).tf(), final(editor).tf(), r), // [C13,C23]
//@ end
