//@ uses
use vstd::prelude::*;
use crate::vx::*;
use crate::vxio as io;
use crate::vxio::{ErrorKind, io_rel};
use crate::vxkey::Key;
use crate::buffer::*;
use crate::history::*;
use crate::context::*;
use crate::complete::*;
use crate::editor::*;
use crate::keymap::*;
mod keymap { pub use crate::keymap::emacs::Emacs; pub use crate::keymap::vi::Vi; pub use crate::keymap::KeyMap; }
//@ only
//@ prelude
use std::collections::VecDeque;
/// std: `&mut d[i]` of a VecDeque
#[verifier::external_body]
pub fn vx_at_mut<T>(d: &mut VecDeque<T>, i: usize) -> (r: &mut T)
    requires i < old(d)@.len()
    ensures *r == old(d)@[i as int], final(d)@ == old(d)@.update(i as int, *final(r))
{ &mut d[i] }
/// one key that did not end the line: the editor when the key was read, and after the key
pub ghost struct KeyStep<C: EditorContext> { pub key: Key, pub before: Editor<C>, pub after: Editor<C> }
/// waiting for a key: only the terminal moves on, and it did not fail
pub open spec fn waits<C: EditorContext>(a: Editor<C>, b: Editor<C>) -> bool {
    &&& b == (Editor { context: b.context, ..a })
    &&& b.context.h() == a.context.h() && b.context.wds() == a.context.wds() && b.context.kb() == a.context.kb()
    &&& b.tf() == a.tf()
}
/// one step of a session
pub open spec fn step_ok<C: EditorContext>(s: KeyStep<C>) -> bool {
    &&& s.before.live() && s.after.live()
    &&& key_rel(s.key, s.before, s.after, Ok(false))
    &&& s.after.same_env(&s.before)
    &&& s.after.tf() == s.before.tf()
}
/// the editor before the step i
pub open spec fn at_step<C: EditorContext>(e: Editor<C>, st: Seq<KeyStep<C>>, i: int) -> Editor<C> { if i <= 0 || i > st.len() { e } else { st[i - 1].after } }
/// a session from e: any number of keys
pub open spec fn run_ok<C: EditorContext>(e: Editor<C>, st: Seq<KeyStep<C>>) -> bool {
    forall |i: int| 0 <= i < st.len() ==> step_ok(#[trigger] st[i]) && waits(at_step(e, st, i), st[i].before)
}
/// the editor behind the last step
pub open spec fn run_end<C: EditorContext>(e: Editor<C>, st: Seq<KeyStep<C>>) -> Editor<C> { at_step(e, st, st.len() as int) }
/// Enter ends the line
pub open spec fn line_entered<C: EditorContext>(e: Editor<C>) -> bool {
    e.show_completions_hint is None && !(0 < e.entered_at() && e.entered()[e.entered_at() - 1] == '\\')
}
/// the line s that a session from e returns: what was entered, or what was typed when the input ended
pub open spec fn returns_line<C: EditorContext>(e: Editor<C>, st: Seq<KeyStep<C>>, s: Seq<char>) -> bool {
    let z = run_end(e, st);
    s == z.text() || (line_entered(z) && s == z.entered())
}
/// the first editor of a session: the key map has been initialised
pub open spec fn starts<C: EditorContext>(ed: Editor<C>, e: Editor<C>) -> bool { e.live() && e.text() == ed.text() && e.same_env(&ed) && e.tf() == ed.tf() }
pub open spec fn session_line<C: EditorContext>(ed: Editor<C>, s: Seq<char>) -> bool {
    exists |e: Editor<C>, st: Seq<KeyStep<C>>| starts(ed, e) && #[trigger] run_ok(e, st) && returns_line(e, st, s)
}
/// the editor that read_line starts with
pub open spec fn fresh_editor<C: EditorContext>(c: C, t: Seq<char>, e: Editor<C>) -> bool {
    e.live() && e.text() == t && e.cursor == t.len() && e.cur_history_loc is None && !e.searching() && !e.no_eol && e.h() == c.h() && e.tf() == c.term().failed()
}
pub open spec fn read_line_rel<C: EditorContext>(c: C, t: Seq<char>, s: Seq<char>) -> bool { exists |e: Editor<C>| fresh_editor(c, t, e) && #[trigger] session_line(e, s) }

/*VXB session::theorem_run [C10,C13,C23]*/
/// over any number of keys: every state is sound, no terminal operation failed, neither Ctrl-C nor Ctrl-D on an empty
/// line was among the keys, and without history sharing the stored history is untouched
pub proof fn theorem_run<C: EditorContext>(e: Editor<C>, st: Seq<KeyStep<C>>, i: int)
    requires run_ok(e, st), e.live(), 0 <= i <= st.len()
    ensures at_step(e, st, i).live(), // [C08]
        at_step(e, st, i).tf() == e.tf(), // [C23]
        at_step(e, st, i).context.kb() == e.context.kb(),
        !e.h().share ==> at_step(e, st, i).h() == e.h(), // [C10]
        i < st.len() ==> st[i].key != Key::Ctrl('c') && (st[i].key == Key::Ctrl('d') ==> st[i].before.text().len() > 0), // [C13]
    decreases i
{
    if i > 0 { theorem_run(e, st, i - 1); assert(step_ok(st[i - 1])); assert(waits(at_step(e, st, i - 1), st[i - 1].before)); }
    if i < st.len() { assert(step_ok(st[i])); }
}
/*VXE*/
pub proof fn lemma_run_push<C: EditorContext>(e: Editor<C>, st: Seq<KeyStep<C>>, s: KeyStep<C>)
    requires run_ok(e, st), step_ok(s), waits(run_end(e, st), s.before)
    ensures run_ok(e, st.push(s)), run_end(e, st.push(s)) == s.after
{
    let n = st.push(s);
    assert forall |i: int| 0 <= i < n.len() implies step_ok(#[trigger] n[i]) && waits(at_step(e, n, i), n[i].before) by {
        if i < st.len() { assert(n[i] == st[i]); assert(at_step(e, n, i) == at_step(e, st, i)); }
        else { assert(at_step(e, n, i) == run_end(e, st)); }
    }
}
pub proof fn lemma_waits<C: EditorContext>(a: Editor<C>, b: Editor<C>)
    requires waits(a, b), a.live()
    ensures b.live()
{}
pub proof fn lemma_step<C: EditorContext>(e: Editor<C>, st: Seq<KeyStep<C>>, a: Editor<C>, k: Key, b: Editor<C>, c: Editor<C>, r: io::Result<bool>) -> (n: Seq<KeyStep<C>>)
    requires run_ok(e, st), a == run_end(e, st), waits(a, b), b.live(), c.live(), r == io::Result::<bool>::Ok(false), key_rel(k, b, c, r), c.same_env(&b), c.tf() == b.tf()
    ensures run_ok(e, n), run_end(e, n) == c
{
    let s = KeyStep { key: k, before: b, after: c };
    assert(step_ok(s));
    lemma_run_push(e, st, s);
    st.push(s)
}
/// how the loop over the keys ends: there is no further key, or the key ends the line
pub open spec fn ends<C: EditorContext>(a: Editor<C>, z: Editor<C>) -> bool {
    waits(a, z) || exists |k: Key, b: Editor<C>, r: io::Result<bool>| #[trigger] key_rel(k, b, z, r) && waits(a, b) && r == io::Result::<bool>::Ok(true)
}
pub proof fn lemma_done<C: EditorContext>(e: Editor<C>, st: Seq<KeyStep<C>>, z: Editor<C>)
    requires ends(run_end(e, st), z), run_end(e, st).live()
    ensures returns_line(e, st, z.text())
{
    let a = run_end(e, st);
    if !waits(a, z) {
        let (k, b, r) = choose |k: Key, b: Editor<C>, r: io::Result<bool>| #[trigger] key_rel(k, b, z, r) && waits(a, b) && r == io::Result::<bool>::Ok(true);
        assert(newline_rel(b, z, true));
        assert(b.entered() == a.entered());
    }
}
pub proof fn lemma_key_io<C: EditorContext>(k: Key, b: Editor<C>, c: Editor<C>, r: io::Result<bool>)
    requires key_io(k, b.text().len() == 0, b.tf(), c.tf(), r), r is Ok
    ensures b.tf() == c.tf()
{}
//@ fn trait EditorContext::handle_keys [C13,C23]
//@ free <Vc: EditorContext, M: KeyMap, C: Completer>
//@ fnattr #[verifier::exec_allows_no_decreases_clause]
//@ replace mut keymap: M =>> keymap0: M
//@ replace mut ed: Editor<Self> =>> ed0: Editor<Vc>
//@ replace ed.into() =>> Editor::vx_into_string(ed)
//@ at start
hide(Editor::wf); hide(Editor::sugg_rel); hide(key_rel); hide(Editor::same_env); hide(run_ok); hide(returns_line);
let mut keymap = keymap0; let mut ed = ed0;
//@ at after call init#1
let ghost vx_e = ed;
proof { reveal(run_ok); reveal(Editor::same_env); reveal(Editor::wf); reveal(Editor::sugg_rel); }
let ghost mut vx_st: Seq<KeyStep<Vc>> = Seq::empty();
//@ at loop 1 start
let ghost vx_a = ed;
//@ at after let key
let ghost vx_b = ed;
let ghost vx_k = key;
proof { if !(vx_k is Some && vx_k->Some_0 is Err) { lemma_waits(vx_a, vx_b); } }
//@ at loop 1 end
proof {
    lemma_key_io(vx_k->Some_0->Ok_0, vx_b, ed, Ok(false));
    vx_st = lemma_step(vx_e, vx_st, vx_a, vx_k->Some_0->Ok_0, vx_b, ed, Ok(false));
}
//@ loop 1
    invariant_except_break
        starts(ed0, vx_e), run_ok(vx_e, vx_st), ed == run_end(vx_e, vx_st), ed.live(),
        keymap.kmi(ed.no_eol, shown(ed.prompt)),
    ensures
        starts(ed0, vx_e), run_ok(vx_e, vx_st), ends(run_end(vx_e, vx_st), ed), run_end(vx_e, vx_st).live(), ed.live(),
//@ at after loop 1
proof { lemma_done(vx_e, vx_st, ed); reveal(Editor::wf); }
//@ spec
    requires ed0.live(), keymap0.kms(ed0.no_eol)
    ensures r is Ok ==> session_line(ed0, r->Ok_0@), // [C13,C23]
//@ fn trait EditorContext::read_line_with_init_buffer [C13,C23]
//@ free <Vc: EditorContext, B: VxIntoBuffer, C: Completer>
//@ replace self, prompt: Prompt =>> vx_self: Vc, prompt: Prompt
//@ replace self =>> vx_self
//@ replace Self::handle_keys =>> handle_keys
//@ spec
    requires bufs_wf(vx_self.h().buffers@), buffer.ib_ok()
    ensures r is Ok ==> read_line_rel(vx_self, buffer.ib(), r->Ok_0@), // [C13,C23]
//@ end
//@ fn trait EditorContext::revert_all_history [C10]
//@ free <Vc: EditorContext>
//@ fnattr #[verifier::loop_isolation(false)]
//@ replace revert_all_history(&mut self) =>> revert_all_history(vx_self: &mut Vc)
//@ replace self =>> vx_self
//@ loop 1
    invariant vx_dm@.len() == vx_o.len(), bufs_wf(vx_o),
        forall |i: int| 0 <= i < vx_o.len() ==> #[trigger] vx_dm@[i] == vx_o[i] || (i < vx_im && vx_dm@[i].wf() && vx_dm@[i]@ == origin(vx_o[i].ul(), vx_o[i]@) && vx_dm@[i].ul().len() == 0),
        forall |i: int| 0 <= i < vx_im ==> (#[trigger] vx_dm@[i]).ul().len() == 0,
//@ at start
let ghost vx_o = vx_self.h().buffers@;
//@ spec
    requires bufs_wf(old(vx_self).h().buffers@)
    ensures bufs_wf(final(vx_self).h().buffers@), final(vx_self).h().buffers@.len() == old(vx_self).h().buffers@.len(), // [C10]
        forall |i: int| 0 <= i < old(vx_self).h().buffers@.len() ==> (#[trigger] final(vx_self).h().buffers@[i])@ == origin(old(vx_self).h().buffers@[i].ul(), old(vx_self).h().buffers@[i]@), // [C10]
        final(vx_self).h() == (History { buffers: final(vx_self).h().buffers, ..old(vx_self).h() }), // [C10]
        final(vx_self).term() == old(vx_self).term(),
//@ end
