//@ uses
use vstd::prelude::*;
use crate::vx::*;
use crate::vxio as io;
use crate::vxio::Write;
//@ prelude
broadcast use {crate::vx_ax::ax_vec_char_len, crate::vx_ax::ax_log_len, crate::vx::lemma_derefs_refs, crate::vx::lemma_derefs_sub};



impl Buffer { pub fn vx_chars(&self) -> (r: VxIt<&char>) ensures r@ == seq_refs(self@) { self.chars() } }
impl View for Buffer { type V = Seq<char>; open spec fn view(&self) -> Seq<char> { self.data@ } }

impl vstd::std_specs::cmp::PartialEqSpecImpl for Buffer {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { self@ == other@ }
}
impl vstd::std_specs::convert::FromSpecImpl<Buffer> for String {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: Buffer) -> Self { arbitrary() }
}
impl vstd::std_specs::convert::FromSpecImpl<String> for Buffer {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: String) -> Self { arbitrary() }
}
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a str> for Buffer {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'a str) -> Self { arbitrary() }
}
/// derived Clone (assumed: field by field)
impl Clone for Action {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.av() == self.av() { unimplemented!() }
}
impl Clone for Buffer {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r@ == self@, alog(r.actions@) == alog(self.actions@), alog(r.undone_actions@) == alog(self.undone_actions@)
    { unimplemented!() }
}

// ---- the mathematical model of an undo log -------------------------------------------------
pub enum AV { Ins(nat, Seq<char>), Rem(nat, Seq<char>), Start, End }
impl Action {
    pub open spec fn av(&self) -> AV {
        match *self {
            Action::Insert { start, text } => AV::Ins(start as nat, text@),
            Action::Remove { start, text } => AV::Rem(start as nat, text@),
            Action::StartGroup => AV::Start,
            Action::EndGroup => AV::End,
        }
    }
}
pub open spec fn alog(s: Seq<Action>) -> Seq<AV> { Seq::new(s.len(), |i: int| s[i].av()) }

pub open spec fn splice_in(s: Seq<char>, at: int, t: Seq<char>) -> Seq<char> { s.subrange(0, at) + t + s.subrange(at, s.len() as int) }
pub open spec fn splice_out(s: Seq<char>, a: int, b: int) -> Seq<char> { s.subrange(0, a) + s.subrange(b, s.len() as int) }

pub open spec fn is_edit(a: AV) -> bool { a is Ins || a is Rem }
/// text present in s at position at
pub open spec fn present(s: Seq<char>, at: int, t: Seq<char>) -> bool {
    0 <= at && at + t.len() <= s.len() && s.subrange(at, at + t.len()) == t
}
pub open spec fn can_do(a: AV, s: Seq<char>) -> bool {
    match a { AV::Ins(p, t) => p <= s.len(), AV::Rem(p, t) => present(s, p as int, t), _ => true }
}
pub open spec fn can_undo(a: AV, s: Seq<char>) -> bool {
    match a { AV::Ins(p, t) => present(s, p as int, t), AV::Rem(p, t) => p <= s.len(), _ => true }
}
pub open spec fn do_av(a: AV, s: Seq<char>) -> Seq<char> {
    match a { AV::Ins(p, t) => splice_in(s, p as int, t), AV::Rem(p, t) => splice_out(s, p as int, p as int + t.len()), _ => s }
}
pub open spec fn undo_av(a: AV, s: Seq<char>) -> Seq<char> {
    match a { AV::Rem(p, t) => splice_in(s, p as int, t), AV::Ins(p, t) => splice_out(s, p as int, p as int + t.len()), _ => s }
}
pub proof fn lemma_do_undo(a: AV, s: Seq<char>)
    requires can_do(a, s) ensures can_undo(a, do_av(a, s)), undo_av(a, do_av(a, s)) == s
{
    match a {
        AV::Ins(p, t) => {
            let r = splice_in(s, p as int, t);
            assert(r.subrange(p as int, p as int + t.len()) =~= t);
            assert(splice_out(r, p as int, p as int + t.len()) =~= s);
        }
        AV::Rem(p, t) => {
            let r = splice_out(s, p as int, p as int + t.len());
            assert(splice_in(r, p as int, t) =~= s);
        }
        _ => {}
    }
}
pub proof fn lemma_undo_do(a: AV, s: Seq<char>)
    requires can_undo(a, s) ensures can_do(a, undo_av(a, s)), do_av(a, undo_av(a, s)) == s
{
    match a {
        AV::Rem(p, t) => {
            let r = splice_in(s, p as int, t);
            assert(r.subrange(p as int, p as int + t.len()) =~= t);
            assert(splice_out(r, p as int, p as int + t.len()) =~= s);
        }
        AV::Ins(p, t) => {
            let r = splice_out(s, p as int, p as int + t.len());
            assert(splice_in(r, p as int, t) =~= s);
        }
        _ => {}
    }
}
/// undoing the log backwards from s never refers to text that is not there
pub open spec fn undo_ok(l: Seq<AV>, s: Seq<char>) -> bool decreases l.len() {
    l.len() == 0 || (can_undo(l.last(), s) && undo_ok(l.drop_last(), undo_av(l.last(), s)))
}
pub open spec fn redo_ok(l: Seq<AV>, s: Seq<char>) -> bool decreases l.len() {
    l.len() == 0 || (can_do(l.last(), s) && redo_ok(l.drop_last(), do_av(l.last(), s)))
}
/// the text before everything in the log happened
pub open spec fn origin(l: Seq<AV>, s: Seq<char>) -> Seq<char> decreases l.len() {
    if l.len() == 0 { s } else { origin(l.drop_last(), undo_av(l.last(), s)) }
}
impl Buffer {
    pub open spec fn ul(&self) -> Seq<AV> { alog(self.actions@) }
    pub open spec fn rl(&self) -> Seq<AV> { alog(self.undone_actions@) }
    pub open spec fn wf(&self) -> bool { undo_ok(self.ul(), self@) && redo_ok(self.rl(), self@) }
}
/// What one undo takes off the end of the log: walk back, skipping empty groups, until one edit at
/// nesting depth 0, or one whole group that contains an edit, has been taken.  Returns what stays.
/// (nest: depth of the group being walked, seen: an edit has been taken)
pub open spec fn undo_stop(l: Seq<AV>, nest: int, seen: bool) -> Seq<AV> decreases l.len() {
    if l.len() == 0 { l } else {
        let a = l.last();
        let n = match a { AV::End => nest + 1, AV::Start => nest - 1, _ => nest };
        let s = seen || is_edit(a);
        if n == 0 && s { l.drop_last() } else { undo_stop(l.drop_last(), n, s) }
    }
}
pub open spec fn redo_stop(l: Seq<AV>, nest: int, seen: bool) -> Seq<AV> decreases l.len() {
    if l.len() == 0 { l } else {
        let a = l.last();
        let n = match a { AV::Start => nest + 1, AV::End => nest - 1, _ => nest };
        let s = seen || is_edit(a);
        if n == 0 && s { l.drop_last() } else { redo_stop(l.drop_last(), n, s) }
    }
}
/// text after undoing log l down to its first n entries
pub open spec fn undo_to(l: Seq<AV>, n: int, s: Seq<char>) -> Seq<char> decreases l.len() {
    if l.len() <= n || l.len() == 0 { s } else { undo_to(l.drop_last(), n, undo_av(l.last(), s)) }
}
pub open spec fn redo_to(l: Seq<AV>, n: int, s: Seq<char>) -> Seq<char> decreases l.len() {
    if l.len() <= n || l.len() == 0 { s } else { redo_to(l.drop_last(), n, do_av(l.last(), s)) }
}
pub open spec fn rev(l: Seq<AV>) -> Seq<AV> { seq_reverse(l) }
pub proof fn lemma_undo_to_step(l: Seq<AV>, n: int, s: Seq<char>)
    requires 0 < n <= l.len()
    ensures undo_to(l, n - 1, s) == undo_av(l[n - 1], undo_to(l, n, s))
    decreases l.len()
{
    if l.len() > n {
        lemma_undo_to_step(l.drop_last(), n, undo_av(l.last(), s));
    } else {
        assert(undo_to(l.drop_last(), n - 1, undo_av(l.last(), s)) == undo_av(l.last(), s));
    }
}
pub proof fn lemma_origin_undo_to(l: Seq<AV>, n: int, s: Seq<char>)
    requires 0 <= n <= l.len()
    ensures origin(l.subrange(0, n), undo_to(l, n, s)) == origin(l, s)
    decreases l.len()
{
    if l.len() > n {
        lemma_origin_undo_to(l.drop_last(), n, undo_av(l.last(), s));
        assert(l.drop_last().subrange(0, n) =~= l.subrange(0, n));
    } else {
        assert(l.subrange(0, n) =~= l);
    }
}
pub proof fn lemma_redo_to_step(l: Seq<AV>, n: int, s: Seq<char>)
    requires 0 < n <= l.len()
    ensures redo_to(l, n - 1, s) == do_av(l[n - 1], redo_to(l, n, s))
    decreases l.len()
{
    if l.len() > n {
        lemma_redo_to_step(l.drop_last(), n, do_av(l.last(), s));
    } else {
        assert(redo_to(l.drop_last(), n - 1, do_av(l.last(), s)) == do_av(l.last(), s));
    }
}
/// non-empty runs between blanks
pub open spec fn nonempty_sl<'a>() -> spec_fn(&'a [char]) -> bool { |x: &'a [char]| x@.len() > 0 }
pub open spec fn nonempty_seq() -> spec_fn(Seq<char>) -> bool { |x: Seq<char>| x.len() > 0 }
pub open spec fn args_of(s: Seq<char>) -> Seq<Seq<char>> { split_spec(s, is_c(' ')).filter(nonempty_seq()) }
pub proof fn lemma_views_filter<'a>(s: Seq<&'a [char]>)
    ensures views(s.filter(nonempty_sl())) == views(s).filter(nonempty_seq()) decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        lemma_views_filter(s.drop_last());
        assert(views(s).drop_last() =~= views(s.drop_last()));
        assert(views(s).last() == s.last()@);
        assert(views(s.filter(nonempty_sl())) =~= views(s).filter(nonempty_seq()));
    } else {
        assert(views(s) =~= Seq::<Seq<char>>::empty());
        assert(views(s.filter(nonempty_sl())) =~= views(s).filter(nonempty_seq()));
    }
}
pub open spec fn widths(s: Seq<Seq<char>>) -> Seq<usize> { Seq::new(s.len(), |i: int| width_spec(s[i]) as usize) }
pub open spec fn rest_of(s: Seq<char>, n: int) -> Seq<char> { s.subrange(if n < s.len() { n } else { s.len() as int }, s.len() as int) }
/// the autosuggestion relation: `s` continues the non-empty text `p`
pub open spec fn extends(s: Seq<char>, p: Seq<char>) -> bool { p.len() > 0 && s.len() != p.len() && is_prefix(p, s) }
pub open spec fn occurs_at(s: Seq<char>, p: Seq<char>, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p }
pub open spec fn has_sub(s: Seq<char>, p: Seq<char>) -> bool { p.len() > 0 && exists |i: int| #[trigger] occurs_at(s, p, i) }
//@ end
//@ replace .as_bytes() =>> .vx_as_bytes()
//@ drop Eq for Buffer
//@ replace impl FromIterator<char> for Buffer =>> impl Buffer
//@ replace from_iter<T: IntoIterator<Item = char>>(t: T) =>> vx_from_iter(t: VxIt<char>)
//@ implx VxDisplay for Buffer
    open spec fn shown(&self) -> Seq<char> { self@ }
//@ replace text.into() =>> vx_to_vec(text)
//@ replace String::from_iter =>> vx_string_from_iter
//@ replace fmt::Display =>> VxDisplay
//@ replace fmt::Formatter =>> VxFmt
//@ replace fmt::Result =>> Result<(), VxFmtErr>
//@ fn Action::do_on
//@ spec
    requires can_do(self.av(), old(buf)@)
    ensures final(buf)@ == do_av(self.av(), old(buf)@), // [C01,C02]
        final(buf).ul() == old(buf).ul(), final(buf).rl() == old(buf).rl(),
//@ at start
    proof { crate::vx_ax::ax_vec_char_len(&buf.data); }
//@ at before call remove_raw#1
    proof { assert(present(buf@, start as int, text@)); assert(start + text@.len() <= buf@.len()); assert(buf@.len() < usize::MAX); }
//@ fn Action::undo
//@ spec
    requires can_undo(self.av(), old(buf)@)
    ensures final(buf)@ == undo_av(self.av(), old(buf)@), // [C02]
        final(buf).ul() == old(buf).ul(), final(buf).rl() == old(buf).rl(),
//@ at start
    proof { crate::vx_ax::ax_vec_char_len(&buf.data); }
//@ fn PartialEq for Buffer::eq
//@ replace self.data == other.data =>> vx_eq_vec(&self.data, &other.data)
//@ fn From<Buffer> for String::from
//@ spec
    ensures r@ == buf@ // [C03]
//@ fn From<String> for Buffer::from
//@ replace Buffer::from_iter =>> Buffer::vx_from_iter
//@ spec
    ensures r@ == s@, r.ul().len() == 0, r.rl().len() == 0, // [C03]
//@ fn From<&'a str> for Buffer::from
//@ replace Buffer::from_iter =>> Buffer::vx_from_iter
//@ spec
    ensures r@ == s@, r.ul().len() == 0, r.rl().len() == 0, // [C03]
//@ fn VxDisplay for Buffer::fmt
//@ loop 1
    invariant_except_break f.s@ + vx_it1@.map_values(|c: &char| *c) == old(f).s@ + self@ // [C03]
    ensures f.s@ == old(f).s@ + self@ // [C03]
    decreases vx_it1@.len()
//@ fn Buffer::vx_from_iter
//@ spec
    ensures r@ == t@, r.ul().len() == 0, r.rl().len() == 0, // [C03]
//@ fn Default for Buffer::default
//@ spec
    ensures r@.len() == 0, r.ul().len() == 0, r.rl().len() == 0, // [C01,C02]
//@ fn Buffer::new
//@ spec
    ensures r@.len() == 0, r.ul().len() == 0, r.rl().len() == 0, // [C01,C02]
//@ fn Buffer::clear_actions
//@ at tail
proof { assert(self.ul() =~= Seq::<AV>::empty()); assert(self.rl() =~= Seq::<AV>::empty()); }
//@ spec
    ensures final(self)@ == old(self)@, final(self).ul() == Seq::<AV>::empty(), final(self).rl() == Seq::<AV>::empty(), // [C02]
//@ fn Buffer::start_undo_group
//@ spec
    ensures final(self)@ == old(self)@, final(self).ul() == old(self).ul().push(AV::Start), final(self).rl() == old(self).rl(), // [C02]
        old(self).wf() ==> final(self).wf(),
//@ at tail
    proof { assert(self.ul() =~= old(self).ul().push(AV::Start)); assert(self.ul().drop_last() =~= old(self).ul()); }
//@ fn Buffer::end_undo_group
//@ spec
    ensures final(self)@ == old(self)@, final(self).ul() == old(self).ul().push(AV::End), final(self).rl() == old(self).rl(), // [C02]
        old(self).wf() ==> final(self).wf(),
//@ at tail
    proof { assert(self.ul() =~= old(self).ul().push(AV::End)); assert(self.ul().drop_last() =~= old(self).ul()); }
//@ fn Buffer::undo
//@ spec
    requires old(self).wf()
    ensures final(self).wf(), // [C02]
        r == (old(self).ul().len() > 0), // [C02]
        final(self).ul() == undo_stop(old(self).ul(), 0, false), // [C02]
        final(self).ul() == old(self).ul().subrange(0, final(self).ul().len() as int), // [C02]
        final(self)@ == undo_to(old(self).ul(), final(self).ul().len() as int, old(self)@), // [C02]
        final(self).ul().len() <= old(self).ul().len(), r ==> final(self).ul().len() < old(self).ul().len(), // [C02]
        final(self).rl() == old(self).rl() + rev(old(self).ul().subrange(final(self).ul().len() as int, old(self).ul().len() as int)), // [C02]
//@ loop 1
    invariant_except_break
        undo_stop(self.ul(), group_nest as int, group_count > 0) == undo_stop(old(self).ul(), 0, false),
    invariant
        self.wf(),
        self.ul().len() <= old(self).ul().len(),
        self.ul() == old(self).ul().subrange(0, self.ul().len() as int),
        undo_to(old(self).ul(), self.ul().len() as int, old(self)@) == self@,
        self.rl() == old(self).rl() + rev(old(self).ul().subrange(self.ul().len() as int, old(self).ul().len() as int)),
        -(old(self).ul().len() - self.ul().len()) <= group_nest <= old(self).ul().len() - self.ul().len(),
        0 <= group_count <= old(self).ul().len() - self.ul().len(),
    ensures
        self.ul() == undo_stop(old(self).ul(), 0, false),
        old(self).ul().len() > 0 ==> self.ul().len() < old(self).ul().len(),
    decreases self.actions@.len()
//@ at loop 1 start
    let ghost l0 = old(self).ul().subrange(0, self.ul().len() as int + 1);
    proof {
        assert(l0.drop_last() =~= self.ul());
        assert(act.av() == l0.last());
        lemma_undo_do(act.av(), self@);
        lemma_undo_to_step(old(self).ul(), self.ul().len() as int + 1, old(self)@);
        assert(undo_ok(l0, self@));
    }
    let ghost rl0 = self.rl();
    let ghost s0 = self@;
//@ at after call push#1
    proof {
        let n = self.ul().len() as int;
        assert(self.ul() =~= old(self).ul().subrange(0, n));
        assert(self.rl() =~= rl0.push(act.av()));
        assert(self.rl().drop_last() =~= rl0);
        assert(rev(old(self).ul().subrange(n, old(self).ul().len() as int)) =~= rev(old(self).ul().subrange(n + 1, old(self).ul().len() as int)).push(act.av()));
    }
//@ fn Buffer::push_action
//@ spec
    ensures final(self)@ == old(self)@, final(self).ul() == old(self).ul().push(act.av()), final(self).rl().len() == 0, // [C02]
//@ at tail
    proof { assert(self.ul() =~= old(self).ul().push(act.av())); }
//@ fn Buffer::num_chars
//@ spec
    ensures r == self@.len(), // [C03]
//@ fn Buffer::remove_raw
//@ spec
    requires start <= end <= old(self)@.len()
    ensures final(self)@ == splice_out(old(self)@, start as int, end as int), r@ == old(self)@.subrange(start as int, end as int), // [C01]
        final(self).ul() == old(self).ul(), final(self).rl() == old(self).rl(), // [C01,C02]
//@ fn Buffer::insert_raw
//@ spec
    requires start <= old(self)@.len()
    ensures final(self)@ == splice_in(old(self)@, start as int, text@), // [C01]
        final(self).ul() == old(self).ul(), final(self).rl() == old(self).rl(), // [C01,C02]
//@ loop 1
    invariant
        start <= old(self)@.len(), vx_it1@.len() <= text@.len(),
        vx_all1 == seq_enumerate(seq_refs(text@)),
        vx_it1@ == vx_all1.subrange(text@.len() - vx_it1@.len(), text@.len() as int),
        self.ul() == old(self).ul(), self.rl() == old(self).rl(),
        self@ == splice_in(old(self)@, start as int, text@.subrange(0, text@.len() - vx_it1@.len())), // [C01]
    ensures
        self@ == splice_in(old(self)@, start as int, text@), // [C01]
    decreases vx_it1@.len()
//@ at start
    proof {
        assert(text@.subrange(0, 0) =~= Seq::<char>::empty());
        assert(splice_in(old(self)@, start as int, text@.subrange(0, 0)) =~= old(self)@);
        assert(text@.subrange(0, text@.len() as int) =~= text@);
    }
//@ at loop 1 start
    proof {
        crate::vx_ax::ax_vec_char_len(&self.data);
        let t0 = text@.subrange(0, i as int);
        let t1 = text@.subrange(0, i as int + 1);
        crate::vx_ax::ax_slice_char_len(text);
        assert(i < text@.len());
        assert(c == text@[i as int]);
        assert(self@ == splice_in(old(self)@, start as int, t0));
        assert(t1 =~= t0.push(c));
        assert(splice_in(old(self)@, start as int, t0).insert(start + i, c) =~= splice_in(old(self)@, start as int, t1));
    }
//@ fn Buffer::last_arg
//@ spec
    ensures args_of(self@).len() == 0 ==> r is None, // [C03,C20]
        args_of(self@).len() > 0 ==> r is Some && r->0@ == args_of(self@).last(), // [C03,C20]
//@ closure 1
    [&char] -> (b: bool)
    ensures b == (*p0 == ' ')
//@ closure 2
    [&&[char]] -> (b: bool)
    ensures b == (p0@.len() > 0)
//@ at start
    proof {
        assert forall |s: Seq<&[char]>| #![trigger s.filter(nonempty_sl())] views(s.filter(nonempty_sl())) == views(s).filter(nonempty_seq()) by { lemma_views_filter(s); }
        assert(hint(is_c(' '))); assert(hint(nonempty_sl()));
    }
//@ fn Buffer::num_bytes
//@ replace s.len() =>> s.vx_byte_len()
//@ spec
    ensures r == utf8(self@).len(), // [C03]
//@ fn Buffer::char_before
//@ spec
    ensures r == (if 0 < cursor <= self@.len() { Some(self@[cursor - 1]) } else { None }), // [C03]
//@ fn Buffer::char_after
//@ spec
    ensures r == (if cursor < self@.len() { Some(self@[cursor as int]) } else { None }), // [C03]
//@ fn Buffer::remove
//@ spec
    requires start <= end <= old(self)@.len()
    ensures final(self)@ == splice_out(old(self)@, start as int, end as int), r == end - start, // [C01]
        final(self).ul() == old(self).ul().push(AV::Rem(start as nat, old(self)@.subrange(start as int, end as int))), // [C02]
        final(self).rl().len() == 0, // [C02]
        old(self).wf() ==> final(self).wf(), // [C02]
//@ at tail
    proof {
        let a = AV::Rem(start as nat, old(self)@.subrange(start as int, end as int));
        assert(self.ul().drop_last() =~= old(self).ul());
        assert(can_do(a, old(self)@));
        lemma_do_undo(a, old(self)@);
    }
//@ fn Buffer::insert
//@ spec
    requires start <= old(self)@.len()
    ensures final(self)@ == splice_in(old(self)@, start as int, text@), // [C01]
        final(self).ul() == old(self).ul().push(AV::Ins(start as nat, text@)), // [C02]
        final(self).rl().len() == 0, // [C02]
        old(self).wf() ==> final(self).wf(), // [C02]
//@ at tail
    proof {
        let a = AV::Ins(start as nat, text@);
        assert(self.ul().drop_last() =~= old(self).ul());
        lemma_do_undo(a, old(self)@);
    }
//@ fn Buffer::insert_from_buffer
//@ spec
    requires old(self)@.len() <= other@.len()
    ensures final(self)@ == old(self)@ + other@.subrange(old(self)@.len() as int, other@.len() as int), // [C01,C14]
        final(self).ul() == old(self).ul().push(AV::Ins(old(self)@.len(), other@.subrange(old(self)@.len() as int, other@.len() as int))), // [C02]
        final(self).rl().len() == 0, // [C02]
        old(self).wf() ==> final(self).wf(), // [C02]
//@ at tail
    proof { assert(self@ =~= old(self)@ + other@.subrange(old(self)@.len() as int, other@.len() as int)); }
//@ fn Buffer::copy_buffer
//@ spec
    ensures final(self)@ == other@, // [C01]
        final(self).ul() == old(self).ul().push(AV::Rem(0, old(self)@)).push(AV::Ins(0, other@)), // [C02]
        final(self).rl().len() == 0, // [C02]
        old(self).wf() ==> final(self).wf(), // [C02]
//@ at tail
    proof {
        assert(old(self)@.subrange(0, old(self)@.len() as int) =~= old(self)@);
        assert(self@ =~= other@);
    }
//@ fn Buffer::range
//@ spec
    requires start <= end <= self@.len()
    ensures r@ == self@.subrange(start as int, end as int), // [C03]
//@ fn Buffer::range_chars
//@ replace .to_owned() =>> .vx_own()
//@ spec
    requires start <= end <= self@.len()
    ensures r@ == self@.subrange(start as int, end as int), // [C03]
//@ fn Buffer::width
//@ spec
    ensures r@ == widths(split_spec(self@, is_c('\n'))), // [C03]
//@ at tail
    proof { assert(self@.subrange(0, self@.len() as int) =~= self@); }
//@ fn Buffer::range_width
//@ spec
    requires start <= end <= self@.len()
    ensures r@ == widths(split_spec(self@.subrange(start as int, end as int), is_c('\n'))), // [C03]
//@ closure 1
    [&str] -> (b: usize)
    ensures b == width_spec(p0@)
//@ fn Buffer::lines
//@ spec
    ensures strs(r@) == split_spec(self@, is_c('\n')), // [C03]
//@ closure 1
    [&char] -> (b: bool)
    ensures b == (*p0 == '\n')
//@ closure 2
    [&[char]] -> (b: String)
    ensures b@ == p0@
//@ at start
    proof { assert(hint(is_c('\n'))); }
//@ at tail
    proof { assert(strs(vx_r@) =~= split_spec(self@, is_c('\n'))); }
//@ fn Buffer::chars
//@ replace ::std::slice::Iter<char> =>> VxIt<&char>
//@ spec
    ensures r@ == seq_refs(self@), // [C03]
//@ fn Buffer::truncate
//@ spec
    requires num <= old(self)@.len()
    ensures final(self)@ == old(self)@.subrange(0, num as int), // [C01]
        final(self).ul() == old(self).ul().push(AV::Rem(num as nat, old(self)@.subrange(num as int, old(self)@.len() as int))), // [C02]
        final(self).rl().len() == 0, // [C02]
        old(self).wf() ==> final(self).wf(), // [C02]
//@ at tail
    proof { assert(self@ =~= old(self)@.subrange(0, num as int)); }
//@ fn Buffer::print
//@ spec
    ensures r is Ok ==> final(out).written() == old(out).written() + utf8(self@), // [C03]
//@ fn Buffer::as_bytes
//@ replace self.to_string().into_bytes() =>> vx_into_bytes(self.to_string())
//@ spec
    ensures r@ == utf8(self@), // [C03]
//@ fn Buffer::print_rest
//@ replace string.len() =>> string.vx_byte_len()
//@ spec
    ensures r is Ok ==> final(out).written() == old(out).written() + utf8(rest_of(self@, after as int)) && r->Ok_0 == utf8(rest_of(self@, after as int)).len(), // [C03]
//@ fn Buffer::starts_with
//@ spec
    ensures r == extends(self@, other@), // [C03,C05,C14]
//@ closure 1
    [&(&char, &char)] -> (b: bool)
    ensures b == (*p0.0 == *p0.1)
//@ at tail
    proof {
        if is_prefix(other@, self@) {
            assert forall |i: int| 0 <= i < other@.len() implies self@[i] == other@[i] by { assert(self@.subrange(0, other@.len() as int)[i] == self@[i]); }
        }
        let z = seq_zip(seq_refs(self@), seq_refs(other@));
        if vx_r {
            assert forall |i: int| 0 <= i < other@.len() implies self@[i] == other@[i] by { assert(*z[i].0 == self@[i]); }
            assert(self@.subrange(0, other@.len() as int) =~= other@);
        }
    }
//@ fn Buffer::contains
//@ replace window == search_term =>> vx_eq_slice(window, search_term)
//@ spec
    ensures r == has_sub(self@, pattern@), // [C03,C05]
//@ closure 1
    [&[char]] -> (b: bool)
    ensures b == (p0@ == pattern@)
//@ at start
    proof {
        assert forall |i: int| #![trigger self@.subrange(i, i + pattern@.len())]
            occurs_at(self@, pattern@, i) == (0 <= i && i + pattern@.len() <= self@.len() && self@.subrange(i, i + pattern@.len()) == pattern@) by { }
    }
//@ fn Buffer::is_empty
//@ spec
    ensures r == (self@.len() == 0), // [C03]
//@ fn Buffer::redo
//@ spec
    requires old(self).wf()
    ensures final(self).wf(), // [C02]
        r == (old(self).rl().len() > 0), // [C02]
        final(self).rl() == redo_stop(old(self).rl(), 0, false), // [C02]
        final(self)@ == redo_to(old(self).rl(), final(self).rl().len() as int, old(self)@), // [C02]
        final(self).rl().len() <= old(self).rl().len(), r ==> final(self).rl().len() < old(self).rl().len(), // [C02]
        final(self).ul() == old(self).ul() + rev(old(self).rl().subrange(final(self).rl().len() as int, old(self).rl().len() as int)), // [C02]
//@ loop 1
    invariant_except_break
        redo_stop(self.rl(), group_nest as int, group_count > 0) == redo_stop(old(self).rl(), 0, false),
    invariant
        self.wf(),
        self.rl().len() <= old(self).rl().len(),
        self.rl() == old(self).rl().subrange(0, self.rl().len() as int),
        redo_to(old(self).rl(), self.rl().len() as int, old(self)@) == self@,
        self.ul() == old(self).ul() + rev(old(self).rl().subrange(self.rl().len() as int, old(self).rl().len() as int)),
        -(old(self).rl().len() - self.rl().len()) <= group_nest <= old(self).rl().len() - self.rl().len(),
        0 <= group_count <= old(self).rl().len() - self.rl().len(),
    ensures
        self.rl() == redo_stop(old(self).rl(), 0, false),
        old(self).rl().len() > 0 ==> self.rl().len() < old(self).rl().len(),
    decreases self.undone_actions@.len()
//@ at loop 1 start
    let ghost l0 = old(self).rl().subrange(0, self.rl().len() as int + 1);
    proof {
        assert(l0.drop_last() =~= self.rl());
        assert(act.av() == l0.last());
        lemma_do_undo(act.av(), self@);
        lemma_redo_to_step(old(self).rl(), self.rl().len() as int + 1, old(self)@);
        assert(redo_ok(l0, self@));
    }
    let ghost ul0 = self.ul();
//@ at after call push#1
    proof {
        let n = self.rl().len() as int;
        assert(self.rl() =~= old(self).rl().subrange(0, n));
        assert(self.ul() =~= ul0.push(act.av()));
        assert(self.ul().drop_last() =~= ul0);
        assert(rev(old(self).rl().subrange(n, old(self).rl().len() as int)) =~= rev(old(self).rl().subrange(n + 1, old(self).rl().len() as int)).push(act.av()));
    }
//@ fn Buffer::revert
//@ spec
    requires old(self).wf()
    ensures final(self).wf(), // [C02]
        r == (old(self).ul().len() > 0), // [C02]
        final(self).ul().len() == 0, final(self)@ == origin(old(self).ul(), old(self)@), // [C02]
        !r ==> final(self)@ == old(self)@ && final(self).rl() == old(self).rl(), // [C02]
//@ loop 1
    invariant self.wf(), origin(self.ul(), self@) == origin(old(self).ul(), old(self)@),
        old(self).ul().len() > 0,
    ensures self.ul().len() == 0,
    decreases self.ul().len()
//@ at loop 1 start
    proof {
        assert forall |l: Seq<AV>, n: int, s: Seq<char>| #![trigger undo_to(l, n, s)] 0 <= n <= l.len() implies origin(l.subrange(0, n), undo_to(l, n, s)) == origin(l, s) by { lemma_origin_undo_to(l, n, s); }
    }
//@ epilogue
// ---- property C02 over the contracts of undo/redo -----------------------------------------
pub open spec fn dd(a: AV) -> int { match a { AV::End => 1int, AV::Start => -1int, _ => 0int } }
/// group ends minus group starts
pub open spec fn depth(l: Seq<AV>) -> int decreases l.len() { if l.len() == 0 { 0 } else { depth(l.drop_last()) + dd(l.last()) } }
pub open spec fn has_edit(l: Seq<AV>) -> bool decreases l.len() { if l.len() == 0 { false } else { has_edit(l.drop_last()) || is_edit(l.last()) } }
pub open spec fn from(l: Seq<AV>, i: int) -> Seq<AV> { l.subrange(i, l.len() as int) }
pub open spec fn upto(l: Seq<AV>, i: int) -> Seq<AV> { l.subrange(0, i) }
/// one user-level change: a single edit, or one whole group that contains an edit
pub open spec fn unit(u: Seq<AV>) -> bool {
    (u.len() == 1 && is_edit(u[0]))
    || (u.len() > 1 && has_edit(u) && depth(u) == 0 && forall |i: int| 0 < i < u.len() ==> depth(#[trigger] from(u, i)) > 0)
}
/// only empty groups
pub open spec fn empties(e: Seq<AV>) -> bool { !has_edit(e) && depth(e) == 0 }
pub proof fn lemma_cat(a: Seq<AV>, b: Seq<AV>)
    ensures depth(a + b) == depth(a) + depth(b), has_edit(a + b) == (has_edit(a) || has_edit(b)) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        lemma_cat(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
    }
}
pub proof fn lemma_undo_walk(l: Seq<AV>, k: int, n: int, seen: bool)
    requires 0 <= k < l.len(),
        n + depth(from(l, k)) == 0, seen || has_edit(from(l, k)),
        forall |i: int| k < i < l.len() ==> !(n + depth(#[trigger] from(l, i)) == 0 && (seen || has_edit(from(l, i)))),
    ensures undo_stop(l, n, seen) == upto(l, k)
    decreases l.len()
{
    let m = l.drop_last();
    assert(from(l, l.len() - 1) =~= seq![l.last()]);
    assert(seq![l.last()].drop_last() =~= Seq::<AV>::empty());
    assert(depth(seq![l.last()]) == dd(l.last())) by { assert(depth(Seq::<AV>::empty()) == 0); }
    assert(has_edit(seq![l.last()]) == is_edit(l.last())) by { assert(!has_edit(Seq::<AV>::empty())); }
    if k == l.len() - 1 {
        assert(upto(l, k) =~= m);
    } else {
        assert forall |i: int| k <= i < l.len() - 1 implies #[trigger] from(m, i) == from(l, i).drop_last() && from(l, i).last() == l.last() && from(l, i).len() > 0 by { assert(from(m, i) =~= from(l, i).drop_last()); }
        assert(from(m, k) == from(l, k).drop_last());
        lemma_undo_walk(m, k, n + dd(l.last()), seen || is_edit(l.last()));
        assert(upto(l, k) =~= upto(m, k));
    }
}
pub proof fn lemma_redo_walk(l: Seq<AV>, k: int, n: int, seen: bool)
    requires 0 <= k < l.len(),
        n - depth(from(l, k)) == 0, seen || has_edit(from(l, k)),
        forall |i: int| k < i < l.len() ==> !(n - depth(#[trigger] from(l, i)) == 0 && (seen || has_edit(from(l, i)))),
    ensures redo_stop(l, n, seen) == upto(l, k)
    decreases l.len()
{
    let m = l.drop_last();
    assert(from(l, l.len() - 1) =~= seq![l.last()]);
    assert(seq![l.last()].drop_last() =~= Seq::<AV>::empty());
    assert(depth(seq![l.last()]) == dd(l.last())) by { assert(depth(Seq::<AV>::empty()) == 0); }
    assert(has_edit(seq![l.last()]) == is_edit(l.last())) by { assert(!has_edit(Seq::<AV>::empty())); }
    if k == l.len() - 1 {
        assert(upto(l, k) =~= m);
    } else {
        assert forall |i: int| k <= i < l.len() - 1 implies #[trigger] from(m, i) == from(l, i).drop_last() && from(l, i).last() == l.last() && from(l, i).len() > 0 by { assert(from(m, i) =~= from(l, i).drop_last()); }
        assert(from(m, k) == from(l, k).drop_last());
        lemma_redo_walk(m, k, n - dd(l.last()), seen || is_edit(l.last()));
        assert(upto(l, k) =~= upto(m, k));
    }
}
/// one undo takes back exactly the last change, whatever empty groups follow it
pub proof fn lemma_undo_one_unit(pre: Seq<AV>, u: Seq<AV>, e: Seq<AV>)
    requires unit(u), empties(e)
    ensures undo_stop(pre + u + e, 0, false) == pre
{
    let l = pre + u + e;
    let k = pre.len() as int;
    assert(from(l, k) =~= u + e);
    lemma_cat(u, e);
    lemma_unit_facts(u);
    assert forall |i: int| k < i < l.len() implies !(depth(#[trigger] from(l, i)) == 0 && has_edit(from(l, i))) by {
        if i >= k + u.len() {
            assert(from(l, i) =~= from(e, i - k - u.len()));
            assert(upto(e, i - k - u.len()) + from(e, i - k - u.len()) =~= e);
            lemma_cat(upto(e, i - k - u.len()), from(e, i - k - u.len()));
        } else {
            assert(from(l, i) =~= from(u, i - k) + e);
            lemma_cat(from(u, i - k), e);
        }
    }
    lemma_undo_walk(l, k, 0, false);
    assert(upto(l, k) =~= pre);
}
pub proof fn lemma_unit_facts(u: Seq<AV>)
    requires unit(u) ensures u.len() > 0, depth(u) == 0, has_edit(u)
{
    if u.len() == 1 {
        assert(u.drop_last() =~= Seq::<AV>::empty());
        assert(depth(Seq::<AV>::empty()) == 0 && !has_edit(Seq::<AV>::empty()));
    }
}
pub proof fn lemma_rev_cat(a: Seq<AV>, b: Seq<AV>) ensures rev(a + b) == rev(b) + rev(a) { assert(rev(a + b) =~= rev(b) + rev(a)); }
pub proof fn lemma_rev_facts(a: Seq<AV>) ensures depth(rev(a)) == depth(a), has_edit(rev(a)) == has_edit(a) decreases a.len()
{
    if a.len() > 0 {
        let f = seq![a.last()];
        assert(rev(a) =~= f + rev(a.drop_last()));
        lemma_cat(f, rev(a.drop_last()));
        lemma_rev_facts(a.drop_last());
        assert(f.drop_last() =~= Seq::<AV>::empty());
        assert(depth(Seq::<AV>::empty()) == 0 && !has_edit(Seq::<AV>::empty()));
    } else { assert(rev(a) =~= a); }
}
/// redo right after undo takes forward exactly the change that undo took back
pub proof fn lemma_redo_one_unit(r: Seq<AV>, u: Seq<AV>)
    requires unit(u) ensures redo_stop(r + rev(u), 0, false) == r
{
    let l = r + rev(u);
    let k = r.len() as int;
    lemma_unit_facts(u);
    lemma_rev_facts(u);
    assert(from(l, k) =~= rev(u));
    assert forall |i: int| k < i < l.len() implies !(0 - depth(#[trigger] from(l, i)) == 0 && has_edit(from(l, i))) by {
        let j = l.len() - i;
        assert(from(l, i) =~= rev(upto(u, j)));
        lemma_rev_facts(upto(u, j));
        assert(upto(u, j) + from(u, j) =~= u);
        lemma_cat(upto(u, j), from(u, j));
    }
    lemma_redo_walk(l, k, 0, false);
    assert(upto(l, k) =~= r);
}
/// undoing a log whose entries are no edits leaves the text
pub proof fn lemma_undo_no_edit(l: Seq<AV>, n: int, s: Seq<char>)
    requires 0 <= n <= l.len(), !has_edit(from(l, n)) ensures undo_to(l, n, s) == s decreases l.len()
{
    if l.len() > n {
        assert(from(l, n).drop_last() =~= from(l.drop_last(), n));
        lemma_undo_no_edit(l.drop_last(), n, undo_av(l.last(), s));
    }
}
pub proof fn lemma_undo_to_split(l: Seq<AV>, m: int, n: int, s: Seq<char>)
    requires 0 <= n <= m <= l.len() ensures undo_to(l, n, s) == undo_to(upto(l, m), n, undo_to(l, m, s)) decreases l.len()
{
    if l.len() > m {
        lemma_undo_to_split(l.drop_last(), m, n, undo_av(l.last(), s));
        assert(upto(l.drop_last(), m) =~= upto(l, m));
    } else { assert(upto(l, m) =~= l); }
}
pub proof fn lemma_redo_to_pre(r: Seq<AV>, x: Seq<AV>, s: Seq<char>)
    ensures redo_to(r + x, r.len() as int, s) == redo_to(x, 0, s) decreases x.len()
{
    if x.len() > 0 {
        assert((r + x).drop_last() =~= r + x.drop_last());
        lemma_redo_to_pre(r, x.drop_last(), do_av(x.last(), s));
    } else { assert(r + x =~= r); }
}
/// redoing what was undone gives the text back
pub proof fn lemma_redo_inverts(l: Seq<AV>, n: int, s: Seq<char>)
    requires undo_ok(l, s), 0 <= n <= l.len()
    ensures redo_to(rev(from(l, n)), 0, undo_to(l, n, s)) == s
    decreases l.len()
{
    if l.len() > n {
        let t = undo_av(l.last(), s);
        lemma_undo_do(l.last(), s);
        lemma_redo_inverts(l.drop_last(), n, t);
        let x = rev(from(l.drop_last(), n));
        let f = seq![l.last()];
        assert(rev(from(l, n)) =~= f + x);
        lemma_redo_to_last(f, x, undo_to(l, n, s));
        assert(f.drop_last() =~= Seq::<AV>::empty());
        assert(redo_to(f, 0, t) == redo_to(f.drop_last(), 0, do_av(f.last(), t)));
    } else { assert(rev(from(l, n)).len() == 0); }
}
pub proof fn lemma_redo_to_last(f: Seq<AV>, x: Seq<AV>, s: Seq<char>)
    ensures redo_to(f + x, 0, s) == redo_to(f, 0, redo_to(x, 0, s)) decreases x.len()
{
    if x.len() > 0 {
        assert((f + x).drop_last() =~= f + x.drop_last());
        lemma_redo_to_last(f, x.drop_last(), do_av(x.last(), s));
    } else { assert(f + x =~= f); }
}
/// the property itself, executed on the real undo and redo: after any change (single edit or whole
/// group) undo gives the text and history from before the change, redo gives the text after it back.
pub fn vx_c02_roundtrip(b: &mut Buffer, Ghost(pre): Ghost<Seq<AV>>, Ghost(u): Ghost<Seq<AV>>, Ghost(e): Ghost<Seq<AV>>)
    requires old(b).wf(), old(b).ul() == pre + u + e, unit(u), empties(e)
    ensures final(b).wf(), final(b)@ == old(b)@
{
    let ghost s = b@;
    let ghost r0 = b.rl();
    proof { lemma_undo_one_unit(pre, u, e); lemma_unit_facts(u); assert(old(b).ul().len() > 0); }
    let r = b.undo();
    assert(r);
    assert(b.ul() == pre);
    proof {
        let l = pre + u + e;
        let k = pre.len() as int;
        assert(from(l, k) =~= u + e);
        lemma_rev_cat(u, e);
        assert(b.rl() == r0 + (rev(e) + rev(u)));
        assert(b.rl() =~= (r0 + rev(e)) + rev(u));
        lemma_redo_one_unit(r0 + rev(e), u);
        lemma_redo_to_pre(r0 + rev(e), rev(u), b@);
        // text: e changes nothing, so redoing u alone gives s back
        let m = k + u.len();
        assert(from(l, m) =~= e);
        lemma_undo_no_edit(l, m, s);
        lemma_undo_to_split(l, m, k, s);
        assert(b@ == undo_to(upto(l, m), k, s));
        assert(from(upto(l, m), k) =~= u);
        lemma_undo_ok_upto(l, m, s);
        lemma_redo_inverts(upto(l, m), k, s);
    }
    let r2 = b.redo();
}
pub proof fn lemma_undo_ok_upto(l: Seq<AV>, m: int, s: Seq<char>)
    requires undo_ok(l, s), 0 <= m <= l.len() ensures undo_ok(upto(l, m), undo_to(l, m, s)) decreases l.len()
{
    if l.len() > m {
        lemma_undo_ok_upto(l.drop_last(), m, undo_av(l.last(), s));
        assert(upto(l.drop_last(), m) =~= upto(l, m));
    } else { assert(upto(l, m) =~= l); }
}
//@ end
