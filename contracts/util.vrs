//@ uses
use vstd::prelude::*;
use crate::vx::*;
use crate::vxio as io;
use crate::buffer::*;
//@ prelude
broadcast use {crate::vx::lemma_derefs_refs, crate::vx::lemma_derefs_sub};

/// p is a prefix of every element
pub open spec fn common_prefix(among: Seq<Vec<char>>, p: Seq<char>) -> bool {
    forall |i: int| 0 <= i < among.len() ==> is_prefix(p, #[trigger] among[i]@)
}
/// what a search for the longest common prefix found
pub open spec fn lcp_found(among: Seq<Vec<char>>, r: Option<Vec<char>>) -> bool {
    match r {
        Some(p) => common_prefix(among, p@) && forall |q: Seq<char>| #[trigger] common_prefix(among, q) ==> q.len() <= p@.len(),
        None => among.len() > 0 ==> forall |q: Seq<char>| #[trigger] common_prefix(among, q) ==> q.len() == 0,
    }
}
/// terminal escape sequences: what a state does with a character
pub open spec fn esc_next(st: AnsiState, c: char) -> AnsiState {
    match st {
        AnsiState::Norm => if c == '\x1B' { AnsiState::Esc } else { AnsiState::Norm },
        AnsiState::Esc => if c == '[' { AnsiState::Csi } else if c == ']' { AnsiState::Osc } else { AnsiState::Norm },
        AnsiState::Csi => if is_ascii_letter(c) { AnsiState::Norm } else { AnsiState::Csi },
        AnsiState::Osc => if c == '\x07' { AnsiState::Norm } else { AnsiState::Osc },
    }
}
/// state after reading s from normal
pub open spec fn esc_state(s: Seq<char>) -> AnsiState decreases s.len() {
    if s.len() == 0 { AnsiState::Norm } else { esc_next(esc_state(s.drop_last()), s.last()) }
}
/// the visible characters of s: those read in the normal state that do not start a sequence
pub open spec fn visible(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { s } else {
        let r = visible(s.drop_last());
        if esc_state(s.drop_last()) is Norm && s.last() != '\x1B' { r.push(s.last()) } else { r }
    }
}
pub proof fn lemma_visible_plain(s: Seq<char>)
    requires !s.contains('\x1B') ensures visible(s) == s, esc_state(s) is Norm decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert(s.last() == s[s.len() - 1]);
        assert forall |i: int| 0 <= i < d.len() implies d[i] != '\x1B' by { assert(d[i] == s[i]); }
        lemma_visible_plain(d);
        assert(s =~= d.push(s.last()));
    }
}
/// the width to draw for: 80 when the system does not say
pub open spec fn screen_width() -> int { let c = crate::vxterm::columns() as int; if c == 0 { 80 } else { c } }
/// the part behind the last line break
pub open spec fn last_line(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { s } else if s.last() == '\n' { Seq::empty() } else { last_line(s.drop_last()).push(s.last()) }
}
pub proof fn lemma_last_line(s: Seq<char>, i: int)
    requires 0 <= i < s.len(), s[i] == '\n', forall |k: int| i < k < s.len() ==> s[k] != '\n'
    ensures last_line(s) == s.subrange(i + 1, s.len() as int) decreases s.len()
{
    if i == s.len() - 1 {
        assert(s.subrange(i + 1, s.len() as int) =~= Seq::<char>::empty());
    } else {
        let d = s.drop_last();
        lemma_last_line(d, i);
        assert(s.subrange(i + 1, s.len() as int) =~= d.subrange(i + 1, d.len() as int).push(s.last()));
    }
}
pub proof fn lemma_last_line_none(s: Seq<char>)
    requires forall |k: int| 0 <= k < s.len() ==> s[k] != '\n'
    ensures last_line(s) == s decreases s.len()
{
    if s.len() > 0 {
        lemma_last_line_none(s.drop_last());
        assert(s =~= s.drop_last().push(s.last()));
    }
}
//@ replace AsRef<str> =>> VxAsStr
//@ fn last_prompt_line_width [C22]
//@ replace s.as_ref() =>> s.vx_as_str()
//@ spec
    ensures r == width_spec(visible(last_line(s.asv()))), // [C22]
//@ fn find_longest_common_prefix [C21,C12]
//@ replace <T: Clone + Eq>(among: &[Vec<T>]) -> Option<Vec<T>> =>> (among: &[Vec<char>]) -> Option<Vec<char>>
//@ replace Some(prefix.into()) =>> Some(vx_to_vec(prefix))
//@ replace .starts_with(prefix) =>> .vx_starts_with(prefix)
//@ spec
    ensures
        among@.len() == 0 ==> r is None, // [C21]
        r is Some ==> common_prefix(among@, r->0@), // [C21]
        r is Some ==> forall |q: Seq<char>| #[trigger] common_prefix(among@, q) ==> q.len() <= r->0@.len(), // [C21]
        r is None && among@.len() > 0 ==> forall |q: Seq<char>| #[trigger] common_prefix(among@, q) ==> q.len() == 0, // [C21]
        among@.len() > 1 && r is Some ==> r->0@.len() > 0, // [C21]
        lcp_found(among@, r), // [C21]
//@ closure 1
    [&&Vec<char>] -> (k: usize)
    ensures k == p0@.len()
//@ loop 1
    invariant
        vx_it1@ == seq_refs(among@).subrange(among@.len() - vx_it1@.len(), among@.len() as int), vx_it1@.len() <= among@.len(),
        forall |i: int| 0 <= i < among@.len() - vx_it1@.len() ==> (#[trigger] among@[i])@.len() > 0,
    ensures
        forall |i: int| 0 <= i < among@.len() ==> (#[trigger] among@[i])@.len() > 0,
    decreases vx_it1@.len()
//@ at loop 1 start
    proof {
        let n = among@.len() - vx_it1@.len() - 1;
        assert(*s == among@[n]);
        if s@.len() == 0 {
            assert forall |q: Seq<char>| #[trigger] common_prefix(among@, q) implies q.len() == 0 by { assert(is_prefix(q, among@[n]@)); }
        }
    }
//@ loop 2
    invariant
        end <= shortest_word@.len(), among@.len() > 1,
        exists |m: int| 0 <= m < among@.len() && among@[m]@ == shortest_word@,
        forall |i: int| 0 <= i < among@.len() ==> (#[trigger] among@[i])@.len() >= shortest_word@.len(),
        forall |q: Seq<char>| #[trigger] common_prefix(among@, q) ==> q.len() <= end,
    decreases end
//@ at before loop 2
    proof {
        assert(seq_refs(among@)[0] == &among@[0]);
        assert forall |i: int| 0 <= i < among@.len() implies (#[trigger] among@[i])@.len() >= shortest_word@.len() by { assert(seq_refs(among@)[i] == &among@[i]); }
        assert forall |q: Seq<char>| #[trigger] common_prefix(among@, q) implies q.len() <= end by {
            let m = choose |m: int| 0 <= m < among@.len() && among@[m]@ == shortest_word@;
            assert(is_prefix(q, among@[m]@));
        }
    }
//@ loop 3
    invariant_except_break !failed,
        forall |i: int| 0 <= i < among@.len() - vx_it3@.len() ==> is_prefix(prefix@, #[trigger] among@[i]@),
    invariant
        vx_it3@ == seq_refs(among@).subrange(among@.len() - vx_it3@.len(), among@.len() as int), vx_it3@.len() <= among@.len(),
        among@.len() > 1, 0 < end <= shortest_word@.len(), prefix@ == shortest_word@.subrange(0, end as int),
    ensures
        !failed ==> common_prefix(among@, prefix@),
        failed ==> exists |i: int| 0 <= i < among@.len() && !is_prefix(prefix@, #[trigger] among@[i]@),
    decreases vx_it3@.len()
//@ at loop 3 start
    proof { assert(*s == among@[among@.len() - vx_it3@.len() - 1]); }
//@ at after loop 3
    proof {
        if failed {
            assert forall |q: Seq<char>| #[trigger] common_prefix(among@, q) implies q.len() < end by {
                if q.len() >= end {
                    let i = choose |i: int| 0 <= i < among@.len() && !is_prefix(prefix@, #[trigger] among@[i]@);
                    let m = choose |m: int| 0 <= m < among@.len() && among@[m]@ == shortest_word@;
                    assert(is_prefix(q, among@[i]@)); assert(is_prefix(q, among@[m]@));
                    assert(prefix@ =~= q.subrange(0, end as int));
                    assert(among@[i]@.subrange(0, end as int) =~= q.subrange(0, end as int));
                }
            }
        }
    }
//@ at start
    proof { assert forall |q: Seq<char>| #[trigger] common_prefix(among@, q) && among@.len() > 0 implies is_prefix(q, among@[0]@) by { }
      if among@.len() > 0 { assert(among@[0]@.subrange(0, among@[0]@.len() as int) =~= among@[0]@); } }
//@ fn remove_codes [C22]
//@ replace Cow<str> =>> String
//@ replace Cow::Owned(clean) =>> clean
//@ replace Cow::Borrowed(input) =>> vx_str_to_string(input)
//@ replace input.contains('\x1B') =>> input.vx_contains('\x1B')
//@ spec
    ensures r@ == visible(input@), // [C22]
//@ loop 1
    invariant
        input@.subrange(0, input@.len() as int) == input@, vx_it1@.len() <= input@.len(), vx_it1@ == input@.subrange(input@.len() - vx_it1@.len(), input@.len() as int),
        s == esc_state(input@.subrange(0, input@.len() - vx_it1@.len())),
        clean@ == visible(input@.subrange(0, input@.len() - vx_it1@.len())),
    ensures clean@ == visible(input@),
    decreases vx_it1@.len()
//@ at start
    proof {
        assert(input@.subrange(0, 0) =~= Seq::<char>::empty());
        assert(input@.subrange(0, input@.len() as int) =~= input@);
        if !input@.contains('\x1B') { lemma_visible_plain(input@); }
    }
//@ at loop 1 start
    proof {
        let n = input@.len() - vx_it1@.len() - 1;
        let t = input@.subrange(0, n + 1);
        assert(t.drop_last() =~= input@.subrange(0, n));
        assert(t.last() == input@[n] && c == input@[n]);
    }
//@ fn handle_prompt [C22]
//@ replace full_prompt.rfind('\n') =>> full_prompt.vx_rfind('\n')
//@ replace full_prompt.split_at(index + 1) =>> full_prompt.vx_split_at(index + 1)
//@ spec
    ensures r@ == last_line(full_prompt@), // [C22]
//@ at start
    proof { if forall |k: int| 0 <= k < full_prompt@.len() ==> full_prompt@[k] != '\n' { lemma_last_line_none(full_prompt@); }
    }
//@ at then#1
    proof {
        let i = choose |i: int| 0 <= i < full_prompt@.len() && #[trigger] boff(full_prompt@, i) == index && full_prompt@[i] == '\n' && (forall |k: int| i < k < full_prompt@.len() ==> full_prompt@[k] != '\n');
        ax_utf8_push(full_prompt@, i);
        assert(at_byte(full_prompt@, index + 1, i + 1));
        lemma_last_line(full_prompt@, i);
    }
//@ fn terminal_width [C08]
//@ replace ::termion::terminal_size() =>> crate::vxterm::terminal_size()
//@ spec
    ensures r is Ok ==> 1 <= r->Ok_0 <= 65535,
        r is Ok ==> r->Ok_0 == screen_width(), // [C24]
        r is Err ==> io::size_err(r->Err_0.k), // [C23]
//@ end
