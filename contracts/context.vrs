//@ uses
use vstd::prelude::*;
use crate::vx::*;
use crate::vxio as io;
use crate::vxio::{Write, ErrorKind, io_rel};
use crate::vxkey::Key;
use crate::buffer::*;
use crate::history::*;
//@ prelude
broadcast use {crate::vx::lemma_derefs_refs, crate::vx::lemma_derefs_sub, crate::vx_ax::ax_vec_char_len};

pub type Words = Seq<(usize, usize)>;
/// words of a text of length n: non-empty, disjoint, in order
pub open spec fn words_ok(w: Words, n: int) -> bool {
    &&& forall |i: int| 0 <= i < w.len() ==> (#[trigger] w[i]).0 < w[i].1 <= n
    &&& forall |i: int, j: int| 0 <= i < j < w.len() ==> (#[trigger] w[i]).1 <= (#[trigger] w[j]).0
}
/// a space that is not directly preceded by a backslash ends a word
pub open spec fn is_sep(s: Seq<char>, i: int) -> bool { 0 <= i < s.len() && s[i] == ' ' && !(i > 0 && s[i - 1] == '\\') }
/// a word starts at a character that is neither a space nor a backslash
pub open spec fn is_starter(s: Seq<char>, i: int) -> bool { 0 <= i < s.len() && s[i] != ' ' && s[i] != '\\' }
/// the least separator at or behind i (or the end)
pub open spec fn next_sep(s: Seq<char>, i: int) -> int decreases s.len() - i {
    if i >= s.len() { s.len() as int } else if is_sep(s, i) { i } else { next_sep(s, i + 1) }
}
/// the least word start at or behind i (or the end)
pub open spec fn next_starter(s: Seq<char>, i: int) -> int decreases s.len() - i {
    if i >= s.len() { s.len() as int } else if is_starter(s, i) { i } else { next_starter(s, i + 1) }
}
pub proof fn lemma_next(s: Seq<char>, i: int)
    requires 0 <= i
    ensures i <= s.len() ==> i <= next_sep(s, i) <= s.len(), i <= s.len() ==> i <= next_starter(s, i) <= s.len(), // [C15]
        forall |j: int| i <= j < next_sep(s, i) ==> !is_sep(s, j), next_sep(s, i) < s.len() ==> is_sep(s, next_sep(s, i)), // [C15]
        forall |j: int| i <= j < next_starter(s, i) ==> !is_starter(s, j), next_starter(s, i) < s.len() ==> is_starter(s, next_starter(s, i)), // [C15]
    decreases s.len() - i
{
    if i < s.len() { lemma_next(s, i + 1); }
}
/// the words of a line from position i on: each from its start to the next separator
pub open spec fn words_from(s: Seq<char>, i: int) -> Words decreases s.len() - i via words_from_dec {
    if i < 0 || next_starter(s, i) >= s.len() { Seq::empty() }
    else { seq![(next_starter(s, i) as usize, next_sep(s, next_starter(s, i)) as usize)] + words_from(s, next_sep(s, next_starter(s, i))) }
}
#[via_fn]
proof fn words_from_dec(s: Seq<char>, i: int) {
    if 0 <= i {
        lemma_next(s, i);
        if i < s.len() { lemma_next(s, next_starter(s, i)); }
    }
}
pub proof fn lemma_words_ok(s: Seq<char>, i: int)
    requires 0 <= i <= s.len(), s.len() <= usize::MAX
    ensures words_ok(words_from(s, i), s.len() as int), // [C15]
        forall |k: int| 0 <= k < words_from(s, i).len() ==> i <= (#[trigger] words_from(s, i)[k]).0, // [C15]
    decreases s.len() - i
{
    lemma_next(s, i);
    let a = next_starter(s, i);
    if a < s.len() {
        lemma_next(s, a);
        let b = next_sep(s, a);
        lemma_words_ok(s, b);
        let r = words_from(s, b);
        let w = words_from(s, i);
        assert(w =~= seq![(a as usize, b as usize)] + r);
        assert forall |k: int| 0 <= k < w.len() implies (#[trigger] w[k]).0 < w[k].1 <= s.len() && i <= w[k].0 by { if k > 0 { assert(w[k] == r[k - 1]); } }
        assert forall |x: int, y: int| 0 <= x < y < w.len() implies (#[trigger] w[x]).1 <= (#[trigger] w[y]).0 by {
            assert(w[y] == r[y - 1]);
            if x > 0 { assert(w[x] == r[x - 1]); }
        }
    }
}
//@ replace type WordDividerIter: ExactSizeIterator<Item = (usize, usize)> + Clone; =>> 
//@ replace Self::WordDividerIter =>> VxIt<(usize, usize)>
//@ replace Tty: io::Write =>> Tty: Sized
//@ replace EditorContext: fmt::Write =>> EditorContext: Sized
//@ drop DefaultTty
//@ drop Tty for DefaultTty
//@ drop io::Write for DefaultTty
//@ drop ColorClosure
//@ drop EditorContext for &'_ mut C
//@ drop fmt::Write for Context
//@ drop EditorContext for Context
//@ drop Default for Context
//@ drop From<T> for Context
//@ drop Context
//@ drop Context::new
//@ drop Context::with_terminal
//@ drop DefaultTty::new
//@ # these need the editor and the key maps: module session
//@ drop trait EditorContext::read_line_with_init_buffer
//@ drop trait EditorContext::handle_keys
//@ drop trait EditorContext::revert_all_history
//@ derive KeyBindings: PartialEq, Eq, Structural, Clone, Copy
//@ implx trait Tty
    /// the errors the terminal (or the output buffer written to it) has returned so far
    spec fn failed(&self) -> Seq<ErrorKind>;
    /// everything written to it
    spec fn sent(&self) -> Seq<u8>;
    // std::io::Write for the terminal
    fn write_all(&mut self, b: &[u8]) -> (r: io::Result<()>)
        ensures (match r { Ok(_) => final(self).failed() == old(self).failed(), Err(e) => final(self).failed() == old(self).failed().push(e.k) }),
            r is Ok ==> final(self).sent() == old(self).sent() + b@;
    fn flush(&mut self) -> (r: io::Result<()>)
        ensures final(self).sent() == old(self).sent(), (match r { Ok(_) => final(self).failed() == old(self).failed(), Err(e) => final(self).failed() == old(self).failed().push(e.k) });
//@ fn trait Tty::next_key
//@ spec
    ensures (match r { Some(Err(e)) => final(self).failed() == old(self).failed().push(e.k), _ => final(self).failed() == old(self).failed() })
//@ fn trait Tty::width
//@ spec
    ensures true
//@ end
//@ implx trait EditorContext
    spec fn h(&self) -> History;
    spec fn term(&self) -> Self::Terminal;
    /// the words of a text
    spec fn wds(&self) -> spec_fn(Seq<char>) -> Words;
    spec fn kb(&self) -> KeyBindings;
    // std::fmt::Write for the context: writes into its output buffer only
    fn vx_write_fmt(&mut self) -> (r: Result<(), VxFmtErr>)
        ensures final(self).h() == old(self).h(), final(self).wds() == old(self).wds(), final(self).kb() == old(self).kb(),
            final(self).term().sent() == old(self).term().sent(),
            (match r { Ok(_) => final(self).term().failed() == old(self).term().failed(), Err(_) => final(self).term().failed() == old(self).term().failed().push(ErrorKind::Other) });
//@ fn trait EditorContext::history
//@ spec
    ensures *r == self.h()
//@ fn trait EditorContext::history_mut
//@ spec
    ensures *r == old(self).h(), final(self).h() == *final(r), final(self).term() == old(self).term(), final(self).wds() == old(self).wds(), final(self).kb() == old(self).kb()
//@ fn trait EditorContext::terminal
//@ spec
    ensures *r == self.term()
//@ fn trait EditorContext::terminal_mut
//@ spec
    ensures *r == old(self).term(), final(self).term() == *final(r), final(self).h() == old(self).h(), final(self).wds() == old(self).wds(), final(self).kb() == old(self).kb()
//@ fn trait EditorContext::word_divider
//@ spec
    ensures r@ == (self.wds())(buf@), words_ok(r@, buf@.len() as int)
//@ fn trait EditorContext::key_bindings
//@ spec
    ensures r == self.kb()
//@ end
//@ fn get_buffer_words [C15]
//@ spec
    ensures r@ == words_from(buf@, 0), // [C15]
        words_ok(r@, buf@.len() as int), // [C15]
//@ loop 1
    invariant
        res@ + (match word_start { None => words_from(buf@, buf@.len() - vx_it1@.len()), Some(a) => seq![(a, next_sep(buf@, buf@.len() - vx_it1@.len()) as usize)] + words_from(buf@, next_sep(buf@, buf@.len() - vx_it1@.len())) }) == words_from(buf@, 0),
        vx_it1@.len() <= buf@.len(),
        forall |k: int| 0 <= k < vx_it1@.len() ==> (#[trigger] vx_it1@[k]).0 == buf@.len() - vx_it1@.len() + k && *vx_it1@[k].1 == buf@[vx_it1@[k].0 as int],
        just_had_backslash == (vx_it1@.len() < buf@.len() && buf@[buf@.len() - vx_it1@.len() - 1] == '\\'),
        word_start is Some ==> word_start->0 < buf@.len(),
    ensures vx_it1@.len() == 0,
    decreases vx_it1@.len()
//@ at start
proof { lemma_words_ok(buf@, 0); lemma_next(buf@, 0); }
//@ at loop 1 init
proof { assert(res@ + words_from(buf@, 0) =~= words_from(buf@, 0)); }
//@ at loop 1 start
let ghost vx_k = buf@.len() - vx_it1@.len() - 1;
proof { lemma_next(buf@, vx_k); lemma_next(buf@, vx_k + 1); }
let ghost vx_res = res@;
let ghost vx_ws = word_start;
//@ at loop 1 end
proof {
    if vx_ws is Some && word_start is None {
        assert(res@ =~= vx_res + seq![(vx_ws->0, vx_k as usize)]);
        assert(next_sep(buf@, vx_k) == vx_k);
        assert(next_starter(buf@, vx_k) == next_starter(buf@, vx_k + 1));
        assert(words_from(buf@, vx_k) == words_from(buf@, vx_k + 1));
        assert(vx_res + (seq![(vx_ws->0, vx_k as usize)] + words_from(buf@, vx_k)) =~= res@ + words_from(buf@, vx_k));
    }
}
//@ at after loop 1
proof {
    let n = buf@.len() as int;
    assert(words_from(buf@, n) =~= Seq::<(usize, usize)>::empty());
    if word_start is None { assert(res@ + words_from(buf@, n) =~= res@); }
    else { assert(res@ + (seq![(word_start->0, n as usize)] + words_from(buf@, n)) =~= res@.push((word_start->0, n as usize))); }
}
//@ end
