//@ uses
use vstd::prelude::*;
use crate::vx::*;
use crate::vxio as io;
use crate::vxfs::*;
use crate::buffer::*;
use std::collections::VecDeque;
use std::ops::Index;
//@ prelude
broadcast use {crate::vx::lemma_mod_wrap, crate::vx::lemma_derefs_refs, crate::vx::lemma_derefs_sub, crate::vx_ax::ax_deque_len};

/// the stored texts, oldest first
pub open spec fn texts(s: Seq<Buffer>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
impl History {
    pub open spec fn t(&self) -> Seq<Seq<char>> { texts(self.buffers@) }
    pub open spec fn wf(&self) -> bool {
        self.compaction_writes <= 29 && bufs_wf(self.buffers@)
    }
    /// everything but the stored entries and the bookkeeping of the file
    pub open spec fn same_settings(&self, o: &History) -> bool {
        self.file_name == o.file_name && self.max_buffers_size == o.max_buffers_size && self.max_file_size == o.max_file_size
            && self.append_duplicate_entries == o.append_duplicate_entries && self.inc_append == o.inc_append && self.share == o.share
            && self.load_duplicates == o.load_duplicates
    }
}
/// indices (ascending) of the entries on which p holds
pub open spec fn matching(t: Seq<Seq<char>>, p: spec_fn(Seq<char>) -> bool) -> Seq<usize> decreases t.len() {
    if t.len() == 0 { Seq::empty() } else {
        let r = matching(t.drop_last(), p);
        if p(t.last()) { r.push((t.len() - 1) as usize) } else { r }
    }
}
pub proof fn lemma_matching(t: Seq<Seq<char>>, p: spec_fn(Seq<char>) -> bool)
    ensures
        forall |k: int| 0 <= k < matching(t, p).len() ==> (#[trigger] matching(t, p)[k]) < t.len() || t.len() > usize::MAX,
        t.len() <= usize::MAX ==> forall |k: int| 0 <= k < matching(t, p).len() ==> p(t[(#[trigger] matching(t, p)[k]) as int]),
        matching(t, p).len() <= t.len(),
    decreases t.len()
{
    if t.len() > 0 {
        lemma_matching(t.drop_last(), p);
        let r = matching(t.drop_last(), p);
        assert forall |k: int| 0 <= k < matching(t, p).len() && t.len() <= usize::MAX implies p(t[(#[trigger] matching(t, p)[k]) as int]) by {
            if k < r.len() { assert(matching(t, p)[k] == r[k]); assert(t.drop_last()[r[k] as int] == t[r[k] as int]); }
        }
        assert forall |k: int| 0 <= k < matching(t, p).len() implies (#[trigger] matching(t, p)[k]) < t.len() || t.len() > usize::MAX by {
            if k < r.len() { assert(matching(t, p)[k] == r[k]); }
        }
    }
}
pub open spec fn p_has(q: Seq<char>) -> spec_fn(Seq<char>) -> bool { |x: Seq<char>| has_sub(x, q) }
pub open spec fn p_starts(q: Seq<char>) -> spec_fn(Seq<char>) -> bool { |x: Seq<char>| extends(x, q) }
pub open spec fn p_inner(q: Seq<char>) -> spec_fn(Seq<char>) -> bool { |x: Seq<char>| has_sub(x, q) && !extends(x, q) && x != q }
/// what history browsing steps through: entries containing the text, then (newest last) those starting with it
pub open spec fn subset_of(t: Seq<Seq<char>>, q: Seq<char>) -> Seq<usize> { matching(t, p_inner(q)) + matching(t, p_starts(q)) }
pub open spec fn p_not(q: Seq<char>) -> spec_fn(Seq<char>) -> bool { |x: Seq<char>| x != q }
pub open spec fn pb_not(q: Seq<char>) -> spec_fn(Buffer) -> bool { |x: Buffer| x@ != q }
pub open spec fn ps_not(q: Seq<char>) -> spec_fn(String) -> bool { |x: String| x@ != q }
pub proof fn lemma_strs_filter(s: Seq<String>, q: Seq<char>)
    ensures strs(s.filter(ps_not(q))) == strs(s).filter(p_not(q)), s.filter(ps_not(q)).len() <= s.len() decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        lemma_strs_filter(s.drop_last(), q);
        assert(strs(s).drop_last() =~= strs(s.drop_last()));
        assert(strs(s).last() == s.last()@);
    }
    assert(strs(s.filter(ps_not(q))) =~= strs(s).filter(p_not(q)));
}
/// keep the last n
pub open spec fn last_n<T>(s: Seq<T>, n: int) -> Seq<T> { if s.len() <= n { s } else { s.subrange(s.len() - n, s.len() as int) } }
/// keep, of equal entries, the newest
pub open spec fn dedup_newest(s: Seq<Seq<char>>) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { s } else { dedup_newest(s.drop_last().filter(p_not(s.last()))).push(s.last()) }
}
pub open spec fn is_entry() -> spec_fn(Seq<char>) -> bool { |l: Seq<char>| !(l.len() > 0 && l[0] == '#') }
pub open spec fn entries(lines: Seq<Seq<char>>) -> Seq<Seq<char>> { lines.filter(is_entry()) }
/// what loading the given lines makes of the stored texts
pub open spec fn loaded(old: Seq<Seq<char>>, lines: Seq<Seq<char>>, append: bool, max: int, dups: bool) -> Seq<Seq<char>> {
    let all = (if append { old } else { Seq::empty() }) + entries(lines);
    let cut = last_n(all, max);
    if dups { cut } else { dedup_newest(cut) }
}
pub proof fn lemma_texts_push(s: Seq<Buffer>, b: Buffer) ensures texts(s.push(b)) == texts(s).push(b@) { assert(texts(s.push(b)) =~= texts(s).push(b@)); }
pub proof fn lemma_texts_filter(s: Seq<Buffer>, q: Seq<char>)
    ensures texts(s.filter(pb_not(q))) == texts(s).filter(p_not(q)) decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        lemma_texts_filter(s.drop_last(), q);
        assert(texts(s).drop_last() =~= texts(s.drop_last()));
        assert(texts(s).last() == s.last()@);
        assert(texts(s.filter(pb_not(q))) =~= texts(s).filter(p_not(q)));
    } else {
        assert(texts(s.filter(pb_not(q))) =~= texts(s).filter(p_not(q)));
    }
}
pub open spec fn is_match(h: &History, i: int, q: Seq<char>) -> bool { 0 <= i < h.t().len() && extends(h.t()[i], q) }
pub open spec fn g_pair<'a>(h: &'a History) -> spec_fn(usize) -> Option<(usize, &'a Buffer)> {
    |i: usize| if i < h.buffers@.len() { Some((i, &h.buffers@[i as int])) } else { None }
}
pub open spec fn pp_starts<'a>(q: Seq<char>) -> spec_fn((usize, &'a Buffer)) -> bool { |x: (usize, &'a Buffer)| extends(x.1@, q) }
pub open spec fn pp_has<'a>(q: Seq<char>) -> spec_fn((usize, &'a Buffer)) -> bool { |x: (usize, &'a Buffer)| has_sub(x.1@, q) }
pub open spec fn in_range(v: Seq<usize>, h: &History) -> bool { forall |i: int| 0 <= i < v.len() ==> (#[trigger] v[i]) < h.t().len() }
pub proof fn lemma_fm_match(v: Seq<usize>, h: &History, q: Seq<char>)
    requires in_range(v, h)
    ensures ({ let r = seq_filter_map(v, g_pair(h)); r.len() == v.len() && forall |i: int| 0 <= i < r.len() ==> #[trigger] r[i] == (v[i], &h.buffers@[v[i] as int]) })
    decreases v.len()
{
    if v.len() > 0 {
        let d = v.drop_last();
        assert forall |i: int| 0 <= i < d.len() implies (#[trigger] d[i]) < h.t().len() by { assert(d[i] == v[i]); }
        lemma_fm_match(d, h, q);
        assert(v[v.len() - 1] < h.t().len());
        assert(v.last() < h.t().len());
    }
}
/// the first element on which p holds
pub proof fn lemma_filter_first<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    ensures s.filter(p).len() == 0 <==> (forall |i: int| 0 <= i < s.len() ==> !p(#[trigger] s[i])),
        s.filter(p).len() > 0 ==> exists |i: int| 0 <= i < s.len() && s.filter(p)[0] == s[i] && p(#[trigger] s[i]) && (forall |j: int| 0 <= j < i ==> !p(#[trigger] s[j])),
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_filter_first(d, p);
        assert(forall |i: int| 0 <= i < d.len() ==> d[i] == s[i]);
        if d.filter(p).len() > 0 {
            let i = choose |i: int| 0 <= i < d.len() && d.filter(p)[0] == d[i] && p(#[trigger] d[i]) && (forall |j: int| 0 <= j < i ==> !p(#[trigger] d[j]));
            assert(p(s[i]));
            assert(s.filter(p)[0] == s[i]);
            assert forall |j: int| 0 <= j < i implies !p(#[trigger] s[j]) by { assert(d[j] == s[j]); }
        } else if p(s.last()) {
            assert(s.filter(p) =~= seq![s.last()]);
            assert forall |j: int| 0 <= j < s.len() - 1 implies !p(#[trigger] s[j]) by { assert(d[j] == s[j]); }
            assert(p(s[s.len() - 1]));
        } else {
            assert(s.filter(p) =~= d.filter(p));
            assert forall |j: int| 0 <= j < s.len() implies !p(#[trigger] s[j]) by { if j < d.len() { assert(d[j] == s[j]); } }
        }
    }
}
pub proof fn lemma_match_filter(h: &History, n: int, q: Seq<char>)
    requires 0 <= n <= h.buffers@.len(), h.buffers@.len() <= usize::MAX
    ensures ({
        let f = seq_filter_map(range_seq(0, n as usize), g_pair(h)).filter(pp_has(q));
        f.len() == matching(h.t().subrange(0, n), p_has(q)).len() && forall |i: int| 0 <= i < f.len() ==> (#[trigger] f[i]).0 == matching(h.t().subrange(0, n), p_has(q))[i]
    })
    decreases n
{
    reveal(Seq::filter);
    if n > 0 {
        lemma_match_filter(h, n - 1, q);
        let v = range_seq(0, n as usize);
        assert(v.drop_last() =~= range_seq(0, (n - 1) as usize));
        assert(h.t().subrange(0, n).drop_last() =~= h.t().subrange(0, n - 1));
        let fm = seq_filter_map(v, g_pair(h));
        assert(fm.drop_last() =~= seq_filter_map(v.drop_last(), g_pair(h)));
        assert(fm.last() == ((n - 1) as usize, &h.buffers@[n - 1]));
    } else {
        assert(range_seq(0, 0).len() == 0);
    }
}
pub fn vx_buf_cloned(b: Option<&Buffer>) -> (r: Option<Buffer>)
    ensures r is Some == b is Some, b is Some ==> r->0@ == b->0@ && r->0.ul() == b->0.ul() && r->0.rl() == b->0.rl()
{ match b { Some(x) => Some(x.clone()), None => None } }
/// the texts of the entries, cloned
pub fn vx_cloned(d: &VecDeque<Buffer>) -> (r: VxIt<Buffer>) ensures texts(r@) == texts(d@) {
    let mut out: Vec<Buffer> = Vec::new();
    let mut i = 0;
    while i < d.len() invariant i <= d@.len(), texts(out@) == texts(d@.subrange(0, i as int)) decreases d@.len() - i
    {
        let b = d[i].clone();
        let ghost o0 = out@;
        out.push(b);
        proof { lemma_texts_push(o0, b); assert(d@.subrange(0, i + 1) =~= d@.subrange(0, i as int).push(d@[i as int])); lemma_texts_push(d@.subrange(0, i as int), d@[i as int]); }
        i = i + 1;
    }
    assert(d@.subrange(0, d@.len() as int) =~= d@);
    VxIt { v: out }
}
pub open spec fn bufs_wf(s: Seq<Buffer>) -> bool { forall |i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).wf() }
/// what loading the file f does to a history that had seen `length` bytes of it
pub open spec fn load_spec(ot: Seq<Seq<char>>, nt: Seq<Seq<char>>, max: int, dups: bool, f: File, length: u64, append: bool) -> bool {
    &&& f.size() != length ==> nt == loaded(ot, f.content(), append, max, dups)
    &&& f.size() == length && length == 0 && !append ==> nt.len() == 0
    &&& f.size() == length && !(length == 0 && !append) ==> nt == ot
}
pub open spec fn unchanged(o: &History, n: &History) -> bool {
    n.same_settings(o) && n.t() == o.t() && n.file_size == o.file_size && n.compaction_writes == o.compaction_writes
}
pub proof fn lemma_filter_bufs_wf(s: Seq<Buffer>, p: spec_fn(Buffer) -> bool) requires bufs_wf(s) ensures bufs_wf(s.filter(p)) decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        assert forall |i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i]).wf() by { assert(s[i].wf()); }
        lemma_filter_bufs_wf(s.drop_last(), p);
        assert(s[s.len() - 1].wf());
    }
}
pub open spec fn pushed(o: &History, item: Seq<char>) -> Seq<Seq<char>> { last_n(o.t().push(item), o.max_buffers_size as int) }
pub open spec fn is_repeat(o: &History, item: Seq<char>) -> bool { !o.append_duplicate_entries && o.t().len() > 0 && o.t().last() == item }
/// this push rewrites the file from a fresh load of it
pub open spec fn reloads(o: &History) -> bool { o.inc_append && o.file_name is Some && !o.load_duplicates && o.share && o.compaction_writes >= 29 }
//@ replace impl Index<usize> for History =>> impl History
//@ replace type Output = Buffer; =>>
//@ replace .as_bytes =>> .vx_as_bytes
//@ replace b"\n" =>> vx_nl().as_slice()
//@ replace self.file_name.clone() =>> vx_opt_clone(&self.file_name)
//@ replace <P: AsRef<Path>> =>> <P: VxAsPath>
//@ replace path.as_ref() =>> path.vx_path()
//@ replace std::fs:: =>> crate::vxfs::
//@ replace self.buffers.back() =>> self.buffers.vx_back()
//@ replace self.buffers.get =>> self.buffers.vx_get
//@ replace .retain =>> .vx_retain
//@ drop IntoIterator for &'a History
//@ drop IndexMut<usize> for History
//@ fn Default for History::default
//@ spec
    ensures r.t().len() == 0, r.wf(), r.file_name is None,
//@ fn History::new
//@ spec
    ensures r.t().len() == 0, r.wf(), r.file_name is None, // [C04]
//@ fn History::clear_history [C06]
//@ spec
    ensures final(self).t().len() == 0, final(self).same_settings(old(self)), final(self).file_size == old(self).file_size,
        final(self).compaction_writes == old(self).compaction_writes, // [C06]
//@ fn History::len
//@ spec
    ensures r == self.t().len(), r == self.buffers@.len(),
//@ fn History::is_empty
//@ replace self.buffers.is_empty() =>> self.buffers.vx_is_empty()
//@ spec
    ensures r == (self.t().len() == 0),
//@ fn History::set_max_buffers_size
//@ spec
    ensures final(self).max_buffers_size == size, final(self).t() == old(self).t(), old(self).wf() ==> final(self).wf(), // [C04]
//@ fn History::set_max_file_size
//@ spec
    ensures final(self).max_file_size == size, final(self).t() == old(self).t(), old(self).wf() ==> final(self).wf(), // [C06]
//@ fn History::remove_duplicates [C04]
//@ replace command != input =>> !vx_streq(command.as_str(), input)
//@ closure 1
    [&Buffer] -> (b: bool)
    ensures b == (p0@ != input@)
//@ spec
    ensures final(self).t() == old(self).t().filter(p_not(input@)), // [C04]
        final(self).same_settings(old(self)), final(self).file_size == old(self).file_size, final(self).compaction_writes == old(self).compaction_writes,
        final(self).t().len() <= old(self).t().len(), bufs_wf(old(self).buffers@) ==> bufs_wf(final(self).buffers@),
//@ at start
    proof { if bufs_wf(self.buffers@) { lemma_filter_bufs_wf(self.buffers@, pb_not(input@)); } lemma_texts_filter(self.buffers@, input@); assert(hint(pb_not(input@))); }
//@ end
//@ fn History::index
//@ spec
    requires index < self.t().len()
    ensures *r == self.buffers@[index as int], r@ == self.t()[index as int],
//@ fn History::get_match [C05,C14]
//@ replace <I>(&self, vals: I, search_term: &Buffer) -> Option<usize> where I: Iterator<Item = usize>, =>> (&self, vals: VxIt<usize>, search_term: &Buffer) -> Option<usize>
//@ closure 1
    [usize] -> (r: Option<(usize, &Buffer)>)
    ensures r == g_pair(self)(p0)
//@ closure 2
    [&Buffer] -> (r: (usize, &Buffer))
    ensures r == (i, p0)
//@ closure 3
    [&(usize, &Buffer)] -> (b: bool)
    ensures b == pp_starts(search_term@)(*p0)
//@ closure 4
    [(usize, &Buffer)] -> (r: usize)
    ensures r == p0.0
//@ spec
    requires in_range(vals@, self)
    ensures
        r is Some ==> exists |k: int| 0 <= k < vals@.len() && r->0 == #[trigger] vals@[k] && is_match(self, vals@[k] as int, search_term@) && (forall |j: int| 0 <= j < k ==> !is_match(self, (#[trigger] vals@[j]) as int, search_term@)), // [C05,C14]
        r is None ==> forall |j: int| 0 <= j < vals@.len() ==> !is_match(self, (#[trigger] vals@[j]) as int, search_term@), // [C05,C14]
//@ at start
    proof {
        assert(hint(g_pair(self))); assert(hint(pp_starts(search_term@)));
        lemma_fm_match(vals@, self, search_term@);
        lemma_filter_first(seq_filter_map(vals@, g_pair(self)), pp_starts(search_term@));
        let fm = seq_filter_map(vals@, g_pair(self));
        assert forall |j: int| 0 <= j < vals@.len() implies is_match(self, (#[trigger] vals@[j]) as int, search_term@) == pp_starts(search_term@)(fm[j]) by { }
    }
//@ fn History::get_newest_match [C05,C14]
//@ expand unwrap_or_else#1 option_unwrap_or_else
//@ spec
    requires curr_position is Some ==> curr_position->0 <= self.t().len()
    ensures
        r is Some ==> is_match(self, r->0 as int, new_buff@) && r->0 < (if curr_position is Some { curr_position->0 as int } else { self.t().len() as int })
            && (forall |j: int| r->0 < j < (if curr_position is Some { curr_position->0 as int } else { self.t().len() as int }) ==> !is_match(self, j, new_buff@)), // [C05,C14]
        r is None ==> forall |j: int| 0 <= j < (if curr_position is Some { curr_position->0 as int } else { self.t().len() as int }) ==> !is_match(self, j, new_buff@), // [C05,C14]
//@ at tail
    proof {
        let v = seq_reverse(range_seq(0, pos));
        if pos > 0 {
            if vx_r is Some {
                let k = choose |k: int| 0 <= k < v.len() && vx_r->0 == #[trigger] v[k] && is_match(self, v[k] as int, new_buff@) && (forall |j: int| 0 <= j < k ==> !is_match(self, (#[trigger] v[j]) as int, new_buff@));
                assert forall |j: int| vx_r->0 < j < pos implies !#[trigger] is_match(self, j, new_buff@) by { assert(v[pos - 1 - j] == j); }
            } else {
                assert forall |j: int| 0 <= j < pos implies !#[trigger] is_match(self, j, new_buff@) by { assert(v[pos - 1 - j] == j); }
            }
        }
    }
//@ fn History::get_history_subset [C05,C10]
//@ expand collect#1 filter_collect
//@ replace tested != search_term =>> !(tested == search_term)
//@ spec
    ensures r@ == subset_of(self.t(), search_term@), // [C05,C10]
//@ loop 1
    invariant
        self.buffers@.len() <= usize::MAX,
        vx_out@ == matching(self.t().subrange(0, vx_x as int), p_inner(search_term@)),
        v@ == matching(self.t().subrange(0, vx_x as int), p_starts(search_term@)),
//@ at loop 1 start
    proof {
        let n = vx_x as int;
        assert(self.t().subrange(0, n + 1).drop_last() =~= self.t().subrange(0, n));
        assert(self.t().subrange(0, n + 1).last() == self.t()[n]);
    }
//@ at before loop 1
    proof { assert(self.t().subrange(0, 0) =~= Seq::<Seq<char>>::empty()); }
//@ at tail
    proof { assert(self.t().subrange(0, self.t().len() as int) =~= self.t()); }
//@ fn History::search_index [C05,C11]
//@ closure 1
    [usize] -> (r: Option<(usize, &Buffer)>)
    ensures r == g_pair(self)(p0)
//@ closure 2
    [&Buffer] -> (r: (usize, &Buffer))
    ensures r == (i, p0)
//@ closure 3
    [&(usize, &Buffer)] -> (b: bool)
    ensures b == pp_has(search_term@)(*p0)
//@ closure 4
    [(usize, &Buffer)] -> (r: usize)
    ensures r == p0.0
//@ spec
    ensures r@ == matching(self.t(), p_has(search_term@)), // [C05,C11]
//@ at start
    proof {
        assert(hint(g_pair(self))); assert(hint(pp_has(search_term@)));
        lemma_match_filter(self, self.buffers@.len() as int, search_term@);
        assert(self.t().subrange(0, self.t().len() as int) =~= self.t());
    }
//@ at tail
    proof { assert(vx_r@ =~= matching(self.t(), p_has(search_term@))); }
//@ fn History::file_name
//@ closure 1
    [&String] -> (r: &str)
    ensures r@ == p0@
//@ spec
    ensures r is Some <==> self.file_name is Some, r is Some ==> r->0@ == self.file_name->0@,
//@ end
//@ fn History::truncate [C06]
//@ spec
    requires bufs_wf(old(self).buffers@)
    ensures final(self).t() == last_n(old(self).t(), old(self).max_file_size as int), // [C06]
        bufs_wf(final(self).buffers@), final(self).same_settings(old(self)), final(self).file_size == old(self).file_size, final(self).compaction_writes == old(self).compaction_writes,
//@ loop 1
    invariant
        pop_out <= old(self).buffers@.len(), self.same_settings(old(self)), self.file_size == old(self).file_size, self.compaction_writes == old(self).compaction_writes,
        bufs_wf(old(self).buffers@), self.buffers@ == old(self).buffers@.subrange(vx_i1 as int, old(self).buffers@.len() as int),
//@ at tail
    proof { assert(self.t() =~= last_n(old(self).t(), old(self).max_file_size as int));
        assert forall |i: int| 0 <= i < self.buffers@.len() implies (#[trigger] self.buffers@[i]).wf() by {
            let d = old(self).buffers@.len() - self.buffers@.len();
            assert(self.buffers@[i] == old(self).buffers@[i + d]); assert(old(self).buffers@[i + d].wf()); }
    }
//@ at before loop 1
    proof { assert(self.buffers@ =~= old(self).buffers@.subrange(0, old(self).buffers@.len() as int)); }
//@ fn History::load_history_file_test [C06]
//@ replace line.starts_with =>> line.vx_begins
//@ spec
    requires bufs_wf(old(self).buffers@)
    ensures bufs_wf(final(self).buffers@),
        final(self).file_size == old(self).file_size,
        final(self).same_settings(old(self)), final(self).compaction_writes == old(self).compaction_writes,
        r is Err ==> unchanged(old(self), final(self)), // [C06]
        r is Ok ==> exists |f: File| f.path() == path.pv() && f.size() == r->Ok_0 && #[trigger] load_spec(old(self).t(), texts(final(self).buffers@), old(self).max_file_size as int, old(self).load_duplicates, f, length, append), // [C06]
        r is Ok ==> r->Ok_0 < 0x4000_0000_0000_0000,
//@ at before if#2
    let ghost base: Seq<Seq<char>> = if append { old(self).t() } else { Seq::empty() };
    let ghost fs = file;
//@ at before loop 1
    let ghost mut done: Seq<Seq<char>> = Seq::empty();
    proof { reveal(Seq::filter); assert(entries(done) =~= Seq::empty()); assert(self.t() =~= base + entries(done)); }
    let ghost content = fs.content();
//@ loop 1
    invariant_except_break content == done + ok_prefix(vx_it1@),
    invariant
        self.same_settings(old(self)), self.file_size == old(self).file_size, self.compaction_writes == old(self).compaction_writes,
        bufs_wf(self.buffers@),
        self.t() == base + entries(done),
    ensures
        self.same_settings(old(self)), self.file_size == old(self).file_size, self.compaction_writes == old(self).compaction_writes,
        bufs_wf(self.buffers@),
        self.t() == base + entries(content),
    decreases vx_it1@.len()
//@ at loop 1 start
    let ghost d0 = done;
    let ghost t0 = self.t();
    let ghost b0 = self.buffers@;
    proof { if line is Ok { done = done.push(line->Ok_0@);
        reveal(Seq::filter);
        assert(done.drop_last() =~= d0);
        assert(content =~= done + ok_prefix(vx_it1@));
        assert(entries(d0) == d0.filter(is_entry()));
      } else { assert(content =~= done); } }
//@ at after call push_back#1
    proof { assert(self.buffers@ =~= b0.push(self.buffers@.last())); lemma_texts_push(b0, self.buffers@.last());
        assert(self.t() =~= base + entries(done)); }
//@ at before call truncate#1
    let ghost all = self.t();
//@ at before loop 2
    let ghost cut = self.t();
    proof { assert(texts(tmp_buffers@) =~= Seq::empty()); assert(dedup_newest(cut) =~= dedup_newest(self.t()) + seq_reverse(texts(tmp_buffers@))); }
//@ loop 2
    invariant
        self.same_settings(old(self)), self.file_size == old(self).file_size, self.compaction_writes == old(self).compaction_writes,
        bufs_wf(self.buffers@), bufs_wf(tmp_buffers@),
        dedup_newest(cut) == dedup_newest(self.t()) + seq_reverse(texts(tmp_buffers@)),
    ensures
        self.same_settings(old(self)), self.file_size == old(self).file_size, self.compaction_writes == old(self).compaction_writes,
        bufs_wf(self.buffers@), bufs_wf(tmp_buffers@), self.t().len() == 0,
        dedup_newest(cut) == seq_reverse(texts(tmp_buffers@)),
    decreases self.t().len()
//@ at loop 2 head
    let ghost b1 = self.buffers@;
    let ghost tmp0 = tmp_buffers@;
//@ at loop 2 start
    proof { assert(texts(b1).last() == buf@); assert(texts(b1).drop_last() =~= self.t()); assert(b1[b1.len() - 1].wf());
        assert forall |i: int| 0 <= i < self.buffers@.len() implies (#[trigger] self.buffers@[i]).wf() by { assert(b1[i].wf()); } }
//@ at loop 2 end
    proof {
        lemma_texts_push(tmp0, tmp_buffers@.last());
        assert(tmp_buffers@ =~= tmp0.push(tmp_buffers@.last()));
        assert(dedup_newest(cut) =~= dedup_newest(self.t()) + seq_reverse(texts(tmp_buffers@)));
    }
//@ loop 3
    invariant
        self.same_settings(old(self)), self.file_size == old(self).file_size, self.compaction_writes == old(self).compaction_writes,
        bufs_wf(self.buffers@), bufs_wf(tmp_buffers@),
        dedup_newest(cut) == self.t() + seq_reverse(texts(tmp_buffers@)),
    ensures
        self.same_settings(old(self)), self.file_size == old(self).file_size, self.compaction_writes == old(self).compaction_writes,
        bufs_wf(self.buffers@), self.t() == dedup_newest(cut),
    decreases tmp_buffers@.len()
//@ at tail
    proof { assert(load_spec(old(self).t(), texts(self.buffers@), old(self).max_file_size as int, old(self).load_duplicates, fs, length, append)); }
//@ fn History::load_history_file [C06]
//@ spec
    requires bufs_wf(old(self).buffers@)
    ensures bufs_wf(final(self).buffers@),
        final(self).file_size == old(self).file_size,
        final(self).same_settings(old(self)), final(self).compaction_writes == old(self).compaction_writes,
        r is Err ==> unchanged(old(self), final(self)), // [C06]
        r is Ok ==> exists |f: File| f.path() == path.pv() && f.size() == r->Ok_0 && #[trigger] load_spec(old(self).t(), texts(final(self).buffers@), old(self).max_file_size as int, old(self).load_duplicates, f, 0, append), // [C06]
        r is Ok ==> r->Ok_0 < 0x4000_0000_0000_0000,
//@ fn History::load_history [C06]
//@ expand map#1 result_map
//@ spec
    requires bufs_wf(old(self).buffers@)
    ensures bufs_wf(final(self).buffers@),
        r is Err ==> unchanged(old(self), final(self)), // [C06]
        r is Ok ==> final(self).file_size == r->Ok_0 && old(self).file_name is Some,
        r is Ok ==> exists |f: File| f.path() == old(self).file_name->0@ && f.size() == r->Ok_0 && #[trigger] load_spec(old(self).t(), texts(final(self).buffers@), old(self).max_file_size as int, old(self).load_duplicates, f, old(self).file_size, append), // [C06]
        final(self).same_settings(old(self)), final(self).compaction_writes == old(self).compaction_writes,
//@ at before assign file_size#1
    let ghost f = choose |f: File| f.path() == path@ && f.size() == l && #[trigger] load_spec(old(self).t(), texts(self.buffers@), old(self).max_file_size as int, old(self).load_duplicates, f, file_size, append);
    assert(f.size() == l && load_spec(old(self).t(), texts(self.buffers@), old(self).max_file_size as int, old(self).load_duplicates, f, file_size, append));
    assert(f.path() == path@);
//@ at after assign file_size#1
    assert(load_spec(old(self).t(), texts(self.buffers@), old(self).max_file_size as int, old(self).load_duplicates, f, file_size, append));
//@ fn History::set_file_name_and_load_history [C06]
//@ expand map#2 result_map
//@ closure 1
    [&str] -> (r: String)
    ensures r@ == p0@
//@ spec
    requires bufs_wf(old(self).buffers@)
    ensures bufs_wf(final(self).buffers@),
        r is Ok ==> final(self).file_size == r->Ok_0 && (final(self).t() == old(self).t() || exists |f: File| f.path() == path.pv() && f.size() == r->Ok_0 && #[trigger] load_spec(old(self).t(), texts(final(self).buffers@), old(self).max_file_size as int, old(self).load_duplicates, f, 0, false)), // [C06]
//@ end
//@ fn History::overwrite_history [C07]
//@ replace self.buffers.iter().cloned() =>> vx_cloned(&self.buffers)
//@ spec
    requires bufs_wf(old(self).buffers@)
    ensures bufs_wf(final(self).buffers@), final(self).t() == last_n(old(self).t(), old(self).max_file_size as int), // [C07]
        final(self).same_settings(old(self)), final(self).file_size == old(self).file_size, final(self).compaction_writes == old(self).compaction_writes,
//@ loop 1
    invariant
        vx_it1@.len() <= self.t().len(),
        texts(vx_it1@) == self.t().subrange(self.t().len() - vx_it1@.len(), self.t().len() as int),
        file.f == f0, !file.err ==> file.w@ == lines_bytes(self.t().subrange(0, self.t().len() - vx_it1@.len())),
    ensures
        file.f == f0, !file.err ==> file.w@ == lines_bytes(self.t().subrange(0, self.t().len() as int)),
    decreases vx_it1@.len()
//@ at loop 1 init
    let ghost f0 = file.f;
    proof { assert(texts(vx_it1@).len() == self.t().len()); assert(self.t().subrange(0, 0) =~= Seq::<Seq<char>>::empty()); assert(self.t().subrange(0, self.t().len() as int) =~= self.t()); assert(file.w@ =~= lines_bytes(self.t().subrange(0, 0))); }
//@ at loop 1 head
    let ghost it0 = vx_it1@;
//@ at loop 1 start
    let ghost n = self.t().len() - vx_it1@.len() - 1;
    proof {
        assert(texts(it0)[0] == self.t().subrange(n, self.t().len() as int)[0]);
        assert forall |i: int| 0 <= i < vx_it1@.len() implies #[trigger] texts(vx_it1@)[i] == self.t().subrange(n + 1, self.t().len() as int)[i] by {
            assert(texts(it0)[i + 1] == self.t().subrange(n, self.t().len() as int)[i + 1]); }
        assert(texts(vx_it1@) =~= self.t().subrange(n + 1, self.t().len() as int));
        assert(self.t().subrange(0, n + 1).drop_last() =~= self.t().subrange(0, n));
    }
    let ghost w0 = file.w@;
//@ at loop 1 end
    proof { if !file.err { assert(file.w@ =~= w0 + utf8(self.t()[n]) + seq![10u8]); }
    }
//@ at tail
    // the file ends up holding exactly the entries, one per line, if no write fails
    proof { assert(file.f.mode() is Create && file.f.path() == path.pv()); // [C07]
        assert(self.t().subrange(0, self.t().len() as int) =~= self.t());
        assert(!file.err ==> file.w@ == lines_bytes(self.t())); // [C07]
    }
//@ fn History::commit_to_file_path [C07]
//@ spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).same_settings(old(self)), final(self).file_size == old(self).file_size,
        old(self).inc_append ==> r is Ok && final(self).t() == old(self).t(), // [C07]
        !old(self).inc_append ==> final(self).t() == last_n(old(self).t(), old(self).max_file_size as int), // [C07]
//@ fn History::commit_to_file [C07]
//@ spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).same_settings(old(self)),
        old(self).file_name is None || old(self).inc_append ==> final(self).t() == old(self).t(), // [C07]
        old(self).file_name is Some && !old(self).inc_append ==> final(self).t() == last_n(old(self).t(), old(self).max_file_size as int), // [C07]
//@ fn History::push [C04,C07]
//@ replace self.buffers.vx_back().map(|b| b.to_string()) == Some(new_item.to_string()) =>> vx_opt_streq(self.buffers.vx_back().map(|b| b.to_string()), Some(new_item.to_string()))
//@ replace item_str.len() =>> item_str.vx_byte_len()
//@ closure 1
    [&Buffer] -> (r: String)
    ensures r@ == p0@
//@ spec
    requires old(self).wf(), new_item.wf(), old(self).file_size < 0x4000_0000_0000_0000
    ensures final(self).wf(), r is Ok, final(self).same_settings(old(self)),
        is_repeat(old(self), new_item@) ==> unchanged(old(self), final(self)), // [C04]
        !is_repeat(old(self), new_item@) && !reloads(old(self)) ==> final(self).t() == pushed(old(self), new_item@), // [C04,C07]
//@ loop 1
    invariant
        self.same_settings(old(self)), self.compaction_writes == old(self).compaction_writes, self.file_size == old(self).file_size,
        self.wf(),
        last_n(self.t(), self.max_buffers_size as int) == pushed(old(self), new_item@),
    decreases self.t().len()
//@ at loop 1 start
    let ghost b0 = self.buffers@;
//@ at loop 1 end
    proof {
        assert(self.t() =~= texts(b0).subrange(1, b0.len() as int));
        assert(last_n(self.t(), self.max_buffers_size as int) =~= last_n(texts(b0), self.max_buffers_size as int));
        assert forall |i: int| 0 <= i < self.buffers@.len() implies (#[trigger] self.buffers@[i]).wf() by { assert(b0[i + 1].wf()); }
    }
//@ at before call push_back#1
    let ghost b1 = self.buffers@;
//@ at after call push_back#1
    proof { lemma_texts_push(b1, new_item); assert(self.t() =~= old(self).t().push(new_item@));
       assert forall |i: int| 0 <= i < self.buffers@.len() implies (#[trigger] self.buffers@[i]).wf() by { if i < b1.len() { assert(b1[i].wf()); } } }
//@ at after call write_all#2
    // one line is appended to the file for the entry
    proof { assert(file.f.mode() is Append && file.f.path() == old(self).file_name->0@); // [C07]
        assert(!file.err ==> file.w@ =~= utf8(new_item@) + seq![10u8]); // [C07]
    }
//@ fn History::deduplicate_history_file [C07]
//@ replace line.starts_with =>> line.vx_begins
//@ replace *buffer != line =>> !vx_streq(buffer.as_str(), line.as_str())
//@ closure 1
    [&String] -> (b: bool)
    ensures b == (p0@ != line@)
//@ spec
    ensures true
//@ at before loop 1
    let ghost mut done: Seq<Seq<char>> = Seq::empty();
    let ghost content = file.content();
    proof { reveal(Seq::filter); assert(entries(done) =~= Seq::empty()); assert(strs(buf@) =~= entries(done)); }
//@ loop 1
    invariant_except_break content == done + ok_prefix(vx_it1@),
    invariant strs(buf@) == entries(done),
    ensures strs(buf@) == entries(content),
    decreases vx_it1@.len()
//@ at loop 1 start
    let ghost d0 = done;
    let ghost b0 = buf@;
    proof { if line is Ok { done = done.push(line->Ok_0@);
        reveal(Seq::filter);
        assert(done.drop_last() =~= d0);
        assert(content =~= done + ok_prefix(vx_it1@));
        assert(entries(d0) == d0.filter(is_entry()));
      } else { assert(content =~= done); } }
//@ at after call push_back#1
    proof { assert(strs(buf@) =~= strs(b0).push(buf@.last()@)); }
//@ at before loop 2
    let ghost all = buf@;
    proof { assert(all =~= all.subrange(0, all.len() as int)); }
//@ loop 2
    invariant pop_out <= all.len(), buf@ == all.subrange(vx_i2 as int, all.len() as int),
//@ at before let tmp_buffers
    let ghost cut = strs(buf@);
    proof { assert(cut =~= last_n(entries(content), max_file_size as int)); // [C07]
    }
//@ at before loop 3
    proof { assert(strs(tmp_buffers@) =~= Seq::empty()); assert(dedup_newest(cut) =~= dedup_newest(strs(buf@)) + seq_reverse(strs(tmp_buffers@))); }
//@ loop 3
    invariant dedup_newest(cut) == dedup_newest(strs(buf@)) + seq_reverse(strs(tmp_buffers@)),
    ensures dedup_newest(cut) == seq_reverse(strs(tmp_buffers@)), buf@.len() == 0,
    decreases buf@.len()
//@ at loop 3 head
    let ghost b1 = buf@;
    let ghost tmp0 = tmp_buffers@;
//@ at loop 3 start
    let ghost b2 = buf@;
    proof { assert(strs(b1).last() == line@); assert(strs(b1).drop_last() =~= strs(b2)); lemma_strs_filter(b2, line@); assert(hint(ps_not(line@))); }
//@ at loop 3 end
    proof {
        assert(strs(tmp_buffers@) =~= strs(tmp0).push(strs(b1).last()));
        assert(dedup_newest(cut) =~= dedup_newest(strs(buf@)) + seq_reverse(strs(tmp_buffers@)));
    }
//@ loop 4
    invariant dedup_newest(cut) == strs(buf@) + seq_reverse(strs(tmp_buffers@)),
    ensures dedup_newest(cut) == strs(buf@),
    decreases tmp_buffers@.len()
//@ at loop 4 head
    let ghost tmp1 = tmp_buffers@;
    let ghost b3 = buf@;
//@ at loop 4 end
    proof {
        assert(strs(buf@) =~= strs(b3).push(strs(tmp1).last()));
        assert(dedup_newest(cut) =~= strs(buf@) + seq_reverse(strs(tmp_buffers@)));
    }
//@ at after loop 4
    let ghost kept = strs(buf@);
    proof { assert(kept == dedup_newest(last_n(entries(content), max_file_size as int))); // [C07]
    }
//@ at loop 5 init
    let ghost f0 = file.f;
    proof { assert(kept.subrange(0, 0) =~= Seq::<Seq<char>>::empty()); assert(kept.subrange(0, kept.len() as int) =~= kept); assert(strs(vx_it5@).len() == kept.len()); assert(strs(vx_it5@) =~= kept); assert(file.w@ =~= lines_bytes(kept.subrange(0, 0))); }
//@ loop 5
    invariant
        vx_it5@.len() <= kept.len(),
        strs(vx_it5@) == kept.subrange(kept.len() - vx_it5@.len(), kept.len() as int),
        file.f == f0, !file.err ==> file.w@ == lines_bytes(kept.subrange(0, kept.len() - vx_it5@.len())),
    ensures
        file.f == f0, !file.err ==> file.w@ == lines_bytes(kept.subrange(0, kept.len() as int)),
    decreases vx_it5@.len()
//@ at loop 5 head
    let ghost it0 = vx_it5@;
//@ at loop 5 start
    let ghost n = kept.len() - vx_it5@.len() - 1;
    proof {
        assert(strs(it0)[0] == kept.subrange(n, kept.len() as int)[0]);
        assert forall |i: int| 0 <= i < vx_it5@.len() implies #[trigger] strs(vx_it5@)[i] == kept.subrange(n + 1, kept.len() as int)[i] by {
            assert(strs(it0)[i + 1] == kept.subrange(n, kept.len() as int)[i + 1]); }
        assert(strs(vx_it5@) =~= kept.subrange(n + 1, kept.len() as int));
        assert(kept.subrange(0, n + 1).drop_last() =~= kept.subrange(0, n));
    }
    let ghost w0 = file.w@;
//@ at loop 5 end
    proof { if !file.err { assert(file.w@ =~= w0 + utf8(kept[n]) + seq![10u8]); }
    }
//@ at after loop 5
    proof { assert(file.f.mode() is Create && file.f.path() == path.name()); // [C07]
        assert(kept.subrange(0, kept.len() as int) =~= kept);
        assert(!file.err ==> file.w@ == lines_bytes(kept)); // [C07]
    }
//@ end
