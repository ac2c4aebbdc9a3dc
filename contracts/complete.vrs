//@ uses
use vstd::prelude::*;
use crate::vx::*;
use crate::vxio as io;
use crate::vxpath::*;
use crate::context::*;
use crate::editor::Editor;
//@ prelude
broadcast use {crate::vx::lemma_derefs_refs, crate::vx::lemma_derefs_sub, crate::vx::ax_utf8_push, crate::vx::ax_utf8_empty};

// ---- the candidates of a file name completer
/// an escaped word is the text with every `\ ` standing for a space; a word in quotes is what is between them
/// (the closing one need not be there)
pub open spec fn quote(c: char) -> bool { c == '"' || c == '\'' }
pub open spec fn bsp() -> Seq<char> { seq!['\\', ' '] }
pub open spec fn typed(s: Seq<char>) -> Seq<char> {
    if s.len() > 0 && quote(s[0]) {
        let q = s.subrange(1, s.len() as int);
        if q.len() > 0 && q.last() == s[0] { q.drop_last() } else { q }
    } else { repl(s, bsp(), seq![' ']) }
}
pub open spec fn escaped(s: Seq<char>) -> Seq<char> { repl(s, seq![' '], bsp()) }
/// the typed text is a directory as a whole: nothing is behind its last `/`, or `.` or `..`
pub open spec fn as_dir(t: Seq<char>) -> bool { !name_ok(name_u(enc(t))) }
/// the directory that is typed, and what is typed of a name in it
pub open spec fn typed_dir(t: Seq<char>) -> Seq<char> {
    if as_dir(t) { t } else { t.subrange(0, slash_at(enc(t))) }
}
pub open spec fn typed_name(t: Seq<char>) -> Seq<char> {
    if as_dir(t) { Seq::empty() } else { t.subrange(slash_at(enc(t)), t.len() as int) }
}
/// a directory path without what may be dropped at its end (when it is followed by a name)
pub open spec fn shown_dir(t: Seq<char>) -> Seq<char> {
    if as_dir(t) { t } else { typed_dir(t).subrange(0, trim_len(enc(typed_dir(t)))) }
}
/// the directory to list: the typed one, seen from the working directory, or the current one
pub open spec fn listed_dir(wd: Option<Seq<int>>, t: Seq<char>) -> Seq<int> {
    let p = match wd { Some(w) => join(w, enc(typed_dir(t))), None => enc(typed_dir(t)) };
    let d = if as_dir(t) { p } else { trim_u(p) };
    if d.len() == 0 { seq!['.' as int] } else { d }
}
pub open spec fn fold(cs: bool, t: Seq<char>) -> Seq<char> { if cs { t } else { lower(t) } }
/// does the entry's name start with what is typed of it?
pub open spec fn keeps(cs: bool, t: Seq<char>, e: Ent) -> bool {
    typed_name(t).len() == 0 || is_prefix(fold(cs, typed_name(t)), fold(cs, lossy(e.name)))
}
/// a name in a directory
pub open spec fn in_dir(d: Seq<char>, n: Seq<char>) -> Seq<char> { if d.len() == 0 || d.last() == '/' { d + n } else { d + seq!['/'] + n } }
/// the candidate for an entry: it in the typed directory, with a `/` if it is a directory, spaces escaped
pub open spec fn cand1(t: Seq<char>, e: Ent) -> Seq<char> {
    escaped(in_dir(shown_dir(t), if e.dir { lossy(e.name) + seq!['/'] } else { lossy(e.name) }))
}
pub open spec fn cands_of(cs: bool, t: Seq<char>, v: Seq<Option<Ent>>) -> Seq<Seq<char>> decreases v.len() {
    if v.len() == 0 { Seq::empty() }
    else { cands_of(cs, t, v.drop_last()) + (match v.last() { Some(e) => if keeps(cs, t, e) { seq![cand1(t, e)] } else { Seq::empty() }, None => Seq::empty() }) }
}
/// nothing if the directory cannot be read; else the candidate of every entry that matches, in the order they are listed in
pub open spec fn file_cands(wd: Option<Seq<int>>, cs: bool, word: Seq<char>) -> Seq<Seq<char>> {
    match ls(listed_dir(wd, typed(word))) { Some(v) => cands_of(cs, typed(word), v), None => Seq::empty() }
}
impl FilenameCompleter {
    pub open spec fn wd(&self) -> Option<Seq<int>> { match self.working_dir { Some(p) => Some(p@), None => None } }
}
/// stands for `Into<PathBuf>`, `Into<String>`
pub trait VxIntoPath: Sized { spec fn ip(&self) -> Seq<int>; fn vx_path(self) -> (r: PathBuf) ensures r@ == self.ip(); }
pub trait VxIntoText: Sized { spec fn itx(&self) -> Seq<char>; fn vx_text(self) -> (r: String) ensures r@ == self.itx(); }
pub open spec fn opt_ip<T: VxIntoPath>(w: Option<T>) -> Option<Seq<int>> { match w { Some(p) => Some(p.ip()), None => None } }

pub proof fn lemma_pre1(s: Seq<char>, c: char)
    ensures is_prefix(seq![c], s) == (s.len() > 0 && s[0] == c), is_suffix(seq![c], s) == (s.len() > 0 && s.last() == c)
{
    if s.len() > 0 {
        assert(s.subrange(0, 1) =~= seq![s[0]]); assert(s.subrange(s.len() - 1, s.len() as int) =~= seq![s.last()]);
        assert(seq![c][0] == c && seq![s[0]][0] == s[0] && seq![s.last()][0] == s.last());
    }
}
/// taking the escapes away neither empties a text nor changes whether it ends in a `/`
pub proof fn lemma_typed_last(s: Seq<char>)
    ensures ({ let t = repl(s, bsp(), seq![' ']); &&& (t.len() == 0) == (s.len() == 0) &&& s.len() > 0 ==> (t.last() == '/') == (s.last() == '/') }) // [C25]
    decreases s.len()
{
    if s.len() > 0 {
        if is_prefix(bsp(), s) {
            let r = s.subrange(2, s.len() as int);
            lemma_typed_last(r);
            assert(s.subrange(0, 2)[1] == s[1]);
            if r.len() > 0 { assert(r.last() == s.last()); }
            assert(repl(s, bsp(), seq![' ']) == seq![' '] + repl(r, bsp(), seq![' ']));
        } else {
            let r = s.subrange(1, s.len() as int);
            lemma_typed_last(r);
            if r.len() > 0 { assert(r.last() == s.last()); }
            assert(repl(s, bsp(), seq![' ']) == seq![s[0]] + repl(r, bsp(), seq![' ']));
        }
    }
}
pub proof fn lemma_enc_inj(a: Seq<char>, b: Seq<char>) ensures (enc(a) == enc(b)) == (a == b)
{ if enc(a) == enc(b) { assert(enc(a).len() == a.len() && enc(b).len() == b.len()); assert forall |i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(enc(a)[i] == enc(b)[i]); } assert(a =~= b); } }
pub proof fn lemma_last_part(t: Seq<char>)
    ensures enc(last_part(t, '/')) == name_u(enc(t))
    decreases t.len()
{
    lemma_slash_at(enc(t));
    if t.len() == 0 { assert(enc(t) =~= name_u(enc(t))); }
    else if t.last() == '/' { assert(enc(t).last() == sep()); assert(enc(last_part(t, '/')) =~= name_u(enc(t))); }
    else {
        lemma_last_part(t.drop_last());
        assert(enc(t).last() != sep());
        assert(enc(t).drop_last() =~= enc(t.drop_last()));
        lemma_slash_at(enc(t.drop_last()));
        let l = last_part(t.drop_last(), '/');
        assert(enc(l).len() == l.len());
        assert forall |i: int| 0 <= i < enc(last_part(t, '/')).len() implies enc(last_part(t, '/'))[i] == name_u(enc(t))[i] by { if i < l.len() { assert(enc(l)[i] == l[i] as int); } }
        assert(enc(last_part(t, '/')) =~= name_u(enc(t)));
    }
}
/// when a text is a directory as a whole
pub proof fn lemma_as_dir(t: Seq<char>)
    ensures as_dir(t) == (t.len() == 0 || t.last() == '/' || last_part(t, '/') == seq!['.'] || last_part(t, '/') == seq!['.', '.']) // [C25]
{
    lemma_last_part(t);
    lemma_enc_inj(last_part(t, '/'), seq!['.']);
    lemma_enc_inj(last_part(t, '/'), seq!['.', '.']);
    assert(enc(seq!['.']) =~= seq!['.' as int]);
    assert(enc(seq!['.', '.']) =~= seq!['.' as int, '.' as int]);
    lemma_slash_at(enc(t));
    if t.len() > 0 { if t.last() == '/' { assert(enc(t).last() == sep()); } else { assert(enc(t).last() != sep()); lemma_slash_at(enc(t).drop_last()); } }
}
/// a typed path seen from a directory has the same last component; what is in front of it is the typed directory seen from there
pub proof fn lemma_full(wd: Option<Seq<int>>, t: Seq<char>, full: Seq<int>)
    requires !as_dir(t), full == (match wd { Some(w) => join(w, enc(t)), None => enc(t) })
    ensures name_u(full) == name_u(enc(t)), name_ok(name_u(full)), full.len() > 0,
        dir_u(full) == (match wd { Some(w) => join(w, enc(typed_dir(t))), None => enc(typed_dir(t)) }), // [C25]
        enc(typed_name(t)) == name_u(enc(t)), enc(typed_dir(t)) == dir_u(enc(t)),
{
    let u = enc(t);
    let k = slash_at(u);
    lemma_slash_at(u);
    assert(enc(typed_name(t)) =~= name_u(u));
    assert(enc(typed_dir(t)) =~= dir_u(u));
    let d = full.len() - u.len();
    assert(d >= 0);
    assert forall |i: int| 0 <= i < u.len() implies full[d + i] == u[i] by { }
    assert forall |i: int| d + k <= i < full.len() implies full[i] != sep() by { assert(full[d + (i - d)] == u[i - d]); }
    if k > 0 { assert(full[d + (k - 1)] == u[k - 1]); }
    lemma_slash_uniq(full, d + k);
    assert(name_u(full) =~= name_u(u));
    if wd is Some { if k == 0 { assert(dir_u(full) =~= join(wd->0, dir_u(u))); } else { assert(dir_u(u)[0] == u[0]); assert(dir_u(full) =~= join(wd->0, dir_u(u))); } } else { assert(dir_u(full) =~= dir_u(u)); }
}
pub proof fn lemma_shown_dir(t: Seq<char>)
    ensures enc(shown_dir(t)) == (if as_dir(t) { enc(t) } else { trim_u(dir_u(enc(t))) }),
        shown_dir(t).len() > 0 ==> shown_dir(t)[0] == t[0],
        t.len() > 0 && t[0] == '/' ==> shown_dir(t).len() > 0,
{
    if !as_dir(t) {
        lemma_full(None, t, enc(t));
        lemma_slash_at(enc(t));
        lemma_trim_len(enc(typed_dir(t)));
        assert(enc(shown_dir(t)) =~= trim_u(dir_u(enc(t))));
        if t.len() > 0 && t[0] == '/' { assert(enc(t)[0] == sep()); assert(slash_at(enc(t)) > 0); }
    }
}
/// the steps by which a candidate is put together
pub proof fn lemma_cand(t: Seq<char>, e: Ent, a: Seq<int>, s: Seq<char>, b: Seq<int>)
    requires
        e.name.len() > 0, e.name[0] != sep(),
        a == join(if t.len() > 0 && t[0] == '/' { enc(shown_dir(t)) } else { Seq::empty() }, e.name),
        s == (if e.dir { lossy(a) + seq!['/'] } else { lossy(a) }),
        b == join(enc(shown_dir(t)), enc(s)),
    ensures lossy(b) == in_dir(shown_dir(t), if e.dir { lossy(e.name) + seq!['/'] } else { lossy(e.name) }) // [C25]
{
    lemma_shown_dir(t);
    let d = shown_dir(t);
    let n = if e.dir { lossy(e.name) + seq!['/'] } else { lossy(e.name) };
    ax_lossy(Seq::empty(), e.name);
    assert(lossy(e.name).len() > 0 && lossy(e.name)[0] != '/' && n[0] != '/');
    if d.len() > 0 { assert(enc(d)[0] == d[0] as int); assert(enc(d).last() == d.last() as int); }
    if t.len() > 0 && t[0] == '/' {
        let p = if d.last() == '/' { d } else { d + seq!['/'] };
        assert(a =~= enc(p) + e.name);
        ax_lossy(p, e.name);
        assert(s =~= p + n);
        assert(s[0] == '/');
        assert(enc(s)[0] == sep());
        assert(b == enc(s));
        lemma_lossy(s);
        assert(in_dir(d, n) =~= p + n);
    } else {
        assert(a =~= e.name);
        assert(s == n);
        assert(enc(s)[0] == n[0] as int);
        assert(b =~= enc(in_dir(d, n)));
        lemma_lossy(in_dir(d, n));
    }
}
/// a candidate typed again means what it was made for
pub proof fn theorem_again(x: Seq<char>)
    ensures repl(escaped(x), bsp(), seq![' ']) == x, // [C25]
        (x.len() > 0 && !quote(x[0])) ==> typed(escaped(x)) == x // [C25]
    decreases x.len()
{
    if x.len() > 0 {
        let r = x.subrange(1, x.len() as int);
        theorem_again(r);
        lemma_pre1(x, ' ');
        let y = escaped(x);
        if x[0] == ' ' {
            assert(y == bsp() + escaped(r));
            assert(y.subrange(0, 2) =~= bsp());
            assert(y.subrange(2, y.len() as int) =~= escaped(r));
            assert(repl(y, bsp(), seq![' ']) == seq![' '] + repl(escaped(r), bsp(), seq![' ']));
            assert(seq![' '] + r =~= x);
        } else {
            assert(y == seq![x[0]] + escaped(r));
            assert(y.subrange(1, y.len() as int) =~= escaped(r));
            if is_prefix(bsp(), y) {
                assert(y.subrange(0, 2)[1] == y[1]);
                assert(y[1] == escaped(r)[0]);
                lemma_esc_first(r);
            }
            assert(repl(y, bsp(), seq![' ']) == seq![y[0]] + repl(escaped(r), bsp(), seq![' ']));
            assert(seq![x[0]] + r =~= x);
        }
        lemma_esc_first(x);
    }
}
proof fn lemma_esc_first(x: Seq<char>)
    ensures (escaped(x).len() == 0) == (x.len() == 0), x.len() > 0 ==> escaped(x)[0] == (if x[0] == ' ' { '\\' } else { x[0] })
{ if x.len() > 0 { lemma_pre1(x, ' '); let r = x.subrange(1, x.len() as int); if x[0] == ' ' { assert(escaped(x) == bsp() + escaped(r)); } else { assert(escaped(x) == seq![x[0]] + escaped(r)); } } }
pub proof fn lemma_cands_none(cs: bool, t: Seq<char>) ensures forall |v: Seq<Option<Ent>>| v.len() == 0 ==> #[trigger] cands_of(cs, t, v).len() == 0 { }
pub proof fn lemma_cands_step(cs: bool, t: Seq<char>, v: Seq<Option<Ent>>, k: int)
    requires 0 <= k < v.len()
    ensures cands_of(cs, t, v.subrange(0, k + 1)) == cands_of(cs, t, v.subrange(0, k)) + (match v[k] { Some(e) => if keeps(cs, t, e) { seq![cand1(t, e)] } else { Seq::empty() }, None => Seq::empty() }),
        (v[k] is None || !keeps(cs, t, v[k]->0)) ==> cands_of(cs, t, v.subrange(0, k + 1)) == cands_of(cs, t, v.subrange(0, k)),
{
    assert(v.subrange(0, k + 1).drop_last() =~= v.subrange(0, k)); assert(v.subrange(0, k + 1).last() == v[k]);
    assert(cands_of(cs, t, v.subrange(0, k)) + Seq::<Seq<char>>::empty() =~= cands_of(cs, t, v.subrange(0, k)));
}
/// every entry that matches gives its candidate, and nothing else does
pub proof fn theorem_cands(cs: bool, t: Seq<char>, v: Seq<Option<Ent>>, c: Seq<char>)
    ensures cands_of(cs, t, v).contains(c) <==> exists |i: int| 0 <= i < v.len() && (#[trigger] v[i]) is Some && keeps(cs, t, v[i]->0) && c == cand1(t, v[i]->0) // [C25]
    decreases v.len()
{
    if v.len() > 0 {
        let w = v.drop_last();
        theorem_cands(cs, t, w, c);
        let a = cands_of(cs, t, w);
        let l = (match v.last() { Some(e) => if keeps(cs, t, e) { seq![cand1(t, e)] } else { Seq::empty() }, None => Seq::empty() });
        assert(cands_of(cs, t, v) == a + l);
        if cands_of(cs, t, v).contains(c) {
            let j = choose |j: int| 0 <= j < (a + l).len() && (a + l)[j] == c;
            if j < a.len() { assert(a[j] == c); let i = choose |i: int| 0 <= i < w.len() && (#[trigger] w[i]) is Some && keeps(cs, t, w[i]->0) && c == cand1(t, w[i]->0); assert(v[i] == w[i]); }
            else { assert(l[j - a.len()] == c); assert(v[v.len() - 1] == v.last()); }
        }
        if exists |i: int| 0 <= i < v.len() && (#[trigger] v[i]) is Some && keeps(cs, t, v[i]->0) && c == cand1(t, v[i]->0) {
            let i = choose |i: int| 0 <= i < v.len() && (#[trigger] v[i]) is Some && keeps(cs, t, v[i]->0) && c == cand1(t, v[i]->0);
            if i < w.len() { assert(w[i] == v[i]); let j = choose |j: int| 0 <= j < a.len() && a[j] == c; assert((a + l)[j] == c); }
            else { assert(l == seq![c]); assert((a + l)[a.len() as int] == l[0]); }
        }
    }
}
/// the usual case: the typed directory is kept as it is
pub proof fn theorem_plain(t: Seq<char>, e: Ent)
    requires !as_dir(t), typed_dir(t).len() > 1 ==> typed_dir(t)[typed_dir(t).len() - 2] != '/' && typed_dir(t)[typed_dir(t).len() - 2] != '.'
    ensures cand1(t, e) == escaped(typed_dir(t) + (if e.dir { lossy(e.name) + seq!['/'] } else { lossy(e.name) })) // [C25]
{
    let d = typed_dir(t);
    lemma_full(None, t, enc(t));
    lemma_slash_at(enc(t));
    let n = if e.dir { lossy(e.name) + seq!['/'] } else { lossy(e.name) };
    if d.len() == 0 { assert(shown_dir(t) =~= d); }
    else {
        assert(enc(d).last() == sep());
        assert(d.last() == '/');
        if d.len() == 1 { assert(shown_dir(t) =~= d); }
        else {
            let x = d.drop_last();
            assert(enc(d).drop_last() =~= enc(x));
            assert(enc(x).last() == d[d.len() - 2] as int);
            assert(trim_len(enc(x)) == x.len());
            assert(shown_dir(t) =~= x);
            assert(x + seq!['/'] =~= d);
        }
        assert(in_dir(shown_dir(t), n) =~= d + n);
    }
}
pub open spec fn g_begins<'a>(start: Seq<char>) -> spec_fn(&'a String) -> bool { |p: &'a String| is_prefix(start, p@) }
pub open spec fn s_begins(start: Seq<char>) -> spec_fn(Seq<char>) -> bool { |w: Seq<char>| is_prefix(start, w) }
pub open spec fn texts<'a>(s: Seq<&'a String>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
/// the strings that start with a text, and their texts
pub proof fn lemma_basic<'a>(v: Seq<&'a String>, start: Seq<char>)
    ensures texts(v.filter(g_begins(start))) == texts(v).filter(s_begins(start)) // [C12]
    decreases v.len()
{
    reveal(Seq::filter);
    if v.len() > 0 {
        lemma_basic(v.drop_last(), start);
        assert(texts(v).drop_last() =~= texts(v.drop_last()));
        let f = v.drop_last().filter(g_begins(start));
        if is_prefix(start, v.last()@) { assert(texts(f.push(v.last())) =~= texts(f).push(v.last()@)); }
    } else { assert(texts(v.filter(g_begins(start))) =~= texts(v).filter(s_begins(start))); }
}
//@ replace fn on_event<C: EditorContext>(&mut self, _event: Event<C>) {} =>> 
//@ replace use std::path::{Path, PathBuf}; =>> 
//@ replace T: Into<PathBuf> =>> T: VxIntoPath
//@ replace T: Into<String> =>> T: VxIntoText
//@ replace prefixes.into_iter().map(|s| s.into()).collect() =>> prefixes.into_iter().map(|s| s.vx_text()).collect()
//@ implx trait Completer
    /// the candidates for a word
    spec fn cand(&self, start: Seq<char>) -> Seq<Seq<char>>;
    /// stands for the event handlers (assumed to leave the editor alone)
    fn vx_on_event<C: EditorContext>(&mut self, ed: &mut Editor<C>)
        ensures *final(ed) == *old(ed), forall |s: Seq<char>| #[trigger] final(self).cand(s) == old(self).cand(s);
//@ fn trait Completer::completions
//@ spec
    ensures strs(r@) == old(self).cand(start@)
//@ fn FilenameCompleter::new [C25]
//@ replace p.into() =>> p.vx_path()
//@ spec
    ensures r.wd() == opt_ip(working_dir), r.case_sensitive // [C25]
//@ fn FilenameCompleter::with_case_sensitivity [C25]
//@ replace p.into() =>> p.vx_path()
//@ spec
    ensures r.wd() == opt_ip(working_dir), r.case_sensitive == case_sensitive // [C25]
//@ fn BasicCompleter::new [C12]
//@ closure 1
    [T] -> (r: String)
    ensures r@ == p0.itx()
//@ spec
    ensures r.prefixes@.len() == prefixes@.len(), forall |i: int| 0 <= i < prefixes@.len() ==> (#[trigger] r.prefixes@[i])@ == prefixes@[i].itx() // [C12]
//@ implx Completer for BasicCompleter
    /// the words that start with it, in their order
    open spec fn cand(&self, start: Seq<char>) -> Seq<Seq<char>> { strs(self.prefixes@).filter(s_begins(start)) }
    fn vx_on_event<C: EditorContext>(&mut self, ed: &mut Editor<C>) { }
//@ fn Completer for BasicCompleter::completions [C12]
//@ replace .starts_with =>> .vx_starts
//@ replace .cloned =>> .vx_owned
//@ closure 1
    [&&String] -> (r: bool)
    ensures r == is_prefix(start@, (*p0)@)
//@ at tail
    proof { lemma_basic(seq_refs(self.prefixes@), start@); assert(texts(seq_refs(self.prefixes@)) =~= strs(self.prefixes@)); assert(strs(vx_r@) =~= texts(seq_refs(self.prefixes@).filter(g_begins(start@)))); }
//@ at start
    proof { assert(hint(g_begins(start@))); }
//@ implx Completer for FilenameCompleter
    open spec fn cand(&self, start: Seq<char>) -> Seq<Seq<char>> { file_cands(self.wd(), self.case_sensitive, start) }
    fn vx_on_event<C: EditorContext>(&mut self, ed: &mut Editor<C>) { }
//@ fn Completer for FilenameCompleter::completions [C25]
//@ fnattr #[verifier::loop_isolation(false)]
//@ fnattr #[verifier::allow_complex_invariants]
//@ replace .starts_with =>> .vx_starts
//@ replace .ends_with =>> .vx_ends
//@ replace .strip_suffix =>> .vx_strip_suffix
//@ replace .split_at =>> .vx_split_at
//@ replace .replace =>> .vx_replace
//@ replace .rsplit =>> .vx_rsplit
//@ replace .to_lowercase =>> .vx_lower
//@ replace .into =>> .vx_into
//@ replace .to_string =>> .into_owned
//@ replace .unwrap_or_default =>> .vx_or_default
//@ replace .as_ref =>> .vx_str
//@ replace &*start_name =>> start_name.vx_str()
//@ replace last == "." =>> vx_streq(last, ".")
//@ replace last == ".." =>> vx_streq(last, "..")
//@ replace Path::new =>> PathBuf::vx_of
//@ replace start.is_empty =>> start.vx_empty
//@ replace start_name.is_empty =>> start_name.vx_empty
//@ at start
    hide(repl); hide(trim_len); hide(slash_at); hide(last_part); hide(cands_of);
    let ghost word = start@;
    proof { lemma_pre1(word, '"'); lemma_pre1(word, '\''); reveal_strlit("\\ "); reveal_strlit(" "); reveal_strlit("."); reveal_strlit(".."); reveal_strlit(""); reveal_strlit("/");
        assert("\\ "@ =~= bsp()); assert(" "@ =~= seq![' ']); assert("."@ =~= seq!['.']); assert(".."@ =~= seq!['.', '.']); assert("/"@ =~= seq!['/']); assert(""@ =~= Seq::empty());
        lemma_typed_last(word);
        if word.len() > 0 { assert(boff(word, 0) == 0); ax_utf8_push(word, 0); if quote(word[0]) { assert(at_byte(word, 1, 1)); lemma_pre1(word.subrange(1, word.len() as int), word[0]); assert(word.subrange(0, 1) =~= seq![word[0]]); } } }
//@ at before let quote
    proof { let vx_d = start.so(); assert(start.so() == word); assert(quote(word[0])); assert(boff(word, 1) == 1); assert(at_byte(word, 1, 1)); }
//@ at after let start_owned
    let ghost t = typed(word);
    proof { assert(start_owned@ =~= t); lemma_as_dir(t); lemma_pre1(t, '/'); lemma_pre1(start@, '/'); }
//@ at before let read_dir
    proof {
        if as_dir(t) { assert(typed_dir(t) == t && typed_name(t).len() == 0); } else { assert(start_name@ == fold(self.case_sensitive, typed_name(t))); }
        assert(completing_dir == as_dir(t));
        assert(p@ == listed_dir(self.wd(), t));
    }
//@ at before let names_dir
    proof { lemma_last_part(t); }
//@ at before let p
    proof { assert(names_dir || t.len() == 0 || t.last() == '/' <==> as_dir(t)); if !as_dir(t) { lemma_full(self.wd(), t, full_path@); lemma_lossy(typed_name(t)); } }
//@ at before loop 1
    proof { lemma_cands_none(self.case_sensitive, t); }
    let ghost fs = ls(listed_dir(self.wd(), t))->0;
//@ loop 1
    invariant
        start_owned@ == t, start_path@ == enc(t), completing_dir == as_dir(t), start_name@ == fold(self.case_sensitive, typed_name(t)) || (start_name@.len() == 0 && typed_name(t).len() == 0),
        fs == ents(vx_all1), vx_it1@.len() <= vx_all1.len(), vx_it1@ == vx_all1.subrange(vx_all1.len() - vx_it1@.len(), vx_all1.len() as int),
        strs(matches@) == cands_of(self.case_sensitive, t, fs.subrange(0, vx_all1.len() - vx_it1@.len())), // [C25]
    ensures vx_it1@.len() == 0,
    decreases vx_it1@.len()
//@ at loop 1 start
    let ghost k = vx_all1.len() - vx_it1@.len() - 1;
    let ghost m0 = matches@;
    proof { assert(fs[k] == ents(vx_all1)[k]); lemma_cands_step(self.case_sensitive, t, fs, k); }
//@ at after let file_name#2
    proof { if start_name@.len() == 0 { assert(file_name@.subrange(0, 0) =~= start_name@); }
        assert(fs[k] == Some(dir.ent()));
        assert((start_name@.len() == 0 || is_prefix(start_name@, file_name@)) == keeps(self.case_sensitive, t, dir.ent())); }
//@ at before call push#2
    proof { lemma_shown_dir(t); if t.len() > 0 { assert(enc(t)[0] == t[0] as int); } if !as_dir(t) { lemma_full(None, t, enc(t)); }
        assert(a@ =~= (if t.len() > 0 && t[0] == '/' { enc(shown_dir(t)) } else { Seq::empty() })); }
//@ at before call push#3
    proof { assert(b@ == enc(shown_dir(t))); }
//@ at after call push#3
    proof { lemma_cand(t, dir.ent(), a@, s@, b@); }
//@ at loop 1 end
    proof { if keeps(self.case_sensitive, t, dir.ent()) { assert(matches@.len() == m0.len() + 1); assert(matches@.last()@ == cand1(t, dir.ent())); assert(strs(matches@) =~= strs(m0) + seq![cand1(t, dir.ent())]); } else { assert(matches@ == m0); }
        lemma_cands_step(self.case_sensitive, t, fs, k);
        assert(strs(matches@) =~= cands_of(self.case_sensitive, t, fs.subrange(0, k + 1))); }
//@ at after loop 1
    proof { assert(fs.subrange(0, fs.len() as int) =~= fs); }
