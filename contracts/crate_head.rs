// Fixed part of the extracted crate: stand-ins for std iterators (proved below) and for the external
// world (assumed).  Every `external_body` here is listed in the evidence as trusted.
#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, non_snake_case, unreachable_code, unused_assignments, unused_labels, unused_braces, non_camel_case_types, unused_macros)]
use vstd::prelude::*;

verus! { global size_of usize == 8; }

pub mod vx {
use vstd::prelude::*;
use std::collections::VecDeque;
verus! {

// ---------------------------------------------------------------- eager iterators
pub struct VxIt<T> { pub v: Vec<T> }

impl<T> View for VxIt<T> { type V = Seq<T>; open spec fn view(&self) -> Seq<T> { self.v@ } }

pub open spec fn seq_enumerate<T>(s: Seq<T>) -> Seq<(usize, T)> { Seq::new(s.len(), |i: int| (i as usize, s[i])) }
pub open spec fn seq_zip<T, U>(s: Seq<T>, t: Seq<U>) -> Seq<(T, U)> {
    Seq::new(if s.len() < t.len() { s.len() } else { t.len() }, |i: int| (s[i], t[i]))
}
/// longest prefix on which p holds
pub open spec fn seq_take_while<T>(s: Seq<T>, p: spec_fn(T) -> bool) -> Seq<T> decreases s.len() {
    if s.len() == 0 { s } else if p(s[0]) { seq![s[0]] + seq_take_while(s.subrange(1, s.len() as int), p) } else { Seq::empty() }
}
pub open spec fn seq_reverse<T>(s: Seq<T>) -> Seq<T> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]) }
pub open spec fn seq_filter_map<T, U>(s: Seq<T>, p: spec_fn(T) -> Option<U>) -> Seq<U> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else {
        let rest = seq_filter_map(s.drop_last(), p);
        match p(s.last()) { Some(u) => rest.push(u), None => rest }
    }
}
/// mentions a function value so that closure contracts quantified over it apply
pub open spec fn hint<A>(p: A) -> bool { true }
/// the closure f decides exactly predicate p
pub open spec fn decides<T, F: Fn(&T) -> bool>(f: F, p: spec_fn(T) -> bool) -> bool {
    forall |x: &T, b: bool| call_ensures(f, (x,), b) ==> b == p(*x)
}
pub open spec fn computes<T, U, F: Fn(T) -> U>(f: F, g: spec_fn(T) -> U) -> bool {
    forall |x: T, b: U| call_ensures(f, (x,), b) ==> b == g(x)
}

impl<T> VxIt<T> {
    pub fn next(&mut self) -> (r: Option<T>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.subrange(1, old(self)@.len() as int),
    {
        if self.v.len() == 0 { None } else {
            let r = self.v.remove(0);
            assert(self.v@ =~= old(self)@.subrange(1, old(self)@.len() as int));
            Some(r)
        }
    }
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.v.len() }
    pub fn count(self) -> (r: usize) ensures r == self@.len() { self.v.len() }
    pub fn last(self) -> (r: Option<T>)
        ensures self@.len() == 0 ==> r is None, self@.len() > 0 ==> r == Some(self@.last())
    {
        let mut vs = self; vs.v.pop() }
    pub fn nth(&mut self, n: usize) -> (r: Option<T>)
        ensures
            n < old(self)@.len() ==> r == Some(old(self)@[n as int]) && final(self)@ == old(self)@.subrange(n + 1, old(self)@.len() as int),
            n >= old(self)@.len() ==> r is None && final(self)@.len() == 0,
    {
        let mut i = 0;
        while i < n && self.v.len() > 0
            invariant i <= n, i <= old(self)@.len(), self@ == old(self)@.subrange(i as int, old(self)@.len() as int)
            decreases n - i
        {
            let _ = self.v.remove(0);
            i = i + 1;
            assert(self@ =~= old(self)@.subrange(i as int, old(self)@.len() as int));
        }
        if self.v.len() == 0 { return None; }
        let r = self.v.remove(0);
        assert(self@ =~= old(self)@.subrange(n + 1, old(self)@.len() as int));
        Some(r)
    }
    pub fn skip(self, n: usize) -> (r: VxIt<T>)
        ensures r@ == self@.subrange(if n < self@.len() { n as int } else { self@.len() as int }, self@.len() as int)
    {
        let mut vs = self;
        let ghost s = self@;
        let mut i = 0;
        while i < n && vs.v.len() > 0
            invariant i <= n, i <= s.len(), vs@ == s.subrange(i as int, s.len() as int)
            decreases n - i
        {
            let _ = vs.v.remove(0);
            i = i + 1;
            assert(vs@ =~= s.subrange(i as int, s.len() as int));
        }
        vs
    }
    pub fn take(self, n: usize) -> (r: VxIt<T>)
        ensures r@ == self@.subrange(0, if n < self@.len() { n as int } else { self@.len() as int })
    {
        let mut vs = self;
        let ghost s = self@;
        while vs.v.len() > n
            invariant vs@.len() <= s.len(), n <= s.len() ==> vs@.len() >= n, n > s.len() ==> vs@.len() == s.len(), vs@ == s.subrange(0, vs@.len() as int)
            decreases vs@.len()
        {
            let _ = vs.v.pop();
            assert(vs@ =~= s.subrange(0, vs@.len() as int));
        }
        vs
    }
    pub fn rev(self) -> (r: VxIt<T>)
        ensures r@ == seq_reverse(self@)
    {
        let mut vs = self;
        let ghost s = self@;
        let mut out: Vec<T> = Vec::new();
        while vs.v.len() > 0
            invariant out@.len() + vs@.len() == s.len(), vs@ == s.subrange(0, vs@.len() as int),
                forall |i: int| 0 <= i < out@.len() ==> out@[i] == s[s.len() - 1 - i],
            decreases vs@.len()
        {
            let x = vs.v.pop().unwrap();
            out.push(x);
            assert(vs@ =~= s.subrange(0, vs@.len() as int));
        }
        assert(out@ =~= seq_reverse(s));
        VxIt { v: out }
    }
    pub fn enumerate(self) -> (r: VxIt<(usize, T)>)
        ensures r@ == seq_enumerate(self@)
    {
        let mut vs = self;
        let ghost s = self@;
        let n0 = vs.v.len();
        let mut out: Vec<(usize, T)> = Vec::new();
        let mut i: usize = 0;
        while vs.v.len() > 0
            invariant i == out@.len(), i + vs@.len() == s.len(), s.len() <= usize::MAX, vs@ == s.subrange(i as int, s.len() as int),
                forall |k: int| 0 <= k < i ==> out@[k] == (k as usize, s[k]),
            decreases vs@.len()
        {
            let x = vs.v.remove(0);
            out.push((i, x));
            i = i + 1;
            assert(vs@ =~= s.subrange(i as int, s.len() as int));
        }
        assert(out@ =~= seq_enumerate(s));
        VxIt { v: out }
    }
    pub fn zip<U, J: VxIntoIt<U>>(self, o: J) -> (r: VxIt<(T, U)>)
        ensures r@ == seq_zip(self@, o.it_spec())
    {
        let mut vs = self;
        let mut o = o.into_it();
        let ghost s = self@;
        let ghost t = o@;
        let mut out: Vec<(T, U)> = Vec::new();
        while vs.v.len() > 0 && o.v.len() > 0
            invariant out@.len() + vs@.len() == s.len(), out@.len() + o@.len() == t.len(),
                vs@ == s.subrange(out@.len() as int, s.len() as int), o@ == t.subrange(out@.len() as int, t.len() as int),
                forall |k: int| 0 <= k < out@.len() ==> out@[k] == (s[k], t[k]),
            decreases vs@.len()
        {
            let x = vs.v.remove(0);
            let y = o.v.remove(0);
            out.push((x, y));
            assert(vs@ =~= s.subrange(out@.len() as int, s.len() as int));
            assert(o@ =~= t.subrange(out@.len() as int, t.len() as int));
        }
        assert(out@ =~= seq_zip(s, t));
        VxIt { v: out }
    }
    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: VxIt<T>)
        requires forall |i: int| 0 <= i < self@.len() ==> call_requires(f, (&self@[i],)),
        ensures r@.len() <= self@.len(), forall |p: spec_fn(T) -> bool| #![trigger self@.filter(p)] #![trigger hint(p)] decides(f, p) ==> r@ == self@.filter(p),
    {
        let mut vs = self;
        let ghost s = self@;
        let mut out: Vec<T> = Vec::new();
        let ghost mut k: int = 0;
        proof {
            assert forall |p: spec_fn(T) -> bool| #![trigger decides(f, p)] out@ == s.subrange(0, k).filter(p) by {
                    let fp = s.filter(p); assert(fp.len() >= 0);
                reveal(Seq::filter);
                assert(s.subrange(0, 0).len() == 0);
                assert(s.subrange(0, 0).filter(p) =~= Seq::<T>::empty());
            }
        }
        while vs.v.len() > 0
            invariant out@.len() <= k, 0 <= k <= s.len(), k + vs@.len() == s.len(), vs@ == s.subrange(k, s.len() as int),
                forall |i: int| 0 <= i < s.len() ==> call_requires(f, (&s[i],)),
                forall |p: spec_fn(T) -> bool| #![trigger decides(f, p)] decides(f, p) ==> out@ == s.subrange(0, k).filter(p),
            decreases vs@.len()
        {
            let x = vs.v.remove(0);
            assert(x == s[k]);
            let ghost out0 = out@;
            let b = f(&x);
            if b { out.push(x); }
            proof {
                assert(vs@ =~= s.subrange(k + 1, s.len() as int));
                assert forall |p: spec_fn(T) -> bool| #![trigger decides(f, p)] decides(f, p) implies out@ == s.subrange(0, k + 1).filter(p) by {
                    let fp = s.filter(p); assert(fp.len() >= 0);
                    reveal(Seq::filter);
                    assert(out0 == s.subrange(0, k).filter(p));
                    assert(s.subrange(0, k + 1).drop_last() =~= s.subrange(0, k));
                    assert(s.subrange(0, k + 1).last() == s[k]);
                }
                k = k + 1;
            }
        }
        assert(s.subrange(0, k) =~= s);
        VxIt { v: out }
    }
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: VxIt<U>)
        requires forall |i: int| 0 <= i < self@.len() ==> call_requires(f, (self@[i],)),
        ensures r@.len() == self@.len(),
            forall |i: int| 0 <= i < r@.len() ==> call_ensures(f, (self@[i],), #[trigger] r@[i]),
    {
        let mut vs = self;
        let ghost s = self@;
        let mut out: Vec<U> = Vec::new();
        while vs.v.len() > 0
            invariant out@.len() + vs@.len() == s.len(), vs@ == s.subrange(out@.len() as int, s.len() as int),
                forall |i: int| 0 <= i < s.len() ==> call_requires(f, (s[i],)),
                forall |i: int| 0 <= i < out@.len() ==> call_ensures(f, (s[i],), #[trigger] out@[i]),
            decreases vs@.len()
        {
            let x = vs.v.remove(0);
            let y = f(x);
            assert(call_ensures(f, (x,), y));
            out.push(y);
            assert(vs@ =~= s.subrange(out@.len() as int, s.len() as int));
        }
        VxIt { v: out }
    }
    pub fn filter_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: VxIt<U>)
        requires forall |i: int| 0 <= i < self@.len() ==> call_requires(f, (self@[i],)),
        ensures forall |g: spec_fn(T) -> Option<U>| #![trigger seq_filter_map(self@, g)] #![trigger hint(g)] computes(f, g) ==> r@ == seq_filter_map(self@, g),
    {
        let mut vs = self;
        let ghost s = self@;
        let mut out: Vec<U> = Vec::new();
        let ghost mut k: int = 0;
        while vs.v.len() > 0
            invariant 0 <= k <= s.len(), k + vs@.len() == s.len(), vs@ == s.subrange(k, s.len() as int),
                forall |i: int| 0 <= i < s.len() ==> call_requires(f, (s[i],)),
                forall |g: spec_fn(T) -> Option<U>| #![trigger computes(f, g)] computes(f, g) ==> out@ == seq_filter_map(s.subrange(0, k), g),
            decreases vs@.len()
        {
            let x = vs.v.remove(0);
            assert(x == s[k]);
            let ghost out0 = out@;
            match f(x) { Some(u) => { out.push(u); } None => {} }
            proof {
                assert(vs@ =~= s.subrange(k + 1, s.len() as int));
                assert forall |g: spec_fn(T) -> Option<U>| #![trigger computes(f, g)] computes(f, g) implies out@ == seq_filter_map(s.subrange(0, k + 1), g) by {
                    let fp = seq_filter_map(s, g); assert(fp.len() >= 0);
                    assert(out0 == seq_filter_map(s.subrange(0, k), g));
                    assert(s.subrange(0, k + 1).drop_last() =~= s.subrange(0, k));
                    assert(s.subrange(0, k + 1).last() == s[k]);
                }
                k = k + 1;
            }
        }
        assert(s.subrange(0, k) =~= s);
        VxIt { v: out }
    }
    pub fn take_while<F: Fn(&T) -> bool>(self, f: F) -> (r: VxIt<T>)
        requires forall |i: int| 0 <= i < self@.len() ==> call_requires(f, (&self@[i],)),
        ensures r@.len() <= self@.len(), r@ == self@.subrange(0, r@.len() as int),
            forall |i: int| 0 <= i < r@.len() ==> call_ensures(f, (&(#[trigger] self@[i]),), true),
            r@.len() < self@.len() ==> call_ensures(f, (&(self@[r@.len() as int]),), false),
    {
        let mut vs = self;
        let ghost s = self@;
        let mut out: Vec<T> = Vec::new();
        while vs.v.len() > 0
            invariant s == self@, out@.len() + vs@.len() == s.len(), vs@ == s.subrange(out@.len() as int, s.len() as int),
                out@ == s.subrange(0, out@.len() as int),
                forall |i: int| 0 <= i < s.len() ==> call_requires(f, (&s[i],)),
                forall |i: int| 0 <= i < out@.len() ==> call_ensures(f, (&(#[trigger] s[i]),), true),
            decreases vs@.len()
        {
            let x = vs.v.remove(0);
            let b = f(&x);
            if !b {
                assert(call_ensures(f, (&s[out@.len() as int],), false));
                return VxIt { v: out };
            }
            assert(call_ensures(f, (&s[out@.len() as int],), true));
            out.push(x);
            assert(vs@ =~= s.subrange(out@.len() as int, s.len() as int));
            assert(out@ =~= s.subrange(0, out@.len() as int));
        }
        assert(out@ =~= s.subrange(0, out@.len() as int));
        VxIt { v: out }
    }
    pub fn any<F: Fn(T) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall |i: int| 0 <= i < old(self)@.len() ==> call_requires(f, (old(self)@[i],)),
        ensures
            r ==> exists |i: int| 0 <= i < old(self)@.len() && call_ensures(f, (#[trigger] old(self)@[i],), true),
            !r ==> forall |i: int| 0 <= i < old(self)@.len() ==> call_ensures(f, (#[trigger] old(self)@[i],), false),
    {
        let ghost s = self@;
        let ghost mut k: int = 0;
        while self.v.len() > 0
            invariant s == old(self)@, 0 <= k <= s.len(), k + self@.len() == s.len(), self@ == s.subrange(k, s.len() as int),
                forall |i: int| 0 <= i < s.len() ==> call_requires(f, (s[i],)),
                forall |i: int| 0 <= i < k ==> call_ensures(f, (#[trigger] s[i],), false),
            decreases self@.len()
        {
            let x = self.v.remove(0);
            let b = f(x);
            assert(call_ensures(f, (s[k],), b));
            if b { return true; }
            proof { k = k + 1; }
            assert(self@ =~= s.subrange(k, s.len() as int));
        }
        false
    }
    pub fn find<F: Fn(&T) -> bool>(&mut self, f: F) -> (r: Option<T>)
        requires forall |i: int| 0 <= i < old(self)@.len() ==> call_requires(f, (&old(self)@[i],)),
        ensures
            forall |p: spec_fn(T) -> bool| #![trigger old(self)@.filter(p)] #![trigger hint(p)] decides(f, p) ==>
                r == (if old(self)@.filter(p).len() == 0 { None } else { Some(old(self)@.filter(p)[0]) }),
    {
        let ghost s = self@;
        let ghost mut k: int = 0;
        proof {
            assert forall |p: spec_fn(T) -> bool| #![trigger decides(f, p)] s.subrange(0, k).filter(p).len() == 0 by {
                    let fp = s.filter(p); assert(fp.len() >= 0);
                reveal(Seq::filter);
                assert(s.subrange(0, 0).len() == 0);
            }
        }
        while self.v.len() > 0
            invariant s == old(self)@, 0 <= k <= s.len(), k + self@.len() == s.len(), self@ == s.subrange(k, s.len() as int),
                forall |i: int| 0 <= i < s.len() ==> call_requires(f, (&s[i],)),
                forall |p: spec_fn(T) -> bool| #![trigger decides(f, p)] decides(f, p) ==> s.subrange(0, k).filter(p).len() == 0,
            decreases self@.len()
        {
            let x = self.v.remove(0);
            let b = f(&x);
            if b {
                proof {
                    assert forall |p: spec_fn(T) -> bool| #![trigger decides(f, p)] decides(f, p) implies s.filter(p).len() > 0 && s.filter(p)[0] == x by {
                    let fp = s.filter(p); assert(fp.len() >= 0);
                        assert(s.subrange(0, k).filter(p).len() == 0);
                        assert(p(s[k]));
                        assert(s =~= s.subrange(0, k + 1) + s.subrange(k + 1, s.len() as int));
                        lemma_filter_add(s.subrange(0, k + 1), s.subrange(k + 1, s.len() as int), p);
                        assert(s.subrange(0, k + 1).filter(p) =~= seq![x]) by {
                            reveal(Seq::filter);
                            assert(s.subrange(0, k + 1).drop_last() =~= s.subrange(0, k));
                            assert(s.subrange(0, k + 1).last() == s[k]);
                        }
                    }
                }
                return Some(x);
            }
            proof {
                assert(self@ =~= s.subrange(k + 1, s.len() as int));
                assert forall |p: spec_fn(T) -> bool| #![trigger decides(f, p)] decides(f, p) implies s.subrange(0, k + 1).filter(p).len() == 0 by {
                    let fp = s.filter(p); assert(fp.len() >= 0);
                    reveal(Seq::filter);
                    assert(s.subrange(0, k + 1).drop_last() =~= s.subrange(0, k));
                    assert(s.subrange(0, k + 1).last() == s[k]);
                    assert(s.subrange(0, k).filter(p).len() == 0);
                    assert(!p(s[k]));
                }
                k = k + 1;
            }
        }
        assert(s.subrange(0, k) =~= s);
        None
    }
    /// the first element whose key is least
    pub fn min_by_key<F: Fn(&T) -> usize>(self, f: F) -> (r: Option<T>)
        requires forall |i: int| 0 <= i < self@.len() ==> call_requires(f, (&self@[i],)),
        ensures self@.len() == 0 <==> r is None,
            r is Some ==> exists |m: int, keys: Seq<usize>| #[trigger] min_keys(self@, f, keys, m) && r->0 == self@[m],
    {
        let ghost s = self@;
        let mut vs = self;
        if vs.v.len() == 0 { return None; }
        let mut best = vs.v.remove(0);
        let mut bk = f(&best);
        let ghost mut keys: Seq<usize> = seq![bk];
        let ghost mut m: int = 0;
        while vs.v.len() > 0
            invariant keys.len() + vs@.len() == s.len(), vs@ == s.subrange(keys.len() as int, s.len() as int),
                0 <= m < keys.len(), best == s[m], bk == keys[m],
                forall |i: int| 0 <= i < s.len() ==> call_requires(f, (&s[i],)),
                forall |i: int| 0 <= i < keys.len() ==> call_ensures(f, (&s[i],), #[trigger] keys[i]) && keys[m] <= keys[i],
            decreases vs@.len()
        {
            let x = vs.v.remove(0);
            let k = f(&x);
            proof {
                assert(x == s[keys.len() as int]);
                if k < bk { m = keys.len() as int; }
                keys = keys.push(k);
                assert(vs@ =~= s.subrange(keys.len() as int, s.len() as int));
            }
            if k < bk { best = x; bk = k; }
        }
        assert(min_keys(s, f, keys, m));
        Some(best)
    }
    pub fn chain<J: VxIntoIt<T>>(self, o: J) -> (r: VxIt<T>) ensures r@ == self@ + o.it_spec() {
        let mut vs = self;
        let mut o = o.into_it();
        vs.v.append(&mut o.v);
        vs
    }
    pub fn collect<B: VxCollect<T>>(self) -> (r: B) ensures B::collect_spec(self@, r) { B::from_it(self) }
    pub fn vx_into_iter(self) -> (r: VxIt<T>) ensures r == self { self }
}
pub open spec fn min_keys<T, F: Fn(&T) -> usize>(s: Seq<T>, f: F, keys: Seq<usize>, m: int) -> bool {
    keys.len() == s.len() && 0 <= m < s.len() && forall |i: int| #![trigger keys[i]] #![trigger s[i]] 0 <= i < s.len() ==> call_ensures(f, (&s[i],), keys[i]) && keys[m] <= keys[i]
}
pub proof fn lemma_filter_add<T>(a: Seq<T>, b: Seq<T>, p: spec_fn(T) -> bool)
    ensures (a + b).filter(p) == a.filter(p) + b.filter(p)
    decreases b.len()
{
    reveal(Seq::filter);
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(b.filter(p) =~= Seq::<T>::empty());
        assert(a.filter(p) + b.filter(p) =~= a.filter(p));
    } else {
        lemma_filter_add(a, b.drop_last(), p);
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        assert((a + b).filter(p) =~= a.filter(p) + b.filter(p));
    }
}
pub fn vx_once<T>(x: T) -> (r: VxIt<T>) ensures r@ == seq![x] { let mut v = Vec::new(); v.push(x); assert(v@ =~= seq![x]); VxIt { v } }
/// p is kept by every step of a fold
pub open spec fn folds<T, B, F: Fn(B, T) -> B>(f: F, p: spec_fn(B) -> bool) -> bool {
    forall |a: B, x: T, b: B| p(a) && #[trigger] call_ensures(f, (a, x), b) ==> p(b)
}
impl<T> VxIt<T> {
    pub fn fold<B, F: Fn(B, T) -> B>(self, init: B, f: F) -> (r: B)
        requires forall |b: B, x: T| call_requires(f, (b, x)),
        ensures forall |p: spec_fn(B) -> bool| #![trigger hint(p)] hint(p) && p(init) && folds(f, p) ==> p(r),
    {
        let mut vs = self;
        let mut b = init;
        while vs.v.len() > 0
            invariant forall |b: B, x: T| call_requires(f, (b, x)),
                forall |p: spec_fn(B) -> bool| #![trigger hint(p)] hint(p) && p(init) && folds(f, p) ==> p(b),
            decreases vs@.len()
        {
            let x = vs.v.remove(0);
            let ghost b0 = b;
            b = f(b, x);
            proof {
                assert(call_ensures(f, (b0, x), b));
                assert forall |p: spec_fn(B) -> bool| #![trigger hint(p)] hint(p) && p(init) && folds(f, p) implies p(b) by { assert(hint(p)); assert(p(b0)); }
            }
        }
        b
    }
}
impl<'a> VxIt<&'a str> {
    /// trusted: the joined text is not specified
    #[verifier::external_body]
    pub fn join(self, s: &str) -> (r: String) { unimplemented!() }
}
impl<'a, T: Copy> VxIt<&'a T> {
    pub fn cloned(self) -> (r: VxIt<T>)
        ensures r@ == derefs(self@)
    {
        let mut vs = self;
        let ghost s = self@;
        let mut out: Vec<T> = Vec::new();
        while vs.v.len() > 0
            invariant out@.len() + vs@.len() == s.len(), vs@ == s.subrange(out@.len() as int, s.len() as int),
                forall |i: int| 0 <= i < out@.len() ==> #[trigger] out@[i] == *s[i],
            decreases vs@.len()
        {
            let x = vs.v.remove(0);
            out.push(*x);
            assert(vs@ =~= s.subrange(out@.len() as int, s.len() as int));
        }
        assert(out@ =~= derefs(s));
        VxIt { v: out }
    }
}
impl<T: Copy> VxIt<T> {
    pub fn clone(&self) -> (r: VxIt<T>) ensures r@ == self@
    {
        let mut out: Vec<T> = Vec::new();
        let mut i = 0;
        while i < self.v.len()
            invariant i <= self@.len(), out@ == self@.subrange(0, i as int),
            decreases self@.len() - i
        {
            out.push(self.v[i]);
            i = i + 1;
            assert(out@ =~= self@.subrange(0, i as int));
        }
        assert(out@ =~= self@);
        VxIt { v: out }
    }
}

impl<'a> VxIt<&'a String> {
    /// `cloned()` of strings
    pub fn vx_owned(self) -> (r: VxIt<String>)
        ensures r@.len() == self@.len(), forall |i: int| 0 <= i < r@.len() ==> #[trigger] r@[i]@ == self@[i]@
    {
        let mut vs = self;
        let ghost s = self@;
        let mut out: Vec<String> = Vec::new();
        while vs.v.len() > 0
            invariant out@.len() + vs@.len() == s.len(), vs@ == s.subrange(out@.len() as int, s.len() as int),
                forall |i: int| 0 <= i < out@.len() ==> #[trigger] out@[i]@ == s[i]@,
            decreases vs@.len()
        {
            let x = vs.v.remove(0);
            out.push(vx_str_to_string(x.as_str()));
            assert(vs@ =~= s.subrange(out@.len() as int, s.len() as int));
        }
        VxIt { v: out }
    }
}

pub trait VxIntoIt<T>: Sized {
    spec fn it_spec(&self) -> Seq<T>;
    fn into_it(self) -> (r: VxIt<T>) ensures r@ == self.it_spec();
}
impl<T> VxIntoIt<T> for VxIt<T> {
    open spec fn it_spec(&self) -> Seq<T> { self@ }
    fn into_it(self) -> (r: VxIt<T>) { proof { let vx_d = self.it_spec(); } self }
}
impl<T> VxIntoIt<T> for Vec<T> {
    open spec fn it_spec(&self) -> Seq<T> { self@ }
    fn into_it(self) -> (r: VxIt<T>) { proof { let vx_d = self.it_spec(); } VxIt { v: self } }
}
pub open spec fn derefs<'a, T>(s: Seq<&'a T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
pub broadcast proof fn lemma_derefs_refs<T>(s: Seq<T>) ensures #[trigger] derefs(seq_refs(s)) == s { assert(derefs(seq_refs(s)) =~= s); }
/// wrap-around arithmetic
pub broadcast proof fn lemma_mod_wrap(a: int, n: int)
    requires 0 <= a < 2 * n
    ensures #[trigger] (a % n) == (if a < n { a } else { a - n })
{
    if a < n { vstd::arithmetic::div_mod::lemma_small_mod(a as nat, n as nat); }
    else {
        vstd::arithmetic::div_mod::lemma_small_mod((a - n) as nat, n as nat);
        vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(a - n, n);
    }
}
pub broadcast proof fn lemma_derefs_sub<T>(s: Seq<T>, a: int, b: int)
    requires 0 <= a <= b <= s.len() ensures #[trigger] derefs(seq_refs(s).subrange(a, b)) == s.subrange(a, b)
{ assert(derefs(seq_refs(s).subrange(a, b)) =~= s.subrange(a, b)); }
pub open spec fn strs(s: Seq<String>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
pub open spec fn seq_refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
impl<'a, T> VxIntoIt<&'a T> for &'a Vec<T> {
    open spec fn it_spec(&self) -> Seq<&'a T> { seq_refs(self@) }
    fn into_it(self) -> (r: VxIt<&'a T>) { proof { let vx_d = self.it_spec(); } self.as_slice().vx_iter() }
}
impl<'a, T> VxIntoIt<&'a T> for &'a [T] {
    open spec fn it_spec(&self) -> Seq<&'a T> { seq_refs(self@) }
    fn into_it(self) -> (r: VxIt<&'a T>) { proof { let vx_d = self.it_spec(); } self.vx_iter() }
}
pub fn vx_into_it<T, I: VxIntoIt<T>>(i: I) -> (r: VxIt<T>) ensures r@ == i.it_spec() { i.into_it() }

pub trait VxSlice<T> {
    spec fn sl_view(&self) -> Seq<T>;
    fn vx_iter(&self) -> (r: VxIt<&T>) ensures r@ == seq_refs(self.sl_view());
}
impl<T> VxSlice<T> for [T] {
    open spec fn sl_view(&self) -> Seq<T> { self@ }
    fn vx_iter(&self) -> (r: VxIt<&T>) { proof { let vx_d = self.sl_view(); }
        let mut out: Vec<&T> = Vec::new();
        let mut i = 0;
        while i < self.len()
            invariant i <= self@.len(), out@.len() == i, forall |k: int| 0 <= k < i ==> *#[trigger] out@[k] == self@[k],
            decreases self@.len() - i
        {
            out.push(&self[i]);
            i = i + 1;
        }
        assert(out@ =~= seq_refs(self@));
        VxIt { v: out }
    }
}
impl<T> VxSlice<T> for VecDeque<T> {
    open spec fn sl_view(&self) -> Seq<T> { self@ }
    fn vx_iter(&self) -> (r: VxIt<&T>) { proof { let vx_d = self.sl_view(); }
        let mut out: Vec<&T> = Vec::new();
        let mut i = 0;
        while i < self.len()
            invariant i <= self@.len(), out@.len() == i, forall |k: int| 0 <= k < i ==> *#[trigger] out@[k] == self@[k],
            decreases self@.len() - i
        {
            out.push(&self[i]);
            i = i + 1;
        }
        assert(out@ =~= seq_refs(self@));
        VxIt { v: out }
    }
}
pub open spec fn range_seq(a: usize, b: usize) -> Seq<usize> {
    Seq::new(if a <= b { (b - a) as nat } else { 0 }, |i: int| (a + i) as usize)
}
pub fn vx_range(a: usize, b: usize) -> (r: VxIt<usize>) ensures r@ == range_seq(a, b)
{
    let mut out: Vec<usize> = Vec::new();
    let mut i = a;
    while i < b
        invariant a <= b ==> a <= i <= b, a > b ==> i == a, out@.len() == i - a, forall |k: int| 0 <= k < out@.len() ==> #[trigger] out@[k] == a + k,
        decreases b - i
    {
        out.push(i);
        i = i + 1;
    }
    assert(out@ =~= range_seq(a, b));
    VxIt { v: out }
}

pub trait VxCollect<T>: Sized {
    spec fn collect_spec(s: Seq<T>, r: Self) -> bool;
    fn from_it(it: VxIt<T>) -> (r: Self) ensures Self::collect_spec(it@, r);
}
impl<T> VxCollect<T> for Vec<T> {
    open spec fn collect_spec(s: Seq<T>, r: Self) -> bool { r@ == s }
    fn from_it(it: VxIt<T>) -> (r: Self) { it.v }
}
impl VxCollect<char> for String {
    open spec fn collect_spec(s: Seq<char>, r: Self) -> bool { r@ == s }
    fn from_it(it: VxIt<char>) -> (r: Self) { vx_string_of(&it.v) }
}
/// trusted: building a String from chars
#[verifier::external_body]
pub fn vx_string_of(v: &Vec<char>) -> (r: String) ensures r@ == v@ { v.iter().collect() }
pub fn vx_string_from_iter(v: Vec<char>) -> (r: String) ensures r@ == v@ { vx_string_of(&v) }
pub trait VxStr {
    spec fn sv(&self) -> Seq<char>;
    fn vx_chars(&self) -> (r: VxIt<char>) ensures r@ == self.sv();
}
impl VxStr for str {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_chars(&self) -> (r: VxIt<char>) { VxIt { v: self.chars().collect() } }
}
impl VxStr for String {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_chars(&self) -> (r: VxIt<char>) { VxIt { v: self.chars().collect() } }
}

pub open spec fn is_ascii_letter(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
pub assume_specification [char::is_ascii_alphabetic] (c: &char) -> (r: bool) ensures r == is_ascii_letter(*c);
pub fn vx_unreachable() -> ! requires false { loop invariant false decreases 0int { } }
pub fn vx_assert(b: bool) requires b { }
pub fn vx_bool_or(a: bool, b: bool) -> (r: bool) ensures r == (a || b) { a || b }
pub fn vx_bool_and(a: bool, b: bool) -> (r: bool) ensures r == (a && b) { a && b }


// ---------------------------------------------------------------- std containers, slices, strings
pub trait VxVec<T> {
    fn vx_drain(&mut self, r: core::ops::Range<usize>) -> (d: VxIt<T>)
        requires old(self).vv().len() >= r.end, r.start <= r.end,
        ensures d@ == old(self).vv().subrange(r.start as int, r.end as int),
            final(self).vv() == old(self).vv().subrange(0, r.start as int) + old(self).vv().subrange(r.end as int, old(self).vv().len() as int);
    spec fn vv(&self) -> Seq<T>;
}
impl<T> VxVec<T> for Vec<T> {
    open spec fn vv(&self) -> Seq<T> { self@ }
    fn vx_drain(&mut self, r: core::ops::Range<usize>) -> (d: VxIt<T>) { proof { let vx_d = old(self).vv(); }
        let mut out: Vec<T> = Vec::new();
        let ghost s = self@;
        while out.len() < r.end - r.start
            invariant r.start <= r.end <= s.len(), out@.len() <= r.end - r.start, self@.len() + out@.len() == s.len(),
                out@ == s.subrange(r.start as int, r.start + out@.len()),
                self@ == s.subrange(0, r.start as int) + s.subrange(r.start + out@.len(), s.len() as int),
            decreases r.end - r.start - out@.len()
        {
            let x = self.remove(r.start);
            out.push(x);
            assert(out@ =~= s.subrange(r.start as int, r.start + out@.len()));
            assert(self@ =~= s.subrange(0, r.start as int) + s.subrange(r.start + out@.len(), s.len() as int));
        }
        VxIt { v: out }
    }
}
pub trait VxSl<T> {
    spec fn slv(&self) -> Seq<T>;
    /// all contiguous windows of length n, left to right
    fn vx_windows(&self, n: usize) -> (r: VxIt<&[T]>)
        requires n > 0
        ensures r@.len() == (if self.slv().len() >= n { self.slv().len() - n + 1 } else { 0 }),
            forall |i: int| #![trigger r@[i]] #![trigger self.slv().subrange(i, i + n)] 0 <= i < r@.len() ==> r@[i]@ == self.slv().subrange(i, i + n);
    /// the maximal runs between elements on which p holds
    fn vx_split<F: Fn(&T) -> bool>(&self, f: F) -> (r: VxIt<&[T]>)
        requires forall |x: &T| call_requires(f, (x,))
        ensures forall |p: spec_fn(T) -> bool| #![trigger split_spec(self.slv(), p)] #![trigger hint(p)] decides(f, p) ==> views(r@) == split_spec(self.slv(), p);
    fn vx_sub(&self, a: usize, b: usize) -> (r: &[T])
        requires a <= b <= self.slv().len() ensures r@ == self.slv().subrange(a as int, b as int);
    fn vx_from(&self, a: usize) -> (r: &[T])
        requires a <= self.slv().len() ensures r@ == self.slv().subrange(a as int, self.slv().len() as int);
    fn vx_to(&self, b: usize) -> (r: &[T])
        requires b <= self.slv().len() ensures r@ == self.slv().subrange(0, b as int);
    fn vx_all(&self) -> (r: &[T]) ensures r@ == self.slv();
}
pub open spec fn views<'a, T>(s: Seq<&'a [T]>) -> Seq<Seq<T>> { Seq::new(s.len(), |i: int| s[i]@) }
/// split at every element satisfying p (always at least one piece)
pub open spec fn split_spec<T>(s: Seq<T>, p: spec_fn(T) -> bool) -> Seq<Seq<T>> decreases s.len() {
    if s.len() == 0 { seq![Seq::<T>::empty()] } else {
        let r = split_spec(s.drop_last(), p);
        if p(s.last()) { r.push(Seq::empty()) } else { r.drop_last().push(r.last().push(s.last())) }
    }
}
pub proof fn lemma_split_nonempty<T>(s: Seq<T>, p: spec_fn(T) -> bool) ensures split_spec(s, p).len() > 0 decreases s.len() {
    if s.len() > 0 { lemma_split_nonempty(s.drop_last(), p); }
}
impl<T> VxSl<T> for [T] {
    open spec fn slv(&self) -> Seq<T> { self@ }
    fn vx_sub(&self, a: usize, b: usize) -> (r: &[T]) { proof { let vx_d = self.slv(); } vstd::slice::slice_subrange(self, a, b) }
    fn vx_from(&self, a: usize) -> (r: &[T]) { proof { let vx_d = self.slv(); } vstd::slice::slice_subrange(self, a, self.len()) }
    fn vx_to(&self, b: usize) -> (r: &[T]) { proof { let vx_d = self.slv(); } vstd::slice::slice_subrange(self, 0, b) }
    fn vx_all(&self) -> (r: &[T]) { proof { let vx_d = self.slv(); } self }
    fn vx_windows(&self, n: usize) -> (r: VxIt<&[T]>) { proof { let vx_d = self.slv(); }
        let mut out: Vec<&[T]> = Vec::new();
        let mut i = 0;
        if self.len() >= n {
            while i <= self.len() - n
                invariant n > 0, self@.len() >= n, i <= self@.len() - n + 1, out@.len() == i, forall |k: int| 0 <= k < i ==> (#[trigger] out@[k])@ == self@.subrange(k, k + n),
                decreases self@.len() - n + 1 - i
            {
                out.push(vstd::slice::slice_subrange(self, i, i + n));
                i = i + 1;
            }
        }
        VxIt { v: out }
    }
    fn vx_split<F: Fn(&T) -> bool>(&self, f: F) -> (r: VxIt<&[T]>) { proof { let vx_d = self.slv(); }
        let mut out: Vec<&[T]> = Vec::new();
        let mut start = 0;
        let mut i = 0;
        proof {
            assert forall |p: spec_fn(T) -> bool| #![trigger decides(f, p)] decides(f, p) implies split_spec(self@.subrange(0, 0), p) == views(out@).push(self@.subrange(0, 0)) by {
                assert(self@.subrange(0, 0).len() == 0);
                assert(views(out@).push(self@.subrange(0, 0)) =~= split_spec(self@.subrange(0, 0), p)) by {
                    assert(self@.subrange(0, 0) =~= Seq::<T>::empty());
                }
            }
        }
        while i < self.len()
            invariant start <= i <= self@.len(),
                forall |x: &T| call_requires(f, (x,)),
                forall |p: spec_fn(T) -> bool| #![trigger decides(f, p)] decides(f, p) ==> split_spec(self@.subrange(0, i as int), p) == views(out@).push(self@.subrange(start as int, i as int)),
            decreases self@.len() - i
        {
            let b = f(&self[i]);
            let ghost out0 = out@;
            let ghost start0 = start;
            if b {
                out.push(vstd::slice::slice_subrange(self, start, i));
                start = i + 1;
            }
            proof {
                assert forall |p: spec_fn(T) -> bool| #![trigger decides(f, p)] decides(f, p) implies split_spec(self@.subrange(0, i + 1), p) == views(out@).push(self@.subrange(start as int, i + 1)) by {
                    let s1 = self@.subrange(0, i + 1);
                    assert(s1.drop_last() =~= self@.subrange(0, i as int));
                    assert(s1.last() == self@[i as int]);
                    let r = split_spec(self@.subrange(0, i as int), p);
                    assert(r == views(out0).push(self@.subrange(start0 as int, i as int)));
                    assert(b == p(self@[i as int]));
                    if b {
                        assert(views(out@) =~= r);
                        assert(self@.subrange(i + 1, i + 1) =~= Seq::<T>::empty());
                    } else {
                        assert(r.drop_last() =~= views(out@));
                        assert(self@.subrange(start0 as int, i as int).push(self@[i as int]) =~= self@.subrange(start as int, i + 1));
                    }
                }
            }
            i = i + 1;
        }
        out.push(vstd::slice::slice_subrange(self, start, i));
        proof {
            assert(self@.subrange(0, i as int) =~= self@);
            assert forall |p: spec_fn(T) -> bool| #![trigger decides(f, p)] decides(f, p) implies split_spec(self@, p) == views(out@) by {
                assert(views(out@) =~= split_spec(self@.subrange(0, i as int), p));
            }
        }
        VxIt { v: out }
    }
}
pub trait VxOwn { spec fn ownv(&self) -> Seq<char>; fn vx_own(&self) -> (r: Vec<char>) ensures r@ == self.ownv(); }
impl VxOwn for [char] {
    open spec fn ownv(&self) -> Seq<char> { self@ }
    fn vx_own(&self) -> (r: Vec<char>) { proof { let vx_d = self.ownv(); } vx_to_vec(self) }
}
pub fn vx_to_vec(s: &[char]) -> (r: Vec<char>) ensures r@ == s@ {
    let mut out: Vec<char> = Vec::new();
    let mut i = 0;
    while i < s.len() invariant i <= s@.len(), out@ == s@.subrange(0, i as int) decreases s@.len() - i
    {
        out.push(s[i]);
        i = i + 1;
        assert(out@ =~= s@.subrange(0, i as int));
    }
    assert(out@ =~= s@);
    out
}
/// trusted: slice equality of chars
#[verifier::external_body]
pub fn vx_eq_slice(a: &[char], b: &[char]) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body]
pub fn vx_eq_vec(a: &Vec<char>, b: &Vec<char>) -> (r: bool) ensures r == (a@ == b@) { a == b }

// strings (trusted; the UTF-8 encoding and the display width are uninterpreted functions of the text)
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub uninterp spec fn width_spec(s: Seq<char>) -> nat;
pub open spec fn is_c(c: char) -> spec_fn(char) -> bool { |x: char| x == c }
#[verifier::external_body]
pub fn vx_into_bytes(s: String) -> (r: Vec<u8>) ensures r@ == utf8(s@) { s.into_bytes() }
pub trait VxText {
    spec fn tx(&self) -> Seq<char>;
    fn vx_as_bytes(&self) -> (r: &[u8]) ensures r@ == utf8(self.tx());
    fn vx_byte_len(&self) -> (r: usize) ensures r == utf8(self.tx()).len(), r <= isize::MAX;
    fn width(&self) -> (r: usize) ensures r == width_spec(self.tx());
    fn vx_split(&self, c: char) -> (r: VxIt<&str>)
        ensures r@.map_values(|x: &str| x@) == split_spec(self.tx(), is_c(c));
}
impl VxText for str {
    open spec fn tx(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_as_bytes(&self) -> (r: &[u8]) { self.as_bytes() }
    #[verifier::external_body]
    fn vx_byte_len(&self) -> (r: usize) { self.len() }
    #[verifier::external_body]
    fn width(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    fn vx_split(&self, c: char) -> (r: VxIt<&str>) { VxIt { v: self.split(c).collect() } }
}
impl VxText for String {
    open spec fn tx(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_as_bytes(&self) -> (r: &[u8]) { self.as_bytes() }
    #[verifier::external_body]
    fn vx_byte_len(&self) -> (r: usize) { self.len() }
    #[verifier::external_body]
    fn width(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    fn vx_split(&self, c: char) -> (r: VxIt<&str>) { VxIt { v: self.split(c).collect() } }
}

pub open spec fn is_prefix<T>(p: Seq<T>, s: Seq<T>) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) == p }
pub trait VxStartsWith { spec fn swv(&self) -> Seq<char>; fn vx_starts_with(&self, p: &[char]) -> (r: bool) ensures r == is_prefix(p@, self.swv()); }
pub fn vx_prefix_sl(s: &[char], p: &[char]) -> (r: bool) ensures r == is_prefix(p@, s@) {
    if p.len() > s.len() { return false; }
    vx_eq_slice(vstd::slice::slice_subrange(s, 0, p.len()), p)
}
impl VxStartsWith for [char] {
    open spec fn swv(&self) -> Seq<char> { self@ }
    fn vx_starts_with(&self, p: &[char]) -> (r: bool) { proof { let vx_d = self.swv(); } vx_prefix_sl(self, p) }
}
impl VxStartsWith for Vec<char> {
    open spec fn swv(&self) -> Seq<char> { self@ }
    fn vx_starts_with(&self, p: &[char]) -> (r: bool) { proof { let vx_d = self.swv(); } vx_prefix_sl(self.as_slice(), p) }
}
pub trait VxAsStr { spec fn asv(&self) -> Seq<char>; fn vx_as_str(&self) -> (r: &str) ensures r@ == self.asv(); }
impl VxAsStr for str { open spec fn asv(&self) -> Seq<char> { self@ } fn vx_as_str(&self) -> (r: &str) { proof { let vx_d = self.asv(); } self } }
impl VxAsStr for String { open spec fn asv(&self) -> Seq<char> { self@ } fn vx_as_str(&self) -> (r: &str) { proof { let vx_d = self.asv(); } self.as_str() } }
impl<'a, T: VxAsStr + ?Sized> VxAsStr for &'a T { open spec fn asv(&self) -> Seq<char> { (**self).asv() } fn vx_as_str(&self) -> (r: &str) { proof { let vx_d = self.asv(); } (**self).vx_as_str() } }
#[verifier::external_body]
pub fn vx_str_to_string(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }

// byte positions in strings (trusted): the byte offset of a character is the length of the encoding before it
pub open spec fn boff(s: Seq<char>, i: int) -> nat { utf8(s.subrange(0, i)).len() }
pub open spec fn is_ascii_c(c: char) -> bool { (c as u32) < 128 }
/// b is the byte offset of character i
pub open spec fn at_byte(s: Seq<char>, b: int, i: int) -> bool { 0 <= i <= s.len() && boff(s, i) == b }
#[verifier::external_body]
pub broadcast proof fn ax_utf8_push(s: Seq<char>, i: int)
    requires 0 <= i < s.len()
    ensures #[trigger] boff(s, i + 1) >= boff(s, i) + 1, boff(s, i + 1) <= boff(s, i) + 4, is_ascii_c(s[i]) ==> boff(s, i + 1) == boff(s, i) + 1
{ }
#[verifier::external_body]
pub broadcast proof fn ax_utf8_empty(s: Seq<char>) ensures #[trigger] boff(s, 0) == 0 { }
pub proof fn lemma_boff_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len() ensures boff(s, i) + (j - i) <= boff(s, j) decreases j - i
{ if i < j { lemma_boff_mono(s, i, j - 1); ax_utf8_push(s, j - 1); } }
pub proof fn lemma_boff_inj(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= s.len(), 0 <= j <= s.len(), boff(s, i) == boff(s, j) ensures i == j
{ if i < j { lemma_boff_mono(s, i, j); } else if j < i { lemma_boff_mono(s, j, i); } }
pub trait VxStrOps {
    spec fn so(&self) -> Seq<char>;
    fn vx_begins(&self, c: char) -> (r: bool) ensures r == (self.so().len() > 0 && self.so()[0] == c);
    fn vx_contains(&self, c: char) -> (r: bool) ensures r == self.so().contains(c);
    fn vx_find(&self, c: char) -> (r: Option<usize>)
        ensures r is None <==> !self.so().contains(c),
            r is Some ==> exists |i: int| 0 <= i < self.so().len() && #[trigger] boff(self.so(), i) == r->0 && self.so()[i] == c && (forall |k: int| 0 <= k < i ==> self.so()[k] != c) && r->0 < isize::MAX;
    fn vx_rfind(&self, c: char) -> (r: Option<usize>)
        ensures r is None <==> !self.so().contains(c),
            r is Some ==> exists |i: int| 0 <= i < self.so().len() && #[trigger] boff(self.so(), i) == r->0 && self.so()[i] == c && (forall |k: int| i < k < self.so().len() ==> self.so()[k] != c) && r->0 < isize::MAX;
    fn vx_split_at(&self, b: usize) -> (r: (&str, &str))
        requires exists |i: int| #[trigger] at_byte(self.so(), b as int, i)
        ensures forall |i: int| #[trigger] at_byte(self.so(), b as int, i) ==> r.0@ == self.so().subrange(0, i) && r.1@ == self.so().subrange(i, self.so().len() as int);
}
impl VxStrOps for str {
    open spec fn so(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_begins(&self, c: char) -> (r: bool) { self.starts_with(c) }
    #[verifier::external_body]
    fn vx_contains(&self, c: char) -> (r: bool) { self.contains(c) }
    #[verifier::external_body]
    fn vx_find(&self, c: char) -> (r: Option<usize>) { self.find(c) }
    #[verifier::external_body]
    fn vx_rfind(&self, c: char) -> (r: Option<usize>) { self.rfind(c) }
    #[verifier::external_body]
    fn vx_split_at(&self, b: usize) -> (r: (&str, &str)) { self.split_at(b) }
}
impl VxStrOps for String {
    open spec fn so(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_begins(&self, c: char) -> (r: bool) { self.starts_with(c) }
    #[verifier::external_body]
    fn vx_contains(&self, c: char) -> (r: bool) { self.contains(c) }
    #[verifier::external_body]
    fn vx_find(&self, c: char) -> (r: Option<usize>) { self.as_str().find(c) }
    #[verifier::external_body]
    fn vx_rfind(&self, c: char) -> (r: Option<usize>) { self.as_str().rfind(c) }
    #[verifier::external_body]
    fn vx_split_at(&self, b: usize) -> (r: (&str, &str)) { self.as_str().split_at(b) }
}

#[verifier::external_body]
pub fn vx_streq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
pub fn vx_nl() -> (r: Vec<u8>) ensures r@ == seq![10u8] { let mut v = Vec::new(); v.push(10u8); assert(v@ =~= seq![10u8]); v }
pub fn vx_opt_clone(a: &Option<String>) -> (r: Option<String>)
    ensures r is Some == a is Some, r is Some ==> r->0@ == a->0@
{ match a { Some(x) => Some(x.clone()), None => None } }
pub fn vx_opt_streq(a: Option<String>, b: Option<String>) -> (r: bool)
    ensures r == (match (a, b) { (Some(x), Some(y)) => x@ == y@, (None, None) => true, _ => false })
{
    match (a, b) { (Some(x), Some(y)) => vx_streq(x.as_str(), y.as_str()), (None, None) => true, _ => false }
}
/// byte-range slices of strings: the bounds must be character boundaries
pub trait VxSlStr {
    spec fn ssv(&self) -> Seq<char>;
    fn vx_all(&self) -> (r: &str) ensures r@ == self.ssv();
    fn vx_from(&self, b: usize) -> (r: &str)
        requires exists |i: int| #[trigger] at_byte(self.ssv(), b as int, i)
        ensures forall |i: int| #[trigger] at_byte(self.ssv(), b as int, i) ==> r@ == self.ssv().subrange(i, self.ssv().len() as int);
    fn vx_to(&self, b: usize) -> (r: &str)
        requires exists |i: int| #[trigger] at_byte(self.ssv(), b as int, i)
        ensures forall |i: int| #[trigger] at_byte(self.ssv(), b as int, i) ==> r@ == self.ssv().subrange(0, i);
    fn vx_sub(&self, a: usize, b: usize) -> (r: &str)
        requires a <= b, exists |i: int| #[trigger] at_byte(self.ssv(), a as int, i), exists |i: int| #[trigger] at_byte(self.ssv(), b as int, i)
        ensures forall |i: int, j: int| #[trigger] at_byte(self.ssv(), a as int, i) && #[trigger] at_byte(self.ssv(), b as int, j) ==> r@ == self.ssv().subrange(i, j);
}
/// trusted: byte positions that are character boundaries
pub trait VxBoundary { spec fn bdv(&self) -> Seq<char>; fn vx_is_char_boundary(&self, b: usize) -> (r: bool) ensures r == (exists |i: int| #[trigger] at_byte(self.bdv(), b as int, i)); }
impl VxBoundary for str { open spec fn bdv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_is_char_boundary(&self, b: usize) -> (r: bool) { self.is_char_boundary(b) } }
impl VxBoundary for String { open spec fn bdv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_is_char_boundary(&self, b: usize) -> (r: bool) { self.as_str().is_char_boundary(b) } }
impl VxSlStr for str {
    open spec fn ssv(&self) -> Seq<char> { self@ }
    fn vx_all(&self) -> (r: &str) { proof { let vx_d = self.ssv(); } self }
    #[verifier::external_body]
    fn vx_from(&self, b: usize) -> (r: &str) { &self[b..] }
    #[verifier::external_body]
    fn vx_to(&self, b: usize) -> (r: &str) { &self[..b] }
    #[verifier::external_body]
    fn vx_sub(&self, a: usize, b: usize) -> (r: &str) { &self[a..b] }
}
impl VxSlStr for String {
    open spec fn ssv(&self) -> Seq<char> { self@ }
    fn vx_all(&self) -> (r: &str) { proof { let vx_d = self.ssv(); } self.as_str() }
    #[verifier::external_body]
    fn vx_from(&self, b: usize) -> (r: &str) { &self[b..] }
    #[verifier::external_body]
    fn vx_to(&self, b: usize) -> (r: &str) { &self[..b] }
    #[verifier::external_body]
    fn vx_sub(&self, a: usize, b: usize) -> (r: &str) { &self[a..b] }
}
pub trait VxRetain<T> {
    spec fn rtv(&self) -> Seq<T>;
    fn vx_retain<F: Fn(&T) -> bool>(&mut self, f: F)
        requires forall |i: int| 0 <= i < old(self).rtv().len() ==> call_requires(f, (&old(self).rtv()[i],)),
        ensures final(self).rtv().len() <= old(self).rtv().len(), forall |p: spec_fn(T) -> bool| #![trigger old(self).rtv().filter(p)] #![trigger hint(p)] decides(f, p) ==> final(self).rtv() == old(self).rtv().filter(p);
}
impl<T> VxRetain<T> for VecDeque<T> {
    open spec fn rtv(&self) -> Seq<T> { self@ }
    fn vx_retain<F: Fn(&T) -> bool>(&mut self, f: F) { proof { let vx_d = old(self).rtv(); }
        let ghost s = self@;
        let ghost mut k: int = 0;
        let mut out: VecDeque<T> = VecDeque::new();
        proof {
            assert(s == old(self).rtv());
            assert forall |p: spec_fn(T) -> bool| #![trigger decides(f, p)] out@ == s.subrange(0, k).filter(p) by {
                reveal(Seq::filter);
                assert(s.subrange(0, 0).len() == 0);
                assert(s.subrange(0, 0).filter(p) =~= Seq::<T>::empty());
            }
        }
        while self.len() > 0
            invariant out@.len() <= k, 0 <= k <= s.len(), k + self@.len() == s.len(), self@ == s.subrange(k, s.len() as int),
                forall |i: int| 0 <= i < s.len() ==> call_requires(f, (&s[i],)),
                forall |p: spec_fn(T) -> bool| #![trigger decides(f, p)] decides(f, p) ==> out@ == s.subrange(0, k).filter(p),
            decreases self@.len()
        {
            let x = self.pop_front().unwrap();
            assert(x == s[k]);
            let ghost out0 = out@;
            let b = f(&x);
            if b { out.push_back(x); }
            proof {
                assert(self@ =~= s.subrange(k + 1, s.len() as int));
                assert forall |p: spec_fn(T) -> bool| #![trigger decides(f, p)] decides(f, p) implies out@ == s.subrange(0, k + 1).filter(p) by {
                    reveal(Seq::filter);
                    assert(out0 == s.subrange(0, k).filter(p));
                    assert(s.subrange(0, k + 1).drop_last() =~= s.subrange(0, k));
                    assert(s.subrange(0, k + 1).last() == s[k]);
                }
                k = k + 1;
            }
        }
        assert(s.subrange(0, k) =~= s);
        self.append(&mut out);
    }
}
impl<T> VxDeque<T> for Vec<T> {
    open spec fn dqv(&self) -> Seq<T> { self@ }
    fn vx_get(&self, i: usize) -> (r: Option<&T>) { proof { let vx_d = self.dqv(); } if i < self.len() { Some(&self[i]) } else { None } }
    fn vx_back(&self) -> (r: Option<&T>) { proof { let vx_d = self.dqv(); } if self.len() > 0 { Some(&self[self.len() - 1]) } else { None } }
    fn vx_is_empty(&self) -> (r: bool) { proof { let vx_d = self.dqv(); } self.len() == 0 }
}
pub trait VxDeque<T> {
    spec fn dqv(&self) -> Seq<T>;
    fn vx_get(&self, i: usize) -> (r: Option<&T>)
        ensures i < self.dqv().len() ==> r == Some(&self.dqv()[i as int]), i >= self.dqv().len() ==> r is None;
    fn vx_back(&self) -> (r: Option<&T>)
        ensures self.dqv().len() > 0 ==> r == Some(&self.dqv().last()), self.dqv().len() == 0 ==> r is None;
    fn vx_is_empty(&self) -> (r: bool) ensures r == (self.dqv().len() == 0);
}
impl<T> VxDeque<T> for VecDeque<T> {
    open spec fn dqv(&self) -> Seq<T> { self@ }
    fn vx_get(&self, i: usize) -> (r: Option<&T>) { proof { let vx_d = self.dqv(); } if i < self.len() { Some(&self[i]) } else { None } }
    fn vx_back(&self) -> (r: Option<&T>) { proof { let vx_d = self.dqv(); } if self.len() > 0 { Some(&self[self.len() - 1]) } else { None } }
    fn vx_is_empty(&self) -> (r: bool) { proof { let vx_d = self.dqv(); } self.len() == 0 }
}
impl<T> VxIntoIt<T> for VecDeque<T> {
    open spec fn it_spec(&self) -> Seq<T> { self@ }
    fn into_it(self) -> (r: VxIt<T>) { proof { let vx_d = self.it_spec(); }
        let mut vs = self;
        let ghost s = self@;
        let mut out: Vec<T> = Vec::new();
        while vs.len() > 0
            invariant out@.len() + vs@.len() == s.len(), vs@ == s.subrange(out@.len() as int, s.len() as int), out@ == s.subrange(0, out@.len() as int)
            decreases vs@.len()
        {
            let x = vs.pop_front().unwrap();
            out.push(x);
            assert(vs@ =~= s.subrange(out@.len() as int, s.len() as int));
            assert(out@ =~= s.subrange(0, out@.len() as int));
        }
        assert(out@ =~= s);
        VxIt { v: out }
    }
}
pub trait VxDequeIter<T> { spec fn div(&self) -> Seq<T>; fn vx_into_iter(self) -> (r: VxIt<T>) ensures r@ == self.div(); }
impl<T> VxDequeIter<T> for VecDeque<T> { open spec fn div(&self) -> Seq<T> { self@ } fn vx_into_iter(self) -> (r: VxIt<T>) { proof { let vx_d = self.div(); } self.into_it() } }
impl<T> VxDequeIter<T> for Vec<T> { open spec fn div(&self) -> Seq<T> { self@ } fn vx_into_iter(self) -> (r: VxIt<T>) { proof { let vx_d = self.div(); } VxIt { v: self } } }

// ---------------------------------------------------------------- fmt
/// text produced by format!/write!: unspecified
#[verifier::external_body]
pub fn vx_format() -> (r: String) { unimplemented!() }
pub fn vx_fmt_arg<T: ?Sized>(x: &T) { }
/// a runtime width of a format string must fit in 16 bits (std panics otherwise)
pub fn vx_fmt_width(w: usize) requires w <= 65535 { }
pub struct VxFmt { pub s: Vec<char> }
pub struct VxFmtErr { }
/// `n` times a text
pub open spec fn repeated(s: Seq<char>, n: int) -> Seq<char> decreases n { if n <= 0 { Seq::empty() } else { repeated(s, n - 1) + s } }
pub trait VxRepeat { spec fn rpt(&self) -> Seq<char>; fn vx_repeat(&self, n: usize) -> (r: String) ensures r@ == repeated(self.rpt(), n as int); }
impl VxRepeat for str { open spec fn rpt(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_repeat(&self, n: usize) -> (r: String) { self.repeat(n) } }
/// write! into a string: the text is unspecified, and it does not fail
pub trait VxStrWrite { fn vx_write_fmt(&mut self) -> (r: Result<(), VxFmtErr>) ensures r is Ok; }
impl VxStrWrite for String { #[verifier::external_body] fn vx_write_fmt(&mut self) -> (r: Result<(), VxFmtErr>) { unimplemented!() } }
pub trait VxUnwrapOr<T> { fn vx_unwrap_or(self, d: T) -> (r: T); }
impl<T, E> VxUnwrapOr<T> for Result<T, E> { fn vx_unwrap_or(self, d: T) -> (r: T) { match self { Ok(x) => x, Err(_) => d } } }
impl VxFmt {
    /// trusted: a string is displayed as itself
    #[verifier::external_body]
    pub fn vx_put(&mut self, x: &str) -> (r: Result<(), VxFmtErr>)
        ensures r is Ok ==> final(self).s@ == old(self).s@ + x@
    { unimplemented!() }
    pub fn write_char(&mut self, c: char) -> (r: Result<(), VxFmtErr>)
        ensures r is Ok, final(self).s@ == old(self).s@.push(c)
    { self.s.push(c); Ok(()) }
}
pub trait VxDisplay {
    /// the text this value displays as
    spec fn shown(&self) -> Seq<char>;
    fn fmt(&self, f: &mut VxFmt) -> (r: Result<(), VxFmtErr>)
        ensures r is Ok ==> final(f).s@ == old(f).s@ + self.shown();
    fn to_string(&self) -> (r: String) ensures r@ == self.shown()
    {
        let mut f = VxFmt { s: Vec::new() };
        let res = self.fmt(&mut f);
        match res {
            Ok(_) => { proof { assert(Seq::<char>::empty() + self.shown() =~= self.shown()); } vx_string_of(&f.s) }
            Err(_) => { vx_fmt_failed() }
        }
    }
}
/// trusted: a Display impl that fails makes ToString panic (a panic never returns)
#[verifier::external_body]
pub fn vx_fmt_failed<T>() -> (r: T) ensures false { panic!() }


} // verus!
} // mod vx

/// resource assumptions (assumed axioms)
pub mod vx_ax {
use vstd::prelude::*;
use crate::buffer::{Action, Buffer};
use std::collections::VecDeque;
verus! {
/// no allocation exceeds isize::MAX bytes (a char takes 4 bytes)
#[verifier::external_body]
pub broadcast proof fn ax_vec_char_len(v: &Vec<char>) ensures #[trigger] v@.len() <= 0x1fff_ffff_ffff_ffff { }
#[verifier::external_body]
pub broadcast proof fn ax_slice_char_len(v: &[char]) ensures #[trigger] v@.len() <= 0x1fff_ffff_ffff_ffff { }
#[verifier::external_body]
pub broadcast proof fn ax_vec_usize_len(v: &Vec<usize>) ensures #[trigger] v@.len() <= 0x0fff_ffff_ffff_ffff { }
#[verifier::external_body]
pub proof fn ax_vec_string_len(v: &Vec<String>) ensures v@.len() <= 0x0555_5555_5555_5555 { }
#[verifier::external_body]
pub proof fn ax_slice_string_len(v: &[String]) ensures v@.len() <= 0x0555_5555_5555_5555 { }
/// no text that is displayed is 2^28 columns or lines long
#[verifier::external_body]
pub proof fn ax_width(s: Seq<char>) ensures crate::vx::width_spec(s) < 0x1000_0000 { }
#[verifier::external_body]
pub proof fn ax_lines(s: Seq<char>, c: char) ensures crate::vx::split_spec(s, crate::vx::is_c(c)).len() < 0x1000_0000 { }
#[verifier::external_body]
pub broadcast proof fn ax_deque_len(v: &VecDeque<Buffer>) ensures #[trigger] v@.len() <= 0x1fff_ffff_ffff_ffff { }
/// fewer than 2^31 recorded undo actions (each takes at least 40 bytes, i.e. more than 80 GB)
#[verifier::external_body]
pub broadcast proof fn ax_log_len(v: &Vec<Action>) ensures #[trigger] v@.len() < 0x7fff_ffff { }
} // verus!
} // mod vx_ax

/// stand-in for std::io (assumed): errors carry a kind, writers report errors
pub mod vxio {
use vstd::prelude::*;
verus! {
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum ErrorKind { Interrupted, UnexpectedEof, NotFound, Other, Unlisted(u64) }
pub struct Error { pub k: ErrorKind }
pub type Result<T> = core::result::Result<T, Error>;
impl Error {
    pub fn new<E>(k: ErrorKind, e: E) -> (r: Error) ensures r.k == k { Error { k } }
    pub fn other<E>(e: E) -> (r: Error) ensures r.k == ErrorKind::Other { Error { k: ErrorKind::Other } }
}
/// the errors reported when the size of the terminal cannot be found out
pub uninterp spec fn size_err(k: ErrorKind) -> bool;
/// what an operation on a terminal may report: success exactly when no write, flush or read failed under way,
/// a terminal failure as the error it was
pub open spec fn io_rel<T>(o: Seq<ErrorKind>, n: Seq<ErrorKind>, r: Result<T>) -> bool {
    match r { Ok(_) => n == o, Err(e) => n == o.push(e.k) || (n == o && size_err(e.k)) }
}
pub trait VxOther { spec fn vo(&self) -> bool; fn vx_other(self) -> (r: Result<()>) ensures r is Err ==> r->Err_0.k == ErrorKind::Other, r is Ok == self.vo(); }
impl VxOther for core::result::Result<(), crate::vx::VxFmtErr> {
    open spec fn vo(&self) -> bool { self is Ok }
    fn vx_other(self) -> (r: Result<()>) { proof { let vx_d = self.vo(); } match self { Ok(_) => Ok(()), Err(_) => Err(Error { k: ErrorKind::Other }) } }
}
pub trait Write {
    /// everything written so far
    spec fn written(&self) -> Seq<u8>;
    fn write_all(&mut self, b: &[u8]) -> (r: Result<()>)
        ensures r is Ok ==> final(self).written() == old(self).written() + b@;
    fn flush(&mut self) -> (r: Result<()>)
        ensures r is Ok ==> final(self).written() == old(self).written();
}
} // verus!
} // mod vxio

/// stand-in for termion::event::Key (same constructors)
pub mod vxkey {
use vstd::prelude::*;
verus! {
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum Key { Backspace, Left, Right, Up, Down, Home, End, PageUp, PageDown, BackTab, Delete, Insert, F(u8), Char(char), Alt(char), Ctrl(char), Null, Esc }
} // verus!
} // mod vxkey

/// std::cmp::min and max on usize
pub mod vxcmp {
use vstd::prelude::*;
verus! {
pub fn min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
pub fn max(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
} // verus!
} // mod vxcmp

/// stand-in for files (assumed): what a file contains when it is opened is unknown; a reader yields its
/// lines, a writer that has not failed holds exactly what was written
pub mod vxfs {
use vstd::prelude::*;
use crate::vx::*;
use crate::vxio;
verus! {
pub struct Path { x: u8 }
pub trait VxAsPath { spec fn pv(&self) -> Seq<char>; fn vx_path(&self) -> (r: &Path) ensures r.name() == self.pv(); }
impl Path {
    pub uninterp spec fn name(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn exists(&self) -> bool { unimplemented!() }
    #[verifier::external_body]
    pub fn to_str(&self) -> Option<&str> { unimplemented!() }
}
impl VxAsPath for Path { open spec fn pv(&self) -> Seq<char> { self.name() } fn vx_path(&self) -> (r: &Path) { proof { let vx_d = self.pv(); } self } }
impl VxAsPath for str { open spec fn pv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_path(&self) -> (r: &Path) { unimplemented!() } }
impl VxAsPath for String { open spec fn pv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_path(&self) -> (r: &Path) { unimplemented!() } }
impl<'a, T: VxAsPath + ?Sized> VxAsPath for &'a T { open spec fn pv(&self) -> Seq<char> { (**self).pv() } fn vx_path(&self) -> (r: &Path) { proof { let vx_d = self.pv(); } (**self).vx_path() } }
/// how a file was opened
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum Mode { Read, Create, Append }
pub struct File { x: u8 }
pub struct Metadata { pub l: u64 }
impl Metadata { pub fn len(&self) -> (r: u64) ensures r == self.l { self.l } }
impl File {
    pub uninterp spec fn path(&self) -> Seq<char>;
    pub uninterp spec fn mode(&self) -> Mode;
    /// size in bytes when opened
    pub uninterp spec fn size(&self) -> u64;
    /// the lines the file yields (up to the first one that is not valid text)
    pub uninterp spec fn content(&self) -> Seq<Seq<char>>;
    #[verifier::external_body]
    pub fn open<P: VxAsPath>(p: P) -> (r: vxio::Result<File>) ensures r is Ok ==> r->Ok_0.path() == p.pv() && r->Ok_0.mode() is Read { unimplemented!() }
    #[verifier::external_body]
    pub fn create<P: VxAsPath>(p: P) -> (r: vxio::Result<File>) ensures r is Ok ==> r->Ok_0.path() == p.pv() && r->Ok_0.mode() is Create { unimplemented!() }
    #[verifier::external_body]
    pub fn metadata(&self) -> (r: vxio::Result<Metadata>) ensures r is Ok ==> r->Ok_0.l == self.size() && self.size() < 0x4000_0000_0000_0000 { unimplemented!() }
}
#[verifier::external_body]
pub fn metadata<P: VxAsPath>(p: P) -> (r: vxio::Result<Metadata>) ensures r is Ok ==> r->Ok_0.l < 0x4000_0000_0000_0000 { unimplemented!() }
pub struct OpenOptions { pub app: bool }
impl OpenOptions {
    pub fn new() -> (r: OpenOptions) ensures !r.app { OpenOptions { app: false } }
    pub fn append(self, b: bool) -> (r: OpenOptions) ensures r.app == b { OpenOptions { app: b } }
    #[verifier::external_body]
    pub fn open<P: VxAsPath>(self, p: P) -> (r: vxio::Result<File>)
        requires self.app
        ensures r is Ok ==> r->Ok_0.path() == p.pv() && r->Ok_0.mode() is Append { unimplemented!() }
}
pub struct BufReader { pub f: File }
impl BufReader {
    pub fn new(f: File) -> (r: BufReader) ensures r.f == f { BufReader { f } }
    /// the readable lines, then possibly an error (and whatever follows it)
    #[verifier::external_body]
    pub fn lines(self) -> (r: VxIt<vxio::Result<String>>)
        ensures self.f.content() == ok_prefix(r@) { unimplemented!() }
}
pub open spec fn ok_prefix(s: Seq<vxio::Result<String>>) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { match s[0] { Ok(l) => seq![l@] + ok_prefix(s.subrange(1, s.len() as int)), Err(_) => Seq::empty() } }
}
pub struct BufWriter { pub f: File, pub err: bool, pub w: Ghost<Seq<u8>> }
impl BufWriter {
    pub fn new(f: File) -> (r: BufWriter) ensures r.f == f, !r.err, r.w@.len() == 0 { BufWriter { f, err: false, w: Ghost(Seq::empty()) } }
    #[verifier::external_body]
    pub fn write_all(&mut self, b: &[u8]) -> (r: vxio::Result<()>)
        ensures final(self).f == old(self).f, !final(self).err ==> !old(self).err && r is Ok && final(self).w@ == old(self).w@ + b@ { unimplemented!() }
}
/// the bytes of one entry per line
pub open spec fn lines_bytes(s: Seq<Seq<char>>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { lines_bytes(s.drop_last()) + utf8(s.last()) + seq![10u8] }
}
} // verus!
} // mod vxfs

/// stand-in for termion: the terminal's size, and control sequences (only ever written, never inspected)
pub mod vxterm {
use vstd::prelude::*;
use crate::vxio;
verus! {
/// the width the system reports (fixed while a line is drawn, assumed)
pub uninterp spec fn columns() -> u16;
#[verifier::external_body]
pub fn terminal_size() -> (r: vxio::Result<(u16, u16)>) ensures r is Err ==> vxio::size_err(r->Err_0.k), r is Ok ==> r->Ok_0.0 == columns() { unimplemented!() }
/// a sequence that selects a colour
pub uninterp spec fn colour_code(s: Seq<char>) -> bool;
pub mod clear { pub struct All; pub struct AfterCursor; }
pub mod cursor { pub struct Up(pub u16); pub struct Down(pub u16); pub struct Left(pub u16); pub struct Right(pub u16); pub struct Goto(pub u16, pub u16); }
pub mod color {
use vstd::prelude::*;
pub struct Red; pub struct Green; pub struct Yellow; pub struct Black; pub struct White; pub struct Reset;
pub trait VxColor { fn fg_str(&self) -> (r: &'static str) ensures super::colour_code(r@); fn bg_str(&self) -> (r: &'static str) ensures super::colour_code(r@); }
impl VxColor for Red { #[verifier::external_body] fn fg_str(&self) -> &'static str { "" } #[verifier::external_body] fn bg_str(&self) -> &'static str { "" } }
impl VxColor for Green { #[verifier::external_body] fn fg_str(&self) -> &'static str { "" } #[verifier::external_body] fn bg_str(&self) -> &'static str { "" } }
impl VxColor for Yellow { #[verifier::external_body] fn fg_str(&self) -> &'static str { "" } #[verifier::external_body] fn bg_str(&self) -> &'static str { "" } }
impl VxColor for Black { #[verifier::external_body] fn fg_str(&self) -> &'static str { "" } #[verifier::external_body] fn bg_str(&self) -> &'static str { "" } }
impl VxColor for White { #[verifier::external_body] fn fg_str(&self) -> &'static str { "" } #[verifier::external_body] fn bg_str(&self) -> &'static str { "" } }
impl VxColor for Reset { #[verifier::external_body] fn fg_str(&self) -> &'static str { "" } #[verifier::external_body] fn bg_str(&self) -> &'static str { "" } }
}
/// strip_ansi_escapes::strip: some bytes, bounded like every displayed text
#[verifier::external_body]
pub fn strip(s: &&str) -> (r: Vec<u8>) ensures r@.len() < 0x1000_0000 { unimplemented!() }
} // verus!
} // mod vxterm

/// stand-in for std::path, std::fs::read_dir and the str functions file completion uses.  A path is a
/// sequence of units: a character of the text, or (above the range of characters) a byte that is not part of
/// valid text.  Assumed: what std documents for each function; that the file system does not change during a
/// call; that an entry's name is not empty and contains no separator
pub mod vxpath {
use vstd::prelude::*;
use crate::vx::*;
use crate::vxio;
verus! {
pub open spec fn enc(s: Seq<char>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i] as int) }
pub open spec fn sep() -> int { '/' as int }
/// the text of a path, with something else for what is not text
pub uninterp spec fn lossy(u: Seq<int>) -> Seq<char>;
#[verifier::external_body]
pub proof fn ax_lossy(s: Seq<char>, u: Seq<int>)
    ensures lossy(enc(s) + u) == s + lossy(u), lossy(Seq::empty()) == Seq::<char>::empty(),
        (u.len() > 0 && u[0] != sep()) ==> lossy(u).len() > 0 && lossy(u)[0] != '/' { }
pub proof fn lemma_lossy(s: Seq<char>) ensures lossy(enc(s)) == s
{ ax_lossy(s, Seq::empty()); assert(enc(s) + Seq::<int>::empty() =~= enc(s)); assert(s + Seq::<char>::empty() =~= s); }
/// where the last component of a path starts: behind the last separator
pub open spec fn slash_at(u: Seq<int>) -> int decreases u.len() {
    if u.len() == 0 { 0 } else if u.last() == sep() { u.len() as int } else { slash_at(u.drop_last()) }
}
pub open spec fn dir_u(u: Seq<int>) -> Seq<int> { u.subrange(0, slash_at(u)) }
pub open spec fn name_u(u: Seq<int>) -> Seq<int> { u.subrange(slash_at(u), u.len() as int) }
/// the last component names an entry of the directory in front of it
pub open spec fn name_ok(n: Seq<int>) -> bool { n.len() > 0 && n != seq!['.' as int] && n != seq!['.' as int, '.' as int] }
/// what is left of a path when separators and `.` components at its end are dropped
pub open spec fn trim_len(u: Seq<int>) -> int decreases u.len() {
    if u.len() <= 1 { u.len() as int }
    else if u.last() == sep() { trim_len(u.drop_last()) }
    else if u.last() == '.' as int && u[u.len() - 2] == sep() { trim_len(u.drop_last()) }
    else { u.len() as int }
}
pub open spec fn trim_u(u: Seq<int>) -> Seq<int> { u.subrange(0, trim_len(u)) }
/// a path pushed onto another
pub open spec fn join(p: Seq<int>, q: Seq<int>) -> Seq<int> {
    if q.len() > 0 && q[0] == sep() { q } else if p.len() == 0 || p.last() == sep() { p + q } else { p + seq![sep()] + q }
}
/// a directory entry
pub struct Ent { pub name: Seq<int>, pub dir: bool }
/// what reading a directory yields: nothing when it cannot be read, else its entries (None for one that could not be read)
pub uninterp spec fn ls(u: Seq<int>) -> Option<Seq<Option<Ent>>>;

pub proof fn lemma_slash_at(u: Seq<int>)
    ensures 0 <= slash_at(u) <= u.len(), slash_at(u) > 0 ==> u[slash_at(u) - 1] == sep(),
        forall |i: int| slash_at(u) <= i < u.len() ==> u[i] != sep(),
    decreases u.len()
{
    if u.len() > 0 && u.last() != sep() {
        lemma_slash_at(u.drop_last());
        assert forall |i: int| slash_at(u) <= i < u.len() implies u[i] != sep() by { if i < u.len() - 1 { assert(u.drop_last()[i] == u[i]); } }
    }
}
pub proof fn lemma_slash_uniq(u: Seq<int>, k: int)
    requires 0 <= k <= u.len(), k > 0 ==> u[k - 1] == sep(), forall |i: int| k <= i < u.len() ==> u[i] != sep()
    ensures slash_at(u) == k
{
    lemma_slash_at(u);
    let j = slash_at(u);
    if j < k { assert(u[k - 1] != sep()); }
    if k < j { assert(u[j - 1] != sep()); }
}
pub proof fn lemma_trim_len(u: Seq<int>)
    ensures 0 <= trim_len(u) <= u.len(), u.len() > 0 ==> trim_len(u) > 0
    decreases u.len()
{ if u.len() > 1 { lemma_trim_len(u.drop_last()); } }

// ---- text
/// every occurrence of `a` (left to right) replaced by `b`
pub open spec fn repl(s: Seq<char>, a: Seq<char>, b: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 || a.len() == 0 { s }
    else if is_prefix(a, s) { b + repl(s.subrange(a.len() as int, s.len() as int), a, b) }
    else { seq![s[0]] + repl(s.subrange(1, s.len() as int), a, b) }
}
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
pub trait VxPat { spec fn pt(&self) -> Seq<char>; }
impl VxPat for char { open spec fn pt(&self) -> Seq<char> { seq![*self] } }
impl<'a> VxPat for &'a str { open spec fn pt(&self) -> Seq<char> { self@ } }
impl<'a> VxPat for &'a String { open spec fn pt(&self) -> Seq<char> { self@ } }
pub open spec fn is_suffix<T>(p: Seq<T>, s: Seq<T>) -> bool { p.len() <= s.len() && s.subrange(s.len() - p.len(), s.len() as int) == p }
pub open spec fn last_part(s: Seq<char>, c: char) -> Seq<char> decreases s.len() {
    if s.len() == 0 { s } else if s.last() == c { Seq::empty() } else { last_part(s.drop_last(), c).push(s.last()) }
}
pub trait VxFText {
    spec fn ft(&self) -> Seq<char>;
    fn vx_starts<P: VxPat>(&self, p: P) -> (r: bool) ensures r == is_prefix(p.pt(), self.ft());
    fn vx_ends<P: VxPat>(&self, p: P) -> (r: bool) ensures r == is_suffix(p.pt(), self.ft());
    fn vx_strip_suffix(&self, p: &str) -> (r: Option<&str>)
        ensures r is Some == is_suffix(p@, self.ft()), r is Some ==> r->0@ == self.ft().subrange(0, self.ft().len() - p@.len());
    /// the parts between the separators, last first: only the first of them is specified
    fn vx_rsplit(&self, c: char) -> (r: VxIt<&str>)
        ensures r@.len() > 0, r@[0]@ == last_part(self.ft(), c);
    fn vx_replace(&self, a: &str, b: &str) -> (r: String)
        requires a@.len() > 0
        ensures r@ == repl(self.ft(), a@, b@);
    fn vx_lower(&self) -> (r: String) ensures r@ == lower(self.ft());
    fn vx_into(&self) -> (r: String) ensures r@ == self.ft();
    fn into_owned(&self) -> (r: String) ensures r@ == self.ft();
    fn vx_str(&self) -> (r: &str) ensures r@ == self.ft();
    fn vx_empty(&self) -> (r: bool) ensures r == (self.ft().len() == 0);
}
impl VxFText for str {
    open spec fn ft(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_starts<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_ends<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_strip_suffix(&self, p: &str) -> (r: Option<&str>) { self.strip_suffix(p) }
    #[verifier::external_body]
    fn vx_rsplit(&self, c: char) -> (r: VxIt<&str>) { VxIt { v: self.rsplit(c).collect() } }
    #[verifier::external_body]
    fn vx_replace(&self, a: &str, b: &str) -> (r: String) { self.replace(a, b) }
    #[verifier::external_body]
    fn vx_lower(&self) -> (r: String) { self.to_lowercase() }
    #[verifier::external_body]
    fn vx_into(&self) -> (r: String) { self.into() }
    #[verifier::external_body]
    fn into_owned(&self) -> (r: String) { self.into() }
    fn vx_str(&self) -> (r: &str) { proof { let vx_d = self.ft(); } self }
    #[verifier::external_body]
    fn vx_empty(&self) -> (r: bool) { self.is_empty() }
}
impl VxFText for String {
    open spec fn ft(&self) -> Seq<char> { self@ }
    fn vx_starts<P: VxPat>(&self, p: P) -> (r: bool) { proof { let vx_d = self.ft(); } self.as_str().vx_starts(p) }
    fn vx_ends<P: VxPat>(&self, p: P) -> (r: bool) { proof { let vx_d = self.ft(); } self.as_str().vx_ends(p) }
    fn vx_strip_suffix(&self, p: &str) -> (r: Option<&str>) { proof { let vx_d = self.ft(); } self.as_str().vx_strip_suffix(p) }
    fn vx_rsplit(&self, c: char) -> (r: VxIt<&str>) { proof { let vx_d = self.ft(); } self.as_str().vx_rsplit(c) }
    fn vx_replace(&self, a: &str, b: &str) -> (r: String) { proof { let vx_d = self.ft(); } self.as_str().vx_replace(a, b) }
    fn vx_lower(&self) -> (r: String) { proof { let vx_d = self.ft(); } self.as_str().vx_lower() }
    fn vx_into(&self) -> (r: String) { proof { let vx_d = self.ft(); } self.as_str().vx_into() }
    fn into_owned(&self) -> (r: String) { proof { let vx_d = self.ft(); } self.as_str().vx_into() }
    fn vx_str(&self) -> (r: &str) { proof { let vx_d = self.ft(); } self.as_str() }
    fn vx_empty(&self) -> (r: bool) { proof { let vx_d = self.ft(); } self.as_str().vx_empty() }
}

// ---- paths
pub struct PathBuf { x: u8 }
pub struct OsString { x: u8 }
pub struct DirEntry { x: u8 }
pub type Path = PathBuf;
pub type OsStr = OsString;
impl View for PathBuf { type V = Seq<int>; uninterp spec fn view(&self) -> Seq<int>; }
impl View for OsString { type V = Seq<int>; uninterp spec fn view(&self) -> Seq<int>; }
impl DirEntry {
    pub uninterp spec fn ent(&self) -> Ent;
    #[verifier::external_body]
    pub fn file_name(&self) -> (r: OsString)
        ensures r@ == self.ent().name, r@.len() > 0, forall |i: int| 0 <= i < r@.len() ==> r@[i] != sep() { unimplemented!() }
    #[verifier::external_body]
    pub fn path(&self) -> (r: PathBuf) ensures r.isdir() == self.ent().dir { unimplemented!() }
}
pub open spec fn ents(v: Seq<vxio::Result<DirEntry>>) -> Seq<Option<Ent>> {
    Seq::new(v.len(), |i: int| match v[i] { Ok(e) => Some(e.ent()), Err(_) => None })
}
pub trait VxPathArg { spec fn pu(&self) -> Seq<int>; }
impl VxPathArg for str { open spec fn pu(&self) -> Seq<int> { enc(self@) } }
impl VxPathArg for String { open spec fn pu(&self) -> Seq<int> { enc(self@) } }
impl VxPathArg for PathBuf { open spec fn pu(&self) -> Seq<int> { self@ } }
impl VxPathArg for OsString { open spec fn pu(&self) -> Seq<int> { self@ } }
impl<'a, T: VxPathArg + ?Sized> VxPathArg for &'a T { open spec fn pu(&self) -> Seq<int> { (**self).pu() } }
impl PathBuf {
    pub uninterp spec fn isdir(&self) -> bool;
    #[verifier::external_body]
    pub fn new() -> (r: PathBuf) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn from<P: VxPathArg>(p: P) -> (r: PathBuf) ensures r@ == p.pu() { unimplemented!() }
    /// `Path::new`
    #[verifier::external_body]
    pub fn vx_of(p: &str) -> (r: &Path) ensures r@ == enc(p@) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn push<P: VxPathArg>(&mut self, p: P) ensures final(self)@ == join(old(self)@, p.pu()) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: bool)
        ensures name_ok(name_u(old(self)@)) ==> r && final(self)@ == trim_u(dir_u(old(self)@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn parent(&self) -> (r: Option<&Path>)
        ensures name_ok(name_u(self@)) ==> r is Some && r->0@ == trim_u(dir_u(self@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn file_name(&self) -> (r: Option<&OsStr>)
        ensures name_ok(name_u(self@)) ==> r is Some && r->0@ == name_u(self@) { unimplemented!() }
    pub fn as_path(&self) -> (r: &Path) ensures r == self { self }
    #[verifier::external_body]
    pub fn as_os_str(&self) -> (r: &OsStr) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn is_absolute(&self) -> (r: bool) ensures r == (self@.len() > 0 && self@[0] == sep()) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string_lossy(&self) -> (r: String) ensures r@ == lossy(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_dir(&self) -> (r: bool) ensures r == self.isdir() { unimplemented!() }
    #[verifier::external_body]
    pub fn read_dir(&self) -> (r: vxio::Result<Vec<vxio::Result<DirEntry>>>)
        ensures r is Ok == ls(self@) is Some, r is Ok ==> ents(r->Ok_0@) == ls(self@)->0 { unimplemented!() }
}
impl OsString {
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string_lossy(&self) -> (r: String) ensures r@ == lossy(self@) { unimplemented!() }
}
pub trait VxOrDefault<'a> { spec fn od(&self) -> Option<Seq<int>>; fn vx_or_default(self) -> (r: &'a OsStr) ensures self.od() is Some ==> r@ == self.od()->0, self.od() is None ==> r@.len() == 0; }
impl<'a> VxOrDefault<'a> for Option<&'a OsString> {
    open spec fn od(&self) -> Option<Seq<int>> { match *self { Some(x) => Some(x@), None => None } }
    #[verifier::external_body]
    fn vx_or_default(self) -> (r: &'a OsStr) { unimplemented!() }
}
} // verus!
} // mod vxpath
