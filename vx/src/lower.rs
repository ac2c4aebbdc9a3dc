//! The lowering: source text + contracts -> Verus text.  All edits are span based; everything that is
//! not edited is copied byte for byte from /repo.
use crate::contracts::*;
use crate::Report;
use proc_macro2::{Span, TokenStream, TokenTree};
use quote::ToTokens;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::*;

fn rng(s: Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}

#[derive(Default)]
struct Edits {
    v: Vec<(usize, usize, String, usize)>,
}
impl Edits {
    fn ins(&mut self, at: usize, t: impl Into<String>) {
        let n = self.v.len();
        self.v.push((at, at, t.into(), n));
    }
    fn rep(&mut self, a: usize, b: usize, t: impl Into<String>) {
        let n = self.v.len();
        self.v.push((a, b, t.into(), n));
    }
    fn render(&self, src: &str, a: usize, b: usize) -> String {
        let mut es: Vec<_> = self.v.iter().filter(|e| e.0 >= a && e.1 <= b).collect();
        es.sort_by_key(|e| (e.0, if e.0 == e.1 { 0 } else { 1 }, e.3));
        let mut out = String::new();
        let mut p = a;
        for e in es {
            if e.0 < p {
                continue; // inside an already replaced range
            }
            out.push_str(&src[p..e.0]);
            out.push_str(&e.2);
            p = e.1;
        }
        out.push_str(&src[p..b]);
        out
    }
}

fn toks(t: &impl ToTokens) -> String {
    // compact token text
    fn go(ts: TokenStream, o: &mut String) {
        for t in ts {
            match t {
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                        proc_macro2::Delimiter::Brace => ("{", "}"),
                        proc_macro2::Delimiter::Bracket => ("[", "]"),
                        proc_macro2::Delimiter::None => ("", ""),
                    };
                    o.push_str(a);
                    go(g.stream(), o);
                    o.push_str(b);
                }
                x => {
                    let s = x.to_string();
                    if o.ends_with(|c: char| c.is_alphanumeric() || c == '_')
                        && s.starts_with(|c: char| c.is_alphanumeric() || c == '_')
                    {
                        o.push(' ');
                    }
                    o.push_str(&s);
                }
            }
        }
    }
    let mut s = String::new();
    go(t.to_token_stream(), &mut s);
    s
}

fn is_test_cfg(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let t = toks(a);
        t == "#[cfg(test)]" || t == "#[test]"
    })
}

/// source range of an item without its outer attributes
fn bare(attrs: &[Attribute], whole: (usize, usize)) -> (usize, usize) {
    let mut a = whole.0;
    for at in attrs {
        if matches!(at.style, AttrStyle::Outer) {
            a = a.max(rng(at.span()).1);
        }
    }
    (a, whole.1)
}

fn impl_key(i: &ItemImpl) -> String {
    let ty = match &*i.self_ty {
        Type::Path(p) => toks(&{
            // drop generic arguments of the implementing type for the key
            let mut p = p.clone();
            for s in p.path.segments.iter_mut() {
                s.arguments = PathArguments::None;
            }
            p
        }),
        t => toks(t),
    };
    match &i.trait_ {
        Some((_, p, _)) => format!("{} for {}", toks(p), ty),
        None => ty,
    }
}

// ------------------------------------------------------------------ source level pre-passes

fn lex(src: &str) -> Vec<(String, usize, usize)> {
    fn go(ts: TokenStream, v: &mut Vec<(String, usize, usize)>) {
        for t in ts {
            match t {
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                        proc_macro2::Delimiter::Brace => ("{", "}"),
                        proc_macro2::Delimiter::Bracket => ("[", "]"),
                        proc_macro2::Delimiter::None => ("", ""),
                    };
                    if !a.is_empty() {
                        let r = rng(g.span_open());
                        v.push((a.into(), r.0, r.1));
                    }
                    go(g.stream(), v);
                    if !b.is_empty() {
                        let r = rng(g.span_close());
                        v.push((b.into(), r.0, r.1));
                    }
                }
                x => {
                    let r = rng(x.span());
                    v.push((x.to_string(), r.0, r.1));
                }
            }
        }
    }
    let mut v = vec![];
    if let Ok(ts) = src.parse::<TokenStream>() {
        go(ts, &mut v);
    }
    v
}

/// token-wise search and replace inside `[a,b)`; returns the number of replacements
fn token_replace(src: &str, range: Option<(usize, usize)>, from: &str, to: &str) -> (String, usize) {
    let hay = lex(src);
    let pat: Vec<String> = lex(from).into_iter().map(|x| x.0).collect();
    let (lo, hi) = range.unwrap_or((0, src.len()));
    let mut out = String::new();
    let mut p = 0;
    let mut n = 0;
    let mut i = 0;
    while i + pat.len() <= hay.len() && !pat.is_empty() {
        if hay[i].1 >= lo
            && hay[i + pat.len() - 1].2 <= hi
            && (0..pat.len()).all(|k| hay[i + k].0 == pat[k])
        {
            out.push_str(&src[p..hay[i].1]);
            out.push_str(to);
            p = hay[i + pat.len() - 1].2;
            n += 1;
            i += pat.len();
        } else {
            i += 1;
        }
    }
    out.push_str(&src[p..]);
    (out, n)
}

#[derive(Clone)]
struct FnLoc {
    id: String,
    whole: (usize, usize),
    sig: Signature,
    block: Option<(usize, usize)>,
    blk: Option<Block>,
    in_trait_impl: bool,
}

fn collect_fns(f: &File) -> Vec<FnLoc> {
    let mut v = vec![];
    fn nested(id: &str, b: &Block, v: &mut Vec<FnLoc>) {
        for s in &b.stmts {
            if let Stmt::Item(Item::Fn(f)) = s {
                let id2 = format!("{id}/{}", f.sig.ident);
                v.push(FnLoc {
                    id: id2,
                    whole: rng(f.span()),
                    sig: f.sig.clone(),
                    block: Some(rng(f.block.span())),
                    blk: Some((*f.block).clone()),
                    in_trait_impl: false,
                });
            }
        }
    }
    for it in &f.items {
        match it {
            Item::Fn(f) if !is_test_cfg(&f.attrs) => {
                let id = f.sig.ident.to_string();
                nested(&id, &f.block, &mut v);
                v.push(FnLoc {
                    id,
                    whole: rng(f.span()),
                    sig: f.sig.clone(),
                    block: Some(rng(f.block.span())),
                    blk: Some((*f.block).clone()),
                    in_trait_impl: false,
                });
            }
            Item::Impl(i) if !is_test_cfg(&i.attrs) => {
                let k = impl_key(i);
                for ii in &i.items {
                    if let ImplItem::Fn(f) = ii {
                        if is_test_cfg(&f.attrs) {
                            continue;
                        }
                        let id = format!("{k}::{}", f.sig.ident);
                        nested(&id, &f.block, &mut v);
                        v.push(FnLoc {
                            id,
                            whole: rng(f.span()),
                            sig: f.sig.clone(),
                            block: Some(rng(f.block.span())),
                            blk: Some(f.block.clone()),
                            in_trait_impl: i.trait_.is_some(),
                        });
                    }
                }
            }
            Item::Trait(t) => {
                for ti in &t.items {
                    if let TraitItem::Fn(f) = ti {
                        v.push(FnLoc {
                            id: format!("trait {}::{}", t.ident, f.sig.ident),
                            whole: rng(f.span()),
                            sig: f.sig.clone(),
                            block: f.default.as_ref().map(|b| rng(b.span())),
                            blk: f.default.clone(),
                            in_trait_impl: true,
                        });
                    }
                }
            }
            _ => {}
        }
    }
    v
}

/// functions of /repo that have no contract are inlined at their call sites (so that an extracted
/// helper is verified inside its callers)
fn inline_unlisted(m: &str, mut src: String, mc: &ModContracts, report: &mut Report) -> String {
    for _round in 0..40 {
        let Ok(f) = parse_file(&src) else { return src };
        let fns = collect_fns(&f);
        let cands: Vec<FnLoc> = fns
            .iter()
            .filter(|l| {
                !l.id.contains('/')
                    && !l.in_trait_impl
                    && l.block.is_some()
                    && mc.fns.get(&l.id).map_or(true, |c| c.inline)
                    && !mc.drop.contains(&l.id)
                    && !mc.drop.contains(l.id.rsplit_once("::").map_or("", |x| x.0))
            })
            .cloned()
            .collect();
        let mut done = false;
        'c: for h in &cands {
            let name = h.sig.ident.to_string();
            // body shape
            struct Ret(bool, bool, bool);
            impl<'a> Visit<'a> for Ret {
                fn visit_expr_return(&mut self, _: &'a ExprReturn) {
                    self.0 = true;
                }
                fn visit_expr_try(&mut self, i: &'a ExprTry) {
                    self.1 = true;
                    visit::visit_expr_try(self, i);
                }
                fn visit_item(&mut self, _: &'a Item) {
                    self.2 = true;
                }
                fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
            }
            let mut r = Ret(false, false, false);
            r.visit_block(h.blk.as_ref().unwrap());
            if r.2 {
                continue;
            }
            // call sites
            struct Calls<'n> {
                name: &'n str,
                hty: &'n str,
                cty: &'n str,
                method: bool,
                // (range, receiver range, arg ranges, context: 0 plain 1 tail-ish/return/try)
                found: Vec<((usize, usize), Option<(usize, usize)>, Vec<(usize, usize)>, bool)>,
                prop: bool,
                cur: Vec<(usize, usize)>,
            }
            impl<'n, 'a> Visit<'a> for Calls<'n> {
                fn visit_block(&mut self, b: &'a Block) {
                    // tail expressions of the function body propagate
                    visit::visit_block(self, b)
                }
                fn visit_expr_return(&mut self, i: &'a ExprReturn) {
                    let o = self.prop;
                    self.prop = true;
                    visit::visit_expr_return(self, i);
                    self.prop = o;
                }
                fn visit_expr_try(&mut self, i: &'a ExprTry) {
                    let o = self.prop;
                    self.prop = true;
                    visit::visit_expr_try(self, i);
                    self.prop = o;
                }
                fn visit_expr_call(&mut self, i: &'a ExprCall) {
                    let t = toks(&i.func);
                    let last = t.rsplit("::").next().unwrap_or("");
                    let last = last.split('<').next().unwrap_or("");
                    // which function a path names: `f` a free one, `T::f` one of type T, `m::f` a free one
                    let parts: Vec<&str> = t.split("::").collect();
                    let q = if parts.len() > 1 { parts[0].split('<').next().unwrap_or("") } else { "" };
                    let q = if q == "Self" { self.cty } else { q };
                    let this = if self.hty.is_empty() {
                        q.is_empty() || matches!(q, "self" | "super" | "crate") || q.starts_with(char::is_lowercase)
                    } else {
                        q == self.hty
                    };
                    if last == self.name && this && parts.len() <= 2 {
                        let mut args: Vec<_> = i.args.iter().map(|a| rng(a.span())).collect();
                        let mut recv = None;
                        if self.method && !args.is_empty() {
                            recv = Some(args.remove(0));
                        }
                        self.found.push((rng(i.span()), recv, args, self.prop));
                    } else {
                        let o = self.prop;
                        self.prop = false;
                        visit::visit_expr_call(self, i);
                        self.prop = o;
                    }
                }
                fn visit_expr_method_call(&mut self, i: &'a ExprMethodCall) {
                    // only on a plain variable (`self`, `ed`): `self.data.insert(..)` is another method
                    let plain = matches!(&*i.receiver, Expr::Path(p) if p.path.is_ident("self"));
                    if self.method && plain && i.method == self.name {
                        self.found.push((
                            rng(i.span()),
                            Some(rng(i.receiver.span())),
                            i.args.iter().map(|a| rng(a.span())).collect(),
                            self.prop,
                        ));
                    } else {
                        let o = self.prop;
                        self.prop = false;
                        visit::visit_expr_method_call(self, i);
                        self.prop = o;
                    }
                }
                fn visit_expr_if(&mut self, i: &'a ExprIf) {
                    let o = self.prop;
                    self.prop = false;
                    self.visit_expr(&i.cond);
                    self.prop = o;
                    self.visit_block(&i.then_branch);
                    if let Some((_, e)) = &i.else_branch {
                        self.visit_expr(e);
                    }
                }
                fn visit_expr_match(&mut self, i: &'a ExprMatch) {
                    let o = self.prop;
                    self.prop = false;
                    self.visit_expr(&i.expr);
                    self.prop = o;
                    for a in &i.arms {
                        if let Some((_, g)) = &a.guard {
                            self.prop = false;
                            self.visit_expr(g);
                            self.prop = o;
                        }
                        self.visit_expr(&a.body);
                    }
                }
                fn visit_stmt(&mut self, s: &'a Stmt) {
                    // handled by tail marking below
                    let o = self.prop;
                    if !self.cur.contains(&rng(s.span())) {
                        self.prop = false;
                    }
                    visit::visit_stmt(self, s);
                    self.prop = o;
                }
            }
            // collect tail statement ranges of every block that is in tail position
            fn tails(b: &Block, v: &mut Vec<(usize, usize)>) {
                if let Some(s) = b.stmts.last() {
                    if let Stmt::Expr(e, None) = s {
                        v.push(rng(s.span()));
                        te(e, v);
                    }
                }
            }
            fn te(e: &Expr, v: &mut Vec<(usize, usize)>) {
                match e {
                    Expr::If(i) => {
                        tails(&i.then_branch, v);
                        if let Some((_, e)) = &i.else_branch {
                            te(e, v);
                        }
                    }
                    Expr::Match(m) => {
                        for a in &m.arms {
                            te(&a.body, v);
                        }
                    }
                    Expr::Block(b) => tails(&b.block, v),
                    Expr::Unsafe(_) => {}
                    _ => {}
                }
            }
            for caller in &fns {
                if caller.id == h.id || caller.blk.is_none() {
                    continue;
                }
                let ty = |id: &str| -> String {
                    let p = id.rsplit_once("::").map_or("", |x| x.0);
                    p.rsplit(" for ").next().unwrap_or(p).to_string()
                };
                if h.sig.receiver().is_some() && ty(&caller.id) != ty(&h.id) {
                    continue;
                }
                let mut cur = vec![];
                tails(caller.blk.as_ref().unwrap(), &mut cur);
                let (hty, cty) = (ty(&h.id), ty(&caller.id));
                let mut c = Calls {
                    name: &name,
                    hty: hty.split('<').next().unwrap_or("").trim(),
                    cty: cty.split('<').next().unwrap_or("").trim(),
                    method: h.sig.receiver().is_some(),
                    found: vec![],
                    prop: true,
                    cur,
                };
                c.visit_block(caller.blk.as_ref().unwrap());
                let Some((range, recv, args, prop)) = c.found.into_iter().next() else { continue };
                if (r.0 || r.1) && !prop {
                    report
                        .lost
                        .push((format!("{m}::{}", caller.id), format!("helper {name} cannot be inlined here")));
                    continue;
                }
                if r.0 {
                    // `return` in the helper: only the identity propagation (tail / return) is exact,
                    // and then only when the helper's value is the caller's value
                    report
                        .lost
                        .push((format!("{m}::{}", caller.id), format!("helper {name} returns early")));
                    continue;
                }
                let bl = h.block.unwrap();
                let mut body = src[bl.0..bl.1].to_string();
                let mut pats = vec![];
                let mut tys = vec![];
                let mut vals = vec![];
                let mut ai = args.iter();
                for inp in &h.sig.inputs {
                    match inp {
                        FnArg::Receiver(_) => {
                            let rt = recv.map(|r| src[r.0..r.1].to_string()).unwrap_or_default();
                            if rt != "self" {
                                let (b2, _) = token_replace(&body, None, "self", &format!("({rt})"));
                                body = b2;
                            }
                        }
                        FnArg::Typed(t) => {
                            let Some(a) = ai.next() else { continue 'c };
                            let av = src[a.0..a.1].to_string();
                            let pt = src[rng(t.pat.span()).0..rng(t.pat.span()).1].to_string();
                            if pt == av {
                                continue;
                            }
                            pats.push(pt);
                            let ty = src[rng(t.ty.span()).0..rng(t.ty.span()).1].to_string();
                            tys.push(ty);
                            vals.push(av);
                        }
                    }
                }
                let lets: String = if pats.is_empty() {
                    String::new()
                } else if pats.len() == 1 {
                    format!("let {}: {} = {};", pats[0], tys[0], vals[0])
                } else {
                    format!("let ({}): ({}) = ({});", pats.join(", "), tys.join(", "), vals.join(", "))
                };
                let txt = format!("({{ {lets} {body} }})");
                let is_stmt = src[range.1..].trim_start().starts_with(';');
                let txt = if is_stmt { txt[1..txt.len() - 1].to_string() } else { txt };
                src = format!("{}{}{}", &src[..range.0], txt, &src[range.1..]);
                report.inlined.push(format!("{} into {}", h.id, caller.id));
                report.rule("helper without contract inlined");
                done = true;
                break 'c;
            }
        }
        if !done {
            break;
        }
    }
    src
}

/// combinators with a closure that mutates its environment, or that reads better as a match, are
/// unfolded: `R.map(|p| B)` on a Result becomes `match R { Ok(p) => Ok(B), Err(e) => Err(e) }` etc.
fn expand_combinators(mut src: String, mc: &ModContracts, report: &mut Report) -> String {
    for (id, c) in &mc.fns {
        // last occurrence first, so that the numbering refers to the original text
        let mut ex = c.expand.clone();
        ex.sort_by_key(|x| std::cmp::Reverse(x.1));
        for (method, k, kind) in ex {
            let Ok(f) = parse_file(&src) else { return src };
            let Some(l) = collect_fns(&f).into_iter().find(|l| &l.id == id) else { continue };
            let Some(blk) = &l.blk else { continue };
            struct V<'n> {
                name: &'n str,
                v: Vec<ExprMethodCall>,
            }
            impl<'n, 'a> Visit<'a> for V<'n> {
                fn visit_expr_method_call(&mut self, i: &'a ExprMethodCall) {
                    visit::visit_expr_method_call(self, i);
                    if i.method == self.name {
                        self.v.push(i.clone());
                    }
                }
            }
            let mut v = V { name: &method, v: vec![] };
            v.visit_block(blk);
            v.v.sort_by_key(|m| rng(m.method.span()).0);
            let Some(m) = v.v.get(k - 1) else {
                report.rules.entry(format!("expansion not needed: {id}: {method}#{k}")).or_insert(0);
                continue;
            };
            let tx = |s: Span| src[rng(s).0..rng(s).1].to_string();
            let rec = tx(m.receiver.span());
            let clo = |e: &Expr| -> Option<(Vec<String>, String)> {
                match e {
                    Expr::Closure(c) => Some((c.inputs.iter().map(|p| tx(p.span())).collect(), tx(c.body.span()))),
                    _ => None,
                }
            };
            let last = m.args.last();
            let c1 = last.and_then(|e| clo(e));
            // a function path as argument: apply it
            let c1 = c1.or_else(|| last.map(|e| (vec!["vx_p".to_string()], format!("{}(vx_p)", tx(e.span())))));
            let new = match (kind.as_str(), c1) {
                ("result_map", Some((p, b))) => {
                    format!("(match {rec} {{ Ok({}) => Ok({b}), Err(vx_e) => Err(vx_e) }})", p[0])
                }
                ("map_err", Some((p, b))) => {
                    format!("(match {rec} {{ Ok(vx_v) => Ok(vx_v), Err({}) => Err({b}) }})", p[0])
                }
                ("option_map", Some((p, b))) => {
                    format!("(match {rec} {{ Some({}) => Some({b}), None => None }})", p[0])
                }
                ("option_and_then", Some((p, b))) => {
                    format!("(match {rec} {{ Some({}) => {b}, None => None }})", p[0])
                }
                ("option_or_else", Some((p, b))) if p.is_empty() => {
                    format!("(match {rec} {{ Some(vx_v) => Some(vx_v), None => {b} }})")
                }
                ("option_unwrap_or_else", Some((p, b))) if p.is_empty() => {
                    format!("(match {rec} {{ Some(vx_v) => vx_v, None => {b} }})")
                }
                ("option_map_or", Some((p, b))) if m.args.len() == 2 => {
                    format!("(match {rec} {{ Some({}) => {b}, None => {} }})", p[0], tx(m.args[0].span()))
                }
                ("filter_collect", _) => {
                    let Expr::MethodCall(fm) = &*m.receiver else { continue };
                    let Some((p, b)) = fm.args.first().and_then(|e| clo(e)) else { continue };
                    format!(
                        "({{ let mut vx_out = Vec::new(); for vx_x in {} {{ let {} = &vx_x; if {b} {{ vx_out.push(vx_x); }} }} vx_out }})",
                        tx(fm.receiver.span()),
                        p[0]
                    )
                }
                ("map_collect", _) => {
                    let Expr::MethodCall(fm) = &*m.receiver else { continue };
                    let Some((p, b)) = fm.args.first().and_then(|e| clo(e)) else { continue };
                    format!(
                        "({{ let mut vx_out = Vec::new(); for {} in {} {{ vx_out.push({b}); }} vx_out }})",
                        p[0],
                        tx(fm.receiver.span()),
                    )
                }
                ("any", Some((p, b))) => format!(
                    "({{ let mut vx_found = false; for {} in {rec} {{ if {b} {{ vx_found = true; break; }} }} vx_found }})",
                    p[0]
                ),
                _ => continue,
            };
            let r = rng(m.span());
            src = format!("{}{}{}", &src[..r.0], new, &src[r.1..]);
            report.rule(&format!("combinator unfolded: {kind}"));
        }
    }
    // `for x in &mut d`: an index loop over the elements
    for id in mc.fns.keys() {
        for _round in 0..8 {
            let Ok(f) = parse_file(&src) else { return src };
            let Some(l) = collect_fns(&f).into_iter().find(|l| &l.id == id) else { break };
            let Some(blk) = &l.blk else { break };
            #[derive(Default)]
            struct V(Option<ExprForLoop>);
            impl<'a> Visit<'a> for V {
                fn visit_expr_for_loop(&mut self, i: &'a ExprForLoop) {
                    if let Expr::Reference(r) = &*i.expr {
                        if r.mutability.is_some() {
                            self.0 = Some(i.clone());
                        }
                    }
                    visit::visit_expr_for_loop(self, i);
                }
            }
            let mut v = V::default();
            v.visit_block(blk);
            let Some(i) = v.0 else { break };
            let tx = |s: Span| src[rng(s).0..rng(s).1].to_string();
            let b = rng(i.body.brace_token.span.open()).1;
            let (w, e) = (rng(i.span()), rng(i.body.span()).1);
            let t = format!(
                "{{ let vx_dm = {}; for vx_im in 0..vx_dm.len() {{ let {} = vx_at_mut(vx_dm, vx_im);{} }}",
                tx(i.expr.span()),
                tx(i.pat.span()),
                &src[b..e]
            );
            src = format!("{}{}{}", &src[..w.0], t, &src[w.1..]);
            report.rule("for over &mut: index loop");
        }
    }
    // combinators that no directive names (changed code): unfolded if they are those of Option/Result
    for (id, c) in &mc.fns {
        for _round in 0..20 {
            let Ok(f) = parse_file(&src) else { return src };
            let Some(l) = collect_fns(&f).into_iter().find(|l| &l.id == id) else { break };
            let Some(blk) = &l.blk else { break };
            #[derive(Default)]
            struct V {
                closures: usize,
                v: Vec<ExprMethodCall>,
            }
            impl<'a> Visit<'a> for V {
                fn visit_expr_closure(&mut self, i: &'a ExprClosure) {
                    self.closures += 1;
                    visit::visit_expr_closure(self, i);
                }
                fn visit_expr_method_call(&mut self, i: &'a ExprMethodCall) {
                    visit::visit_expr_method_call(self, i);
                    self.v.push(i.clone());
                }
            }
            let mut v = V::default();
            v.visit_block(blk);
            if v.closures <= c.closures.len() {
                break;
            }
            const ITER: [&str; 17] = [
                "iter", "iter_mut", "into_iter", "chars", "enumerate", "skip", "rev", "zip", "lines", "bytes", "windows",
                "filter", "take_while", "take", "drain", "char_indices", "keys",
            ];
            let tx = |s: Span| src[rng(s).0..rng(s).1].to_string();
            let mut new = None;
            for m in &v.v {
                let mut r = &*m.receiver;
                let mut it = false;
                loop {
                    match r {
                        Expr::MethodCall(x) => {
                            it |= ITER.contains(&x.method.to_string().as_str());
                            if matches!(x.method.to_string().as_str(), "next" | "last" | "nth" | "max" | "min" | "find" | "position" | "get" | "first" | "next_back") {
                                break;
                            }
                            r = &x.receiver;
                        }
                        Expr::Paren(x) => r = &x.expr,
                        Expr::Range(_) => {
                            it = true;
                            break;
                        }
                        _ => break,
                    }
                }
                if it {
                    continue;
                }
                let clo = |e: Option<&Expr>| -> Option<(Vec<String>, String)> {
                    struct Ctl(bool);
                    impl<'a> Visit<'a> for Ctl {
                        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
                            self.0 = true;
                        }
                        fn visit_expr_try(&mut self, _: &'a ExprTry) {
                            self.0 = true;
                        }
                    }
                    match e {
                        Some(Expr::Closure(c)) => {
                            let mut k = Ctl(false);
                            k.visit_expr(&c.body);
                            if k.0 {
                                return None;
                            }
                            Some((c.inputs.iter().map(|p| tx(p.span())).collect(), tx(c.body.span())))
                        }
                        _ => None,
                    }
                };
                let rec = tx(m.receiver.span());
                let n = m.args.len();
                let Some((p, b)) = clo(m.args.last()) else { continue };
                let t = match (m.method.to_string().as_str(), p.len(), n) {
                    ("map", 1, 1) if p[0] == "_" || p[0] == "()" => {
                        format!("(match {rec} {{ Ok({}) => Ok({b}), Err(vx_e) => Err(vx_e) }})", p[0])
                    }
                    ("map", 1, 1) => format!("(match {rec} {{ Some({}) => Some({b}), None => None }})", p[0]),
                    ("and_then", 1, 1) => format!("(match {rec} {{ Some({}) => {b}, None => None }})", p[0]),
                    ("is_some_and", 1, 1) => format!("(match {rec} {{ Some({}) => {b}, None => false }})", p[0]),
                    ("map_err", 1, 1) => format!("(match {rec} {{ Ok(vx_v) => Ok(vx_v), Err({}) => Err({b}) }})", p[0]),
                    ("map_or", 1, 2) => {
                        format!("(match {rec} {{ Some({}) => {b}, None => {} }})", p[0], tx(m.args[0].span()))
                    }
                    ("map_or_else", 1, 2) => match clo(m.args.first()) {
                        Some((q, d)) if q.is_empty() => {
                            format!("(match {rec} {{ Some({}) => {b}, None => {d} }})", p[0])
                        }
                        _ => continue,
                    },
                    ("or_else", 0, 1) => format!("(match {rec} {{ Some(vx_v) => Some(vx_v), None => {b} }})"),
                    ("unwrap_or_else", 0, 1) => format!("(match {rec} {{ Some(vx_v) => vx_v, None => {b} }})"),
                    ("then", 0, 1) => format!("(if {rec} {{ Some({b}) }} else {{ None }})"),
                    _ => continue,
                };
                new = Some((rng(m.span()), t));
                break;
            }
            let Some((r, t)) = new else { break };
            src = format!("{}{}{}", &src[..r.0], t, &src[r.1..]);
            report.rule("combinator unfolded: found in changed code");
        }
    }
    src
}

// ------------------------------------------------------------------ function bodies

fn renames(name: &str) -> Option<&'static str> {
    Some(match name {
        "iter" => "vx_iter",
        "chars" => "vx_chars",
        "windows" => "vx_windows",
        "split" => "vx_split",
        "into_iter" => "vx_into_iter",
        "drain" => "vx_drain",
        "as_bytes" | "into_bytes" => return None,
        _ => return None,
    })
}

/// pattern text with `&` removed, plus the idents to re-bind with the number of derefs
fn deref_pat(src: &str, p: &Pat) -> (String, Vec<(String, usize)>) {
    struct V<'s> {
        src: &'s str,
        e: Edits,
        depth: usize,
        out: Vec<(String, usize)>,
    }
    impl<'s, 'a> Visit<'a> for V<'s> {
        fn visit_pat_reference(&mut self, i: &'a PatReference) {
            let a = rng(i.and_token.span());
            let b = rng(i.pat.span());
            self.e.rep(a.0, b.0, "");
            self.depth += 1;
            visit::visit_pat_reference(self, i);
            self.depth -= 1;
            let _ = self.src;
        }
        fn visit_pat_ident(&mut self, i: &'a PatIdent) {
            if self.depth > 0 && i.by_ref.is_none() {
                self.out.push((i.ident.to_string(), self.depth));
            }
            visit::visit_pat_ident(self, i);
        }
    }
    let mut v = V { src, e: Edits::default(), depth: 0, out: vec![] };
    v.visit_pat(p);
    let r = rng(p.span());
    (v.e.render(src, r.0, r.1), v.out)
}

fn shadows(v: &[(String, usize)]) -> String {
    v.iter()
        .map(|(n, d)| format!("let {n} = {}{n}; ", "*".repeat(*d)))
        .collect()
}

/// the text around the `{}` of a format string (None when it has anything else in braces)
fn pieces(f: &Expr) -> Option<Vec<String>> {
    let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = f else { return None };
    let v: Vec<String> = s.value().split("{}").map(String::from).collect();
    (!v.iter().any(|p| p.contains(['{', '}']))).then_some(v)
}

struct Body<'s> {
    src: &'s str,
    e: Edits,
    c: &'s FnContract,
    loops: usize,
    closures: usize,
    calls: BTreeMap<String, usize>,
    lets: BTreeMap<String, usize>,
    stmt: Vec<(usize, usize, u8)>, // range, kind 0 stmt with ; 1 tail/expr without ; 2 match arm expr
    hoisted: Vec<(usize, usize)>,
    /// nested types and what they are called outside the function
    renamed: BTreeMap<String, String>,
    used: BTreeSet<usize>,
    rules: Vec<&'static str>,
    lost: Vec<String>,
    tail: Option<(usize, usize)>,
    block: (usize, usize),
    wrapped: BTreeSet<(usize, usize)>,
    /// `write!` to a local string: what it writes is kept
    text: bool,
}

impl<'s> Body<'s> {
    fn anchors(&mut self, name: &str) -> Vec<String> {
        let mut v = vec![];
        for (i, (a, t)) in self.c.at.iter().enumerate() {
            if a == name {
                self.used.insert(i);
                v.push(t.clone());
            }
        }
        v
    }
    fn anchor_stmt(&mut self, key: &str) {
        let before = self.anchors(&format!("before {key}"));
        let after = self.anchors(&format!("after {key}"));
        let Some(&(a, b, kind)) = self.stmt.last() else { return };
        for t in before {
            if kind == 2 && self.wrapped.insert((a, b)) {
                self.e.ins(a, "{ ");
                self.e.ins(a, t);
                self.e.ins(b, " }");
            } else {
                self.e.ins(a, t);
            }
        }
        for t in after {
            match kind {
                0 => {
                    // after everything a lowered loop appends to itself
                    self.e.ins(b, t);
                    if key.starts_with("loop ") {
                        self.e.v.last_mut().unwrap().3 += 1_000_000;
                    }
                }
                _ => {
                    self.e.ins(a, "{ let vx_t = ");
                    self.e.ins(b, format!(";\n{t}\nvx_t }}"));
                }
            }
        }
    }
    /// `a | b` and `a & b` on booleans (a condition at its top level is one)
    fn boolean(&mut self, e: &Expr) {
        match e {
            Expr::Paren(p) => self.boolean(&p.expr),
            Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => self.boolean(&u.expr),
            Expr::Binary(b) => {
                let f = match b.op {
                    BinOp::BitOr(_) => "vx_bool_or",
                    BinOp::BitAnd(_) => "vx_bool_and",
                    BinOp::And(_) | BinOp::Or(_) => "",
                    _ => return,
                };
                if !f.is_empty() {
                    self.rules.push("`|` and `&` on conditions named");
                    let r = rng(b.span());
                    let o = rng(b.op.span());
                    self.e.ins(r.0, format!("{f}("));
                    self.e.rep(o.0, o.1, ",");
                    self.e.ins(r.1, ")");
                }
                self.boolean(&b.left);
                self.boolean(&b.right);
            }
            _ => {}
        }
    }
    fn loop_spec(&mut self, n: usize, var: Option<&str>) -> String {
        match self.c.loops.get(&n) {
            Some(t) => {
                let t = match var {
                    Some(v) => t.replace("$i", v),
                    None => t.clone(),
                };
                format!("\n{t}")
            }
            None => String::new(),
        }
    }
    fn loop_common(&mut self, n: usize, whole: (usize, usize), body: &Block) {
        for (pos, at) in [
            ("start", rng(body.brace_token.span.open()).1),
            ("end", rng(body.brace_token.span.close()).0),
        ] {
            for t in self.anchors(&format!("loop {n} {pos}")) {
                self.e.ins(at, format!("\n{t}"));
            }
        }
        let _ = whole;
    }
}

impl<'s, 'a> Visit<'a> for Body<'s> {
    fn visit_stmt(&mut self, s: &'a Stmt) {
        if let Stmt::Item(it) = s {
            match it {
                Item::Use(_) => {}
                _ => self.hoisted.push(rng(it.span())),
            }
            return;
        }
        let r = rng(s.span());
        let kind = match s {
            Stmt::Expr(e, None) => match e {
                Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) if Some(r) != self.tail => 0,
                _ => 1,
            },
            _ => 0,
        };
        self.stmt.push((r.0, r.1, kind));
        if let Stmt::Local(l) = s {
            struct Names(Vec<String>);
            impl<'a> Visit<'a> for Names {
                fn visit_pat_ident(&mut self, i: &'a PatIdent) {
                    self.0.push(i.ident.to_string());
                }
            }
            let mut n = Names(vec![]);
            n.visit_pat(&l.pat);
            for x in n.0 {
                let k = self.lets.entry(x.clone()).or_insert(0);
                *k += 1;
                let key = if *k == 1 { format!("let {x}") } else { format!("let {x}#{k}") };
                self.anchor_stmt(&key);
            }
        }
        visit::visit_stmt(self, s);
        self.stmt.pop();
    }
    fn visit_path(&mut self, p: &'a syn::Path) {
        if let Some(f) = p.segments.first() {
            if let Some(m) = self.renamed.get(&f.ident.to_string()) {
                let r = rng(f.ident.span());
                self.e.rep(r.0, r.1, m);
            }
        }
        visit::visit_path(self, p);
    }
    fn visit_arm(&mut self, a: &'a Arm) {
        // `Some(&c) => e`
        let (txt, sh) = deref_pat(self.src, &a.pat);
        let mut pre = String::new();
        if !sh.is_empty() {
            let r = rng(a.pat.span());
            self.e.rep(r.0, r.1, txt);
            pre = shadows(&sh);
            self.rules.push("`&x` pattern replaced by binding + deref");
        } else {
            self.visit_pat(&a.pat);
        }
        if let Some((_, g)) = &a.guard {
            self.boolean(g);
            self.visit_expr(g);
        }
        let r = rng(a.body.span());
        let is_block = matches!(&*a.body, Expr::Block(_));
        if !pre.is_empty() {
            self.e.ins(r.0, format!("{{ {pre}"));
        }
        self.stmt.push((r.0, r.1, if is_block { 1 } else { 2 }));
        self.visit_expr(&a.body);
        self.stmt.pop();
        if !pre.is_empty() {
            self.e.ins(r.1, " }");
        }
    }
    fn visit_expr_for_loop(&mut self, f: &'a ExprForLoop) {
        self.loops += 1;
        let n = self.loops;
        let whole = rng(f.span());
        self.anchor_stmt(&format!("loop {n}"));
        let body = rng(f.body.span());
        fn is_range(e: &Expr) -> bool {
            match e {
                Expr::Range(_) => true,
                Expr::Paren(p) => is_range(&p.expr),
                _ => false,
            }
        }
        if is_range(&f.expr) {
            let p = rng(f.pat.span());
            let var = match &*f.pat {
                Pat::Wild(_) => {
                    self.e.rep(p.0, p.1, format!("vx_i{n}"));
                    format!("vx_i{n}")
                }
                x => toks(x),
            };
            self.visit_expr(&f.expr);
            let sp = self.loop_spec(n, Some(&var));
            self.e.ins(body.0, sp);
            self.loop_common(n, whole, &f.body);
            self.visit_block(&f.body);
        } else {
            self.rules.push("`for` over an iterator desugared to loop/match next()");
            let (pt, sh) = deref_pat(self.src, &f.pat);
            let ex = rng(f.expr.span());
            let start = match &f.label {
                Some(l) => rng(l.span()).0,
                None => rng(f.for_token.span()).0,
            };
            let label = match &f.label {
                Some(l) => format!("{} ", toks(l)),
                None => String::new(),
            };
            self.e.rep(start, ex.0, format!("{{ let mut vx_it{n} = vx_into_it("));
            self.visit_expr(&f.expr);
            let sp = self.loop_spec(n, None);
            let head = self.anchors(&format!("loop {n} head")).join("\n");
            let init = self.anchors(&format!("loop {n} init")).join("\n");
            self.e.rep(
                ex.1,
                body.0,
                format!(
                    "); let ghost vx_all{n} = vx_it{n}@; {init} {label}loop {sp} {{ {head} match vx_it{n}.next() {{ None => {{ break }} Some({pt}) => {{ {} ",
                    shadows(&sh)
                ),
            );
            self.loop_common(n, whole, &f.body);
            self.visit_block(&f.body);
            self.e.ins(body.1, "} } } }");
        }
    }
    fn visit_expr_while(&mut self, w: &'a ExprWhile) {
        self.loops += 1;
        let n = self.loops;
        self.anchor_stmt(&format!("loop {n}"));
        let body = rng(w.body.span());
        let sp = self.loop_spec(n, None);
        if let Expr::Let(l) = &*w.cond {
            // while let P = E B   ->  loop { match E { P => B, _ => break } }
            self.rules.push("`while let` desugared to loop/match");
            let start = rng(w.while_token.span()).0;
            let ex = rng(l.expr.span());
            let (pt, sh) = deref_pat(self.src, &l.pat);
            let head = self.anchors(&format!("loop {n} head")).join("\n");
            self.e.rep(start, ex.0, format!("loop {sp} {{ {head} match "));
            self.visit_expr(&l.expr);
            self.e.rep(ex.1, body.0, format!(" {{ {pt} => {{ {} ", shadows(&sh)));
            self.loop_common(n, rng(w.span()), &w.body);
            self.visit_block(&w.body);
            self.e.ins(body.1, "} _ => { break } } }");
        } else {
            self.boolean(&w.cond);
            self.visit_expr(&w.cond);
            self.e.ins(body.0, sp);
            self.loop_common(n, rng(w.span()), &w.body);
            self.visit_block(&w.body);
        }
    }
    fn visit_expr_loop(&mut self, l: &'a ExprLoop) {
        self.loops += 1;
        let n = self.loops;
        self.anchor_stmt(&format!("loop {n}"));
        let body = rng(l.body.span());
        let sp = self.loop_spec(n, None);
        self.e.ins(body.0, sp);
        self.loop_common(n, rng(l.span()), &l.body);
        self.visit_block(&l.body);
    }
    fn visit_expr_assign(&mut self, a: &'a ExprAssign) {
        // anchors `before|after assign NAME#k`, NAME the field or variable assigned
        let name = match &*a.left {
            Expr::Field(f) => toks(&f.member),
            Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
            _ => "_".into(),
        };
        let k = self.calls.entry(format!("assign {name}")).or_insert(0);
        *k += 1;
        let key = format!("assign {name}#{k}");
        self.anchor_stmt(&key);
        self.visit_expr(&a.left);
        self.visit_expr(&a.right);
    }
    fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
        self.closures += 1;
        let n = self.closures;
        let or1 = rng(c.or1_token.span());
        let body = rng(c.body.span());
        if let Some(t) = self.c.closures.get(&n) {
            // first line: (T0, T1) -> (r: R); rest: requires/ensures
            let mut it = t.trim_start().splitn(2, '\n');
            let head = it.next().unwrap().trim();
            let rest = it.next().unwrap_or("");
            let (args, ret) = head.split_once("->").unwrap_or((head, "(vx_r: ())"));
            let args = args.trim();
            let args = args.strip_prefix('[').unwrap_or(args);
            let args = args.strip_suffix(']').unwrap_or(args);
            let tys: Vec<&str> = args.split(';').map(|s| s.trim()).filter(|s| !s.is_empty()).collect();
            if tys.len() != c.inputs.len() {
                self.lost.push(format!("closure {n}: {} parameters", c.inputs.len()));
            } else {
                self.rules.push("closure given typed parameters and a contract");
                let mut params = vec![];
                let mut pre = String::new();
                for (i, p) in c.inputs.iter().enumerate() {
                    params.push(format!("p{i}: {}", tys[i]));
                    let (pp, _ty) = match p {
                        Pat::Type(t) => ((*t.pat).clone(), true),
                        x => (x.clone(), false),
                    };
                    let (pt, sh) = deref_pat(self.src, &pp);
                    pre.push_str(&format!("let {pt} = p{i}; {}", shadows(&sh)));
                }
                self.e.rep(
                    or1.0,
                    body.0,
                    format!(
                        "{}|{}| -> {} {rest} {{ {pre}",
                        if c.capture.is_some() { "move " } else { "" },
                        params.join(", "),
                        ret.trim()
                    ),
                );
                self.stmt.push((body.0, body.1, 1));
                self.visit_expr(&c.body);
                self.stmt.pop();
                self.e.ins(body.1, " }");
                return;
            }
        }
        self.lost.push(format!("closure {n} has no contract"));
        self.stmt.push((body.0, body.1, 2));
        self.visit_expr(&c.body);
        self.stmt.pop();
    }
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        let name = m.method.to_string();
        let k = self.calls.entry(name.clone()).or_insert(0);
        *k += 1;
        let key = format!("call {name}#{k}");
        self.anchor_stmt(&key);
        if let Some(nn) = renames(&name) {
            let r = rng(m.method.span());
            self.e.rep(r.0, r.1, nn);
            self.rules.push("iterator entry point renamed (vx_iter, vx_chars, ...)");
        }
        if let Some(tf) = &m.turbofish {
            if name == "collect" {
                let _ = tf;
            }
        }
        let mut rec = &*m.receiver;
        while let Expr::Paren(p) = rec {
            rec = &p.expr;
        }
        if let Expr::Range(rg) = rec {
            let r = rng(m.receiver.span());
            let (Some(a), Some(b)) = (&rg.start, &rg.end) else {
                self.lost.push("open range as receiver".into());
                return;
            };
            let (ra, rb) = (rng(a.span()), rng(b.span()));
            self.rules.push("range receiver wrapped in vx_range");
            self.e.rep(r.0, ra.0, "vx_range(");
            self.visit_expr(a);
            self.e.rep(ra.1, rb.0, ", ");
            self.visit_expr(b);
            self.e.rep(rb.1, r.1, ")");
        } else {
            self.visit_expr(&m.receiver);
        }
        for a in &m.args {
            self.visit_expr(a);
        }
    }
    fn visit_expr_reference(&mut self, i: &'a ExprReference) {
        if let Expr::Index(x) = &*i.expr {
            if matches!(&*x.index, Expr::Range(_)) && i.mutability.is_none() {
                let a = rng(i.span()).0;
                self.slice(x, a);
                return;
            }
            if self.history_index(x, Some(rng(i.span()).0)) {
                return;
            }
        }
        visit::visit_expr_reference(self, i);
    }
    fn visit_expr_index(&mut self, x: &'a ExprIndex) {
        if self.history_index(x, None) {
            return;
        }
        if matches!(&*x.index, Expr::Range(_)) {
            let a = rng(x.span()).0;
            self.slice(x, a);
            return;
        }
        visit::visit_expr_index(self, x);
    }
    fn visit_expr_call(&mut self, m: &'a ExprCall) {
        let t = toks(&m.func);
        let last = t.rsplit("::").next().unwrap_or("").to_string();
        let k = self.calls.entry(last.clone()).or_insert(0);
        *k += 1;
        let key = format!("call {last}#{k}");
        self.anchor_stmt(&key);
        visit::visit_expr_call(self, m);
    }
    fn visit_expr_return(&mut self, r: &'a ExprReturn) {
        let k = self.calls.entry("return".into()).or_insert(0);
        *k += 1;
        let key = format!("return#{k}");
        self.anchor_stmt(&key);
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_if(&mut self, i: &'a ExprIf) {
        let k = self.calls.entry("if".into()).or_insert(0);
        *k += 1;
        let n = *k;
        self.anchor_stmt(&format!("if#{n}"));
        for t in self.anchors(&format!("then#{n}")) {
            self.e.ins(rng(i.then_branch.brace_token.span.open()).1, format!("\n{t}"));
        }
        if let Some((_, e)) = &i.else_branch {
            if let Expr::Block(b) = &**e {
                for t in self.anchors(&format!("else#{n}")) {
                    self.e.ins(rng(b.block.brace_token.span.open()).1, format!("\n{t}"));
                }
            }
        }
        self.boolean(&i.cond);
        visit::visit_expr_if(self, i);
    }
    fn visit_expr_macro(&mut self, m: &'a ExprMacro) {
        self.mac(&m.mac, rng(m.span()));
    }
    fn visit_stmt_macro(&mut self, m: &'a StmtMacro) {
        let r = rng(m.mac.span());
        self.mac(&m.mac, r);
    }
}

impl<'s> Body<'s> {
    /// `&X[a..b]` becomes `X.vx_sub(a, b)` (likewise vx_from, vx_to, vx_all)
    /// `&H[i]` where H names a history: a call of its index function
    fn history_index(&mut self, x: &ExprIndex, amp: Option<usize>) -> bool {
        let hist = match &*x.expr {
            Expr::MethodCall(m) => m.method == "history",
            Expr::Path(p) => p.path.segments.last().map_or(false, |s| s.ident.to_string().ends_with("history")),
            _ => false,
        };
        if !hist || matches!(&*x.index, Expr::Range(_)) {
            return false;
        }
        let whole = rng(x.span());
        let recv = rng(x.expr.span());
        let idx = rng(x.index.span());
        if let Some(a) = amp {
            self.e.rep(a, whole.0, "");
        }
        self.visit_expr(&x.expr);
        self.e.rep(recv.1, idx.0, ".index(");
        self.visit_expr(&x.index);
        self.e.rep(idx.1, whole.1, ")");
        self.rules.push("history[i] becomes a call of History::index");
        true
    }
    fn slice(&mut self, x: &ExprIndex, start: usize) {
        let Expr::Range(r) = &*x.index else { return };
        let recv = rng(x.expr.span());
        let end = rng(x.span()).1;
        if matches!(r.limits, RangeLimits::Closed(_)) {
            self.lost.push("inclusive range index".into());
        }
        self.rules.push("range index becomes vx_sub/vx_from/vx_to/vx_all");
        if start < recv.0 {
            self.e.rep(start, recv.0, "");
        }
        self.visit_expr(&x.expr);
        match (&r.start, &r.end) {
            (None, None) => self.e.rep(recv.1, end, ".vx_all()"),
            (Some(a), None) => {
                let p = rng(a.span());
                self.e.rep(recv.1, p.0, ".vx_from(");
                self.visit_expr(a);
                self.e.rep(p.1, end, ")");
            }
            (None, Some(b)) => {
                let p = rng(b.span());
                self.e.rep(recv.1, p.0, ".vx_to(");
                self.visit_expr(b);
                self.e.rep(p.1, end, ")");
            }
            (Some(a), Some(b)) => {
                let p = rng(a.span());
                let q = rng(b.span());
                self.e.rep(recv.1, p.0, ".vx_sub(");
                self.visit_expr(a);
                self.e.rep(p.1, q.0, ", ");
                self.visit_expr(b);
                self.e.rep(q.1, end, ")");
            }
        }
    }
    fn mac(&mut self, m: &Macro, whole: (usize, usize)) {
        let n = toks(&m.path);
        match n.as_str() {
            "unreachable" => {
                self.e.rep(whole.0, whole.1, "vx_unreachable()");
                self.rules.push("unreachable!() becomes a call that requires false");
            }
            "assert" | "debug_assert" => {
                let a = toks(&m.tokens);
                self.e.rep(whole.0, whole.1, format!("vx_assert({a})"));
                self.rules.push("assert!(e) becomes a call that requires e");
            }
            _ => {
                let k = self.calls.entry(format!("{n}!")).or_insert(0);
                *k += 1;
                let key = format!("call {n}!#{k}");
                self.anchor_stmt(&key);
                // macro arguments are opaque to syn: visit them as expressions where possible
                if n == "format" || n == "write" {
                    let Ok(a) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) else {
                        self.lost.push(format!("{n}! arguments"));
                        return;
                    };
                    let a: Vec<&Expr> = a.iter().collect();
                    let skip = if n == "write" { 2 } else { 1 };
                    if a.len() < skip {
                        self.lost.push(format!("{n}! arguments"));
                        return;
                    }
                    let mut pos = whole.0;
                    if let (true, Some(ps), Expr::Path(_) | Expr::Reference(_)) = (self.text && n == "write", pieces(a[skip - 1]), a[0]) {
                        let d = toks(a[0]);
                        if ps.len() == a.len() - 1 && !d.contains('.') {
                            self.rules.push("write! into a local string: each literal piece and each `{}` argument appended in turn");
                            self.e.rep(pos, pos, "({ ");
                            for (i, p) in ps.iter().enumerate() {
                                let lit = if p.is_empty() { String::new() } else { format!("({d}).push_str({p:?}); ") };
                                match a.get(skip + i) {
                                    Some(x) => {
                                        let r = rng(x.span());
                                        self.e.rep(pos, r.0, format!("{lit}({d}).vx_show(&("));
                                        self.visit_expr(x);
                                        self.e.ins(r.1, ")); ");
                                        pos = r.1;
                                    }
                                    None => self.e.rep(pos, whole.1, format!(" {lit}vx_written() }})")),
                                }
                            }
                            return;
                        }
                    }
                    self.rules.push("format!/write!: arguments evaluated, the produced text is unspecified");
                    let f = toks(a[skip - 1]);
                    self.e.rep(pos, pos, "({ ");
                    for (i, x) in a[skip..].iter().enumerate() {
                        let r = rng(x.span());
                        let w = if f.contains(&format!("{i}$")) { "vx_fmt_width(" } else { "vx_fmt_arg(&(" };
                        let (pre, post) = (format!("let _ = {w}"), if w.ends_with("&(") { ")); " } else { "); " });
                        self.e.rep(pos, r.0, pre);
                        self.visit_expr(x);
                        self.e.ins(r.1, post);
                        pos = r.1;
                    }
                    if n == "write" {
                        let d = toks(a[0]);
                        self.e.rep(pos, whole.1, format!(" ({d}).vx_write_fmt() }})"));
                    } else {
                        self.e.rep(pos, whole.1, " vx_format() })");
                    }
                } else if n == "cur_buf" || n == "cur_buf_mut" {
                } else if n == "vec" {
                    if let Ok(a) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                        for e in &a {
                            self.visit_expr(e);
                        }
                    }
                }
            }
        }
    }
}

struct Ctx<'s> {
    m: &'s str,
    src: &'s str,
    mc: &'s ModContracts,
    vacuity: bool,
    stub: &'s BTreeSet<String>,
    hashes: Vec<(String, String)>,
    hoisted: String,
    seen: BTreeSet<String>,
}

impl<'s> Ctx<'s> {
    /// text of one function (without visibility), or None when it is not extracted
    fn func(
        &mut self,
        id: &str,
        attrs: &[Attribute],
        sig: &Signature,
        block: Option<&Block>,
        vis: Option<(usize, usize)>,
        trait_fn: bool,
        whole: (usize, usize),
        report: &mut Report,
    ) -> Option<String> {
        let fid = format!("{}::{}", self.m, id);
        let Some(c) = self.mc.fns.get(id) else {
            if !self.mc.drop.contains(id) && !self.mc.only {
                report.unlisted.push(fid);
            }
            return None;
        };
        if c.inline {
            return None;
        }
        self.seen.insert(id.to_string());
        let (src, _) = (self.src, ());
        let mut e = Edits::default();
        let (a, b) = bare(attrs, whole);
        // visibility
        let start = match vis {
            Some(v) => v.1.max(a),
            None => a,
        };
        // return type
        match &sig.output {
            ReturnType::Default => {}
            ReturnType::Type(_, t) => {
                let r = rng(t.span());
                let n = c.ret.clone().unwrap_or("r".into());
                e.ins(r.0, format!("({n}: "));
                e.ins(r.1, ")");
            }
        }
        if let Some(n) = &c.rename {
            let r = rng(sig.ident.span());
            e.rep(r.0, r.1, n.clone());
            report.rule("a function that is verified a second time, against another contract, is emitted under another name");
        }
        if let Some(g) = &c.free {
            if let (Some(lt), Some(gt)) = (&sig.generics.lt_token, &sig.generics.gt_token) {
                e.rep(rng(lt.span()).0, rng(gt.span()).1, g.clone());
            } else {
                let at = rng(sig.ident.span()).1;
                e.ins(at, g.clone());
            }
            if let Some(w) = &sig.generics.where_clause {
                let r = rng(w.span());
                e.rep(r.0, r.1, "");
            }
            report.rule("trait default method emitted as a free function");
        }
        // `mut x: T`: an immutable parameter and a mutable copy
        let mut params = String::new();
        for a in &sig.inputs {
            if let FnArg::Typed(t) = a {
                if let Pat::Ident(i) = &*t.pat {
                    if let (Some(m), None) = (&i.mutability, &i.by_ref) {
                        e.rep(rng(m.span()).0, rng(i.ident.span()).0, "");
                        params.push_str(&format!(" let mut {0} = {0};", i.ident));
                    }
                }
            }
        }
        if !params.is_empty() {
            report.rule("`mut` parameter becomes a parameter and a mutable local of the same name");
        }
        let stubbed = self.stub.contains(&fid);
        let mut spec = String::new();
        if !c.spec.trim().is_empty() {
            spec = format!("\n{}", c.spec);
        }
        let mut fn_attrs: String = c.attrs.iter().map(|s| format!("{s}\n")).collect();
        let mut text;
        let mut status = "verified";
        let decl = if c.decl { block } else { None };
        if decl.is_some() {
            report.rule("trait default method verified where it is inherited");
        }
        match if c.decl { None } else { block } {
            None if decl.is_some() => {
                let r = rng(decl.unwrap().span());
                e.rep(r.0, r.1, format!("{spec};"));
                text = e.render(src, start, b);
                status = "declaration";
            }
            None => {
                // trait method declaration `;`
                let semi = b - 1;
                e.ins(semi, spec.clone());
                text = e.render(src, start, b);
            }
            Some(bl) if c.external || stubbed => {
                let br = rng(bl.span());
                text = e.render(src, start, br.0);
                text.push_str(&spec);
                text.push_str("{ unimplemented!() }");
                fn_attrs.push_str("#[verifier::external_body]\n");
                status = if stubbed { "stubbed" } else { "external" };
            }
            Some(bl) => {
                let br = rng(bl.span());
                let tail = match bl.stmts.last() {
                    Some(s @ Stmt::Expr(_, None)) => Some(rng(s.span())),
                    Some(Stmt::Macro(m)) if m.semi_token.is_none() => Some(rng(m.span())),
                    _ => None,
                };
                let mut v = Body {
                    src,
                    e: Edits::default(),
                    c,
                    loops: 0,
                    closures: 0,
                    calls: BTreeMap::new(),
                    lets: BTreeMap::new(),
                    stmt: vec![],
                    hoisted: vec![],
                    renamed: bl
                        .stmts
                        .iter()
                        .filter_map(|s| match s {
                            Stmt::Item(Item::Enum(x)) => Some(x.ident.to_string()),
                            Stmt::Item(Item::Struct(x)) => Some(x.ident.to_string()),
                            _ => None,
                        })
                        .map(|n| { let m = format!("{n}_{}", sig.ident); (n, m) })
                        .collect(),
                    used: BTreeSet::new(),
                    rules: vec![],
                    lost: vec![],
                    tail,
                    block: br,
                    wrapped: BTreeSet::new(),
                    text: self.mc.text,
                };
                v.e.ins(br.0, if c.cases.is_some() { "/*VXSPEC*/".to_string() } else { spec.clone() });
                let open = rng(bl.brace_token.span.open()).1;
                if self.vacuity {
                    v.e.ins(open, " assert(false); ");
                }
                for t in v.anchors("start") {
                    v.e.ins(open, format!("\n{t}"));
                }
                if !params.is_empty() {
                    v.e.ins(open, params.clone());
                }
                let tails = v.anchors("tail");
                let close = rng(bl.brace_token.span.close()).0;
                if !tails.is_empty() {
                    if let Some(t) = tail {
                        let ty = match &sig.output {
                            ReturnType::Type(_, t) => {
                                let r = rng(t.span());
                                format!(": {}", &src[r.0..r.1])
                            }
                            ReturnType::Default => String::new(),
                        };
                        v.e.ins(t.0, format!("let vx_r{ty} = "));
                    }
                }
                v.visit_block(bl);
                if !tails.is_empty() {
                    if let Some(t) = tail {
                        v.e.ins(t.1, format!(";\n{}\nvx_r ", tails.join("\n")));
                    } else {
                        v.e.ins(close, format!("\n{}", tails.join("\n")));
                    }
                }
                for (k, _) in &c.loops {
                    if *k > v.loops {
                        v.lost.push(format!("loop {k} not found"));
                    }
                }
                let want = c.nloops.unwrap_or(c.loops.keys().max().cloned().unwrap_or(0));
                if v.loops > want {
                    v.lost.push(format!("{} loops, contract knows {want}", v.loops));
                }
                for (k, _) in &c.closures {
                    if *k > v.closures {
                        v.lost.push(format!("closure {k} not found"));
                    }
                }
                for (i, (an, _)) in c.at.iter().enumerate() {
                    if !v.used.contains(&i) {
                        v.lost.push(format!("anchor not found: {an}"));
                    }
                }
                for r in v.rules.iter() {
                    report.rule(r);
                }
                for l in &v.lost {
                    report.lost.push((fid.clone(), l.clone()));
                }
                // hoisted items
                let hs = std::mem::take(&mut v.hoisted);
                for h in &hs {
                    v.e.rep(h.0, h.1, "");
                    report.rule("nested item hoisted");
                }
                let _ = v.block;
                for s in bl.stmts.iter() {
                    if let Stmt::Item(it) = s {
                        match it {
                            Item::Use(_) => {}
                            Item::Fn(f) => {
                                let id2 = format!("{id}/{}", f.sig.ident);
                                if let Some(t) = self.func(
                                    &id2,
                                    &f.attrs,
                                    &f.sig,
                                    Some(&f.block),
                                    vis_range(&f.vis),
                                    false,
                                    rng(f.span()),
                                    report,
                                ) {
                                    self.hoisted.push_str(&t);
                                }
                            }
                            it => {
                                let mut t = self.item_text(it, report);
                                let n = match it {
                                    Item::Enum(x) => Some(("enum", x.ident.to_string())),
                                    Item::Struct(x) => Some(("struct", x.ident.to_string())),
                                    _ => None,
                                };
                                if let Some((k, n)) = n {
                                    t = t.replacen(&format!("{k} {n}"), &format!("{k} {n}_{}", sig.ident), 1);
                                    report.rule("nested type renamed after its function");
                                }
                                self.hoisted.push_str(&t);
                            }
                        }
                    }
                }
                let mut all = e;
                let mut vs = v.e.v;
                vs.sort_by_key(|x| x.3);
                for x in vs {
                    let n = all.v.len();
                    all.v.push((x.0, x.1, x.2, n));
                }
                text = all.render(src, start, b);
                self.hashes.push((id.to_string(), toks(bl)));
            }
        }
        let props = c.props.join(",");
        report.fns.push(json!({"id": fid, "status": status, "props": c.props}));
        let p = if trait_fn { "" } else { "pub " };
        if let (Some((param, pats)), true) = (&c.cases, status == "verified" && block.is_some()) {
            // the body is verified once per case of the parameter; the function itself dispatches on the cases
            report.rule("function verified case by case: one copy of its body per case of a parameter, under the case as precondition");
            let name = sig.ident.to_string();
            let args: Vec<String> = sig
                .inputs
                .iter()
                .filter_map(|x| match x {
                    FnArg::Typed(t) => match &*t.pat {
                        Pat::Ident(i) => Some(i.ident.to_string()),
                        _ => None,
                    },
                    _ => None,
                })
                .collect();
            let recv = if sig.receiver().is_some() { "self." } else { "" };
            let head = text.split("/*VXSPEC*/").next().unwrap().to_string();
            let mut out = String::new();
            let mut arms = String::new();
            // the state before the call, for a place behind `&mut self`
            let pre = match param.strip_prefix("self.") {
                Some(x) => format!("old(self).{x}"),
                None => param.clone(),
            };
            for (k, pt) in pats.iter().enumerate() {
                let mut cond = String::from("true");
                for q in pats[..k].iter() {
                    cond.push_str(&format!(" && !(match {pre} {{ {q} => true, _ => false }})"));
                }
                if pt != "_" {
                    cond = format!("match {pre} {{ {pt} => true, _ => false }}");
                }
                let mut sp = spec.replacen("requires ", &format!("requires ({cond}), "), 1);
                if let Some(d) = &c.casedec {
                    let i = sp.rfind("decreases").expect("casedec without decreases");
                    sp = format!("{}decreases {d}\n", &sp[..i]);
                }
                let body = text
                    .replacen(&format!("fn {name}"), &format!("fn {name}_vx{}", k + 1), 1)
                    .replacen("/*VXSPEC*/", &sp, 1);
                out.push_str(&format!("\n/*VXB {fid} [{props}]*/\n{fn_attrs}#[verifier::spinoff_prover]\n{p}{}\n/*VXE*/\n", body.trim_start()));
                arms.push_str(&format!("{pt} => {recv}{name}_vx{}({}),\n", k + 1, args.join(", ")));
            }
            out.push_str(&format!("\n/*VXB {fid} [{props}]*/\n{p}{}{spec}{{ match {param} {{\n{arms}}} }}\n/*VXE*/\n", head.trim_start()));
            return Some(out);
        }
        text = format!("\n/*VXB {fid} [{props}]*/\n{fn_attrs}{p}{}\n/*VXE*/\n", text.trim_start());
        Some(text)
    }

    fn item_text(&mut self, it: &Item, report: &mut Report) -> String {
        let src = self.src;
        let mut out = String::new();
        if self.mc.only && !matches!(it, Item::Fn(_) | Item::Trait(_) | Item::Impl(_)) {
            return out;
        }
        match it {
            Item::Struct(s) => {
                let name = s.ident.to_string();
                if is_test_cfg(&s.attrs) || self.mc.drop.contains(&name) {
                    return out;
                }
                let mut e = Edits::default();
                for f in s.fields.iter() {
                    let (a, _) = bare(&f.attrs, rng(f.span()));
                    let fs = rng(f.span()).0;
                    let from = match vis_range(&f.vis) {
                        Some(v) => v.1,
                        None => a,
                    };
                    e.rep(fs, from, "\npub ");
                }
                let (_, b) = rng(s.span());
                let kw = rng(s.struct_token.span()).0;
                out.push_str(&format!("{}\n", self.mc.attrs.get(&name).cloned().unwrap_or_default()));
                if let Some(d) = self.mc.derives.get(&name) {
                    out.push_str(&format!("#[derive({d})]\n"));
                }
                out.push_str(&format!("pub {}\n", e.render(src, kw, b)));
            }
            Item::Enum(s) => {
                let name = s.ident.to_string();
                if is_test_cfg(&s.attrs) || self.mc.drop.contains(&name) {
                    return out;
                }
                let mut e = Edits::default();
                for f in s.variants.iter() {
                    let (a, _) = bare(&f.attrs, rng(f.span()));
                    e.rep(rng(f.span()).0, a, "");
                }
                let (_, b) = rng(s.span());
                let kw = rng(s.enum_token.span()).0;
                out.push_str(&format!("{}\n", self.mc.attrs.get(&name).cloned().unwrap_or_default()));
                if let Some(d) = self.mc.derives.get(&name) {
                    out.push_str(&format!("#[derive({d})]\n"));
                }
                out.push_str(&format!("pub {}\n", e.render(src, kw, b)));
            }
            Item::Const(c) => {
                if is_test_cfg(&c.attrs) || self.mc.drop.contains(&c.ident.to_string()) {
                    return out;
                }
                let (_, b) = rng(c.span());
                let kw = rng(c.const_token.span()).0;
                out.push_str(&format!("pub {}\n", &src[kw..b]));
            }
            Item::Type(c) => {
                if self.mc.drop.contains(&c.ident.to_string()) {
                    return out;
                }
                let (_, b) = rng(c.span());
                let kw = rng(c.type_token.span()).0;
                out.push_str(&format!("pub {}\n", &src[kw..b]));
            }
            Item::Macro(m) => {
                if is_test_cfg(&m.attrs) {
                    return out;
                }
                let n = m.ident.as_ref().map(|i| i.to_string()).unwrap_or_default();
                if self.mc.drop.contains(&n) {
                    return out;
                }
                let (a, b) = bare(&m.attrs, rng(m.span()));
                out.push_str(&src[a..b]);
                out.push('\n');
            }
            Item::Fn(f) => {
                if is_test_cfg(&f.attrs) {
                    return out;
                }
                let id = f.sig.ident.to_string();
                if let Some(t) = self.func(
                    &id,
                    &f.attrs,
                    &f.sig,
                    Some(&f.block),
                    vis_range(&f.vis),
                    false,
                    rng(f.span()),
                    report,
                ) {
                    out.push_str(&t);
                }
            }
            Item::Impl(i) => {
                if is_test_cfg(&i.attrs) {
                    return out;
                }
                let k = impl_key(i);
                if self.mc.drop.contains(&k) {
                    return out;
                }
                let kw = rng(i.impl_token.span()).0;
                let open = rng(i.brace_token.span.open()).1;
                let mut body = String::new();
                let mut any = false;
                for ii in &i.items {
                    match ii {
                        ImplItem::Fn(f) => {
                            if is_test_cfg(&f.attrs) {
                                continue;
                            }
                            let id = format!("{k}::{}", f.sig.ident);
                            if let Some(t) = self.func(
                                &id,
                                &f.attrs,
                                &f.sig,
                                Some(&f.block),
                                vis_range(&f.vis),
                                i.trait_.is_some(),
                                rng(f.span()),
                                report,
                            ) {
                                any = true;
                                body.push_str(&t);
                            }
                        }
                        _ if self.mc.only => {}
                        x => {
                            let r = rng(x.span());
                            body.push_str(&src[r.0..r.1]);
                            body.push('\n');
                            any = true;
                        }
                    }
                }
                if any || self.mc.implx.contains_key(&k) {
                    out.push_str(&format!("\n{}\n", &src[kw..open]));
                    if let Some(x) = self.mc.implx.get(&k) {
                        out.push_str(x);
                    }
                    out.push_str(&body);
                    out.push_str("}\n");
                }
            }
            Item::Trait(t) => {
                let k = t.ident.to_string();
                if self.mc.drop.contains(&k) {
                    return out;
                }
                let kw = rng(t.trait_token.span()).0;
                let open = rng(t.brace_token.span.open()).1;
                let mut free = String::new();
                out.push_str(&format!("\npub {}\n", &src[kw..open]));
                if let Some(x) = self.mc.implx.get(&format!("trait {k}")) {
                    out.push_str(x);
                }
                for ti in &t.items {
                    match ti {
                        TraitItem::Fn(f) => {
                            let id = format!("trait {k}::{}", f.sig.ident);
                            let is_free = self.mc.fns.get(&id).map_or(false, |c| c.free.is_some());
                            if let Some(x) = self.func(
                                &id,
                                &f.attrs,
                                &f.sig,
                                f.default.as_ref(),
                                None,
                                !is_free,
                                rng(f.span()),
                                report,
                            ) {
                                if is_free {
                                    free.push_str(&x);
                                } else {
                                    out.push_str(&x);
                                }
                            }
                        }
                        x => {
                            let r = rng(x.span());
                            out.push_str(&src[r.0..r.1]);
                            out.push('\n');
                        }
                    }
                }
                out.push_str("}\n");
                if self.mc.only {
                    out.clear();
                }
                out.push_str(&free);
            }
            Item::Use(_) | Item::Mod(_) | Item::ExternCrate(_) => {}
            x => {
                let r = rng(x.span());
                report.lost.push((self.m.to_string(), format!("item kind: {}", &src[r.0..r.1.min(r.0 + 40)])));
            }
        }
        out
    }
}

fn vis_range(v: &Visibility) -> Option<(usize, usize)> {
    match v {
        Visibility::Inherited => None,
        v => Some(rng(v.span())),
    }
}

/// the trait default `tr::me` of `tsrc` is spliced into the impl `key` of `code` if that does not define it
pub fn inherit(code: &str, key: &str, tr: &str, me: &str, tsrc: &str) -> std::result::Result<String, String> {
    let f = parse_file(code).map_err(|e| format!("parse: {e}"))?;
    let tsrc = strip_tests(tsrc);
    let t = parse_file(&tsrc).map_err(|e| format!("parse: {e}"))?;
    for it in &f.items {
        let Item::Impl(i) = it else { continue };
        if is_test_cfg(&i.attrs) || impl_key(i) != key {
            continue;
        }
        if i.items.iter().any(|x| matches!(x, ImplItem::Fn(f) if f.sig.ident == me)) {
            return Ok(code.to_string());
        }
        for tt in &t.items {
            let Item::Trait(tt) = tt else { continue };
            if tt.ident != tr {
                continue;
            }
            for x in &tt.items {
                if let TraitItem::Fn(x) = x {
                    if x.sig.ident == me && x.default.is_some() {
                        let (a, b) = bare(&x.attrs, rng(x.span()));
                        let at = rng(i.brace_token.span.open()).1;
                        return Ok(format!("{}\n{}\n{}", &code[..at], &tsrc[a..b], &code[at..]));
                    }
                }
            }
        }
        return Err(format!("{key}: no default {tr}::{me} to inherit"));
    }
    Err(format!("{key}: impl not found"))
}

pub fn lower_module(
    m: &str,
    code: &str,
    mc: &ModContracts,
    report: &mut Report,
    vacuity: bool,
    stub: &BTreeSet<String>,
) -> std::result::Result<(String, Vec<(String, String)>), String> {
    parse_file(code).map_err(|e| format!("parse: {e}"))?;
    // test modules first: they must not take part in anything below
    let mut src = strip_tests(code);
    src = inline_unlisted(m, src, mc, report);
    src = expand_combinators(src, mc, report);
    for (from, to) in &mc.replace {
        let (s, n) = token_replace(&src, None, from, to);
        src = s;
        if n > 0 {
            report.rule("listed text transform");
        }
    }
    let ids: Vec<(String, String, String)> = mc
        .fns
        .iter()
        .flat_map(|(id, c)| c.replace.iter().map(move |(a, b)| (id.clone(), a.clone(), b.clone())))
        .collect();
    for (id, from, to) in ids {
        let Ok(f) = parse_file(&src) else { break };
        let Some(l) = collect_fns(&f).into_iter().find(|l| l.id == id) else { continue };
        let (s, n) = token_replace(&src, Some(l.whole), &from, &to);
        if parse_file(&s).is_err() {
            return Err(format!("{id}: transform `{from}` leaves unparsable text"));
        }
        src = s;
        if n > 0 {
            report.rule("listed text transform");
        } else {
            report.rules.entry(format!("transform not needed: {m}::{id}: {from}")).or_insert(0);
        }
    }
    let f = parse_file(&src).map_err(|e| format!("after transforms: {e}"))?;
    let mut cx = Ctx {
        m,
        src: &src,
        mc,
        vacuity,
        stub,
        hashes: vec![],
        hoisted: String::new(),
        seen: BTreeSet::new(),
    };
    let mut out = String::new();
    out.push_str(&mc.uses);
    let mut macros = String::new();
    let mut body = String::new();
    for it in &f.items {
        let t = cx.item_text(it, report);
        if matches!(it, Item::Macro(_)) {
            macros.push_str(&t);
        } else {
            body.push_str(&t);
        }
    }
    for id in mc.fns.keys() {
        if !cx.seen.contains(id) && !mc.fns[id].inline {
            report.lost.push((format!("{m}::{id}"), "function not found in the source".into()));
        }
    }
    out.push_str(&macros);
    out.push_str("verus! {\n");
    out.push_str(&mc.prelude);
    out.push_str(&cx.hoisted);
    out.push_str(&body);
    out.push_str(&mc.epilogue);
    out.push_str("\n} // verus!\n");
    Ok((out, cx.hashes))
}

fn strip_tests(code: &str) -> String {
    let Ok(f) = parse_file(code) else { return code.into() };
    let mut e = Edits::default();
    for it in &f.items {
        let attrs: &[Attribute] = match it {
            Item::Mod(m) => &m.attrs,
            Item::Fn(f) => &f.attrs,
            Item::Impl(i) => &i.attrs,
            Item::Use(i) => &i.attrs,
            _ => &[],
        };
        if is_test_cfg(attrs) {
            let r = rng(it.span());
            e.rep(r.0, r.1, "");
        }
    }
    e.render(code, 0, code.len())
}
