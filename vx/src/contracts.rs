//! Reader for the contract files (/verif/contracts/*.vrs).
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

#[derive(Default, Debug, Clone)]
pub struct FnContract {
    pub cases: Option<(String, Vec<String>)>,
    pub casedec: Option<String>,
    pub external: bool,      // #[verifier::external_body]: contract assumed, body not verified
    pub rename: Option<String>,
    pub decl: bool,          // a trait default that is verified where it is inherited: declared only
    pub inline: bool,        // no contract of its own: inlined at its call sites
    pub attrs: Vec<String>,
    pub ret: Option<String>,
    pub spec: String,
    pub trait_spec: String,
    pub loops: BTreeMap<usize, String>,
    pub closures: BTreeMap<usize, String>,
    pub at: Vec<(String, String)>,
    pub replace: Vec<(String, String)>,
    pub expand: Vec<(String, usize, String)>,
    pub props: Vec<String>,
    pub nloops: Option<usize>,
    pub free: Option<String>, // trait default method emitted as a free function with these generics
}

#[derive(Default, Debug, Clone)]
pub struct ModContracts {
    pub uses: String,    // outside verus!, before it
    pub prelude: String, // inside verus!, first
    pub epilogue: String,
    pub fns: BTreeMap<String, FnContract>,
    pub drop: BTreeSet<String>, // item ids not extracted
    pub replace: Vec<(String, String)>,
    pub derives: BTreeMap<String, String>,
    pub attrs: BTreeMap<String, String>,
    pub implx: BTreeMap<String, String>, // extra text inside an impl/trait
    /// (impl, trait, method, file): a trait default spliced into an impl that does not define it
    pub inherit: Vec<(String, String, String, String)>,
    /// only the listed functions are extracted from this file, nothing else
    pub only: bool,
    /// `write!` into a local string keeps what is written
    pub text: bool,
}

impl ModContracts {
    pub fn read(p: &Path) -> Self {
        let mut m = ModContracts::default();
        let Ok(t) = std::fs::read_to_string(p) else { return m };
        let mut cur_fn: Option<String> = None;
        enum Sink {
            None,
            Uses,
            Prelude,
            Epilogue,
            Spec,
            TraitSpec,
            Loop(usize),
            Closure(usize),
            At,
            ImplX(String),
        }
        let mut sink = Sink::None;
        for line in t.lines() {
            if let Some(d) = line.trim_start().strip_prefix("//@") {
                let d = d.trim();
                let (w, rest) = match d.split_once(char::is_whitespace) {
                    Some((a, b)) => (a, b.trim()),
                    None => (d, ""),
                };
                sink = Sink::None;
                let f = |m: &mut ModContracts, c: &Option<String>| -> *mut FnContract {
                    m.fns.get_mut(c.as_ref().expect("directive outside fn")).unwrap() as *mut _
                };
                match w {
                    "uses" => sink = Sink::Uses,
                    "prelude" => sink = Sink::Prelude,
                    "epilogue" => sink = Sink::Epilogue,
                    "drop" => {
                        m.drop.insert(rest.to_string());
                    }
                    "derive" => {
                        let (a, b) = rest.split_once(':').unwrap();
                        m.derives.insert(a.trim().into(), b.trim().into());
                    }
                    "attr" => {
                        let (a, b) = rest.split_once(" : ").unwrap();
                        m.attrs.insert(a.trim().into(), b.trim().into());
                    }
                    "implx" => sink = Sink::ImplX(rest.to_string()),
                    "fn" => {
                        let mut c = FnContract::default();
                        let mut name = rest.to_string();
                        loop {
                            let t = name.trim_end().to_string();
                            if let Some(x) = t.strip_suffix("[external]") {
                                c.external = true;
                                name = x.trim_end().into();
                            } else if let Some(x) = t.strip_suffix("[inline]") {
                                c.inline = true;
                                name = x.trim_end().into();
                            } else if t.ends_with(']') {
                                let i = t.rfind('[').unwrap();
                                c.props = t[i + 1..t.len() - 1]
                                    .split(',')
                                    .map(|s| s.trim().to_string())
                                    .collect();
                                name = t[..i].trim_end().into();
                            } else {
                                break;
                            }
                        }
                        m.fns.insert(name.clone(), c);
                        cur_fn = Some(name);
                    }
                    "ret" => unsafe { (*f(&mut m, &cur_fn)).ret = Some(rest.into()) },
                    "fnattr" => unsafe { (*f(&mut m, &cur_fn)).attrs.push(rest.into()) },
                    // //@ cases PARAM: PAT ;; PAT ;; _   : one copy of the body per case of the parameter
                    "cases" => {
                        let (a, b) = rest.split_once(':').expect("cases PARAM: PAT ;; PAT");
                        let v: Vec<String> = b.split(";;").map(|x| x.trim().to_string()).collect();
                        unsafe { (*f(&mut m, &cur_fn)).cases = Some((a.trim().into(), v)) };
                    }
                    "casedec" => unsafe { (*f(&mut m, &cur_fn)).casedec = Some(rest.into()) },
                    "inherit" => {
                        let (k, r) = rest.split_once(" : ").expect("inherit IMPL : TRAIT METHOD FILE");
                        let p: Vec<&str> = r.split_whitespace().collect();
                        m.inherit.push((k.trim().into(), p[0].into(), p[1].into(), p[2].into()));
                    }
                    "only" => m.only = true,
                    "text" => m.text = true,
                    "decl" => unsafe { (*f(&mut m, &cur_fn)).decl = true },
                    "free" => unsafe { (*f(&mut m, &cur_fn)).free = Some(rest.into()) },
                    "rename" => unsafe { (*f(&mut m, &cur_fn)).rename = Some(rest.trim().into()) },
                    "spec" => sink = Sink::Spec,
                    "traitspec" => sink = Sink::TraitSpec,
                    "loop" => sink = Sink::Loop(rest.parse().unwrap()),
                    "closure" => sink = Sink::Closure(rest.parse().unwrap()),
                    "at" => {
                        unsafe { (*f(&mut m, &cur_fn)).at.push((rest.into(), String::new())) };
                        sink = Sink::At;
                    }
                    "replace" => {
                        let (a, b) = rest.split_once("=>>").expect("replace needs =>>");
                        let r = (a.trim().to_string(), b.trim().to_string());
                        match &cur_fn {
                            Some(_) => unsafe { (*f(&mut m, &cur_fn)).replace.push(r) },
                            None => m.replace.push(r),
                        }
                    }
                    "expand" => {
                        let (a, k) = rest.split_once(' ').expect("expand M#k KIND");
                        let (mm, n) = a.split_once('#').unwrap_or((a, "1"));
                        let x = (mm.to_string(), n.parse().unwrap(), k.trim().to_string());
                        unsafe { (*f(&mut m, &cur_fn)).expand.push(x) };
                    }
                    "end" => {
                        cur_fn = None;
                    }
                    "#" => {}
                    _ => panic!("{}: unknown directive {d}", p.display()),
                }
                continue;
            }
            let push = |s: &mut String| {
                s.push_str(line);
                s.push('\n');
            };
            match &sink {
                Sink::None => {
                    if !line.trim().is_empty() {
                        panic!("{}: stray line: {line}", p.display())
                    }
                }
                Sink::Uses => push(&mut m.uses),
                Sink::Prelude => push(&mut m.prelude),
                Sink::Epilogue => push(&mut m.epilogue),
                Sink::ImplX(k) => push(m.implx.entry(k.clone()).or_default()),
                s => {
                    let c = m.fns.get_mut(cur_fn.as_ref().unwrap()).unwrap();
                    match s {
                        Sink::Spec => push(&mut c.spec),
                        Sink::TraitSpec => push(&mut c.trait_spec),
                        Sink::Loop(n) => push(c.loops.entry(*n).or_default()),
                        Sink::Closure(n) => push(c.closures.entry(*n).or_default()),
                        Sink::At => push(&mut c.at.last_mut().unwrap().1),
                        _ => unreachable!(),
                    }
                }
            }
        }
        m
    }
}
