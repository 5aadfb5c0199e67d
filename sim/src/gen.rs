//! Generates schemas (from a small model of CDDL), documents that match them or
//! nearly do, and damage.  Pure functions of the generator's random stream.

use crate::doc::{Dmg, Doc};
use crate::rng::Rng;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum T {
    Prim(&'static str),
    Lit(Doc),
    Range(Doc, Doc, bool),
    /// Limits given by rules.
    RangeN(String, String, Doc, Doc, bool),
    /// target, operator, argument text, example values
    Ctl(&'static str, &'static str, String, Vec<Doc>),
    Cbor(Box<T>),
    Choice(Vec<T>),
    Arr(G),
    Map(G),
    Ref(String, Vec<T>),
    ChRef(String),
    ChIn(G),
}

/// Group choices of entries.
#[derive(Clone, Debug)]
pub struct G(pub Vec<Vec<E>>);

#[derive(Clone, Debug)]
pub struct E {
    pub occ: Occ,
    pub key: K,
    pub val: V,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Occ {
    One,
    Opt,
    Star,
    Plus,
    Num(u32, u32),
}

#[derive(Clone, Debug)]
pub enum K {
    No,
    Colon(Doc),
    Arrow(Box<T>, bool),
}

#[derive(Clone, Debug)]
pub enum V {
    T(T),
    Grp(G),
    Unwrap(String),
    /// `&name` / `&( .. )` as a map member
    ChG(String),
    ChGIn(G),
}

#[derive(Clone, Debug)]
pub enum Body {
    T(T),
    G(G),
}

#[derive(Clone, Debug)]
pub struct RuleM {
    pub name: String,
    pub parms: Vec<String>,
    pub body: Body,
}

#[derive(Clone, Debug, Default)]
pub struct Spec {
    pub rules: Vec<RuleM>,
}

pub fn e(val: V) -> E {
    E { occ: Occ::One, key: K::No, val }
}

// ---- text ---------------------------------------------------------------------------

fn lit_text(d: &Doc) -> String {
    match d {
        Doc::I(i) => i.to_string(),
        Doc::F(f) => format!("{:?}", f),
        Doc::B(b) => b.to_string(),
        Doc::S(s) => format!("{:?}", s),
        Doc::Y(b) => format!("h'{}'", b.iter().map(|x| format!("{:02x}", x)).collect::<String>()),
        _ => "nil".into(),
    }
}

impl T {
    /// As a type2 (parenthesised where needed).
    fn t2(&self) -> String {
        match self {
            T::Choice(_) | T::Range(..) | T::RangeN(..) | T::Ctl(..) | T::Cbor(_) => format!("({})", self.text()),
            _ => self.text(),
        }
    }
    fn t1(&self) -> String {
        match self {
            T::Choice(_) => format!("({})", self.text()),
            _ => self.text(),
        }
    }
    pub fn text(&self) -> String {
        match self {
            T::Prim(p) => p.to_string(),
            T::Lit(d) => lit_text(d),
            T::Range(a, b, i) => format!("{}{}{}", lit_text(a), if *i { ".." } else { "..." }, lit_text(b)),
            T::RangeN(a, b, _, _, i) => format!("{} {} {}", a, if *i { ".." } else { "..." }, b),
            T::Ctl(t, op, arg, _) => format!("{} .{} {}", t, op, arg),
            T::Cbor(t) => format!("bstr .cbor {}", t.t2()),
            T::Choice(v) => v.iter().map(T::t1).collect::<Vec<_>>().join(" / "),
            T::Arr(g) => format!("[{}]", g.text()),
            T::Map(g) => format!("{{{}}}", g.text()),
            T::Ref(n, a) => {
                if a.is_empty() {
                    n.clone()
                } else {
                    format!("{}<{}>", n, a.iter().map(T::t1).collect::<Vec<_>>().join(", "))
                }
            }
            T::ChRef(n) => format!("&{}", n),
            T::ChIn(g) => format!("&({})", g.text()),
        }
    }
}

impl G {
    pub fn text(&self) -> String {
        self.0
            .iter()
            .map(|c| c.iter().map(E::text).collect::<Vec<_>>().join(", "))
            .collect::<Vec<_>>()
            .join(" // ")
    }
    pub fn one(v: Vec<E>) -> G {
        G(vec![v])
    }
}

impl E {
    pub fn text(&self) -> String {
        let o = match self.occ {
            Occ::One => String::new(),
            Occ::Opt => "? ".into(),
            Occ::Star => "* ".into(),
            Occ::Plus => "+ ".into(),
            Occ::Num(a, b) => format!("{}*{} ", a, b),
        };
        let k = match &self.key {
            K::No => String::new(),
            K::Colon(Doc::S(s)) if s.chars().all(|c| c.is_ascii_alphanumeric()) && !s.is_empty() && !s.as_bytes()[0].is_ascii_digit() => {
                format!("{}: ", s)
            }
            K::Colon(d) => format!("{}: ", lit_text(d)),
            K::Arrow(t, cut) => format!("{}{} => ", t.t1(), if *cut { " ^" } else { "" }),
        };
        let v = match &self.val {
            V::T(t) => t.text(),
            V::Grp(g) => format!("({})", g.text()),
            V::Unwrap(n) => format!("~{}", n),
            V::ChG(n) => format!("&{}", n),
            V::ChGIn(g) => format!("&({})", g.text()),
        };
        format!("{}{}{}", o, k, v)
    }
}

impl RuleM {
    pub fn text(&self) -> String {
        let p = if self.parms.is_empty() { String::new() } else { format!("<{}>", self.parms.join(", ")) };
        let b = match &self.body {
            Body::T(t) => t.text(),
            Body::G(g) => format!("({})", g.text()),
        };
        format!("{}{} = {}", self.name, p, b)
    }
}

impl Spec {
    pub fn texts(&self) -> Vec<String> {
        self.rules.iter().map(RuleM::text).collect()
    }
    pub fn get(&self, n: &str) -> Option<&RuleM> {
        self.rules.iter().find(|r| r.name == n)
    }
}

// ---- schemas ------------------------------------------------------------------------

/// What may occur in a generated schema.
#[derive(Clone, Copy)]
pub struct Opts {
    /// Only constructs that never fail fatally (no .cbor, no dangling names).
    pub safe: bool,
    /// No map keys with cut semantics.
    pub no_cut: bool,
    pub generics: bool,
    pub json: bool,
}

pub struct Gen<'r> {
    pub r: &'r mut Rng,
    pub o: Opts,
    pub suffix: &'static str,
    spec: Spec,
    lims: Vec<(String, i128)>,
    keys: Vec<String>,
    scal: Vec<String>,
    chs: Vec<String>,
    arrs: Vec<String>,
    maps: Vec<String>,
    agrp: Vec<String>,
    mgrp: Vec<String>,
    gens: Vec<(String, usize)>,
    parms: Vec<String>,
}

const KEYS: [&str; 6] = ["a", "b", "c", "d", "e", "f"];
const TEXTS: [&str; 7] = ["x", "y", "zz", "", "hello", "a", "b"];
pub const SUFFIXES: [&str; 6] = ["", "-a", ".b", "_", "-x1", "Q"];

impl<'r> Gen<'r> {
    pub fn new(r: &'r mut Rng, o: Opts, suffix: &'static str) -> Gen<'r> {
        Gen {
            r,
            o,
            suffix,
            spec: Spec::default(),
            lims: Vec::new(),
            keys: Vec::new(),
            scal: Vec::new(),
            chs: Vec::new(),
            arrs: Vec::new(),
            maps: Vec::new(),
            agrp: Vec::new(),
            mgrp: Vec::new(),
            gens: Vec::new(),
            parms: Vec::new(),
        }
    }

    fn name(&self, class: &str, i: usize) -> String {
        format!("{}{}{}", class, i, self.suffix)
    }

    fn prim(&mut self) -> T {
        let json = ["int", "uint", "tstr", "bool", "float", "nil", "any", "nint", "text"];
        let cbor = ["int", "bstr", "tstr", "bytes", "uint", "float", "float32", "null", "uri", "tdate", "biguint"];
        T::Prim(if self.o.json { *self.r.pick(&json) } else { *self.r.pick(&cbor) })
    }

    fn lit(&mut self) -> Doc {
        match self.r.below(if self.o.json { 8 } else { 9 }) {
            0..=2 => Doc::I(self.r.below(9) as i128 - 2),
            3 => Doc::I(*self.r.pick(&[255, 256, 65535, 65536, -1, i64::MAX as i128, u64::MAX as i128])),
            4..=5 => Doc::S((*self.r.pick(&TEXTS)).into()),
            6 => Doc::F(*self.r.pick(&[0.5, 1.0, -2.5])),
            7 => Doc::B(self.r.pct(50)),
            _ => Doc::Y(vec![1, self.r.below(3) as u8]),
        }
    }

    fn lim_arg(&mut self) -> (String, i128) {
        if !self.lims.is_empty() && self.r.pct(65) {
            self.r.pick(&self.lims).clone()
        } else {
            let n = *self.r.pick(&[0, 1, 2, 3, 5, 8, 200]);
            (n.to_string(), n)
        }
    }

    fn ctl(&mut self) -> T {
        match self.r.below(8) {
            0 | 1 => {
                let op = *self.r.pick(&["lt", "le", "gt", "ge"]);
                let (a, n) = self.lim_arg();
                let t = *self.r.pick(&["int", "uint", "nint"]);
                T::Ctl(t, op, a, vec![Doc::I(n), Doc::I(n - 1), Doc::I(n + 1), Doc::I(0), Doc::I(-7)])
            }
            2 => {
                let (a, n) = self.lim_arg();
                let n = n.min(20) as usize;
                T::Ctl("tstr", "size", a, vec![Doc::S("q".repeat(n)), Doc::S("q".repeat(n + 1)), Doc::S(String::new())])
            }
            3 => {
                let (a, b) = (self.r.below(3), self.r.range(2, 5));
                T::Ctl(
                    "tstr",
                    "size",
                    format!("({}..{})", a, b),
                    vec![Doc::S("q".repeat(a as usize)), Doc::S("q".repeat(b as usize)), Doc::S("q".repeat(b as usize + 1))],
                )
            }
            4 => {
                let (a, n) = self.lim_arg();
                let _ = n;
                T::Ctl("uint", "size", a, vec![Doc::I(0), Doc::I(255), Doc::I(256), Doc::I(70000), Doc::I(1)])
            }
            5 if !self.o.json => {
                let (a, n) = self.lim_arg();
                let n = n.min(20) as usize;
                T::Ctl("bstr", "size", a, vec![Doc::Y(vec![7; n]), Doc::Y(vec![7; n + 1])])
            }
            _ => {
                let (re, ex): (&str, &[&str]) = *self.r.pick(&[
                    ("[a-z]+", &["abc", "x", "A1", ""] as &[&str]),
                    ("^[0-9]{2,3}$", &["12", "123", "1", "1234"]),
                    ("x|yy?", &["x", "yy", "z"]),
                    ("^(foo|ba[rz])$", &["foo", "bar", "baz", "qux"]),
                ]);
                T::Ctl("tstr", "regexp", format!("{:?}", re), ex.iter().map(|s| Doc::S(s.to_string())).collect())
            }
        }
    }

    fn scalar(&mut self, d: u32) -> T {
        loop {
            return match self.r.below(14) {
                0..=2 => self.prim(),
                3 | 4 => T::Lit(self.lit()),
                5 => {
                    if self.r.pct(70) {
                        let a = self.r.below(6) as i128 - 3;
                        let b = a + self.r.below(6) as i128;
                        T::Range(Doc::I(a), Doc::I(b), self.r.pct(60))
                    } else {
                        T::Range(Doc::F(0.5), Doc::F(2.5), self.r.pct(60))
                    }
                }
                6 if self.lims.len() > 1 => {
                    let a = self.r.pick(&self.lims).clone();
                    let b = self.r.pick(&self.lims).clone();
                    T::RangeN(a.0, b.0, Doc::I(a.1), Doc::I(b.1), self.r.pct(60))
                }
                7 | 8 => self.ctl(),
                9 if d > 0 && !self.o.safe && !self.o.json => T::Cbor(Box::new(self.ty(d - 1))),
                10 if d > 0 => {
                    let n = self.r.range(2, 4);
                    T::Choice((0..n).map(|_| self.scalar(d - 1)).collect())
                }
                11 | 12 if !self.scal.is_empty() => T::Ref(self.r.pick(&self.scal).clone(), vec![]),
                13 if !self.chs.is_empty() => T::ChRef(self.r.pick(&self.chs).clone()),
                13 if d > 0 => {
                    let n = self.r.range(1, 3);
                    let v = (0..n).map(|_| self.ch_entry(d - 1)).collect();
                    T::ChIn(G::one(v))
                }
                _ => continue,
            };
        }
    }

    fn ch_entry(&mut self, d: u32) -> E {
        if self.r.pct(20) && !self.chs.is_empty() {
            return e(V::T(T::Ref(self.r.pick(&self.chs).clone(), vec![])));
        }
        let mut x = e(V::T(self.scalar(d)));
        if self.r.pct(60) {
            x.key = K::Colon(Doc::S((*self.r.pick(&KEYS)).into()));
        }
        x
    }

    pub fn ty(&mut self, d: u32) -> T {
        loop {
            return match self.r.below(12) {
                0..=4 => self.scalar(d),
                5 if d > 0 => T::Arr(self.garr(d - 1)),
                6 if d > 0 => T::Map(self.gmap(d - 1)),
                7 if !self.arrs.is_empty() => T::Ref(self.r.pick(&self.arrs).clone(), vec![]),
                8 if !self.maps.is_empty() => T::Ref(self.r.pick(&self.maps).clone(), vec![]),
                9 if !self.gens.is_empty() && d > 0 => {
                    let (n, k) = self.r.pick(&self.gens).clone();
                    T::Ref(n, (0..k).map(|_| self.ty(d - 1)).collect())
                }
                10 if !self.parms.is_empty() => T::Ref(self.r.pick(&self.parms).clone(), vec![]),
                11 if d > 0 => {
                    let n = self.r.range(2, 3);
                    T::Choice((0..n).map(|_| self.ty(d - 1)).collect())
                }
                _ => continue,
            };
        }
    }

    fn occ(&mut self) -> Occ {
        match self.r.below(10) {
            0 | 1 => Occ::Opt,
            2 => Occ::Star,
            3 => Occ::Plus,
            4 => {
                let a = self.r.below(3) as u32;
                Occ::Num(a, a.max(1) + self.r.below(3) as u32)
            }
            _ => Occ::One,
        }
    }

    fn arr_entry(&mut self, d: u32) -> E {
        let occ = self.occ();
        let val = match self.r.below(10) {
            0 if d > 0 => V::Grp(self.garr(d - 1)),
            1 if !self.agrp.is_empty() => V::T(T::Ref(self.r.pick(&self.agrp).clone(), vec![])),
            2 if !self.arrs.is_empty() => V::Unwrap(self.r.pick(&self.arrs).clone()),
            _ => V::T(self.ty(d)),
        };
        let key = if self.r.pct(15) && matches!(val, V::T(_)) { K::Colon(Doc::S((*self.r.pick(&KEYS)).into())) } else { K::No };
        E { occ, key, val }
    }

    pub fn garr(&mut self, d: u32) -> G {
        let c = if self.r.pct(25) { 2 } else { 1 };
        G((0..c)
            .map(|_| {
                let n = self.r.range(1, 3);
                (0..n).map(|_| self.arr_entry(d)).collect()
            })
            .collect())
    }

    fn key(&mut self) -> K {
        match self.r.below(10) {
            0..=4 if !self.o.no_cut => K::Colon(Doc::S((*self.r.pick(&KEYS)).into())),
            5 if !self.o.no_cut && !self.o.json => K::Colon(Doc::I(self.r.below(4) as i128)),
            6 | 7 if !self.keys.is_empty() => {
                let cut = !self.o.no_cut && self.r.pct(25);
                K::Arrow(Box::new(T::Ref(self.r.pick(&self.keys).clone(), vec![])), cut)
            }
            8 => {
                let cut = !self.o.no_cut && self.r.pct(20);
                K::Arrow(Box::new(T::Prim("tstr")), cut)
            }
            _ => {
                let cut = !self.o.no_cut && self.r.pct(20);
                K::Arrow(Box::new(T::Lit(Doc::S((*self.r.pick(&KEYS)).into()))), cut)
            }
        }
    }

    fn map_entry(&mut self, d: u32) -> E {
        let occ = self.occ();
        match self.r.below(12) {
            0 if d > 0 => E { occ, key: K::No, val: V::Grp(self.gmap(d - 1)) },
            1 if !self.mgrp.is_empty() => E { occ, key: K::No, val: V::T(T::Ref(self.r.pick(&self.mgrp).clone(), vec![])) },
            2 if !self.maps.is_empty() => E { occ, key: K::No, val: V::Unwrap(self.r.pick(&self.maps).clone()) },
            3 if d > 0 => E { occ, key: K::No, val: V::ChGIn(self.gmap(d - 1)) },
            4 if !self.mgrp.is_empty() && self.r.pct(50) => E { occ, key: K::No, val: V::ChG(self.r.pick(&self.mgrp).clone()) },
            _ => {
                let key = self.key();
                E { occ, key, val: V::T(self.ty(d)) }
            }
        }
    }

    pub fn gmap(&mut self, d: u32) -> G {
        let c = if self.r.pct(20) { 2 } else { 1 };
        G((0..c)
            .map(|_| {
                let n = self.r.range(1, 3);
                (0..n).map(|_| self.map_entry(d)).collect()
            })
            .collect())
    }

    fn add(&mut self, name: String, parms: Vec<String>, body: Body) {
        self.spec.rules.push(RuleM { name, parms, body });
    }

    /// The supporting rules.
    pub fn support(&mut self) {
        for i in 0..self.r.range(1, 3) as usize {
            let n = self.name("lim", i);
            let v = *self.r.pick(&[0, 1, 2, 3, 4, 7, 16]);
            if i > 0 && self.r.pct(25) {
                let (o, v) = self.r.pick(&self.lims).clone();
                self.add(n.clone(), vec![], Body::T(T::Ref(o, vec![])));
                self.lims.push((n, v));
            } else {
                self.add(n.clone(), vec![], Body::T(T::Lit(Doc::I(v))));
                self.lims.push((n, v));
            }
        }
        for i in 0..self.r.below(3) as usize {
            let n = self.name("k", i);
            let t = match self.r.below(4) {
                0 => T::Prim("tstr"),
                1 => T::Lit(Doc::S((*self.r.pick(&KEYS)).into())),
                2 => T::Choice(vec![T::Lit(Doc::S((*self.r.pick(&KEYS)).into())), T::Lit(Doc::S((*self.r.pick(&KEYS)).into()))]),
                _ if self.o.json => T::Ctl("tstr", "regexp", "\"[a-d]\"".into(), vec![Doc::S("a".into()), Doc::S("d".into())]),
                _ => T::Prim("int"),
            };
            self.add(n.clone(), vec![], Body::T(t));
            self.keys.push(n);
        }
        for i in 0..self.r.range(1, 4) as usize {
            let n = self.name("s", i);
            let t = self.scalar(1);
            self.add(n.clone(), vec![], Body::T(t));
            self.scal.push(n);
        }
        for i in 0..self.r.below(3) as usize {
            let n = self.name("c", i);
            let k = self.r.range(1, 3);
            let v = (0..k).map(|_| self.ch_entry(1)).collect();
            self.add(n.clone(), vec![], Body::G(G::one(v)));
            self.chs.push(n);
        }
        if self.o.generics {
            for i in 0..self.r.below(3) as usize {
                let n = self.name("q", i);
                // A parameter may have the name of a rule.
                let ps: Vec<String> = match self.r.below(9) {
                    0 | 1 => vec![self.r.pick(&self.scal).clone()],
                    2 | 3 => vec!["T".into(), "U".into()],
                    4 => ["T", "U", "V", "W", "X", "Y"][..3 + self.r.us(4)].iter().map(|p| p.to_string()).collect(),
                    _ => vec!["T".into()],
                };
                self.parms = ps.clone();
                let t = match self.r.below(4) {
                    0 => T::Choice(vec![T::Ref(ps[0].clone(), vec![]), self.scalar(0)]),
                    1 => T::Arr(G::one(vec![E { occ: self.occ(), key: K::No, val: V::T(T::Ref(ps[0].clone(), vec![])) }, e(V::T(self.ty(0)))])),
                    2 => {
                        let key = self.key();
                        T::Map(G::one(vec![E { occ: Occ::One, key, val: V::T(T::Ref(ps[ps.len() - 1].clone(), vec![])) }]))
                    }
                    _ => self.ty(1),
                };
                self.parms.clear();
                self.add(n.clone(), ps.clone(), Body::T(t));
                self.gens.push((n, ps.len()));
            }
        }
        for i in 0..self.r.below(3) as usize {
            let n = self.name("g", i);
            let g = self.garr(1);
            self.add(n.clone(), vec![], Body::G(g));
            self.agrp.push(n);
        }
        for i in 0..self.r.below(3) as usize {
            let n = self.name("h", i);
            let g = self.gmap(1);
            self.add(n.clone(), vec![], Body::G(g));
            self.mgrp.push(n);
        }
        for i in 0..self.r.below(3) as usize {
            let n = self.name("p", i);
            let g = self.garr(1);
            self.add(n.clone(), vec![], Body::T(T::Arr(g)));
            self.arrs.push(n);
        }
        for i in 0..self.r.below(3) as usize {
            let n = self.name("m", i);
            let g = self.gmap(1);
            self.add(n.clone(), vec![], Body::T(T::Map(g)));
            self.maps.push(n);
        }
    }

    /// A whole schema; returns it with the names worth validating against.
    pub fn schema(mut self) -> (Spec, Vec<String>) {
        self.support();
        let top = format!("top{}", self.suffix);
        let t = match self.r.below(6) {
            0 => self.ty(2),
            1..=2 => T::Arr(self.garr(2)),
            3..=4 => T::Map(self.gmap(2)),
            _ => {
                // Recursive.
                let me = V::T(T::Ref(top.clone(), vec![]));
                if self.r.pct(50) {
                    let mut g = self.garr(1);
                    g.0[0].push(E { occ: if self.r.pct(50) { Occ::Star } else { Occ::Opt }, key: K::No, val: me });
                    T::Arr(g)
                } else {
                    let mut g = self.gmap(1);
                    g.0[0].push(E { occ: Occ::Opt, key: K::Arrow(Box::new(T::Lit(Doc::S("f".into()))), false), val: me });
                    T::Map(g)
                }
            }
        };
        self.add(top.clone(), vec![], Body::T(t));
        let mut start = vec![top.clone(), top];
        if !self.o.safe {
            if self.r.pct(8) {
                // A chain of references near the nesting limit.
                let n = *self.r.pick(&[10usize, 30, 44, 47, 48, 49, 50, 51, 60]);
                for i in 0..n {
                    let b = if i + 1 == n { T::Prim("int") } else { T::Ref(self.name("d", i + 1), vec![]) };
                    let name = self.name("d", i);
                    self.add(name, vec![], Body::T(b));
                }
                start.push(self.name("d", 0));
            }
            if self.r.pct(6) {
                // A dangling reference among similar names.
                let i = self.r.us(self.spec.rules.len());
                let z = format!("zz0{}", self.suffix);
                if let Body::T(t) = &mut self.spec.rules[i].body {
                    *t = T::Choice(vec![t.clone(), T::Ref(z.clone(), vec![])]);
                }
                for n in [z.to_uppercase(), format!("{}-", z), format!("{}0", z)] {
                    self.add(n, vec![], Body::T(T::Prim("any")));
                }
            }
            if self.r.pct(5) && self.o.generics && !self.gens.is_empty() {
                // A wrong number of generic arguments.
                let (n, k) = self.gens[0].clone();
                let name = format!("bad{}", self.suffix);
                self.add(name.clone(), vec![], Body::T(T::Choice(vec![T::Ref(n, vec![T::Prim("int"); k + 1]), T::Prim("any")])));
                start.push(name);
            }
        }
        for n in self.arrs.iter().chain(&self.maps).chain(&self.scal).chain(&self.chs) {
            if self.r.pct(20) {
                start.push(n.clone());
            }
        }
        // The order of rules does not matter to the meaning.
        if self.r.pct(30) {
            let n = self.spec.rules.len();
            for i in (1..n).rev() {
                let j = self.r.us(i + 1);
                self.spec.rules.swap(i, j);
            }
        }
        (self.spec, start)
    }

    /// For C10: supporting rules only, then arbitrary use of the generator.
    pub fn finish(self) -> Spec {
        self.spec
    }
}

// ---- documents ----------------------------------------------------------------------

type Binds = Rc<Vec<(String, T, BindsOpt)>>;
#[derive(Clone, Debug)]
pub struct BindsOpt(Option<Binds>);

pub struct Sampler<'a> {
    pub r: &'a mut Rng,
    pub spec: &'a Spec,
    pub fuel: i32,
}

impl Sampler<'_> {
    pub fn rule(&mut self, name: &str) -> Doc {
        self.t(&T::Ref(name.to_string(), vec![]), &Rc::new(Vec::new()))
    }

    pub fn any(&mut self) -> Doc {
        match self.r.below(12) {
            0 => Doc::N,
            1 => Doc::B(self.r.pct(50)),
            2..=4 => Doc::I(self.r.below(12) as i128 - 4),
            5 => Doc::F(*self.r.pick(&[0.5, 1.5, 2.5, -1.0])),
            6..=8 => Doc::S((*self.r.pick(&TEXTS)).into()),
            9 => Doc::A(vec![]),
            10 => Doc::A(vec![Doc::I(1), Doc::S("x".into())]),
            _ => Doc::M(vec![(Doc::S("a".into()), Doc::I(1))]),
        }
    }

    fn prim(&mut self, p: &str) -> Doc {
        match p {
            "int" => Doc::I(self.r.below(20) as i128 - 8),
            "uint" => Doc::I(*self.r.pick(&[0, 1, 2, 5, 200, 70000])),
            "nint" => Doc::I(-1 - self.r.below(9) as i128),
            "tstr" | "text" | "uri" | "tdate" => Doc::S((*self.r.pick(&TEXTS)).into()),
            "bool" => Doc::B(self.r.pct(50)),
            "float" | "float32" => Doc::F(*self.r.pick(&[0.5, 1.5, -2.25, 1e10])),
            "nil" | "null" => Doc::N,
            "bstr" | "bytes" | "biguint" => Doc::Y(vec![self.r.below(256) as u8; self.r.us(4)]),
            _ => self.any(),
        }
    }

    pub fn t(&mut self, t: &T, b: &Binds) -> Doc {
        self.fuel -= 1;
        if self.fuel < 0 {
            return Doc::I(1);
        }
        match t {
            T::Prim(p) => self.prim(p),
            T::Lit(d) => d.clone(),
            T::Range(lo, hi, _) | T::RangeN(_, _, lo, hi, _) => match (lo, hi) {
                (Doc::I(a), Doc::I(c)) if a <= c => Doc::I(a + self.r.below((c - a + 1) as u64) as i128),
                _ => lo.clone(),
            },
            T::Ctl(_, _, _, ex) => self.r.pick(ex).clone(),
            T::Cbor(t) => {
                if self.r.pct(6) {
                    return Doc::Y(vec![0xff, 0x1f]);
                }
                Doc::E(Box::new(self.t(t, b)))
            }
            T::Choice(v) => {
                let i = self.r.us(v.len());
                self.t(&v[i], b)
            }
            T::Arr(g) => {
                let mut o = Vec::new();
                self.g(g, b, &mut o);
                o.truncate(8);
                Doc::A(o.into_iter().map(|x| x.1).collect())
            }
            T::Map(g) => {
                let mut o = Vec::new();
                self.g(g, b, &mut o);
                o.truncate(8);
                let mut m: Vec<(Doc, Doc)> = Vec::new();
                for (k, v) in o {
                    let k = k.unwrap_or_else(|| Doc::S("a".into()));
                    if !m.iter().any(|(x, _)| *x == k) {
                        m.push((k, v));
                    }
                }
                Doc::M(m)
            }
            T::Ref(n, args) => {
                if let Some((_, t, nb)) = b.iter().find(|x| x.0 == *n) {
                    let t = t.clone();
                    let nb = nb.0.clone().unwrap_or_default();
                    return self.t(&t, &nb);
                }
                let Some(r) = self.spec.get(n) else { return self.any() };
                let nb: Binds =
                    Rc::new(r.parms.iter().cloned().zip(args.iter().cloned()).map(|(p, a)| (p, a, BindsOpt(Some(b.clone())))).collect());
                match &r.body {
                    Body::T(t) => self.t(t, &nb),
                    Body::G(g) => self.ch(g, &nb),
                }
            }
            T::ChRef(n) => match self.spec.get(n) {
                Some(RuleM { body: Body::G(g), .. }) => self.ch(g, b),
                _ => self.any(),
            },
            T::ChIn(g) => self.ch(g, b),
        }
    }

    fn ch(&mut self, g: &G, b: &Binds) -> Doc {
        let c = self.r.pick(&g.0);
        if c.is_empty() {
            return self.any();
        }
        let x = self.r.pick(c);
        match &x.val {
            V::T(t) => self.t(t, b),
            _ => self.any(),
        }
    }

    pub fn g(&mut self, g: &G, b: &Binds, out: &mut Vec<(Option<Doc>, Doc)>) {
        let c = self.r.pick(&g.0).clone();
        for x in &c {
            self.e(x, b, out);
        }
    }

    fn e(&mut self, x: &E, b: &Binds, out: &mut Vec<(Option<Doc>, Doc)>) {
        self.fuel -= 1;
        if self.fuel < 0 {
            return;
        }
        let n = match x.occ {
            Occ::One => 1,
            Occ::Opt => self.r.below(2),
            Occ::Star => self.r.below(3),
            Occ::Plus => self.r.range(1, 3),
            Occ::Num(a, c) => self.r.range(u64::from(a), u64::from(c.max(a))).min(4),
        };
        for _ in 0..n {
            match &x.val {
                V::Grp(g) => self.g(g, b, out),
                V::ChGIn(g) => {
                    let c = self.r.pick(&g.0).clone();
                    if !c.is_empty() {
                        let y = self.r.pick(&c).clone();
                        self.e(&y, b, out);
                    }
                }
                V::ChG(n) => {
                    if let Some(RuleM { body: Body::G(g), .. }) = self.spec.get(n).cloned() {
                        self.g(&g, b, out);
                    }
                }
                V::Unwrap(n) => {
                    if let Some(RuleM { body: Body::T(T::Arr(g) | T::Map(g)), .. }) = self.spec.get(n).cloned() {
                        self.g(&g, b, out);
                    }
                }
                V::T(T::Ref(n, _)) if matches!(self.spec.get(n), Some(RuleM { body: Body::G(_), .. })) => {
                    if let Some(RuleM { body: Body::G(g), .. }) = self.spec.get(n).cloned() {
                        self.g(&g, b, out);
                    }
                }
                V::T(t) => {
                    let k = match &x.key {
                        K::No => None,
                        K::Colon(d) => Some(d.clone()),
                        K::Arrow(t, _) => {
                            let k = self.t(t, b);
                            Some(match k {
                                Doc::S(_) | Doc::I(_) => k,
                                _ => Doc::S((*self.r.pick(&KEYS)).into()),
                            })
                        }
                    };
                    let v = self.t(t, b);
                    out.push((k, v));
                }
            }
        }
    }

    /// A small change somewhere in the document.
    pub fn mutate(&mut self, d: &mut Doc) {
        match d {
            Doc::A(v) if !v.is_empty() && self.r.pct(75) => {
                let i = self.r.us(v.len());
                match self.r.below(8) {
                    0 => {
                        v.remove(i);
                    }
                    1 => {
                        let x = v[i].clone();
                        v.insert(i, x);
                    }
                    2 => {
                        let j = self.r.us(v.len());
                        v.swap(i, j);
                    }
                    3 => {
                        let x = self.any();
                        v.push(x);
                    }
                    _ => self.mutate(&mut v[i]),
                }
            }
            Doc::M(v) if !v.is_empty() && self.r.pct(75) => {
                let i = self.r.us(v.len());
                match self.r.below(8) {
                    0 => {
                        v.remove(i);
                    }
                    1 => {
                        let k = Doc::S((*self.r.pick(&KEYS)).into());
                        if !v.iter().any(|(x, _)| *x == k) {
                            v[i].0 = k;
                        }
                    }
                    2 => {
                        let k = Doc::S((*self.r.pick(&KEYS)).into());
                        if !v.iter().any(|(x, _)| *x == k) {
                            let x = self.any();
                            v.push((k, x));
                        }
                    }
                    _ => self.mutate(&mut v[i].1),
                }
            }
            Doc::E(x) if self.r.pct(60) => self.mutate(x),
            _ => *d = self.any(),
        }
    }
}

pub fn json_ok(d: &Doc) -> bool {
    match d {
        Doc::Y(_) | Doc::E(_) | Doc::T(..) => false,
        Doc::A(v) => v.iter().all(json_ok),
        Doc::M(v) => v.iter().all(|(k, d)| matches!(k, Doc::S(_)) && json_ok(d)),
        _ => true,
    }
}

pub fn gen_dmg(r: &mut Rng, len: usize, text: bool) -> Vec<Dmg> {
    let len = len.max(1);
    let n = if r.pct(75) { 1 } else { 2 };
    (0..n)
        .map(|_| match r.below(10) {
            0..=3 => Dmg::Trunc(r.us(len)),
            4 => Dmg::Flip(r.us(len), r.below(8) as u8),
            5 => {
                let b = if text {
                    *r.pick(b"()[]{}<>=/,:;'\"*?+&~^.#$@_-0 9aZ\n\\\xc3\x80\x00h")
                } else {
                    *r.pick(&[0x00, 0x1f, 0x18, 0x1b, 0x3b, 0x5f, 0x7f, 0x9f, 0xbf, 0xff, 0x80, 0xa1, 0xc0, 0xc2, 0xd8, 0xe0, 0xf7, 0xf8, 0xfb, 0xf9, 0x9b, 0xbb])
                };
                Dmg::Over(r.us(len), b)
            }
            6 => Dmg::Lose(r.us(len), 1 + r.us(8)),
            7 => Dmg::Rep(r.us(len), 1 + r.us(12)),
            8 => Dmg::Swap(r.us(len), r.us(len), 1 + r.us(6)),
            _ => Dmg::Over(r.us(len), r.below(256) as u8),
        })
        .collect()
}

/// Deepest bracket nesting of a schema text (ignoring strings).
pub fn nesting(s: &str) -> usize {
    let (mut d, mut m) = (0usize, 0usize);
    for c in s.bytes() {
        match c {
            b'(' | b'[' | b'{' | b'<' => {
                d += 1;
                m = m.max(d);
            }
            b')' | b']' | b'}' | b'>' => d = d.saturating_sub(1),
            _ => (),
        }
    }
    m
}

/// A number in CDDL notation at or beyond some limit.
pub fn number(r: &mut Rng) -> &'static str {
    r.pick(&[
        "0", "-0", "1", "-1", "127", "128", "255", "256", "32767", "65535", "65536", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296",
        "9223372036854775807", "9223372036854775808", "-9223372036854775807", "-9223372036854775808", "-9223372036854775809", "18446744073709551614", "18446744073709551615",
        "18446744073709551616", "-18446744073709551615", "-18446744073709551616", "0x0", "0x7fffffffffffffff", "0x8000000000000000", "-0x8000000000000000", "0xffffffffffffffff",
        "0x10000000000000000", "-0xffffffffffffffff", "0b0", "0b1111111111111111111111111111111111111111111111111111111111111111",
        "0b1000000000000000000000000000000000000000000000000000000000000000", "0b11111111111111111111111111111111111111111111111111111111111111111",
        "-0b1000000000000000000000000000000000000000000000000000000000000000", "1e308", "1e309", "-1e309", "1e-400", "1.7976931348623157e308", "5e-324", "2.2250738585072014e-308", "0.1",
        "-0.0", "1e19", "1e18", "9007199254740993.0", "99999999999999999999999999999999999999999", "-99999999999999999999999999999999999999999", "00", "007",
    ])
}

/// Some numbers of a rule become extreme ones.
pub fn big_numbers(r: &mut Rng, text: &str) -> String {
    let b = text.as_bytes();
    let mut out = String::new();
    let mut p = 0;
    let mut quoted = false;
    while p < b.len() {
        let c = text[p..].chars().next().unwrap();
        if c == '"' {
            quoted = !quoted;
        }
        if !quoted && (c.is_ascii_alphabetic() || c == '_' || c == '$' || c == '@') {
            // A name, which may hold digits.
            while p < b.len() && (b[p].is_ascii_alphanumeric() || b"-_@$".contains(&b[p])) {
                out.push(b[p] as char);
                p += 1;
            }
            continue;
        }
        if !quoted && c.is_ascii_digit() {
            let s = p;
            while p < b.len() && b[p].is_ascii_digit() {
                p += 1;
            }
            if r.pct(60) {
                out.push_str(number(r));
            } else {
                out.push_str(&text[s..p]);
            }
            continue;
        }
        out.push(c);
        p += c.len_utf8();
    }
    if r.pct(25) {
        // As limits of occurrences, sizes and ranges.
        let n = number(r);
        let m = number(r);
        let more = match r.below(8) {
            0 => format!("[{n}*{m} int]"),
            1 => format!("{{{n}* tstr => any}}"),
            2 => format!("[*{n} any]"),
            3 => format!("tstr .size {n}"),
            4 => format!("uint .size {n}"),
            5 => format!("{n}..{m}"),
            6 => format!("int .lt {n}"),
            _ => format!("tstr .size ({n}..{m})"),
        };
        if !out.ends_with(')') {
            out = format!("{out} / {more}");
        }
    }
    out
}

/// Some scalars of a document become extreme ones.
pub fn big_values(r: &mut Rng, d: &mut Doc, json: bool) {
    match d {
        Doc::A(v) => v.iter_mut().for_each(|x| big_values(r, x, json)),
        Doc::M(v) => {
            for (k, x) in v {
                if !json && r.pct(10) {
                    big_values(r, k, json);
                }
                big_values(r, x, json);
            }
        }
        Doc::E(x) | Doc::T(_, x) => big_values(r, x, json),
        _ if r.pct(60) => {
            let ints: [i128; 14] = [
                i64::MAX as i128,
                i64::MAX as i128 + 1,
                i64::MIN as i128,
                i64::MIN as i128 - 1,
                u64::MAX as i128,
                u64::MAX as i128 - 1,
                -(u64::MAX as i128) - 1,
                -(u64::MAX as i128),
                u32::MAX as i128,
                u32::MAX as i128 + 1,
                i32::MIN as i128,
                255,
                256,
                -1,
            ];
            let floats = [f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 1e19, -1e19, 9.007199254740993e15, 0.1, -0.0, 1.8446744073709552e19];
            *d = match r.below(10) {
                0..=5 => Doc::I(*r.pick(&ints)),
                6 if !json => Doc::F(*r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY])),
                _ => Doc::F(*r.pick(&floats)),
            };
        }
        _ => (),
    }
}

/// A schema text in pieces.
fn tokens(text: &str) -> Vec<&str> {
    let mut out = Vec::new();
    let mut rest = text;
    while let Some(c) = rest.chars().next() {
        let word = |f: &dyn Fn(char) -> bool| rest.char_indices().find(|(_, c)| !f(*c)).map_or(rest.len(), |(i, _)| i);
        let quoted = |from: usize, q: char| {
            let mut escaped = false;
            for (i, c) in rest[from..].char_indices().skip(1) {
                if c == q && !escaped {
                    return from + i + 1;
                }
                escaped = c == '\\' && !escaped;
            }
            rest.len()
        };
        let n = if c.is_whitespace() {
            word(&|c| c.is_whitespace())
        } else if c == '"' || c == '\'' {
            quoted(0, c)
        } else if let Some(p) = ["h'", "b64'"].iter().find(|p| rest.starts_with(**p)) {
            quoted(p.len() - 1, '\'')
        } else if c.is_alphanumeric() || "@$_".contains(c) {
            word(&|c| c.is_alphanumeric() || "@$_-".contains(c))
        } else if let Some(p) = ["...", "..", "=>", "//=", "/=", "//"].iter().find(|p| rest.starts_with(**p)) {
            p.len()
        } else if c == '.' {
            1 + rest[1..].char_indices().find(|(_, c)| !c.is_alphanumeric()).map_or(rest.len() - 1, |(i, _)| i)
        } else {
            c.len_utf8()
        };
        out.push(&rest[..n]);
        rest = &rest[n..];
    }
    out
}

/// Something that hardly ever occurs in a schema.
fn odd_token(r: &mut Rng) -> String {
    let t = match r.below(6) {
        0 => *r.pick(&[
            "h''", "h'0'", "h'0g'", "h' 0 1 '", "h'\u{e9}'", "h'0\u{e9}'", "h'\u{e9}\u{e9}'", "h'\\u0041'", "h'00", "h'ff' h'00'", "b64''", "b64'A'", "b64'AA'", "b64'AA=='", "b64'AB=='", "b64'AAE='",
            "b64'AAF='", "b64'AAAA=='", "b64'AAA'", "b64'A=A='", "b64'====' ", "b64'_-__'", "b64'+/=='", "b64'\u{e9}AA='", "b64' AAAA'", "'\\u00e9'", "'\\x'", "'\\'", "'\\uD800'", "'\u{1f600}'",
        ]),
        1 => *r.pick(&[
            "\"\"", "\"\\\"", "\"\\u\"", "\"\\u00\"", "\"\\u00e9\"", "\"\\uD800\"", "\"\\uDC00\\uD800\"", "\"\\uD83D\\uDE00\"", "\"\\uD83D\"", "\"\\u{110000}\"", "\"\\u{41}\"", "\"\\q\"", "\"\\n\\t\\/\\b\"",
            "\"\u{e9}\u{1f600}\u{0}\"", "\"\u{7f}\"", "\"\n\"", "\"\u{feff}\"", "\"\\u\u{e9}000\"", "\"\\\u{e9}\"", "\"",
        ]),
        2 => *r.pick(&[
            "tstr .size -1", "tstr .size (0..-1)", "tstr .size (-2..-1)", "bstr .size (5..1)", "bstr .size (1...1)", "uint .size (0..-1)", "uint .size (-1..1)", "uint .size (1..0)", "uint .size (3...3)",
            "uint .size 0", "uint .size 16", "uint .size 17", "uint .size 15", "uint .size 1.5", "tstr .size \"a\"", "tstr .size (1..1.5)", "int .size 3", "any .size 2", "tstr .size (0..18446744073709551615)",
            "bstr .size (1...9223372036854775807)", "uint .size (1..99)", "uint .size (0...18446744073709551615)", "tstr .size tstr", "tstr .size (a..b)", "[1] .size 1", "tstr .size 9223372036854775807",
        ]),
        3 => *r.pick(&[
            "int .lt -1", "uint .lt 0", "uint .ge -5", "uint .le 18446744073709551615", "int .gt 1.5", "float .lt 1e300", "float .ge 1", "int .lt \"a\"", "tstr .gt 1", "int .eq 3", "tstr .regexp \"(\"", "tstr .regexp \"\"",
            "tstr .regexp \"a{1000}{1000}\"", "tstr .regexp \"(?i)\\\\p{L}+\"", "tstr .regexp \"\\\\xZZ\"", "tstr .regexp \"[\u{e9}-a]\"", "int .regexp \"a\"", "tstr .regexp 1", "bstr .cbor int", "bstr .cbor [* any]",
            "bstr .cbor (any / int)", "tstr .cbor int", "bstr .cborseq int", "tstr .abnf \"x\"", "int .default 1", "any .within any", "1 .ne 2", "(int / tstr) .size 3", "(0..5) .lt 3", "float .lt 1",
        ]),
        4 => *r.pick(&[
            "0..0", "1..0", "0...0", "0...1", "-1..-5", "1.5..2.5", "2.5..1.5", "1..2.5", "1e308..1e309", "\"a\"..\"b\"", "a..b", "0..tstr", "#", "#6", "#6(int)", "#6.1(int)", "#6.18446744073709551616(int)", "#0", "#1.24",
            "#7.25", "#8", "#3.0", "[]", "{}", "()", "[()]", "{()}", "[* ()]", "[0*0 int]", "[5*2 int]", "[2*2 ()]", "{ 0*0 a: int }", "{3*1 tstr => int}", "[*0 int]", "[0* int]", "&()", "&(a: 1)", "&(1, 2)", "&[1]", "~[int]",
            "~{a: int}", "~tstr", "[~tstr]", "{~tstr}", "[~[int]]", "any .cbor any", "{ a ^ => int }", "{ 1 ^ => 2 }", "{ \"a\": 1, a: 2 }", "{ 1.5: 1 }", "{ h'00': 1 }", "{ [1] => 1 }", "{ {} => {} }", "{ nil => 1 }",
            "{ (int / tstr) => any }", "{ 1..5 => any }", "{ (1..5) => any }", "{ * (1..5) => any }",
        ]),
        _ => *r.pick(&[
            "; \u{e9}\n", ";", ";\n;", ";;", "\r\n", "\r", "\t", "\u{a0}", "\u{feff}", "\0", "$", "$$", "@", "_", "$a", "$$b", "a.b", "a-", "-a", "a--b", "a.", ".a", "..", "...", "=>", "=", "/=", "//=", "//", "/", "<>", "<a>", "<a,>", "<,a>",
            "<a, a>", "true", "false", "null", "undefined", "nil", "any", "uint", "number", "float16-32", "biguint", "tdate", "uri", "b64url", "mime-message", "bool", "eb64url", "\u{e9}", "\u{1f600}", "?", "*", "+", "1*", "*1", "1*1", "^",
            "~", "&", "#", ":", ",", "(", ")", "[", "]", "{", "}", "!", "%", "0x", "0b", "0b2", "0xg", "1e", "1e+", "1.", ".5", "--1", "+1", "1_000", "0x1p4", "0x1.8p0", "-0x1", "1e5000", "1.e5",
        ]),
    };
    t.to_string()
}

/// A control with all kinds of operands, and what kind of document it looks at ('t'ext, 'b'ytes, 'n'umber).
pub fn odd_control(r: &mut Rng) -> (String, char) {
    let num = |r: &mut Rng| {
        if r.pct(50) {
            return r.pick(&["0", "1", "-1", "3", "-2", "8", "9", "16", "17"]).to_string();
        }
        r.pick(&[
            "0", "1", "-1", "3", "4", "7", "8", "15", "16", "17", "99", "-2", "1.5", "-0.0", "1e300", "9223372036854775807", "9223372036854775808", "18446744073709551615", "-9223372036854775808", "-9223372036854775809", "\"a\"",
            "tstr", "h'00'", "4294967296", "0x10", "0b1",
        ])
        .to_string()
    };
    let (base, kind) = *r.pick(&[("tstr", 't'), ("bstr", 'b'), ("uint", 'n'), ("int", 'n'), ("float", 'n'), ("number", 'n'), ("nint", 'n'), ("any", 'n')]);
    let c = match kind {
        't' if r.pct(50) => {
            let parts = [
                "a", ".", "(?i)x", "\\\\p{L}", "[^a]", "(a|b)", "\u{e9}", "^", "$", "\\\\b", "(", ")", "[", "\\\\", "{2}", "*", "+", "?", "*?", "{3,1}", "{0,1000}", "\\\\x{10FFFF}", "(?P<n>a)", "(?=a)", "\\\\1", "(?s).", "{", "\\\"", "#",
                " ", "\u{1f600}", "", "a*",
            ];
            let n = 1 + r.us(4);
            let s: String = (0..n).map(|_| *r.pick(&parts)).collect();
            format!("{base} .{} \"{s}\"", r.pick(&["regexp", "regexp", "regexp", "pcre"]))
        }
        'b' if r.pct(60) => format!(
            "bstr .cbor {}",
            r.pick(&["any", "any", "int", "(int / tstr)", "[* any]", "{* any => any}", "[any, any]", "nil", "(bstr .cbor any)", "{* tstr => int}", "bstr", "undefined", "float", "#", "1..5"])
        ),
        _ => {
            let op = *r.pick(&["size", "size", "size", "lt", "le", "gt", "ge", "eq", "ne", "bits", "default"]);
            let operand = match r.below(3) {
                0 => num(r),
                1 => format!("({}..{})", num(r), num(r)),
                _ => format!("({}...{})", num(r), num(r)),
            };
            format!("{base} .{op} {operand}")
        }
    };
    (c, kind)
}

/// A rule in which a few pieces were replaced, lost, doubled or exchanged.
pub fn odd_rule(r: &mut Rng, text: &str) -> String {
    let mut v: Vec<String> = tokens(text).into_iter().map(String::from).collect();
    if r.pct(30) {
        // Otherwise fine.
        let t = odd_token(r);
        return match r.below(4) {
            0 => format!("{text} / {t}"),
            1 => format!("{text} / [* {t}]"),
            2 => format!("{text} / {{* tstr => {t}}}"),
            _ => {
                let name = v.first().cloned().unwrap_or_default();
                format!("{name} = {t} / any")
            }
        };
    }
    for _ in 0..1 + r.us(2) {
        if v.is_empty() {
            break;
        }
        let i = if v.len() > 4 && r.pct(80) { 3 + r.us(v.len() - 3) } else { r.us(v.len()) };
        match r.below(10) {
            0..=5 => v[i] = odd_token(r),
            6 => {
                v.remove(i);
            }
            7 => {
                let t = v[i].clone();
                v.insert(i, t);
            }
            8 => {
                let j = r.us(v.len());
                v.swap(i, j);
            }
            _ => {
                let t = odd_token(r);
                v.insert(i, t);
            }
        }
    }
    v.concat()
}
