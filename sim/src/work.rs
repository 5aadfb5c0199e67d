//! Building blocks of workloads.

use crate::corpus;
use crate::doc::{Dmg, Doc};
use crate::gen::{json_ok, Gen, Opts, Sampler, Spec, SUFFIXES};
use crate::kernels;
use crate::model::*;
use crate::props::rename;
use crate::rng::Rng;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Target {
    pub schema: usize,
    pub rule: String,
    pub doc: usize,
}

pub struct Work {
    pub r: Rng,
    pub scn: Scenario,
    pub targets: Vec<Target>,
}

pub const BUDGET: u64 = 30_000_000;

impl Work {
    pub fn new(prop: &str, mode: &str, seed: u64) -> Work {
        Work {
            r: Rng::new(seed),
            scn: Scenario {
                prop: prop.into(),
                mode: mode.into(),
                seed,
                env: Env::plain(),
                budget: BUDGET,
                ..Scenario::default()
            },
            targets: Vec::new(),
        }
    }

    pub fn doc(&mut self, d: Doc) -> usize {
        self.scn.docs.push(DocSpec { doc: d, dmg: Vec::new() });
        self.scn.docs.len() - 1
    }

    pub fn rules(&mut self, rules: Vec<String>) -> usize {
        let sep = if self.r.pct(70) { 0 } else { self.r.below(3) as u8 };
        self.scn.schemas.push(Schema { rules, sep, dmg: Vec::new() });
        self.scn.schemas.len() - 1
    }

    pub fn opts(&mut self) -> Opts {
        Opts { safe: false, no_cut: false, generics: self.r.pct(70), json: self.r.pct(60) }
    }

    /// A generated schema with documents for it.
    pub fn generated(&mut self, o: Opts, suffix: &'static str, ndocs: usize) -> (usize, Spec) {
        let (spec, starts) = Gen::new(&mut self.r, o, suffix).schema();
        let s = self.rules(spec.texts());
        for _ in 0..ndocs {
            let rule = self.r.pick(&starts).clone();
            let d = sample(&mut self.r, &spec, &rule);
            let doc = self.doc(d);
            self.targets.push(Target { schema: s, rule, doc });
        }
        (s, spec)
    }

    pub fn curated(&mut self) -> usize {
        let c = corpus::case(self.r.us(corpus::CORPUS.len()));
        let s = self.rules(c.rules);
        for d in c.docs {
            let doc = self.doc(d);
            self.targets.push(Target { schema: s, rule: c.rule.clone(), doc });
        }
        s
    }

    /// A kernel; its variants share the documents.
    pub fn kernel(&mut self, variants: usize) {
        let k = kernels::kernel(&mut self.r, variants);
        let docs: Vec<usize> = k.docs.into_iter().map(|d| self.doc(d)).collect();
        for v in k.variants {
            let schema = self.rules(v);
            for doc in &docs {
                self.targets.push(Target { schema, rule: k.rule.clone(), doc: *doc });
            }
        }
    }

    /// A chain of one to `n` references, each made in some way (see SITES), with
    /// documents that lead to its end.
    pub fn site(&mut self, n: usize) -> usize {
        let n = 1 + self.r.us(n);
        let (end, docs) = *self.r.pick(kernels::ENDS);
        let mut rules = corpus::split(&end.replace('#', &n.to_string()));
        let mut wraps = Vec::new();
        for i in 0..n {
            let (text, wrap) = if self.r.pct(70) {
                *self.r.pick(kernels::SITES)
            } else {
                *self.r.pick(&kernels::LINKS)
            };
            let next = if i + 1 == n { format!("e{n}") } else { format!("s{}", i + 1) };
            let mut parts = corpus::split(&text.replace('X', &next).replace('#', &i.to_string()));
            parts[0] = format!("s{i} = {}", parts[0]);
            rules.extend(parts);
            wraps.push(wrap);
        }
        rules.push("g1<T> = T / nil".into());
        rules.push("g2<T, U> = U / T".into());
        let schema = self.rules(rules);
        for d in corpus::docs(docs) {
            for k in 0..2 {
                let mut d = d.clone();
                // Some documents leave the way before its end.
                let from = if k == 0 { n } else { self.r.us(n + 1) };
                for w in wraps[..from].iter().rev() {
                    d = w.put(d);
                    if k == 1 && self.r.pct(30) {
                        match &mut d {
                            Doc::A(v) => v.push(Doc::N),
                            Doc::M(m) => m.push((Doc::S("j".into()), Doc::I(1))),
                            _ => (),
                        }
                    }
                }
                let doc = self.doc(d);
                self.targets.push(Target { schema, rule: "s0".into(), doc });
            }
        }
        schema
    }

    /// A copy of a schema with something small changed, for the same documents.
    pub fn variant(&mut self, schema: usize) {
        let mut rules = self.scn.schemas[schema].rules.clone();
        for _ in 0..1 + self.r.us(2) {
            vary(&mut self.r, &mut rules);
        }
        let s = self.rules(rules);
        for i in 0..self.targets.len() {
            let t = self.targets[i].clone();
            if t.schema == schema {
                self.targets.push(Target { schema: s, ..t });
            }
        }
    }

    /// A schema that cannot be compiled (never a target).
    pub fn invalid(&mut self) -> usize {
        let mut rules: Vec<String> = Vec::new();
        if self.r.pct(40) {
            rules.push("ok1 = [* int]".into());
        }
        let list = if self.r.pct(45) { kernels::MEANINGLESS } else { kernels::INVALID };
        let mut bad = (*self.r.pick(list)).to_string();
        if bad.starts_with("t = ") && self.r.pct(60) {
            bad = format!("{} = {}", self.r.pick(&["x", "ok9", "t2", "other-name", "a_b"]), &bad[4..]);
        }
        rules.push(bad);
        if self.r.pct(25) {
            rules.push("ok2 = {* tstr => ok1}".into());
        }
        self.rules(rules)
    }

    /// Put a chain of names in front of a target's rule, so that what used to happen
    /// near the surface happens close to the nesting limit.
    pub fn deepen(&mut self, t: &Target) -> Target {
        let n = *self.r.pick(&[20u64, 30, 35, 40, 42, 44, 45, 46, 47, 48]);
        let dp = |i: u64| format!("dp{i}");
        let name = dp(n);
        let rules = &mut self.scn.schemas[t.schema].rules;
        if !rules.iter().any(|x| x.starts_with("dp")) {
            rules.push(format!("dp0 = {}", t.rule));
            for i in 1..=48 {
                rules.push(format!("dp{i} = dp{}", i - 1));
            }
        } else if !rules.iter().any(|x| *x == format!("dp0 = {}", t.rule)) {
            return t.clone();
        }
        Target { rule: name, ..t.clone() }
    }

    /// Turn some targets into deep ones.
    pub fn deepen_some(&mut self, pct: u64) {
        if self.targets.is_empty() || !self.r.pct(pct) {
            return;
        }
        for i in 0..self.targets.len() {
            if self.r.pct(60) {
                let t = self.targets[i].clone();
                self.targets[i] = self.deepen(&t);
            }
        }
    }

    /// Some workloads are big in one respect or another: long arrays, maps and texts,
    /// many rules, long names, many options.
    pub fn swell_some(&mut self, pct: u64) {
        if self.r.pct(15) {
            for d in &mut self.scn.docs {
                if d.dmg.is_empty() && self.r.pct(60) {
                    d.dmg.push(Dmg::Space(self.r.next()));
                }
            }
        }
        if !self.r.pct(pct) || self.scn.schemas.is_empty() {
            return;
        }
        let n = size(&mut self.r);
        match self.r.below(10) {
            0..=4 => self.swell_docs(n),
            5 => {
                let front = self.r.pct(50);
                for s in &mut self.scn.schemas {
                    let pads = (0..n).map(|i| format!("pad{i} = {}", ["int", "[* tstr]", "pad0", "{a: 1}"][i % 4]));
                    if front {
                        s.rules.splice(0..0, pads);
                    } else {
                        s.rules.extend(pads);
                    }
                }
            }
            6 | 7 => self.swell_names(n),
            _ => {
                let more: Vec<String> = (0..n.min(130)).map(|i| format!("\"!o{i}!\"")).collect();
                let more = more.join(" / ");
                let at = self.r.below(3);
                for s in &mut self.scn.schemas {
                    for rule in &mut s.rules {
                        let Some((l, r)) = rule.split_once(" = ") else { continue };
                        let first = r.bytes().next().unwrap_or(b'(');
                        if matches!(first, b'(' | b'"' | b'-' | b'?' | b'*' | b'+') || first.is_ascii_digit() || r.contains("//") {
                            continue;
                        }
                        *rule = match at {
                            0 => format!("{l} = {more} / {r}"),
                            1 => format!("{l} = {r} / {more}"),
                            _ => format!("{l} = {more} / {r} / {more}"),
                        };
                    }
                }
                if n < 40 && self.r.pct(50) {
                    self.swell_docs(n);
                }
            }
        }
    }

    /// Longer names for (some of) the rules.
    pub fn swell_names(&mut self, n: usize) {
        let tail = format!("-{}", "n".repeat(n));
        let plain = |x: &str| !x.is_empty() && x.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-' || b == b'_');
        let some = if self.r.pct(50) { 100 } else { 40 };
        let mut map: BTreeMap<String, String> = BTreeMap::new();
        for s in &self.scn.schemas {
            for rule in &s.rules {
                let name = rule.split([' ', '=', '<']).next().unwrap_or("");
                if plain(name) && !map.contains_key(name) && self.r.pct(some) {
                    map.insert(name.into(), format!("{name}{tail}"));
                }
            }
        }
        for s in &mut self.scn.schemas {
            for rule in &mut s.rules {
                *rule = rename(rule, &map);
            }
        }
        for t in &mut self.targets {
            if let Some(new) = map.get(&t.rule) {
                t.rule = new.clone();
            }
        }
    }

    pub fn swell_docs(&mut self, n: usize) {
        for i in 0..self.scn.docs.len() {
            if self.r.pct(70) {
                let mut d = self.scn.docs[i].doc.clone();
                swell(&mut self.r, &mut d, n);
                self.scn.docs[i].doc = d;
            }
        }
    }

    /// One to `n` schemas with their documents.
    pub fn some(&mut self, n: usize, ndocs: usize) {
        let k = 1 + self.r.us(n);
        if self.r.pct(20) {
            self.kernel(k);
            return;
        }
        // Schemas of several tenants often use the same names.
        let same = self.r.pct(60);
        for _ in 0..k {
            if self.r.pct(25) {
                self.curated();
            } else {
                let o = self.opts();
                let suffix = if same { "" } else { *self.r.pick(&SUFFIXES) };
                let (s, _) = self.generated(o, suffix, ndocs);
                if self.r.pct(15) && self.scn.schemas.len() < n {
                    self.variant(s);
                }
            }
        }
    }

    pub fn slots_for_all(&mut self) {
        self.scn.slots = (0..self.scn.schemas.len()).collect();
    }

    pub fn slot_of(&self, schema: usize) -> Option<usize> {
        self.scn.slots.iter().position(|s| *s == schema)
    }

    pub fn target(&mut self) -> Target {
        self.r.pick(&self.targets).clone()
    }

    /// A plain request for a target.
    pub fn val(&mut self, t: &Target) -> Val {
        let ok = json_ok(&self.scn.docs[t.doc].doc);
        let api = match self.r.below(10) {
            0..=3 if ok => Api::Json,
            4 | 5 if ok => Api::JsonStr,
            6 | 7 => Api::CborBytes,
            _ => Api::Cbor,
        };
        self.val_api(t, api)
    }

    /// As `val`, with a context the simulator serves.
    pub fn val_ctx(&mut self, t: &Target) -> Val {
        let ok = json_ok(&self.scn.docs[t.doc].doc);
        let api = if ok && self.r.pct(60) { Api::Json } else { Api::Cbor };
        let mut v = self.val_api(t, api);
        v.res = Res::Plain;
        v
    }

    pub fn val_api(&mut self, t: &Target, api: Api) -> Val {
        let src = match self.slot_of(t.schema) {
            Some(s) => Src::Slot(s),
            None => Src::Schema(t.schema),
        };
        Val {
            api,
            src,
            rule: t.rule.clone(),
            doc: t.doc,
            res: if self.r.pct(50) { Res::Basic } else { Res::Plain },
            fault: None,
            latency: if self.r.pct(10) { self.r.log(30) } else { 0 },
            wait: None,
        }
    }

    pub fn any_op(&mut self) -> Op {
        if self.r.pct(15) {
            let schema = self.r.us(self.scn.schemas.len());
            return Op::Compile { how: self.r.below(4) as u8, schema };
        }
        let t = self.target();
        Op::Val(self.val(&t))
    }

    pub fn env(&mut self) -> Env {
        let r = &mut self.r;
        Env {
            entropy: r.next(),
            wall0: match r.below(6) {
                0 => 0,
                1 => -1_000_000_000 * r.below(1 << 31) as i64,
                2 => i64::MAX / 2,
                _ => (r.below(1 << 33) as i64) * 1_000_000_000 + r.below(1_000_000_000) as i64,
            },
            jumps: {
                let mut v: Vec<(u64, i64)> =
                    (0..r.below(4)).map(|_| (r.log(17), (r.below(1 << 40) as i64 - (1 << 39)) * 1_000_000)).collect();
                v.sort();
                v
            },
            env_seed: if r.pct(80) { Some(r.next()) } else { None },
            stack_kb: *r.pick(&[1024, 2048, 3072, 4096, 8192]),
            stack_slot: r.below(512) as u32,
            named: r.pct(40),
            pid: 2 + r.below(1 << 22) as i32,
            arena_policy: r.below(3) as u8,
            arena_skew: (r.below(1 << 16) * 16) as u32,
            tids: r.below(4) as u32,
            unwinding: if r.pct(25) { r.next() as u32 } else { 0 },
            pads: if r.pct(60) { (0..1 + r.us(4)).map(|_| *r.pick(&[0, 0, 8, 64, 130, 200, 300, 512])).collect() } else { Vec::new() },
        }
    }
}

/// A size on either side of some limit.
pub fn size(r: &mut Rng) -> usize {
    *r.pick(&[7, 9, 12, 15, 17, 20, 25, 31, 33, 40, 50, 63, 65, 70, 100, 127, 130, 200, 255, 257, 300])
}

/// Make some part of a document long.
pub fn swell(r: &mut Rng, d: &mut Doc, n: usize) {
    match d {
        Doc::A(v) => {
            if !v.is_empty() && r.pct(40) {
                let i = r.us(v.len());
                if !matches!(v[i], Doc::N | Doc::B(_) | Doc::I(_) | Doc::F(_)) {
                    swell(r, &mut v[i], n);
                    return;
                }
            }
            let at = if v.is_empty() { 0 } else { r.us(v.len()) };
            let x = if v.is_empty() || v[at].size() > 12 { Doc::I(1) } else { v[at].clone() };
            for _ in 0..n {
                v.insert(at, x.clone());
            }
        }
        Doc::M(m) => {
            if !m.is_empty() && r.pct(40) {
                let i = r.us(m.len());
                if !matches!(m[i].1, Doc::N | Doc::B(_) | Doc::I(_) | Doc::F(_)) {
                    swell(r, &mut m[i].1, n);
                    return;
                }
            }
            let x = match m.first() {
                Some((_, v)) if v.size() <= 12 => v.clone(),
                _ => Doc::I(1),
            };
            let ints = m.iter().any(|(k, _)| matches!(k, Doc::I(_)));
            for i in 0..n {
                let k = if ints { Doc::I(1000 + i as i128) } else { Doc::S(format!("k{i}")) };
                if !m.iter().any(|(j, _)| *j == k) {
                    m.push((k, x.clone()));
                }
            }
        }
        Doc::S(t) => {
            let c = t.chars().next().unwrap_or('a');
            t.extend(std::iter::repeat(c).take(n));
        }
        Doc::Y(b) => b.extend(std::iter::repeat(7).take(n)),
        Doc::E(x) | Doc::T(_, x) => swell(r, x, n),
        _ => (),
    }
}

/// A document for a rule: matching, nearly matching, or something else.
pub fn sample(r: &mut Rng, spec: &Spec, rule: &str) -> Doc {
    let kind = r.below(10);
    let mut s = Sampler { r, spec, fuel: 60 };
    if kind == 9 {
        return s.any();
    }
    let mut d = s.rule(rule);
    if kind >= 5 {
        s.mutate(&mut d);
        if kind == 8 {
            s.mutate(&mut d);
        }
    }
    d
}

/// Change one number, name of a standard type or string literal in a rule's body.
fn vary(r: &mut Rng, rules: &mut [String]) {
    const STD: [&str; 8] = ["int", "tstr", "uint", "bool", "any", "float", "nil", "text"];
    for _ in 0..8 {
        let i = r.us(rules.len());
        let text = rules[i].clone();
        let Some(eq) = text.find('=') else { continue };
        let b = text.as_bytes();
        let mut spans: Vec<(usize, usize, u8)> = Vec::new();
        let mut p = eq + 1;
        while p < b.len() {
            let s = p;
            if b[p] == b'"' {
                p += 1;
                while p < b.len() && b[p] != b'"' {
                    p += if b[p] == b'\\' { 2 } else { 1 };
                }
                p = (p + 1).min(b.len());
                spans.push((s, p, b'"'));
            } else if b[p].is_ascii_digit() {
                while p < b.len() && b[p].is_ascii_digit() {
                    p += 1;
                }
                spans.push((s, p, b'0'));
            } else if b[p].is_ascii_alphabetic() || b[p] == b'_' {
                while p < b.len() && (b[p].is_ascii_alphanumeric() || b"-_@$".contains(&b[p])) {
                    p += 1;
                }
                if STD.contains(&&text[s..p]) && (s == 0 || b[s - 1] != b'.') {
                    spans.push((s, p, b'a'));
                }
            } else {
                p += 1;
            }
        }
        if spans.is_empty() {
            continue;
        }
        let (s, e, k) = *r.pick(&spans);
        let new = match k {
            b'"' => format!("{:?}", r.pick(&["x", "y", "a", "b", "c", "zz", "[a-z]"])),
            b'0' => r.pick(&["0", "1", "2", "3", "5", "9"]).to_string(),
            _ => r.pick(&STD).to_string(),
        };
        if new != text[s..e] && text.is_char_boundary(s) && text.is_char_boundary(e) {
            rules[i] = format!("{}{}{}", &text[..s], new, &text[e..]);
            return;
        }
    }
}
