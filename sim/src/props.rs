//! The properties: how runs are made for each, and how what happened is judged.

use crate::corpus;
use crate::doc::{Dmg, Doc};
use crate::kernels::{Wrap, LINKS};
use crate::gen::{self, gen_dmg, json_ok, nesting, Gen, Opts, Sampler};
use crate::model::*;
use crate::rng::{mix, Rng};
use crate::runner::{run, End, Refs, Run};
use crate::work::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub detail: String,
}

#[derive(Default)]
pub struct Judged {
    pub violation: Option<Violation>,
    pub nontrivial: bool,
    /// Outcomes seen, and conditions reached.
    pub tally: BTreeMap<String, u64>,
}

impl Judged {
    fn hit(&mut self, what: &str) {
        *self.tally.entry(what.to_string()).or_default() += 1;
    }
    fn max(&mut self, what: &str, n: u64) {
        let e = self.tally.entry(format!("max:{what}")).or_default();
        *e = (*e).max(n);
    }
    fn violation(&mut self, kind: &str, detail: String) {
        if self.violation.is_none() {
            self.violation = Some(Violation { kind: kind.into(), detail });
        }
    }
}

pub const CLAIMED: [&str; 11] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11"];

/// Runs per check: quick, thorough.
pub fn plan(prop: &str) -> (u64, u64) {
    match prop {
        "C01" => (6_000, 400_000),
        "C02" => (14_000, 600_000),
        "C03" => (36_000, 1_500_000),
        "C04" => (40_000, 1_500_000),
        "C05" => (10_000, 450_000),
        "C06" => (100_000, 5_000_000),
        "C07" => (18_000, 800_000),
        "C08" => (90_000, 4_000_000),
        "C09" => (26_000, 900_000),
        "C10" => (26_000, 1_200_000),
        "C11" => (4_500, 220_000),
        _ => (0, 0),
    }
}

fn modes(prop: &str) -> &'static [(&'static str, u64)] {
    match prop {
        "C01" => &[("mix", 30), ("same", 20), ("cold", 20), ("history", 10), ("kernel", 20), ("refused", 15), ("wait", 8)],
        "C02" => &[("seq", 50), ("conc", 35), ("storm", 15)],
        "C03" => &[("enum", 40), ("missing", 25), ("curated", 10), ("sweep", 25)],
        "C04" => &[("err", 35), ("deadline", 25), ("endless", 20), ("sweep", 20)],
        "C05" => &[("layered", 25), ("tenants", 20), ("reload", 20), ("reentrant", 20), ("rename", 12), ("front", 10), ("near", 10), ("alpha", 8), ("shadow", 22)],
        "C06" => &[("endless", 40), ("empty", 25), ("generic", 15), ("circular", 20), ("deep", 8), ("chain", 12)],
        "C07" => &[("env", 60), ("history", 40)],
        "C08" => &[("panic", 25), ("alloc", 75)],
        "C09" => &[("cbor", 35), ("json", 15), ("schema", 25), ("torn", 15), ("nasty", 10), ("numbers", 15), ("refused", 8), ("cuts", 15), ("odd", 40)],
        "C10" => &[("array", 45), ("map", 45), ("deeparray", 5), ("deepmap", 5)],
        "C11" => &[("waves", 40), ("thread", 40), ("fresh", 10), ("freshthread", 10), ("refused", 12), ("double", 30)],
        _ => &[],
    }
}

pub fn generate(prop: &str, seed: u64, refs: &mut Refs) -> Scenario {
    let mut r = Rng::new(seed ^ 0x6d6f6465);
    let ms = modes(prop);
    let mut n = r.below(ms.iter().map(|m| m.1).sum());
    let mut mode = ms[0].0;
    for m in ms {
        mode = m.0;
        if n < m.1 {
            break;
        }
        n -= m.1;
    }
    let mut w = Work::new(prop, mode, seed);
    match prop {
        "C01" => c01(&mut w),
        "C02" => c02(&mut w, refs),
        "C03" => c03(&mut w, refs),
        "C04" => c04(&mut w, refs),
        "C05" => c05(&mut w, refs),
        "C06" => c06(&mut w),
        "C07" => c07(&mut w, refs),
        "C08" => c08(&mut w, refs),
        "C09" => c09(&mut w),
        "C10" => c10(&mut w, refs),
        "C11" => c11(&mut w, refs),
        _ => (),
    }
    w.scn
}

// ---- generators -----------------------------------------------------------------------

fn threads(r: &mut Rng) -> usize {
    *r.pick(&[2, 2, 2, 3, 3, 4, 5, 8])
}

/// Requests whose lookups start other requests.
fn reentrant(w: &mut Work, v: &mut Val, lookups: u64) {
    let t = w.target();
    let nested = w.val(&t);
    let n = 1 + w.r.us(3);
    v.res = Res::Reentrant { at: (0..n).map(|_| w.r.range(1, lookups.clamp(1, 12)) as u32).collect(), nested: Box::new(nested) };
}

fn c01(w: &mut Work) {
    let mode = w.scn.mode.clone();
    if mode == "kernel" {
        for _ in 0..1 + w.r.us(2) {
            let n = 1 + w.r.us(3);
            w.kernel(n);
        }
    } else {
        w.some(3, 3);
    }
    w.deepen_some(20);
    w.swell_some(15);
    let deep = w.targets.iter().any(|t| t.rule.starts_with("dp"));
    if mode == "refused" {
        let bad: Vec<usize> = (0..1 + w.r.us(3)).map(|_| w.invalid()).collect();
        w.slots_for_all();
        w.scn.slots.retain(|s| !bad.contains(s));
        let nt = threads(&mut w.r);
        let mut tasks = Vec::new();
        for _ in 0..nt {
            let mut ops = Vec::new();
            for _ in 0..1 + w.r.us(4) {
                ops.push(match w.r.below(10) {
                    0..=6 => Op::Compile { how: *w.r.pick(&[0, 1, 2, 2, 2, 3, 3]), schema: *w.r.pick(&bad) },
                    7 => {
                        let t = w.target();
                        let schema = *w.r.pick(&bad);
                        Op::Val(w.val_api(&Target { schema, ..t }, Api::CborBytes))
                    }
                    _ => w.any_op(),
                });
            }
            tasks.push(ops);
        }
        w.scn.phases.push(tasks);
        w.scn.env.arena_policy = w.r.below(3) as u8;
        return;
    }
    if w.r.pct(20) {
        w.invalid();
    }
    if mode != "cold" {
        w.slots_for_all();
    }
    let nt = if deep { *w.r.pick(&[2, 4, 5, 6, 7, 8]) } else { threads(&mut w.r) };
    let phases = if mode == "history" { 2 } else { 1 };
    let few: Vec<Target> = (0..2).map(|_| w.target()).collect();
    let few_ops: Vec<Op> = few.iter().map(|t| Op::Val(w.val(t))).collect();
    for _ in 0..phases {
        let mut tasks = Vec::new();
        for _ in 0..nt {
            let n = match mode.as_str() {
                "history" => 6 + w.r.us(8),
                _ => 1 + w.r.us(4),
            };
            let mut ops = Vec::new();
            if mode == "kernel" {
                // The same request again and again, others next to it.
                let t = w.target();
                let v = w.val(&t);
                for _ in 0..2 + w.r.us(3) {
                    ops.push(Op::Val(v.clone()));
                }
                tasks.push(ops);
                continue;
            }
            for _ in 0..n {
                ops.push(match mode.as_str() {
                    "same" => w.r.pick(&few_ops).clone(),
                    "wait" => {
                        let t = w.target();
                        let mut v = w.val_ctx(&t);
                        if tasks.is_empty() {
                            v.wait = Some((1 + w.r.below(3) as u32, 1 + w.r.below(nt as u64 - 1) as u8));
                        } else if w.r.pct(40) {
                            v = w.val(&t);
                        }
                        Op::Val(v)
                    }
                    "cold" => {
                        let t = few[w.r.us(2)].clone();
                        let json = json_ok(&w.scn.docs[t.doc].doc);
                        match w.r.below(4) {
                            0 => Op::Compile { how: w.r.below(4) as u8, schema: t.schema },
                            1 | 2 => Op::Val(w.val_api(&t, if json { Api::JsonStr } else { Api::CborBytes })),
                            _ => Op::Val(w.val(&t)),
                        }
                    }
                    _ => {
                        if w.r.pct(12) {
                            let t = w.target();
                            let mut v = w.val_ctx(&t);
                            reentrant(w, &mut v, 4);
                            Op::Val(v)
                        } else {
                            w.any_op()
                        }
                    }
                });
            }
            tasks.push(ops);
        }
        w.scn.phases.push(tasks);
    }
    some_fail(w, 30);
    if w.r.pct(30) {
        w.scn.env.named = true;
    }
    w.scn.env.arena_policy = w.r.below(3) as u8;
    if w.r.pct(50) {
        w.scn.rr = w.r.next() | 1;
    }
}

const KINDS: [ErrKind; 5] = [ErrKind::Missing, ErrKind::Structural, ErrKind::Unsupported, ErrKind::Generic, ErrKind::Parse];

/// A fault during one of the lookups of a request (None: it makes no lookups).
fn lookup_fault(w: &mut Work, v: &Val, refs: &mut Refs, panics: u64) -> Option<Fault> {
    let l = lookups(w, v, refs);
    if l == 0 {
        return None;
    }
    let at = if w.r.pct(30) { l } else { w.r.range(1, l) } as u32;
    Some(if w.r.pct(panics) {
        Fault::LookupPanic { at }
    } else {
        Fault::LookupErr { at, kind: any_kind(&mut w.r), persist: w.r.pct(50) }
    })
}

/// The errors that report a problem with the schema, and sometimes one of the others.
fn any_kind(r: &mut Rng) -> ErrKind {
    if r.pct(75) {
        *r.pick(&KINDS)
    } else {
        *r.pick(&[ErrKind::Value, ErrKind::Mismatch, ErrKind::Cut])
    }
}

/// Some of the requests meet a lookup that fails.
fn some_fail(w: &mut Work, pct: u64) {
    if !w.r.pct(pct) {
        return;
    }
    for ops in w.scn.phases.iter_mut().flatten() {
        for op in ops {
            if let Op::Val(v) = op {
                if v.res != Res::Basic && v.fault.is_none() && w.r.pct(35) {
                    let at = w.r.log(4) as u32 + 1;
                    v.fault = Some(Fault::LookupErr { at, kind: any_kind(&mut w.r), persist: w.r.pct(30) });
                }
            }
        }
    }
}

fn schema_of(scn: &Scenario, v: &Val) -> usize {
    match v.src {
        Src::Schema(i) => i,
        Src::Slot(i) => scn.slots[i],
    }
}

fn lookups(w: &Work, v: &Val, refs: &mut Refs) -> u64 {
    let s = schema_of(&w.scn, v);
    refs.solo(&w.scn, &Op::Val(v.clone()), s).res.map_or(0, |r| r.lookups)
}

fn c02(w: &mut Work, refs: &mut Refs) {
    let mode = w.scn.mode.clone();
    if w.r.pct(20) {
        w.site(3);
    } else {
        w.some(2, 3);
    }
    w.deepen_some(15);
    w.swell_some(15);
    if w.r.pct(25) {
        w.invalid();
    }
    w.slots_for_all();
    // Half of the time the rules compiled inside the operation are used too.
    let faulty = |w: &mut Work, refs: &mut Refs, ops: &mut Vec<Op>| {
        for _ in 0..6 {
            let t = w.target();
            let v = w.val_ctx(&t);
            if let Some(f) = lookup_fault(w, &v, refs, 55) {
                let mut bad = v.clone();
                bad.fault = Some(f);
                ops.push(Op::Val(bad));
                if w.r.pct(60) {
                    ops.push(Op::Val(v));
                }
                return;
            }
        }
    };
    let nt = if mode == "conc" { 2 + w.r.us(2) } else { 1 };
    let phases = 1 + w.r.us(2);
    for _ in 0..phases {
        let mut tasks = Vec::new();
        for _ in 0..nt {
            let mut ops = Vec::new();
            match mode.as_str() {
                "storm" => {
                    let mut bad = Vec::new();
                    for _ in 0..4 {
                        faulty(w, refs, &mut bad);
                    }
                    bad.retain(|o| matches!(o, Op::Val(v) if v.fault.is_some()));
                    if !bad.is_empty() {
                        for _ in 0..60 + w.r.us(90) {
                            ops.push(w.r.pick(&bad).clone());
                        }
                    }
                }
                _ => {
                    for _ in 0..1 + w.r.us(4) {
                        if w.r.pct(70) {
                            faulty(w, refs, &mut ops);
                        } else {
                            ops.push(w.any_op());
                        }
                    }
                }
            }
            for _ in 0..1 + w.r.us(3) {
                ops.push(w.any_op());
            }
            tasks.push(ops);
        }
        w.scn.phases.push(tasks);
    }
    w.scn.env.arena_policy = w.r.below(2) as u8;
    if w.r.pct(50) {
        w.scn.rr = w.r.next() | 1;
    }
}

fn single(w: &mut Work, ops: Vec<Op>) {
    w.scn.phases.push(vec![ops]);
}

fn c03(w: &mut Work, refs: &mut Refs) {
    match w.scn.mode.as_str() {
        "curated" => {
            w.curated();
        }
        "missing" => {
            // A rule others refer to is gone.
            let o = w.opts();
            let (s, _) = w.generated(o, "", 4);
            let n = w.scn.schemas[s].rules.len();
            for _ in 0..1 + w.r.us(2) {
                let i = w.r.us(n);
                let text = w.scn.schemas[s].rules[i].clone();
                if !text.starts_with("top") {
                    w.scn.schemas[s].rules[i] = format!("gone-{text}");
                }
            }
        }
        "sweep" => {
            sweep(w, refs);
            return;
        }
        _ => w.some(1, 3),
    }
    w.swell_some(15);
    w.slots_for_all();
    let mut ops = Vec::new();
    for t in w.targets.clone() {
        if ops.len() > 60 {
            break;
        }
        let v = w.val_ctx(&t);
        ops.push(Op::Val(v.clone()));
        if w.r.pct(40) {
            ops.push(Op::Val(w.val(&t)));
        }
        let l = lookups(w, &v, refs).min(200);
        let mut at: Vec<u64> = (1..=l).collect();
        while at.len() > 14 {
            let i = w.r.us(at.len());
            at.remove(i);
        }
        for n in at {
            let mut f = v.clone();
            f.fault = Some(Fault::LookupErr { at: n as u32, kind: *w.r.pick(&KINDS), persist: w.r.pct(30) });
            ops.push(Op::Val(f));
        }
    }
    single(w, ops);
}

/// Few and small schemas, but a failure of every kind at every lookup.
fn sweep(w: &mut Work, refs: &mut Refs) {
    match w.r.below(10) {
        0..=2 => w.kernel(1),
        3 => {
            w.curated();
        }
        _ => {
            w.site(3);
        }
    }
    w.deepen_some(10);
    w.swell_some(12);
    w.slots_for_all();
    let mut ops = Vec::new();
    let mut ts = w.targets.clone();
    while ts.len() > 5 {
        let i = w.r.us(ts.len());
        ts.remove(i);
    }
    for t in ts {
        let v = w.val_ctx(&t);
        ops.push(Op::Val(v.clone()));
        let l = lookups(w, &v, refs);
        for at in 1.max(l.saturating_sub(20))..=l {
            for kind in KINDS {
                let mut f = v.clone();
                f.fault = Some(Fault::LookupErr { at: at as u32, kind, persist: w.r.pct(30) });
                ops.push(Op::Val(f));
            }
        }
    }
    single(w, ops);
}

fn c04(w: &mut Work, refs: &mut Refs) {
    let mut ops = Vec::new();
    if w.scn.mode == "sweep" {
        sweep(w, refs);
        return;
    }
    if w.scn.mode == "endless" {
        endless(w);
        for t in w.targets.clone() {
            let mut v = w.val_ctx(&t);
            v.res = Res::Endless { seed: w.r.next() };
            let l = lookups(w, &v, refs);
            for _ in 0..6 {
                let mut f = v.clone();
                let at = w.r.range(1, l.max(1)) as u32;
                if w.r.pct(50) {
                    f.latency = 1_000_000;
                    f.fault = Some(Fault::Deadline { ns: u64::from(at) * 1_000_000, kind: *w.r.pick(&KINDS) });
                } else {
                    f.fault = Some(Fault::LookupErr { at, kind: *w.r.pick(&KINDS), persist: w.r.pct(50) });
                }
                ops.push(Op::Val(f));
            }
        }
        single(w, ops);
        return;
    }
    if w.r.pct(30) {
        w.site(4);
    } else {
        w.some(1, 4);
    }
    w.swell_some(15);
    w.slots_for_all();
    for t in w.targets.clone() {
        let v = w.val_ctx(&t);
        ops.push(Op::Val(v.clone()));
        let l = lookups(w, &v, refs);
        if l == 0 {
            continue;
        }
        for _ in 0..8 {
            let mut f = v.clone();
            let at = w.r.range(1, l) as u32;
            if w.scn.mode == "deadline" {
                f.latency = w.r.log(32);
                f.fault = Some(Fault::Deadline { ns: u64::from(at).saturating_mul(f.latency), kind: *w.r.pick(&KINDS) });
            } else {
                // Not persisting is the harder case: the context recovers.
                f.fault = Some(Fault::LookupErr { at, kind: *w.r.pick(&KINDS), persist: w.r.pct(30) });
            }
            ops.push(Op::Val(f));
        }
    }
    single(w, ops);
}

/// Names that differ in ways sloppy handling of names would lose.
const NEAR: [&str; 41] = [
    "aa", "AA", "aA", "a-a", "a_a", "a.a", "aa1", "aa-1", "a", "A", "a1", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa1", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa2",
    "tstr1", "Int", "INT", "any-x", "uint8", "bytes2", "Tstr", "floaty", "nil1", "_a", "@a", "$a", "a@a", "T1", "Null",
    "ipv4", "email", "uuid", "date-time", "date", "timestamp", "char", "byte", "str", "string", "integer1", "$$x", "void",
];

/// Schemas with the same rule names.
fn family(w: &mut Work) {
    match w.r.below(10) {
        0..=3 => {
            w.kernel(5);
            if w.scn.schemas.len() < 2 {
                w.variant(0);
            }
        }
        4..=6 => {
            let o = w.opts();
            let (s, _) = w.generated(o, "", 4);
            for _ in 0..1 + w.r.us(3) {
                w.variant(s);
            }
        }
        _ => {
            for _ in 0..2 + w.r.us(3) {
                let o = w.opts();
                w.generated(o, "", 3);
            }
        }
    }
    w.deepen_some(10);
    w.swell_some(15);
}

fn c05(w: &mut Work, refs: &mut Refs) {
    let mode = w.scn.mode.clone();
    match mode.as_str() {
        "layered" => {
            let o = w.opts();
            w.generated(o, "", 4);
            let o = w.opts();
            let keep = w.targets.clone();
            let (decoy, _) = w.generated(o, "", 1);
            w.targets = keep;
            w.slots_for_all();
            let mut ops = Vec::new();
            for t in w.targets.clone() {
                for _ in 0..2 {
                    let mut v = w.val_ctx(&t);
                    v.res = Res::Layered { k: 1 + w.r.below(4) as u8, seed: w.r.next(), decoy: if w.r.pct(80) { Some(decoy) } else { None } };
                    ops.push(Op::Val(v));
                }
                ops.push(Op::Val(w.val(&t)));
            }
            single(w, ops);
        }
        "tenants" => {
            family(w);
            w.slots_for_all();
            let nt = 1 + w.r.us(3);
            let tasks = (0..nt).map(|_| (0..3 + w.r.us(8)).map(|_| w.any_op()).collect()).collect();
            w.scn.phases.push(tasks);
        }
        "reload" => {
            family(w);
            w.scn.slots = vec![0, w.r.us(w.scn.schemas.len())];
            let nt = 1 + w.r.us(3);
            let mut tasks = Vec::new();
            for _ in 0..nt {
                let mut ops = Vec::new();
                for _ in 0..4 + w.r.us(8) {
                    if w.r.pct(40) {
                        let schema = w.r.us(w.scn.schemas.len());
                        ops.push(Op::Reload { slot: w.r.us(2), schema });
                    } else {
                        // Any document against whatever the slot holds.
                        let t = w.target();
                        let mut v = w.val_ctx(&t);
                        v.src = Src::Slot(w.r.us(2));
                        if w.r.pct(40) {
                            v.res = Res::Basic;
                        }
                        ops.push(Op::Val(v));
                    }
                }
                tasks.push(ops);
            }
            w.scn.phases.push(tasks);
            w.scn.env.arena_policy = w.r.below(2) as u8;
        }
        "reentrant" => {
            w.some(3, 3);
            w.swell_some(10);
            w.slots_for_all();
            let nt = 1 + w.r.us(2);
            let mut tasks = Vec::new();
            for _ in 0..nt {
                let mut ops = Vec::new();
                for _ in 0..2 + w.r.us(4) {
                    let t = w.target();
                    let mut v = w.val_ctx(&t);
                    let l = lookups(w, &v, refs);
                    reentrant(w, &mut v, l);
                    ops.push(Op::Val(v));
                }
                tasks.push(ops);
            }
            w.scn.phases.push(tasks);
        }
        "rename" => {
            // The same rules under other names.
            let mut o = w.opts();
            o.safe = true;
            let (spec, starts) = Gen::new(&mut w.r, o, "").schema();
            let mut names: Vec<&str> = NEAR.to_vec();
            for i in (1..names.len()).rev() {
                let j = w.r.us(i + 1);
                names.swap(i, j);
            }
            let mut map: BTreeMap<String, String> = BTreeMap::new();
            let long = if w.r.pct(35) { size(&mut w.r) } else { 0 };
            for (i, x) in spec.rules.iter().enumerate() {
                let mut new = names.get(i).map_or_else(|| format!("{}{}", x.name, i), |n| n.to_string());
                if long > 0 {
                    new = format!("{}{i}", "n".repeat(long));
                }
                map.insert(x.name.clone(), new);
            }
            let texts = spec.texts();
            let renamed: Vec<String> = texts.iter().map(|t| rename(t, &map)).collect();
            let a = w.rules(texts);
            let b = w.rules(renamed);
            w.slots_for_all();
            let mut ops = Vec::new();
            for _ in 0..5 {
                let rule = w.r.pick(&starts).clone();
                let d = sample(&mut w.r, &spec, &rule);
                let doc = w.doc(d);
                let mut v = w.val_ctx(&Target { schema: a, rule: rule.clone(), doc });
                v.latency = 0;
                ops.push(Op::Val(v.clone()));
                v.src = Src::Slot(b);
                v.rule = map[&rule].clone();
                ops.push(Op::Val(v));
            }
            single(w, ops);
        }
        "near" => near(w),
        "shadow" => {
            match w.r.below(10) {
                0..=5 => {
                    let n = 2 + w.r.us(2);
                    w.kernel(n);
                }
                6 | 7 => {
                    let s = w.curated();
                    w.variant(s);
                }
                _ => {
                    let o = w.opts();
                    let (s, _) = w.generated(o, "", 4);
                    w.variant(s);
                }
            }
            w.slots_for_all();
            let mut ops = Vec::new();
            for t in w.targets.clone() {
                for _ in 0..2 {
                    let mut v = w.val_ctx(&t);
                    v.res = Res::Shadow { over: w.r.us(w.scn.schemas.len()), seed: w.r.next() };
                    ops.push(Op::Val(v));
                }
            }
            single(w, ops);
        }
        "alpha" => alpha(w),
        _ => {
            w.some(2, 4);
            w.swell_some(15);
            w.slots_for_all();
            let mut ops = Vec::new();
            for t in w.targets.clone() {
                let json = json_ok(&w.scn.docs[t.doc].doc);
                ops.push(Op::Val(w.val_api(&t, if json { Api::JsonStr } else { Api::CborBytes })));
                ops.push(Op::Val(w.val_api(&t, Api::CborBytes)));
                ops.push(Op::Val(w.val_ctx(&t)));
            }
            single(w, ops);
        }
    }
    if w.r.pct(50) {
        w.scn.rr = w.r.next() | 1;
    }
}

/// Rules whose names nearly are those referred to.
fn near(w: &mut Work) {
    let r = &mut w.r;
    let base = ["item", "Item-id", "x", "a.b", "foo_bar", "tag9", "k-1", "Person", "ab", "n", "lo", "t2"];
    let mut rules: Vec<String> = Vec::new();
    let mut starts: Vec<String> = Vec::new();
    let mut used: Vec<String> = Vec::new();
    for i in 0..3 + r.us(3) {
        let b = r.pick(&base).to_string();
        if used.contains(&b) {
            continue;
        }
        used.push(b.clone());
        let mut names = vec![
            format!("${b}"),
            format!("$${b}"),
            format!("@{b}"),
            format!("_{b}"),
            b.to_uppercase(),
            b.to_lowercase(),
            b.replace('-', "_"),
            b.replace('_', "-"),
            b.replace(['-', '_', '.'], ""),
            format!("{b}1"),
            format!("{b}-1"),
            format!("{b}.1"),
            format!("{b}s"),
            format!("{b}_"),
            format!("{b}$"),
            format!("{b}-type"),
            format!("x-{b}"),
            b[..b.len() - 1].to_string(),
            b.split(['-', '_', '.']).next().unwrap().to_string(),
            b.clone(),
        ];
        names.retain(|n| !n.is_empty() && !["int", "uint"].contains(&n.as_str()));
        names.sort();
        names.dedup();
        let def = ["int", "tstr", "[* int]", "{* tstr => any}", "(int)", "(1, 2)", "\"x\"", "bool"];
        // Some of them exist, one is asked for.
        let asked = r.pick(&names).clone();
        let mut some = false;
        for n in &names {
            let p = if *n == asked { 35 } else { 30 };
            if r.pct(p) && !rules.iter().any(|x| x.starts_with(&format!("{n} = "))) {
                rules.push(format!("{n} = {}", r.pick(&def)));
                some = true;
            }
        }
        if !some {
            rules.push(format!("zz{i} = int"));
        }
        let u = asked;
        let body = match r.below(14) {
            0..=2 => u.clone(),
            3 => format!("bool / {u}"),
            4 => format!("[{u}]"),
            5 => format!("{{k: {u}}}"),
            6 => format!("[? {u}, * any]"),
            7 => format!("[* ~{u}]"),
            8 => format!("&{u}"),
            9 => format!("{{* {u} => any}}"),
            10 => format!("int .lt {u}"),
            11 => format!("tstr .size {u}"),
            12 => format!("gg<{u}>"),
            _ => format!("{{? &{u}, * tstr => any}}"),
        };
        rules.push(format!("start{i} = {body}"));
        starts.push(format!("start{i}"));
    }
    rules.push("gg<T> = [* T]".into());
    let s = w.rules(rules);
    w.slots_for_all();
    let mut ops = Vec::new();
    let docs: Vec<usize> = ["1", "\"x\"", "true", "[1]", "[]", "{\"k\":1}", "[\"x\"]", "{}"].iter().map(|d| w.doc(corpus::parse(d))).collect();
    for rule in starts {
        for _ in 0..3 {
            let doc = *w.r.pick(&docs);
            let t = Target { schema: s, rule: rule.clone(), doc };
            let mut v = w.val_ctx(&t);
            v.res = if w.r.pct(60) { Res::Basic } else { Res::Layered { k: 1 + w.r.below(4) as u8, seed: w.r.next(), decoy: None } };
            ops.push(Op::Val(v));
            if w.r.pct(40) {
                let api = if w.r.pct(50) { Api::JsonStr } else { Api::CborBytes };
                ops.push(Op::Val(w.val_api(&t, api)));
            }
        }
    }
    single(w, ops);
}

/// Generic rules, and the same ones with their parameters called otherwise: like
/// parameters of other generic rules, or like rules they do not mention.
fn alpha(w: &mut Work) {
    use gen::{e, Body, Occ, RuleM, Spec, E, G, K, T, V};
    let mut spec = Spec::default();
    let r = &mut w.r;
    let np = 3 + r.us(3);
    for i in 0..np {
        let before = |r: &mut Rng| T::Ref(format!("p{}", r.us(i)), vec![]);
        let t = match r.below(16) {
            0 => T::Prim("int"),
            1 => T::Prim("tstr"),
            2 => T::Prim("bool"),
            3 => T::Choice(vec![T::Lit(Doc::I(i as i128)), T::Lit(Doc::S("x".into()))]),
            4 | 5 if i > 0 => before(r),
            6 => T::Lit(Doc::I(2 + r.below(3) as i128)),
            // What refers to an earlier rule, in every kind of place.
            7 if i > 0 => {
                let (target, op) = *r.pick(&[("tstr", "size"), ("int", "lt"), ("uint", "le"), ("int", "gt"), ("int", "ge"), ("bstr", "size")]);
                T::Ctl(target, op, format!("p{}", r.us(i)), vec![Doc::I(1), Doc::S("ab".into()), Doc::I(4), Doc::Y(vec![1, 2])])
            }
            8 if i > 0 => {
                let target = ["p0", "p1", "p2", "p3", "p4"][r.us(i)];
                T::Ctl(target, *r.pick(&["size", "lt", "ge"]), "3".into(), vec![Doc::I(1), Doc::S("abc".into()), Doc::I(4)])
            }
            9 if i > 0 => T::Cbor(Box::new(before(r))),
            10 if i > 0 => T::Arr(G::one(vec![e(V::T(before(r)))])),
            11 if i > 0 => T::Map(G::one(vec![E { occ: Occ::Star, key: K::Arrow(Box::new(before(r)), false), val: V::T(before(r)) }])),
            12 if i > 0 => T::RangeN(format!("p{}", r.us(i)), format!("p{}", r.us(i)), Doc::I(0), Doc::I(3), true),
            13 if i > 0 => T::Choice(vec![before(r), before(r)]),
            _ => T::Range(Doc::I(0), Doc::I(3 + i as i128), true),
        };
        spec.rules.push(RuleM { name: format!("p{i}"), parms: vec![], body: Body::T(t) });
    }
    let ng = 3 + r.us(4);
    let mut arity: Vec<usize> = Vec::new();
    let plain = |r: &mut Rng| {
        if r.pct(70) {
            T::Ref(format!("p{}", r.us(np)), vec![])
        } else {
            T::Prim(["int", "tstr", "bool"][r.us(3)])
        }
    };
    for i in 0..ng {
        let k = 1 + r.us(2);
        let ps: Vec<String> = (0..k).map(|j| format!("N{i}x{j}")).collect();
        let parm = |r: &mut Rng| T::Ref(ps[r.us(ps.len())].clone(), vec![]);
        let arg = |r: &mut Rng| match r.below(8) {
            0..=3 => T::Ref(ps[r.us(ps.len())].clone(), vec![]),
            4 => T::Arr(G::one(vec![e(V::T(T::Ref(ps[r.us(ps.len())].clone(), vec![])))])),
            _ => plain(r),
        };
        let t = match r.below(10) {
            0..=4 if i > 0 => {
                let j = if r.pct(70) { i - 1 } else { r.us(i) };
                let call = T::Ref(format!("f{j}"), (0..arity[j]).map(|_| arg(r)).collect());
                match r.below(5) {
                    0 => T::Arr(G::one(vec![e(V::T(call)), e(V::T(parm(r)))])),
                    1 => T::Arr(G::one(vec![e(V::T(plain(r))), e(V::T(call))])),
                    2 => T::Map(G::one(vec![E { occ: Occ::One, key: K::Arrow(Box::new(T::Lit(Doc::S("k".into()))), false), val: V::T(call) }])),
                    _ => call,
                }
            }
            5 => T::Choice(vec![parm(r), plain(r)]),
            6 => T::Arr(G::one(vec![E { occ: Occ::Star, key: K::No, val: V::T(parm(r)) }, e(V::T(plain(r)))])),
            7 => T::Map(G::one(vec![
                E { occ: Occ::One, key: K::Arrow(Box::new(T::Lit(Doc::S("a".into()))), false), val: V::T(parm(r)) },
                E { occ: Occ::Opt, key: K::Arrow(Box::new(T::Lit(Doc::S("b".into()))), false), val: V::T(plain(r)) },
            ])),
            8 => T::Arr(G::one(vec![e(V::T(parm(r))), e(V::T(plain(r)))])),
            _ => T::Arr(G::one(vec![e(V::T(plain(r))), e(V::T(parm(r)))])),
        };
        arity.push(k);
        spec.rules.push(RuleM { name: format!("f{i}"), parms: ps, body: Body::T(t) });
    }
    let n = arity.len() - 1;
    let args = (0..arity[n]).map(|_| plain(r)).collect();
    spec.rules.push(RuleM { name: "t".into(), parms: vec![], body: Body::T(T::Ref(format!("f{n}"), args)) });
    // Other names for the parameters, the same for each of a rule's.
    let texts = spec.texts();
    let mut other = Vec::new();
    for (x, text) in spec.rules.iter().zip(&texts) {
        let mut map = BTreeMap::new();
        let mut taken: Vec<String> = Vec::new();
        for p in &x.parms {
            let mut new = p.clone();
            for _ in 0..10 {
                let c = match r.below(10) {
                    0..=4 => format!("p{}", r.us(np)),
                    5 => format!("f{}", r.us(ng)),
                    6 => "t".into(),
                    _ => ["A", "B", "C"][r.us(3)].to_string(),
                };
                let words: Vec<&str> = text.split(|c: char| !c.is_ascii_alphanumeric()).collect();
                if !words.contains(&c.as_str()) && !taken.contains(&c) {
                    new = c;
                    break;
                }
            }
            taken.push(new.clone());
            map.insert(p.clone(), new);
        }
        other.push(rename(text, &map));
    }
    let a = w.rules(texts);
    let b = w.rules(other);
    w.slots_for_all();
    let mut ops = Vec::new();
    for _ in 0..6 {
        let d = sample(&mut w.r, &spec, "t");
        let doc = w.doc(d);
        let mut v = w.val_ctx(&Target { schema: a, rule: "t".into(), doc });
        v.latency = 0;
        ops.push(Op::Val(v.clone()));
        v.src = Src::Slot(b);
        ops.push(Op::Val(v));
    }
    single(w, ops);
}

/// Rename whole identifiers outside string literals.
pub fn rename(text: &str, map: &BTreeMap<String, String>) -> String {
    let mut out = String::new();
    let mut word = String::new();
    let mut quoted = false;
    let mut prev = ' ';
    let mut start_prev = ' ';
    for c in text.chars().chain(" ".chars()) {
        let idc = c.is_ascii_alphanumeric() || c == '-' || c == '_';
        if !quoted && idc && (!word.is_empty() || c.is_ascii_alphabetic() || c == '_') {
            if word.is_empty() {
                start_prev = prev;
            }
            word.push(c);
            prev = c;
            continue;
        }
        if !word.is_empty() {
            // Not control operators, nor bareword map keys.
            let bare_key = c == ':';
            match map.get(&word) {
                Some(n) if start_prev != '.' && !bare_key => out.push_str(n),
                _ => out.push_str(&word),
            }
            word.clear();
        }
        if c == '"' {
            quoted = !quoted;
        }
        out.push(c);
        prev = c;
    }
    out.pop();
    out
}

/// Rules that refer to names without end; the context makes up the definitions.
fn endless(w: &mut Work) -> usize {
    let r = &mut w.r;
    let mut rules: Vec<String> = Vec::new();
    let mut id = 0u32;
    let mut name = |c: &str| {
        id += 1;
        format!("{c}{id}")
    };
    let t = [
        "int", "tstr", "any", "TT", "[* TT]", "[TT, ? TT]", "[? TT, TT]", "[AA]", "[? AA, * TT]", "[+ AA]", "{MM}", "{* MM}", "{* tstr => TT}", "{* TT => any}", "{? a: TT, MM}",
        "TT / TT", "TT / int", "int / TT", "[~PP]", "[* ~PP, int]", "{~OO}", "{? ~OO}", "&CC", "&(TT, CC)", "QQ<TT>", "QQ<QQ<TT>>", "QQ<[TT]>", "[* QQ<TT>]", "(int .lt NN) / TT", "NN..NN",
        "tstr .size NN", "bstr .cbor TT", "{* (AA2)}", "[* (* AA)]", "[* ()]", "[* (? TT)]", "{? &MM}", "{&(MM, MM)}", "RR<TT, QQ<TT>>", "[ (AA // TT) ]",
    ];
    let q = ["T", "QQ<T>", "QQ<QQ<T>>", "[T]", "[* T]", "T / QQ<T>", "QQ<T> / T", "TT", "{a: T}", "RR<T, T>", "QQ<[T]>", "[? T, * QQ<T>]", "{* T => QQ<T>}", "QQ<T / int>"];
    let r2 = ["T / U", "[T, U]", "RR<U, T>", "QQ<T>", "RR<QQ<T>, U>", "[* T, ? U]", "U"];
    let a = ["(TT)", "(TT, TT)", "(? TT, AA)", "(* AA)", "(AA)", "(AA // TT)", "(int, ? AA)", "(? AA)", "(+ (TT, ? AA))", "()", "(0*3 AA)", "(~PP)"];
    let m = ["(a: TT)", "(? b: TT, MM)", "(* MM)", "(MM)", "(MM // a: int)", "(* tstr => TT)", "(TT => TT)", "(? MM)", "(~OO)", "()", "(&MM)", "(&(MM, a: int))", "(2*4 MM)"];
    let p = ["[TT]", "[? AA]", "[* TT]", "[~PP]", "PP", "[* ~PP]"];
    let o = ["{MM}", "{* tstr => TT}", "{~OO}", "OO", "{? ~OO, a: int}"];
    let c = ["(TT, CC)", "(a: TT, b: int)", "CC", "(CC)", "(int, CC)", "(&CC)"];
    let n = ["NN", "5", "NN", "NN", "3"];
    let classes: [(&str, &[&str]); 9] = [("t", &t), ("q", &q), ("r", &r2), ("a", &a), ("m", &m), ("p", &p), ("o", &o), ("c", &c), ("n", &n)];
    // Few kinds of definitions per run: the chains get longer that way.
    for (cl, pool) in classes {
        let k = if cl == "t" { 2 + r.us(6) } else { 1 + r.us(3) };
        for _ in 0..k {
            let mut body = r.pick(pool).to_string();
            for (from, to) in [("AA2", "m"), ("TT", "t"), ("QQ", "q"), ("RR", "r"), ("AA", "a"), ("MM", "m"), ("PP", "p"), ("OO", "o"), ("CC", "c"), ("NN", "n")] {
                while let Some(i) = body.find(from) {
                    body.replace_range(i..i + from.len(), &format!("{}x{}", to, r.below(1000)));
                }
            }
            let parms = match cl {
                "q" => "<T>",
                "r" => "<T, U>",
                _ => "",
            };
            rules.push(format!("{}{} = {}", name(cl), parms, body));
        }
    }
    let starts: Vec<String> = rules.iter().filter(|x| x.starts_with('t')).map(|x| x[..x.find(' ').unwrap()].to_string()).collect();
    let s = w.rules(rules);
    w.slots_for_all();
    for _ in 0..3 {
        let d = any_doc(&mut w.r, 3);
        let doc = w.doc(d);
        let rule = w.r.pick(&starts).clone();
        w.targets.push(Target { schema: s, rule, doc });
    }
    s
}

fn any_doc(r: &mut Rng, depth: u32) -> Doc {
    let spec = gen::Spec::default();
    match r.below(6) {
        0..=2 if depth > 0 => Doc::A((0..r.below(5)).map(|_| any_doc(r, depth - 1)).collect()),
        3 if depth > 0 => {
            let n = r.us(5);
            Doc::M((0..n).map(|i| (Doc::S(["a", "b", "c", "k", "zz"][i].into()), any_doc(r, depth - 1))).collect())
        }
        _ => Sampler { r, spec: &spec, fuel: 5 }.any(),
    }
}

const EMPTY_A: [&str; 18] = [
    "()", "(? int)", "(* int)", "(? (int, int))", "(* (? tstr))", "ea", "~ep", "((), ())", "(() // int)", "(int // ())", "(? ~ep)", "(0*0 int)", "(ea, ea)", "eg<int>", "(* ())", "(0*5 (? bool))",
    "(? int, ? tstr)", "(? \"q\" // ? int)",
];
const EMPTY_M: [&str; 16] = [
    "()", "(? a: int)", "(* tstr => int)", "(? (a: int, b: int))", "em", "~eo", "((), ())", "(() // a: int)", "(a: int // ())", "(? ~eo)", "(0*0 a: int)", "(em, em)", "(* ())", "(0*5 (? c: any))",
    "(? &(a: int))", "(* (? a: int))",
];
const OCCS: [&str; 12] = ["*", "+", "?", "2*5", "0*3", "3*", "*4", "1000000000*", "0*1000000000", "5*5", "99999999*9999999999", "7*"];

fn empty_rep(w: &mut Work, map: bool) -> String {
    let r = &mut w.r;
    let mut parts = Vec::new();
    for _ in 0..1 + r.us(3) {
        let mut p = r.pick(if map { &EMPTY_M[..] } else { &EMPTY_A[..] }).to_string();
        for _ in 0..r.us(3) {
            p = format!("({} {})", r.pick(&OCCS), p);
        }
        let o = if r.pct(85) { format!("{} ", r.pick(&OCCS)) } else { String::new() };
        parts.push(format!("{o}{p}"));
    }
    if r.pct(60) {
        let last = if map { *r.pick(&["a: int", "* tstr => any", "? b: tstr", "b: any"]) } else { *r.pick(&["int", "* any", "? tstr", "tstr"]) };
        parts.push(last.into());
    }
    if map {
        format!("{{{}}}", parts.join(", "))
    } else {
        format!("[{}]", parts.join(", "))
    }
}

const CIRCULAR: &[(&str, &str, &str)] = &[
    ("a = a", "a", "1"),
    ("a = b|b = a", "a", "1"),
    ("a = b|b = c|c = d|d = a", "a", "1"),
    ("a = int / a", "a", "\"x\""),
    ("a = a / int", "a", "1"),
    ("a = b / c|b = c|c = a / tstr", "a", "{}"),
    ("a = [a]", "a", "[[[[]]]]"),
    ("a = [? a]", "a", "[[[[[[]]]]]]"),
    ("a = [* g]|g = (int, g)", "a", "[1,2,3,4]"),
    ("a = [g]|g = (g)", "a", "[1]"),
    ("a = [g]|g = (? int, g)", "a", "[1]"),
    ("a = [* g]|g = (* g)", "a", "[1]"),
    ("a = [* g]|g = (? g)", "a", "[1]"),
    ("a = [* g]|g = (g // int)", "a", "[1]"),
    ("a = [* g]|g = (int // g)", "a", "[\"x\"]"),
    ("a = [* h]|h = g|g = h", "a", "[\"x\"]"),
    ("a = {g}|g = (g)", "a", "{\"a\":1}"),
    ("a = {* g}|g = (? a: int, g)", "a", "{\"a\":1}"),
    ("a = {* g}|g = (* g)", "a", "{\"a\":1}"),
    ("a = {* g}|g = (g // a: int)", "a", "{\"a\":1}"),
    ("a = {* g}|g = (a: int // g)", "a", "{\"b\":1}"),
    ("a = {k: a}", "a", "{\"k\":{\"k\":{}}}"),
    ("a = {* a => int}", "a", "{\"k\":1}"),
    ("a = {* b => int}|b = b / tstr", "a", "{\"k\":1}"),
    ("a = [~a]", "a", "[1]"),
    ("a = [~b]|b = [~a]", "a", "[1]"),
    ("a = [? ~a, int]", "a", "[1]"),
    ("a = [* ~a]", "a", "[1]"),
    ("a = [int, * ~a]", "a", "[1,2,3]"),
    ("a = {~a}", "a", "{\"k\":1}"),
    ("a = {? ~b}|b = {* ~a}", "a", "{\"k\":1}"),
    ("a = &b|b = (b)", "a", "1"),
    ("a = &b|b = (int, b)", "a", "\"x\""),
    ("a = &b|b = c|c = b", "a", "1"),
    ("a = &(b)|b = (c)|c = (b)", "a", "1"),
    ("a = {&b}|b = (b)", "a", "{\"a\":1}"),
    ("a = {&b}|b = c|c = b", "a", "{\"a\":1}"),
    ("a = {* &b}|b = (x: b)", "a", "{\"a\":1}"),
    ("a = {* &(b)}|b = (? b)", "a", "{\"a\":1}"),
    ("a = int .lt a", "a", "1"),
    ("a = int .lt b|b = c|c = b", "a", "1"),
    ("a = int .size b|b = b", "a", "1"),
    ("a = tstr .size (b..c)|b = c|c = b", "a", "\"x\""),
    ("a = b .size 3|b = a", "a", "\"x\""),
    ("a = 0..b|b = b", "a", "1"),
    ("a = b..c|b = 0|c = d|d = c", "a", "1"),
    ("a = bstr .cbor a", "a", "EEEE1"),
    ("a = (bstr .cbor a) / int", "a", "EEEE1"),
    ("a = g<int>|g<T> = g<T>", "a", "1"),
    ("a = g<int>|g<T> = g<[T]>", "a", "1"),
    ("a = g<int>|g<T> = g<g<T>>", "a", "1"),
    ("a = g<int>|g<T> = T / g<g<T>>", "a", "\"x\""),
    ("a = g<int>|g<T> = [? g<g<T>>, * T]", "a", "[[1],[[2]],3]"),
    ("a = g<a>|g<T> = T", "a", "1"),
    ("a = g<a>|g<T> = [* T]", "a", "[[],[[]]]"),
    ("a = g<h<int>>|g<T> = h<T>|h<T> = g<T>", "a", "1"),
    ("a = g<int, tstr>|g<T, U> = g<U, T> / T", "a", "1"),
    ("a = g<a, a>|g<T, U> = [? T, ? U]", "a", "[[],[[]]]"),
    ("a = g<b>|g<b> = b / g<b>|b = a", "a", "1"),
    ("a = g<g>|g<g> = g", "a", "1"),
    ("a = [* (a // b)]|b = (* a)", "a", "[[[]],[]]"),
    ("a = [* (a, * b)]|b = (? a, * b)", "a", "[[[]],[]]"),
    ("a = tstr / [* a] / {* a => a}", "a", "{\"x\":[{\"y\":\"z\"},[\"q\"]]}"),
];

/// A long chain of rules, each of which tries the next one once, and documents that
/// match or fail at the bottom or somewhere on the way.
fn chain(w: &mut Work, ops: &mut Vec<Op>) {
    let n = w.r.range(20, 45) as usize;
    let json = w.r.pct(70);
    let mut kinds: Vec<(&str, Wrap)> = Vec::new();
    for _ in 0..1 + w.r.us(3) {
        let l = LINKS[w.r.us(LINKS.len())];
        if !(json && matches!(l.1, Wrap::Emb)) {
            kinds.push(l);
        }
    }
    if kinds.is_empty() {
        kinds.push(LINKS[1]);
    }
    let parm = w.r.pct(20);
    let mut rules = Vec::new();
    let mut wraps = Vec::new();
    let (p, a) = if parm { ("<T>", "<T>") } else { ("", "") };
    for i in 0..n {
        let (body, wrap) = *w.r.pick(&kinds);
        let next = if i + 1 == n { "r-end".to_string() } else { format!("r{}{a}", i + 1) };
        rules.push(format!("r{i}{p} = {}", body.replace('X', &next)));
        wraps.push(wrap);
    }
    rules.push("r-end = 77".into());
    rules.push("g1<T> = T / nil".into());
    rules.push("g2<T, U> = U / T".into());
    rules.push(format!("t = r0{}", if parm { "<int>" } else { "" }));
    let s = w.rules(rules);
    w.slots_for_all();
    // Nested deeper than that, a document would not be read.
    let deep = n.min(60);
    for k in 0..5 {
        let cut = if k < 2 { deep } else { w.r.us(deep + 1) };
        let mut d = match w.r.below(4) {
            0 => Doc::I(77),
            1 => Doc::B(true),
            2 => Doc::S("no".into()),
            _ => Doc::N,
        };
        for wrap in wraps[..cut].iter().rev() {
            d = wrap.put(d);
        }
        let doc = w.doc(d);
        let t = Target { schema: s, rule: "t".into(), doc };
        ops.push(Op::Val(w.val(&t)));
    }
}

fn c06(w: &mut Work) {
    let mode = w.scn.mode.clone();
    let mut ops = Vec::new();
    match mode.as_str() {
        "endless" => {
            endless(w);
            for t in w.targets.clone() {
                for _ in 0..3 {
                    let mut v = w.val_ctx(&t);
                    v.latency = 0;
                    v.res = Res::Endless { seed: w.r.next() };
                    ops.push(Op::Val(v));
                }
            }
        }
        "empty" => {
            let map = w.r.pct(50);
            let mut rules = Vec::new();
            for i in 0..3 {
                rules.push(format!("t{} = {}", i, empty_rep(w, map)));
            }
            for x in ["ea = (? int)", "ep = [* int]", "eg<T> = [T]", "em = (? a: int)", "eo = {? b: int}"] {
                rules.push(x.into());
            }
            let s = w.rules(rules);
            w.slots_for_all();
            for _ in 0..4 {
                let d = if map {
                    let n = w.r.us(4);
                    Doc::M((0..n).map(|i| (Doc::S(["a", "b", "c"][i].into()), any_doc(&mut w.r, 1))).collect())
                } else {
                    Doc::A((0..w.r.below(5)).map(|_| any_doc(&mut w.r, 1)).collect())
                };
                let mut d = d;
                if w.r.pct(15) {
                    let n = size(&mut w.r);
                    swell(&mut w.r, &mut d, n);
                }
                let doc = w.doc(d);
                for i in 0..3 {
                    let t = Target { schema: s, rule: format!("t{i}"), doc };
                    ops.push(Op::Val(w.val(&t)));
                }
            }
        }
        "generic" => {
            let n = 3 + w.r.us(14);
            let two = w.r.pct(30);
            let mut rules = Vec::new();
            for k in 1..=n {
                let p = format!("f{}", k - 1);
                let body = if two {
                    match w.r.below(4) {
                        0 => format!("{p}<{p}<T, U>, {p}<U, T>>"),
                        1 => format!("{p}<T, {p}<U, U>>"),
                        2 => format!("{p}<[T], {p}<U, T>>"),
                        _ => format!("{p}<U, {p}<T, U>>"),
                    }
                } else {
                    // No choices: trying every one of 2^n alternatives takes 2^n steps.
                    match w.r.below(6) {
                        0..=3 => format!("{p}<{p}<T>>"),
                        4 => format!("{p}<{p}<{p}<T>>>"),
                        _ => format!("{p}<[? {p}<T>]>"),
                    }
                };
                rules.push(if two { format!("f{k}<T, U> = {body}") } else { format!("f{k}<T> = {body}") });
            }
            rules.push(match (two, w.r.below(4)) {
                (true, 0) => "f0<T, U> = U".into(),
                (true, _) => "f0<T, U> = T".into(),
                (false, 0) => "f0<T> = [T]".into(),
                (false, 1) => "f0<T> = {a: T}".into(),
                _ => "f0<T> = T".into(),
            });
            rules.push(format!("t = f{n}<int{}>", if two { ", bool" } else { "" }));
            let s = w.rules(rules);
            w.slots_for_all();
            for d in [Doc::I(1), Doc::S("x".into()), Doc::A(vec![Doc::A(vec![Doc::I(1)])])] {
                let doc = w.doc(d);
                let t = Target { schema: s, rule: "t".into(), doc };
                ops.push(Op::Val(w.val_ctx(&t)));
            }
        }
        "circular" => {
            for _ in 0..3 {
                let (s, r, d) = *w.r.pick(CIRCULAR);
                let s = w.rules(s.split('|').map(String::from).collect());
                let mut docs = vec![corpus::parse(d)];
                docs.push(any_doc(&mut w.r, 3));
                docs.push(any_doc(&mut w.r, 2));
                for mut d in docs {
                    if w.r.pct(12) {
                        let n = size(&mut w.r).min(70);
                        swell(&mut w.r, &mut d, n);
                    }
                    let doc = w.doc(d);
                    w.targets.push(Target { schema: s, rule: r.into(), doc });
                }
            }
            if w.r.pct(20) {
                let n = size(&mut w.r);
                w.swell_names(n);
            }
            w.slots_for_all();
            for t in w.targets.clone() {
                ops.push(Op::Val(w.val(&t)));
            }
        }
        "chain" => {
            chain(w, &mut ops);
            w.scn.budget = 3_000_000;
        }
        _ => {
            // Deeply nested documents and schemas.
            let emb = w.r.pct(30);
            let n = if emb { 1 + w.r.log(12) as usize } else { w.r.range(1, 140) as usize };
            let (rules, arr) = match w.r.below(5) {
                // Each of the nested documents is read on its own: no decoder limits this depth.
                0..=2 if emb => (vec!["t = int / bstr .cbor t".to_string()], 2),
                3 if emb => (vec!["t = int / [* u]".to_string(), "u = bstr .cbor t".into()], 3),
                _ if emb => (vec!["t = g<t> / any".to_string(), "g<T> = bstr .cbor { ? k: T }".into()], 4),
                0 => (vec!["t = [* t]".to_string()], 1),
                1 => (vec!["t = {* tstr => t}".to_string()], 0),
                2 => (vec!["t = g<t>".to_string(), "g<T> = [* T] / {* tstr => T}".into()], w.r.us(2)),
                3 => (vec![format!("t = {}int{}", "[".repeat(n % 14), "]".repeat(n % 14))], 1),
                _ => (vec!["t = any / [t]".to_string()], 1),
            };
            let mut d = Doc::I(1);
            for _ in 0..n {
                d = match arr {
                    0 => Doc::M(vec![(Doc::S("k".into()), d)]),
                    1 => Doc::A(vec![d]),
                    2 => Doc::E(Box::new(d)),
                    3 => Doc::A(vec![Doc::E(Box::new(d))]),
                    _ => Doc::E(Box::new(Doc::M(vec![(Doc::S("k".into()), d)]))),
                };
            }
            let s = w.rules(rules);
            w.slots_for_all();
            let doc = w.doc(d);
            let t = Target { schema: s, rule: "t".into(), doc };
            for api in [Api::JsonStr, Api::CborBytes] {
                if !(emb && api == Api::JsonStr) {
                    ops.push(Op::Val(w.val_api(&t, api)));
                }
            }
        }
    }
    single(w, ops);
    w.scn.env.stack_kb = std::env::var("SIMCAT_STACK").map_or(2048, |x| x.parse().unwrap());
}

/// Steps a request takes, alone.
fn cost(w: &Work, op: &Op, refs: &mut Refs) -> u64 {
    let schema = match op {
        Op::Val(v) => schema_of(&w.scn, v),
        _ => usize::MAX,
    };
    refs.solo(&w.scn, op, schema).steps.max(1)
}

fn c07(w: &mut Work, refs: &mut Refs) {
    w.some(2, 3);
    w.deepen_some(15);
    w.swell_some(15);
    if w.r.pct(20) {
        w.invalid();
    }
    if w.r.pct(70) {
        w.slots_for_all();
    }
    let (np, nt) = if w.scn.mode == "history" { (2 + w.r.us(2), 1 + w.r.us(2)) } else { (1, 1) };
    for _ in 0..np {
        let mut tasks = Vec::new();
        for _ in 0..nt {
            let mut ops = Vec::new();
            for _ in 0..2 + w.r.us(5) {
                ops.push(if w.r.pct(50) {
                    let t = w.target();
                    Op::Val(w.val_ctx(&t))
                } else {
                    w.any_op()
                });
            }
            if np > 1 && w.r.pct(10) {
                // Many calls: counters wrap around, caches fill.
                let n = match w.r.below(12) {
                    0..=5 => 200 + w.r.below(130) as u32,
                    6..=10 => 1 + w.r.below(600) as u32,
                    _ => 1 << 10 | w.r.below(1 << 10) as u32,
                };
                let i = w.r.us(ops.len());
                let n = n.min((5_000_000 / cost(w, &ops[i], refs)) as u32);
                if n > 1 && !matches!(ops[i], Op::Reload { .. }) {
                    ops[i] = Op::Many { n, op: Box::new(ops[i].clone()) };
                }
            }
            tasks.push(ops);
        }
        w.scn.phases.push(tasks);
    }
    some_fail(w, 25);
    w.scn.env = w.env();
}

fn c08(w: &mut Work, refs: &mut Refs) {
    match w.r.below(10) {
        0..=2 => {
            w.curated();
        }
        3..=5 => {
            w.site(3);
        }
        6 => w.kernel(1),
        _ => {
            let o = w.opts();
            w.generated(o, "", 2);
        }
    }
    w.swell_some(20);
    let mut ops = Vec::new();
    if w.scn.mode == "panic" {
        w.slots_for_all();
        for t in w.targets.clone() {
            let v = w.val_ctx(&t);
            let l = lookups(w, &v, refs);
            let mut at: Vec<u64> = (1..=l.min(400)).collect();
            while at.len() > 12 {
                let i = w.r.us(at.len());
                at.remove(i);
            }
            for at in at {
                let mut f = v.clone();
                f.fault = Some(Fault::LookupPanic { at: at as u32 });
                ops.push(Op::Val(f));
            }
        }
    } else {
        if w.r.pct(65) {
            w.slots_for_all();
        }
        let t = w.target();
        let mut v = w.val(&t);
        v.latency = 0;
        let s = schema_of(&w.scn, &v);
        // Allocation counts are those of this very request (its own context).
        let n = refs.as_is(&w.scn, &Op::Val(v.clone()), s).res.map_or(0, |r| r.allocs);
        if n > 0 {
            v.fault = Some(Fault::AllocFail { at: if w.r.pct(50) { n - w.r.below(n.min(30)) } else { w.r.range(1, n) } });
            ops.push(Op::Val(v));
        }
    }
    single(w, ops);
}

/// Raw inputs known to trouble decoders.
fn nasty(r: &mut Rng, json: bool) -> Vec<u8> {
    if json {
        match r.below(8) {
            0 => b"[".repeat(r.log(17) as usize),
            1 => [b"{\"a\":".repeat(r.log(14) as usize), b"1".to_vec()].concat(),
            2 => [b"[".repeat(126), b"]".repeat(126)].concat(),
            3 => b"\"\\ud800\"".to_vec(),
            4 => b"1e999999999".to_vec(),
            5 => b"-18446744073709551616".to_vec(),
            6 => b"{\"a\":1,\"a\":\"x\"}".to_vec(),
            _ => b"99999999999999999999999999999999999999".to_vec(),
        }
    } else {
        match r.below(12) {
            0 => vec![0x81; r.log(17) as usize],
            1 => vec![0x9f; r.log(17) as usize],
            2 => [vec![0xa1, 0x61, 0x61]; 1].concat().repeat(r.log(14) as usize),
            3 => vec![0xc1; r.log(17) as usize],
            4 => vec![*r.pick(&[0x9b, 0xbb, 0x5b, 0x7b]), 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1],
            5 => vec![*r.pick(&[0x9b, 0xbb, 0x5b, 0x7b]), 0, 0, 0, 0x7f, 0xff, 0xff, 0xff, 0xff, 1],
            6 => vec![0x9b, 0, 0, 0, 1, 0, 0, 0, 0],
            7 => vec![0x3b, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff],
            8 => vec![0xc2, 0x49, 1, 0, 0, 0, 0, 0, 0, 0, 0],
            9 => vec![0xf9, 0x7e, 0x00],
            10 => vec![0xa2, 0x61, 0x61, 1, 0x61, 0x61, 0x61, 0x62],
            _ => vec![0xa1, 0xfb, 0x7f, 0xf8, 0, 0, 0, 0, 0, 0, 1],
        }
    }
}

/// Bytes which are, are almost or are not at all CBOR.
fn odd_bytes(r: &mut Rng) -> Vec<u8> {
    if r.pct(40) {
        return r
            .pick(&[&[][..], &[0xf6], &[0xf6, 0xf6], &[0xff], &[0x9f], &[0x9f, 1], &[0x61], &[0x61, 0xff], &[0xc1], &[0x1c], &[0xfc], &[0xf8, 0x10], &[0xa1, 1], &[0x80], &[0x5f, 0x41], &[0xd9, 0xff, 0xff, 1], &[0x81, 0xe0]])
            .to_vec();
    }
    let mut v = any_doc(r, 2).cbor();
    match r.below(6) {
        0 => v.push(0xf6),
        1 => {
            let n = r.us(v.len());
            v.truncate(n);
        }
        2 => {
            let i = r.us(v.len());
            v[i] = r.next() as u8;
        }
        3 => v.insert(0, r.next() as u8),
        _ => (),
    }
    v
}

fn odd_text(r: &mut Rng) -> Doc {
    let n = *r.pick(&[0, 1, 2, 3, 4, 5, 31, 99, 100, 101, 255]);
    let c = *r.pick(&["\u{e9}", "a", "\u{1f600}", "\0", "\u{feff}", "a\u{e9}", "\u{fffd}\"\\", "\n"]);
    let mut s = c.repeat(n);
    if r.pct(30) {
        s.insert(0, 'a');
    }
    Doc::S(s)
}

/// A document of unusual values.
fn odd_doc(r: &mut Rng) -> Doc {
    match r.below(9) {
        0 | 1 => odd_text(r),
        2 => Doc::Y(odd_bytes(r)),
        3 => Doc::T(*r.pick(&[0, 1, 2, 3, 24, 55799, 999, 1000, 65536, u32::MAX as u64, u64::MAX]), Box::new(any_doc(r, 1))),
        4 => Doc::E(Box::new(odd_doc(r))),
        5 => Doc::A((0..r.us(4)).map(|_| odd_doc(r)).collect()),
        6 => Doc::M((0..r.us(4)).map(|_| (if r.pct(70) { odd_text(r) } else { odd_doc(r) }, odd_doc(r))).collect()),
        7 => {
            let mut d = Doc::I(1);
            gen::big_values(r, &mut d, false);
            d
        }
        _ => any_doc(r, 2),
    }
}

/// A few documents, each cut at (nearly) every place, for a rule that takes anything.
fn cuts(w: &mut Work) {
    match w.r.below(10) {
        0..=2 => w.kernel(1),
        3 | 4 => {
            w.curated();
        }
        5 | 6 => {
            w.site(4);
        }
        _ => {
            let mut o = w.opts();
            o.json |= w.r.pct(50);
            w.generated(o, "", 4);
        }
    }
    w.swell_some(20);
    let text = *w.r.pick(&["zz = any", "zz = any / tstr", "zz = [* any] / {* any => any} / any"]);
    let any = w.rules(vec![text.into()]);
    w.slots_for_all();
    let mut ops = Vec::new();
    let targets = w.targets.clone();
    for _ in 0..3 {
        let t = w.r.pick(&targets).clone();
        let d = w.scn.docs[t.doc].doc.clone();
        let json = json_ok(&d) && w.r.pct(60);
        let mut dmg = Vec::new();
        if w.r.pct(45) {
            dmg.push(Dmg::Space(w.r.next()));
        }
        let len = DocSpec { doc: d.clone(), dmg: dmg.clone() }.len(json);
        let mut at: Vec<usize> = (0..len).collect();
        while at.len() > 24 {
            // The end is where the interesting places are.
            let i = w.r.us(at.len() - 6);
            at.remove(i);
        }
        let api = if json { Api::JsonStr } else { Api::CborBytes };
        for cut in at {
            let doc = w.doc(d.clone());
            w.scn.docs[doc].dmg = dmg.clone();
            w.scn.docs[doc].dmg.push(Dmg::Trunc(cut));
            let t2 = if w.r.pct(75) { Target { schema: any, rule: "zz".into(), doc } } else { Target { doc, ..t.clone() } };
            ops.push(Op::Val(w.val_api(&t2, api)));
        }
    }
    single(w, ops);
}

fn c09(w: &mut Work) {
    let mode = w.scn.mode.clone();
    if mode == "refused" {
        // Texts that are refused, again and again, from one or several threads.
        for _ in 0..4 {
            w.invalid();
        }
        let mut tasks = Vec::new();
        for _ in 0..1 + w.r.us(2) {
            let mut ops = Vec::new();
            for _ in 0..6 {
                let schema = w.r.us(4);
                ops.push(Op::Compile { how: w.r.below(4) as u8, schema });
            }
            tasks.push(ops);
        }
        w.scn.phases.push(tasks);
        return;
    }
    if mode == "cuts" {
        cuts(w);
        return;
    }
    let r0 = w.r.pct(40);
    if mode == "numbers" && w.r.pct(50) {
        w.kernel(2);
    } else if r0 {
        w.curated();
    } else {
        let mut o = w.opts();
        o.json = mode == "json";
        w.generated(o, "", 3);
    }
    w.swell_some(12);
    w.slots_for_all();
    let mut ops = Vec::new();
    let targets = w.targets.clone();
    for _ in 0..6 {
        let t = w.r.pick(&targets).clone();
        match mode.as_str() {
            "cbor" | "json" | "nasty" => {
                let json = mode == "json" && json_ok(&w.scn.docs[t.doc].doc) || mode == "nasty" && w.r.pct(40);
                let d = w.scn.docs[t.doc].doc.clone();
                let doc = w.doc(d);
                if w.r.pct(30) {
                    w.scn.docs[doc].dmg.push(Dmg::Space(w.r.next()));
                }
                let len = w.scn.docs[doc].len(json);
                let more = if mode == "nasty" { vec![Dmg::Set(nasty(&mut w.r, json))] } else { gen_dmg(&mut w.r, len, json) };
                w.scn.docs[doc].dmg.extend(more);
                let t2 = Target { doc, ..t.clone() };
                let api = match (json, w.r.below(4)) {
                    (true, 0) => Api::Json,
                    (true, _) => Api::JsonStr,
                    (false, 0) => Api::Cbor,
                    (false, _) => Api::CborBytes,
                };
                ops.push(Op::Val(w.val_api(&t2, api)));
            }
            "numbers" => {
                // Numbers at the limits of what can be represented, or beyond.
                let mut s = w.scn.schemas[t.schema].clone();
                let n = s.rules.len();
                for _ in 0..1 + w.r.us(3) {
                    let i = w.r.us(n);
                    s.rules[i] = gen::big_numbers(&mut w.r, &s.rules[i]);
                }
                if w.r.pct(15) {
                    s.rules.push(format!("extra = {}", gen::number(&mut w.r)));
                }
                w.scn.schemas.push(s);
                let schema = w.scn.schemas.len() - 1;
                let mut doc = w.scn.docs[t.doc].doc.clone();
                let json = json_ok(&doc) && w.r.pct(60);
                if w.r.pct(70) {
                    gen::big_values(&mut w.r, &mut doc, json);
                }
                let doc = w.doc(doc);
                if w.r.pct(20) {
                    ops.push(Op::Compile { how: w.r.below(4) as u8, schema });
                } else {
                    let t2 = Target { schema, doc, rule: t.rule.clone() };
                    let api = if json { Api::JsonStr } else { *w.r.pick(&[Api::CborBytes, Api::Cbor]) };
                    ops.push(Op::Val(w.val_api(&t2, api)));
                }
            }
            "odd" => {
                // Unusual or misplaced pieces of schema text.
                let mut s = w.scn.schemas[t.schema].clone();
                let n = s.rules.len();
                let control = w.r.pct(55);
                let (text, kind) = gen::odd_control(&mut w.r);
                let how = w.r.below(4);
                if let Some(i) = s.rules.iter().position(|x| control && x.split([' ', '<']).next() == Some(&t.rule[..])) {
                    let name = s.rules[i].split(" =").next().unwrap_or_default().to_string();
                    s.rules[i] = match how {
                        0 => format!("{name} = [* {text}]"),
                        1 => format!("{name} = {text} / any"),
                        2 => format!("{name} = {{* any => {text}}}"),
                        _ => format!("{name} = {text}"),
                    };
                }
                for _ in 0..if control { 0 } else { 1 + w.r.us(2) } {
                    let hit = s.rules.iter().position(|x| x.split([' ', '<']).next() == Some(&t.rule[..]));
                    let i = hit.filter(|_| w.r.pct(50)).unwrap_or_else(|| w.r.us(n));
                    s.rules[i] = gen::odd_rule(&mut w.r, &s.rules[i]);
                }
                if nesting(&s.text()) > 9 {
                    continue;
                }
                w.scn.schemas.push(s);
                let schema = w.scn.schemas.len() - 1;
                if w.r.pct(20) {
                    ops.push(Op::Compile { how: w.r.below(4) as u8, schema });
                } else {
                    let doc = if control {
                        let r = &mut w.r;
                        let mut one = || match kind {
                            _ if r.pct(10) => odd_doc(r),
                            't' => odd_text(r),
                            'b' => Doc::Y(odd_bytes(r)),
                            _ => {
                                let mut d = Doc::I(1);
                                gen::big_values(r, &mut d, false);
                                d
                            }
                        };
                        let d = match how {
                            0 => Doc::A((0..4).map(|_| one()).collect()),
                            2 => Doc::M((0..4).map(|i| (Doc::I(i), one())).collect()),
                            _ => one(),
                        };
                        w.doc(d)
                    } else if w.r.pct(50) {
                        t.doc
                    } else {
                        let d = odd_doc(&mut w.r);
                        w.doc(d)
                    };
                    let json = json_ok(&w.scn.docs[doc].doc) && w.r.pct(50);
                    let t2 = Target { schema, doc, rule: t.rule.clone() };
                    let api = if json { Api::JsonStr } else { *w.r.pick(&[Api::CborBytes, Api::Cbor]) };
                    ops.push(Op::Val(w.val_api(&t2, api)));
                }
            }
            "schema" => {
                let mut s = w.scn.schemas[t.schema].clone();
                s.dmg = gen_dmg(&mut w.r, s.whole().len(), true);
                if nesting(&s.text()) > 9 {
                    continue;
                }
                w.scn.schemas.push(s);
                let i = w.scn.schemas.len() - 1;
                if w.r.pct(40) {
                    ops.push(Op::Compile { how: w.r.below(4) as u8, schema: i });
                } else {
                    let json = json_ok(&w.scn.docs[t.doc].doc);
                    let t2 = Target { schema: i, ..t.clone() };
                    let api = if json && w.r.pct(60) { Api::JsonStr } else { Api::CborBytes };
                    ops.push(Op::Val(w.val_api(&t2, api)));
                }
            }
            _ => {
                let len = w.scn.schemas[t.schema].whole().len();
                if nesting(&w.scn.schemas[t.schema].whole()) > 9 {
                    continue;
                }
                let at = w.r.us(len + 1);
                for k in 0..if mode == "torn" { 3 } else { 1 } {
                    ops.push(Op::Torn { schema: t.schema, cut: (at + k).min(len) });
                }
            }
        }
        if w.r.pct(35) {
            let t = w.r.pick(&targets).clone();
            ops.push(Op::Val(w.val(&t)));
        }
    }
    w.scn.phases.push(if w.r.pct(20) && ops.len() > 1 {
        let b = ops.split_off(ops.len() / 2);
        vec![ops, b]
    } else {
        vec![ops]
    });
}

fn c10(w: &mut Work, refs: &mut Refs) {
    let map = w.scn.mode.ends_with("map");
    let deep = w.scn.mode.starts_with("deep");
    let json = w.r.pct(60);
    let mut pats: Vec<String> = Vec::new();
    let mut docs: Vec<Doc> = Vec::new();
    let mut rules: Vec<String>;
    {
        // An alternative that is unwrapped hands on its cuts; there are none then.
        let cuts = map && w.r.pct(40);
        let o = Opts { safe: true, no_cut: !cuts, generics: w.r.pct(50), json };
        let r = &mut w.r;
        let mut g = Gen::new(r, o, "");
        g.support();
        let d = if deep { 2 } else { 1 };
        // The pattern, and what is tried before it.
        let body = if map { g.gmap(d) } else { g.garr(d) };
        let body = gen::G(vec![body.0[0].clone(), body.0.last().unwrap().clone()][..body.0.len().min(2)].to_vec());
        let mut alts: Vec<String> = Vec::new();
        let nv = if map { "\"!nv!\" => any" } else { "\"!nv!\"" };
        for _ in 0..3 {
            let mut items: Vec<gen::E> = match g.r.below(4) {
                // Part of the pattern itself: it does match some of the time.
                0..=2 => {
                    let c = g.r.pick(&body.0).clone();
                    let k = g.r.range(1, c.len() as u64) as usize;
                    c[..k].to_vec()
                }
                _ => {
                    let x = if map { g.gmap(d) } else { g.garr(d) };
                    x.0[0].clone()
                }
            };
            if g.r.pct(40) {
                // Something that takes anything first.
                let any = if map {
                    gen::E { occ: gen::Occ::One, key: gen::K::Arrow(Box::new(gen::T::Prim("tstr")), false), val: gen::V::T(gen::T::Prim("any")) }
                } else {
                    gen::e(gen::V::T(gen::T::Prim("any")))
                };
                let at = g.r.us(items.len() + 1);
                items.insert(at, any);
            }
            for it in &mut items {
                // More is consumed without "optional".
                if g.r.pct(30) {
                    it.occ = *g.r.pick(&[gen::Occ::One, gen::Occ::Star, gen::Occ::Plus, gen::Occ::Num(1, 3)]);
                }
            }
            // Group some of them, on one or several levels.
            let mut texts: Vec<String> = items.iter().map(|x| x.text()).collect();
            for _ in 0..g.r.us(3) {
                let a = g.r.us(texts.len());
                let b = g.r.range(a as u64, texts.len() as u64 - 1) as usize;
                let inner = texts[a..=b].join(", ");
                let wrap = match g.r.below(6) {
                    0 => format!("({inner})"),
                    1 => format!("? ({inner})"),
                    2 => format!("* ({inner})"),
                    3 => format!("1*2 ({inner})"),
                    4 => format!("(({inner}, {nv}) // ({inner}))"),
                    _ => format!("+ ({inner})"),
                };
                texts.splice(a..=b, [wrap]);
            }
            // How it comes to nothing in the end.
            alts.push(match g.r.below(8) {
                0 if texts.len() > 1 => {
                    let last = texts.pop().unwrap();
                    format!("{}, ({last}, {nv})", texts.join(", "))
                }
                1 => format!("{}, ({nv} // {nv})", texts.join(", ")),
                2 => format!("{}, + ({nv})", texts.join(", ")),
                3 => format!("{}, 2*3 {nv}", texts.join(", ")),
                _ => format!("{}, {nv}", texts.join(", ")),
            });
        }
        let spec = g.finish();
        rules = spec.texts();
        let mark = if map { "mark = (? \"!mk!\" => any)" } else { "mark = (? \"!mk!\")" };
        rules.push(mark.into());
        let b = body.text();
        let b = if body.0.len() > 1 { format!("({b})") } else { b };
        let mut b = format!("mark, {b}");
        // How much an alternative takes before it fails.
        let mut long = if r.pct(12) { size(r) } else { 0 };
        if long == 40 {
            // Not one of the counts replaced below.
            long = 41;
        }
        let fill = if long > 0 { r.below(4) } else { 0 };
        if long > 0 {
            let x = match fill {
                0 => "any",
                1 => "int",
                2 => "(int)",
                _ => "tstr",
            };
            b = if map { format!("{b}, {long}*{long} \"k\" .regexp") } else { format!("{b}, {long}*{long} {x}") };
            if map {
                b = b.replace("\"k\" .regexp", &format!("(tstr .regexp \"!k[0-9]+\") => {}", x.trim_matches(['(', ')'])));
            }
        }
        let (l, rr) = if map { ("{", "}") } else { ("[", "]") };
        let pat = |x: String| format!("{l}{x}{rr}");
        let mut add = |p: String, rules: &mut Vec<String>| {
            let n = format!("v{}", pats.len());
            rules.push(format!("{n} = {p}"));
            pats.push(n);
        };
        add(pat(b.clone()), &mut rules);
        let (a1, a2) = (&alts[0], &alts[1]);
        rules.push(format!("u1 = {}", pat(a1.clone())));
        rules.push(format!("try1 = ({a1})"));
        rules.push("try2 = try1".into());
        rules.push(format!("try3 = ({a2} // {a1})"));
        let one = if map { *r.pick(&["tstr => any", "\"a\" => any", "tstr => int"]) } else { *r.pick(&["any", "int", "tstr"]) };
        let mut forms: Vec<String> = vec![
            format!("({a1} // {b})"),
            format!("? ({a1}), {b}"),
            format!("* ({a1}), {b}"),
            format!("? ~u1, {b}"),
            format!("* ~u1, {b}"),
            format!("? try1, {b}"),
            format!("(try1 // {b})"),
            format!("(~u1 // {b})"),
            format!("? (1*1 ({a1})), {b}"),
            format!("0*3 ({a1} // {a2}), {b}"),
            format!("(({a1} // {a2}) // {b})"),
            format!("({a1} // {a2} // {b})"),
            format!("? (40*40 ({one})), {b}"),
            format!("(40*41 ({one}) // {b})"),
            format!("? (? ({one}), ({a1})), {b}"),
            format!("? (* ({one}), ({a1} // {a2})), {b}"),
            format!("? try2, * try3, {b}"),
            format!("(try3 // {b})"),
            format!("? ({one}, ? try3, ~u1), {b}"),
        ];
        if map {
            forms.push(format!("? &({one}, {a1}), {b}").replace(&format!("{one}, {a1}"), &format!("40*40 {one}")));
            forms.push(format!("? &(39*39 ({one})), {b}"));
            forms.push(format!("? &try1x, {b}"));
            rules.push(format!("try1x = (({a1}), 40*40 {one})"));
        }
        if o.generics {
            rules.push(if map { format!("gt<NV> = ({}, NV => any)", a1) } else { format!("gt<NV> = ({}, NV)", a1) });
            forms.push(format!("? gt<\"!nx!\">, {b}"));
            forms.push(format!("(gt<\"!nx!\"> // {b})"));
        }
        if cuts {
            forms.retain(|f| !f.contains("~u1"));
        }
        if long > 0 {
            // What is to fail for want of entries still must.
            let far = |x: &String| x.replace("40*40", "400*400").replace("40*41", "400*401").replace("39*39", "399*399");
            forms = forms.iter().map(far).collect();
            rules = rules.iter().map(far).collect();
            forms.push(format!("? (* ({one}), {nv}), {b}"));
            forms.push(format!("(* ({one}), ({nv} // {a1}) // {b})"));
            forms.push(format!("? (* ((({one}), ? ({nv}))), {nv}), {b}"));
            forms.push(format!("? (2*290 ({one}), ({nv} // ? {nv}, {nv})), {b}"));
            let keep = forms.len() - 4;
            while forms.len() > 9 {
                let i = r.us(forms.len().min(keep));
                forms.remove(i);
            }
        }
        while forms.len() > 7 {
            let i = r.us(forms.len());
            forms.remove(i);
        }
        for f in forms {
            add(pat(f), &mut rules);
        }
        // Documents the pattern accepts, and near misses.
        let empty = std::rc::Rc::new(Vec::new());
        for i in 0..6 {
            let mut s = Sampler { r, spec: &spec, fuel: 60 };
            let mut out = Vec::new();
            s.g(&body, &empty, &mut out);
            let more = (0..long).map(|i| if fill == 3 { Doc::S(format!("e{}", i % 7)) } else { Doc::I(i as i128 % 5) });
            for (i, x) in more.enumerate() {
                out.push((Some(Doc::S(format!("!k{i}"))), x));
            }
            let mut d = if map {
                let mut m: Vec<(Doc, Doc)> = Vec::new();
                for (k, v) in out {
                    let k = k.unwrap_or_else(|| Doc::S("a".into()));
                    if !m.iter().any(|(x, _)| *x == k) {
                        m.push((k, v));
                    }
                }
                Doc::M(m)
            } else {
                Doc::A(out.into_iter().map(|x| x.1).collect())
            };
            if i >= 3 {
                s.mutate(&mut d);
            }
            docs.push(d);
        }
    }
    if w.r.pct(30) {
        let n = rules.len();
        for i in (1..n).rev() {
            let j = w.r.us(i + 1);
            rules.swap(i, j);
        }
    }
    rules.retain(|x| !x.is_empty());
    let s = w.rules(rules);
    w.slots_for_all();
    let mut plain = Vec::new();
    for d in docs {
        let doc = w.doc(d);
        let api = if json_ok(&w.scn.docs[doc].doc) && w.r.pct(60) { Api::Json } else { Api::Cbor };
        for p in &pats {
            let mut v = w.val_api(&Target { schema: s, rule: p.clone(), doc }, api);
            v.latency = 0;
            v.res = Res::Plain;
            plain.push(v);
        }
    }
    // The names each request asks for, in order.
    let mut probe = w.scn.clone();
    probe.mode = "names".into();
    probe.phases = vec![vec![plain.iter().map(|v| Op::Val(v.clone())).collect()]];
    refs.runs += 1;
    let seqs = match run(&probe).end {
        End::Done(d) => d.ops.into_iter().map(|o| o.seq).collect(),
        _ => Vec::new(),
    };
    let mut ops = Vec::new();
    for (i, v) in plain.into_iter().enumerate() {
        ops.push(Op::Val(v.clone()));
        if v.rule == "v0" {
            continue;
        }
        // Abandon the alternative at one of the lookups made inside it.
        let n = seqs.get(i).and_then(|s| s.iter().position(|x| x == "mark")).unwrap_or(0) as u64;
        for _ in 0..2 {
            if n > 0 && w.r.pct(50) {
                let mut v = v.clone();
                v.fault = Some(Fault::Never { at: w.r.range(1, n) as u32 });
                ops.push(Op::Val(v));
            }
        }
    }
    single(w, ops);
}

fn doubling(round: &[Op], waves: u32) -> Vec<Op> {
    let many = |n, op: &Op| Op::Many { n, op: Box::new(op.clone()) };
    (0..waves).flat_map(|k| round.iter().map(move |op| many(if k == 0 { 1 } else { 1 << (k - 1) }, op))).collect()
}

fn c11(w: &mut Work, refs: &mut Refs) {
    let mode = w.scn.mode.clone();
    w.scn.env.arena_policy = w.r.below(2) as u8;
    if mode.starts_with("fresh") {
        let base = 1000 * w.r.below(1000);
        let per = 8;
        let waves: Vec<Op> = (0..60).map(|i| Op::Fresh { from: base + i * per, n: per }).collect();
        if mode == "fresh" {
            w.scn.phases = waves.into_iter().map(|o| vec![vec![o]]).collect();
        } else {
            single(w, waves);
        }
        return;
    }
    w.some(2, 3);
    w.deepen_some(10);
    w.swell_some(12);
    let bad: Vec<usize> = (0..if mode == "refused" { 4 } else { w.r.us(2) }).map(|_| w.invalid()).collect();
    w.slots_for_all();
    let nt = if mode == "waves" { 1 + w.r.us(3) } else { 1 };
    let mut tasks = Vec::new();
    for _ in 0..nt {
        let mut ops = Vec::new();
        for _ in 0..2 + w.r.us(4) {
            let mut op = w.any_op();
            if mode == "refused" {
                let schema = *w.r.pick(&bad);
                if w.r.pct(60) {
                    op = Op::Compile { how: w.r.below(4) as u8, schema };
                } else {
                    let t = w.target();
                    let json = json_ok(&w.scn.docs[t.doc].doc);
                    op = Op::Val(w.val_api(&Target { schema, ..t }, if json { Api::JsonStr } else { Api::CborBytes }));
                }
                ops.push(op);
                continue;
            }
            if w.r.pct(45) {
                let t = w.target();
                let mut v = w.val_ctx(&t);
                v.fault = lookup_fault(w, &v, refs, 50);
                op = Op::Val(v);
            } else if w.r.pct(15) {
                let i = w.r.us(w.scn.schemas.len());
                op = Op::Reload { slot: i, schema: i };
            }
            ops.push(op);
        }
        tasks.push(ops);
    }
    if mode == "double" {
        // Each wave as many requests as all before it.
        let mut round = tasks.remove(0);
        round.retain(|op| cost(w, op, refs) < 60_000);
        round.truncate(4);
        if round.is_empty() {
            round.push(Op::Compile { how: 0, schema: 0 });
        }
        single(w, doubling(&round, 9));
    } else if mode == "waves" {
        for _ in 0..14 {
            w.scn.phases.push(tasks.clone());
        }
    } else {
        let round = tasks.remove(0);
        let mut all = Vec::new();
        for _ in 0..14 {
            all.extend(round.iter().cloned());
        }
        single(w, all);
    }
}

// ---- schedules ------------------------------------------------------------------------

/// Schedules for the scenario, given a run of it without preemptions.
pub fn perturb(r: &mut Rng, scn: &Scenario, run: &Run) -> Option<Scenario> {
    let nt = scn.phases.iter().map(Vec::len).max().unwrap_or(0);
    if nt < 2 || run.steps <= run.setup {
        return None;
    }
    let mut s = scn.clone();
    s.preempts.clear();
    s.lookup_preempts.clear();
    let (lo, hi) = (run.setup, run.steps);
    let t = |r: &mut Rng| r.us(nt) as u8;
    let hot: Vec<u64> = run.hot.iter().copied().filter(|h| *h > lo).collect();
    let kind = if hot.is_empty() { r.below(10) } else { r.below(30) };
    match kind {
        0 | 1 => {
            for _ in 0..1 + r.us(4) {
                s.preempts.push((r.range(lo, hi), t(r)));
            }
        }
        2 | 3 => {
            let mut at = r.range(lo, hi);
            for _ in 0..4 + r.us(20) {
                s.preempts.push((at, t(r)));
                at += 1 + r.log(7);
            }
        }
        4 => {
            let gap = r.log(12) + 5;
            let mut at = lo + r.below(gap);
            while at < hi && s.preempts.len() < 500 {
                s.preempts.push((at, t(r)));
                at += 1 + r.below(2 * gap);
            }
        }
        5 | 6 => {
            let n = run.counters[crate::sched::C_LOOKUPS].max(1);
            for _ in 0..1 + r.us(6) {
                s.lookup_preempts.push((r.range(1, n), t(r)));
            }
            s.lookup_preempts.sort();
            if r.pct(40) {
                s.preempts.push((r.range(lo, hi), t(r)));
            }
        }
        7 => {
            // Start-up: all threads a few steps into their first call.
            let mut at = lo;
            for _ in 0..10 + r.us(40) {
                at += r.log(8);
                s.preempts.push((at, t(r)));
            }
        }
        8 | 9 => convoy(r, &mut s, run),
        10..=17 => {
            // Around accesses to static data and lock waits.
            for _ in 0..1 + r.us(8) {
                let h = *r.pick(&hot);
                s.preempts.push(((h + r.below(40)).saturating_sub(10).max(lo), t(r)));
            }
        }
        _ => {
            // Right after such an access another thread runs for about one request,
            // or for a few such accesses of its own, and then the first one goes on.
            let i = r.us(hot.len());
            let at = hot[i] + 1 + r.below(6);
            let (a, b) = (t(r), t(r));
            s.preempts.push((at, b));
            let one = match &run.end {
                End::Done(d) if !d.ops.is_empty() && r.pct(50) => {
                    let o = &d.ops[r.us(d.ops.len())];
                    o.steps + r.below(20)
                }
                _ => {
                    let k = (i + 1 + r.us(4)).min(hot.len() - 1);
                    hot[k].saturating_sub(hot[i]) + 1 + r.below(6)
                }
            };
            s.preempts.push((at + one, a));
            if r.pct(40) {
                s.preempts.push((at + one + r.log(8), b));
            }
        }
    }
    s.preempts.sort();
    if r.pct(50) {
        s.rr = r.next() | 1;
    }
    Some(s)
}

/// Each thread is stopped in the middle of a request (far into it, as a rule), and
/// the next one starts; then all go on.
fn convoy(r: &mut Rng, s: &mut Scenario, run: &Run) {
    let End::Done(d) = &run.end else { return };
    let nt = s.phases[0].len();
    let by_lookups = r.pct(60);
    let first = if r.pct(70) { 0 } else { r.us(3) };
    let mut total = 0;
    let late = r.pct(60);
    for t in 0..nt {
        let mine: Vec<&OpRes> = d.ops.iter().filter(|o| o.phase == 0 && o.task == t).collect();
        if mine.is_empty() {
            continue;
        }
        let k = first.min(mine.len() - 1);
        let size = |o: &OpRes| if by_lookups { o.lookups } else { o.steps };
        let before: u64 = mine.iter().filter(|o| o.op < k).map(|o| size(o)).sum();
        let n = size(mine.iter().find(|o| o.op == k).unwrap_or(&mine[0])).max(1);
        let inside = if late { n - r.below(n / 8 + 2).min(n - 1) } else { r.range(1, n) };
        total += before + inside;
        let next = ((t + 1) % nt) as u8;
        if by_lookups {
            s.lookup_preempts.push((total, next));
        } else {
            s.preempts.push((run.setup + total, next));
        }
    }
}

// ---- judging --------------------------------------------------------------------------

fn verdict(k: &str) -> Option<bool> {
    match k {
        "Ok" => Some(true),
        "Mismatch" | "MapCut" => Some(false),
        _ => None,
    }
}

fn op_at(scn: &Scenario, r: &OpRes) -> Op {
    match &scn.phases[r.phase][r.task][r.op] {
        Op::Many { op, .. } => (**op).clone(),
        o => o.clone(),
    }
}

fn place(r: &OpRes) -> String {
    format!("phase {} thread {} request {}", r.phase, r.task, r.op)
}

fn show_op(scn: &Scenario, op: &Op) -> String {
    match op {
        Op::Val(v) => {
            let d = &scn.docs[v.doc];
            let doc = match v.api {
                Api::Json | Api::JsonStr => d.json(),
                _ => format!("cbor {}", d.cbor().iter().take(80).map(|x| format!("{x:02x}")).collect::<String>()),
            };
            let mut doc: String = doc.chars().take(160).collect();
            if let Some(f) = &v.fault {
                doc.push_str(&format!(" with {f:?}"));
            }
            format!("{:?} of {} against rule {} of {:?} ({:?})", v.api, doc, v.rule, v.src, v.res)
        }
        Op::Many { n, op } => format!("{n} times {}", show_op(scn, op)),
        o => format!("{o:?}"),
    }
}

fn abnormal_text(e: &End) -> (&'static str, String) {
    match e {
        End::Hang => ("hang", "did not return within its step budget".into()),
        End::Deadlock => ("deadlock", "every thread waits for another".into()),
        End::Signal(s) => ("crash", format!("the process died of signal {s}")),
        _ => ("harness", String::new()),
    }
}

/// What the requests in progress were when a run ended abnormally, and whether any of
/// them ends that way even when made alone.
fn in_flight(scn: &Scenario, run: &Run, refs: &mut Refs) -> (String, bool) {
    let mut text = Vec::new();
    let mut alone = false;
    if run.phase == 0 {
        for s in &scn.slots {
            let op = Op::Compile { how: 2, schema: *s };
            if refs.solo(scn, &op, usize::MAX).res.is_none() {
                alone = true;
            }
            text.push(format!("compiling schema {s}"));
        }
        return (text.join("; "), alone);
    }
    for (t, o) in &run.at {
        let Some(op) = scn.phases.get(run.phase as usize - 1).and_then(|p| p.get(*t)).and_then(|t| t.get(*o)) else { continue };
        text.push(format!("thread {t} request {o}: {}", show_op(scn, op)));
        let schema = match op {
            Op::Val(v) => schema_of(scn, v),
            _ => usize::MAX,
        };
        if refs.solo(scn, op, schema).res.is_none() {
            alone = true;
        }
    }
    (text.join("; "), alone)
}

fn mismatch_with_solo(scn: &Scenario, r: &OpRes, refs: &mut Refs, j: &mut Judged, names: bool) {
    let op = op_at(scn, r);
    let solo = refs.solo(scn, &op, r.schema);
    let Some(s) = &solo.res else { return };
    if r.out.kind == "NoShadow" || s.out.kind == "NoShadow" {
        j.hit("skipped: rules to be put together do not compile");
        return;
    }
    if s.out != r.out {
        j.violation(
            "differs",
            format!("{}: {} gave {} where alone in a fresh process it gives {}", place(r), show_op(scn, &op), r.out.show(), s.out.show()),
        );
    } else if names && matches!(&op, Op::Val(v) if v.res != Res::Basic && matches!(v.api, Api::Json | Api::Cbor)) && (r.names != s.names || r.lookups != s.lookups) {
        j.violation(
            "lookups",
            format!(
                "{}: {} asked its context {} names (digest {:016x}) where alone it asks {} (digest {:016x})",
                place(r),
                show_op(scn, &op),
                r.lookups,
                r.names,
                s.lookups,
                s.names
            ),
        );
    }
    if let Op::Val(Val { res: Res::Reentrant { nested, .. }, .. }) = &op {
        let schema = schema_of(scn, nested);
        let solo = refs.solo(scn, &Op::Val((**nested).clone()), schema);
        let Some(s) = &solo.res else { return };
        for o in &r.nested {
            j.hit("nested");
            if *o != s.out {
                j.violation(
                    "nested",
                    format!(
                        "{}: {} started inside a lookup gave {} where alone it gives {}",
                        place(r),
                        show_op(scn, &Op::Val((**nested).clone())),
                        o.show(),
                        s.out.show()
                    ),
                );
            }
        }
    }
}

/// The one-call front ends have to agree with the context served by the simulator.
fn front(scn: &Scenario, r: &OpRes, refs: &mut Refs, j: &mut Judged) {
    let op = op_at(scn, r);
    let Op::Val(mut v) = op.clone() else { return };
    v.api = match v.api {
        Api::JsonStr => Api::Json,
        Api::CborBytes => Api::Cbor,
        _ => return,
    };
    v.res = Res::Plain;
    let solo = refs.solo(scn, &Op::Val(v), r.schema);
    let Some(s) = &solo.res else { return };
    match s.out.kind.as_str() {
        "NoRule" => {
            if r.out.kind != "MissingRule" {
                j.violation("front", format!("{}: {} gave {} though the schema has no such rule", place(r), show_op(scn, &op), r.out.show()));
            }
        }
        "BadDoc" => (),
        _ => {
            if s.out != r.out {
                j.violation(
                    "front",
                    format!("{}: {} gave {} where a context holding the schema's rules gives {}", place(r), show_op(scn, &op), r.out.show(), s.out.show()),
                );
            }
        }
    }
}

pub fn judge(scn: &Scenario, run: &Run, refs: &mut Refs) -> Judged {
    let mut j = Judged::default();
    let p = scn.prop.as_str();
    let res = match &run.end {
        End::Done(res) => res,
        End::Harness(_) => return j,
        e => {
            let (kind, text) = abnormal_text(e);
            let alloc = p == "C08" && scn.mode == "alloc";
            j.hit(&format!("end:{kind}"));
            if alloc {
                // Dying of a refused allocation is what is expected.
                j.nontrivial = run.alloc_failed > 0;
                if j.nontrivial {
                    return j;
                }
            }
            let (ops, alone) = in_flight(scn, run, refs);
            let base = p == "C10"
                && run.at.iter().any(|(t, o)| matches!(&scn.phases[run.phase as usize - 1][*t][*o], Op::Val(v) if v.rule == "v0"));
            let mine = match p {
                "C06" | "C09" => true,
                "C10" => run.phase > 0 && !base,
                _ => !alone,
            };
            if mine {
                j.violation(kind, format!("{text}; in progress: {ops}"));
            } else {
                j.hit("skipped: ends this way even alone");
            }
            return j;
        }
    };
    for r in &res.ops {
        j.hit(&format!("out:{}", r.out.kind));
    }
    if !res.changed.is_empty() && p != "C09" {
        j.violation("changed", format!("the compiled rules of slots {:?} are no longer equal to what they were", res.changed));
    }
    match p {
        "C01" => {
            if !res.not_shareable.is_empty() {
                j.violation("not_shareable", format!("not Send and Sync: {}", res.not_shareable.join(", ")));
            }
            j.nontrivial = run.counters[crate::sched::C_PREEMPT] > 0;
            for r in &res.ops {
                mismatch_with_solo(scn, r, refs, &mut j, true);
            }
        }
        "C02" => {
            for r in &res.ops {
                let op = op_at(scn, r);
                let failing = matches!(&op, Op::Val(v) if matches!(v.fault, Some(Fault::LookupErr { .. })));
                j.nontrivial |= r.fired;
                if !r.fired || failing {
                    mismatch_with_solo(scn, r, refs, &mut j, true);
                }
            }
        }
        "C03" => {
            for r in &res.ops {
                match &r.answered {
                    Some(a) => {
                        j.nontrivial = true;
                        j.hit(&format!("answered:{}", a.kind));
                        if r.out != *a {
                            j.violation(
                                "hidden",
                                format!("{}: {} gave {} though a lookup was answered with {}", place(r), show_op(scn, &op_at(scn, r)), r.out.show(), a.show()),
                            );
                        }
                    }
                    None => {
                        mismatch_with_solo(scn, r, refs, &mut j, false);
                        front(scn, r, refs, &mut j);
                    }
                }
            }
        }
        "C04" => {
            for r in &res.ops {
                if r.answered.is_none() {
                    continue;
                }
                j.nontrivial = true;
                j.max("late_steps", r.late_steps);
                let op = op_at(scn, r);
                if r.late > 0 {
                    j.violation("late", format!("{}: {} made {} lookups after a lookup had failed", place(r), show_op(scn, &op), r.late));
                } else if r.late_steps > 200_000 {
                    j.violation("slow", format!("{}: {} ran for {} steps after a lookup had failed", place(r), show_op(scn, &op), r.late_steps));
                }
            }
        }
        "C05" => {
            for r in &res.ops {
                mismatch_with_solo(scn, r, refs, &mut j, true);
                front(scn, r, refs, &mut j);
                j.nontrivial |= r.lookups > 0;
            }
            if scn.mode == "rename" || scn.mode == "alpha" {
                for r in &res.ops {
                    if r.op % 2 == 1 {
                        continue;
                    }
                    let Some(q) = res.ops.iter().find(|q| q.op == r.op + 1) else { continue };
                    if q.out.kind != r.out.kind || q.lookups != r.lookups || scn.mode == "alpha" && q.names != r.names {
                        j.violation(
                            "rename",
                            format!(
                                "{}: {} gave {} after {} lookups, but with the rules renamed {} gave {} after {} lookups",
                                place(r),
                                show_op(scn, &op_at(scn, r)),
                                r.out.show(),
                                r.lookups,
                                show_op(scn, &op_at(scn, q)),
                                q.out.show(),
                                q.lookups
                            ),
                        );
                    }
                }
            }
        }
        "C06" => {
            for r in &res.ops {
                j.max("steps", r.steps);
                j.max("lookups", r.lookups);
                j.nontrivial |= r.out.kind == "Structural" || scn.mode == "empty";
                if r.out.kind == "Panic" {
                    j.violation("panic", format!("{}: {} panicked: {}", place(r), show_op(scn, &op_at(scn, r)), r.out.text));
                }
            }
        }
        "C07" => {
            j.nontrivial = true;
            for r in &res.ops {
                mismatch_with_solo(scn, r, refs, &mut j, true);
            }
        }
        "C08" => {
            for r in &res.ops {
                let op = op_at(scn, r);
                if scn.mode == "panic" {
                    if r.answered.as_ref().is_some_and(|a| a.kind == "SimPanic") {
                        j.nontrivial = true;
                        if r.out.kind != "SimPanic" {
                            j.violation("swallowed", format!("{}: {} gave {} though the context panicked", place(r), show_op(scn, &op), r.out.show()));
                        }
                    }
                } else if r.fired {
                    j.nontrivial = true;
                    j.hit("survived a refused allocation");
                    let solo = refs.solo(scn, &op, r.schema);
                    let Some(s) = &solo.res else { continue };
                    if let Some(v) = verdict(&r.out.kind) {
                        if verdict(&s.out.kind) != Some(v) {
                            j.violation(
                                "verdict",
                                format!("{}: {} gave {} after a refused allocation where with memory it gives {}", place(r), show_op(scn, &op), r.out.show(), s.out.show()),
                            );
                        }
                    }
                }
            }
        }
        "C09" => {
            for r in &res.ops {
                let op = op_at(scn, r);
                if r.out.kind == "Panic" {
                    j.violation("panic", format!("{}: {} panicked: {}", place(r), show_op(scn, &op), r.out.text));
                }
                let dmg = match &op {
                    Op::Val(v) => !scn.docs[v.doc].dmg.is_empty() || scn.schemas.get(r.schema).is_some_and(|s| !s.dmg.is_empty()),
                    Op::Torn { .. } => true,
                    Op::Compile { schema, .. } => !scn.schemas[*schema].dmg.is_empty(),
                    _ => false,
                };
                if dmg || matches!(scn.mode.as_str(), "numbers" | "refused" | "odd") {
                    j.nontrivial = true;
                    j.hit(&format!("damaged:{}", r.out.kind));
                }
                mismatch_with_solo(scn, r, refs, &mut j, false);
                if r.out.kind == "Differs" {
                    j.violation("torn", format!("{}: {}", place(r), r.out.text));
                }
                if let Op::Val(v) = &op {
                    let d = &scn.docs[v.doc];
                    if let [Dmg::Trunc(n)] | [Dmg::Space(_), Dmg::Trunc(n)] = d.dmg[..] {
                        let json = matches!(v.api, Api::Json | Api::JsonStr);
                        let whole = DocSpec { doc: d.doc.clone(), dmg: d.dmg[..d.dmg.len() - 1].to_vec() }.len(json);
                        let self_delimiting = !json || matches!(d.doc, Doc::A(_) | Doc::M(_) | Doc::S(_));
                        if n < whole && self_delimiting && r.out.kind == "Ok" {
                            j.violation("accepted", format!("{}: {} was accepted though only {} of {} bytes arrived", place(r), show_op(scn, &op), n, whole));
                        }
                    }
                }
            }
        }
        "C10" => {
            let base: BTreeMap<usize, &OpRes> = res
                .ops
                .iter()
                .filter_map(|r| match op_at(scn, r) {
                    Op::Val(v) if v.rule == "v0" && v.fault.is_none() => Some((v.doc, r)),
                    _ => None,
                })
                .collect();
            let mut seen = [false; 2];
            for r in &res.ops {
                let Op::Val(v) = op_at(scn, r) else { continue };
                let Some(b) = base.get(&v.doc) else { continue };
                if v.rule == "v0" {
                    continue;
                }
                let Some(want) = verdict(&b.out.kind) else {
                    j.hit("skipped: pattern fails fatally");
                    continue;
                };
                seen[want as usize] = true;
                if r.out.kind == "Panic" {
                    j.violation("panic", format!("{}: {} panicked: {}", place(r), show_op(scn, &Op::Val(v.clone())), r.out.text));
                }
                match verdict(&r.out.kind) {
                    None => j.hit(&format!("skipped: {}", r.out.kind)),
                    Some(got) if got != want => {
                        let rules = &scn.schemas[r.schema].rules;
                        let find = |n: &str| rules.iter().find(|x| x.starts_with(&format!("{n} = "))).cloned().unwrap_or_default();
                        j.violation(
                            "trace",
                            format!(
                                "{}: {} gave {}; the pattern without the abandoned alternative gives {} ({} / {})",
                                place(r),
                                show_op(scn, &Op::Val(v.clone())),
                                r.out.show(),
                                b.out.show(),
                                find(&v.rule),
                                find("v0"),
                            ),
                        );
                    }
                    _ => {
                        j.hit(if want { "agree:accept" } else { "agree:reject" });
                        if r.fired {
                            j.hit("agree:after an unmatchable definition");
                        }
                    }
                }
            }
            j.nontrivial = seen[0] && seen[1];
        }
        "C11" => {
            // Live bytes at the end of each wave.
            let live: Vec<i64> = match scn.mode.as_str() {
                "waves" | "fresh" => res.live.clone(),
                "double" => {
                    // As many waves as the number of requests in the last one tells.
                    let last = match scn.phases[0][0].last() {
                        Some(Op::Many { n, .. }) => *n,
                        _ => return j,
                    };
                    let waves = last.trailing_zeros() as usize + 2;
                    let n = res.ops.len() / waves;
                    if n == 0 || res.ops.len() % waves != 0 {
                        return j;
                    }
                    res.ops.iter().skip(n - 1).step_by(n).map(|r| r.live).collect()
                }
                "freshthread" => res.ops.iter().map(|r| r.live).collect(),
                _ => {
                    let n = res.ops.len() / 14;
                    if n == 0 || res.ops.len() % 14 != 0 {
                        return j;
                    }
                    res.ops.iter().skip(n - 1).step_by(n).map(|r| r.live).collect()
                }
            };
            j.nontrivial = res.ops.len() > 12;
            if live.len() < if scn.mode == "double" { 9 } else { 12 } {
                return j;
            }
            let tail = if scn.mode.starts_with("fresh") { live.len() / 2 } else { 6 };
            let last = &live[live.len() - tail - 1..];
            if last.windows(2).all(|x| x[1] > x[0]) {
                j.violation(
                    "leak",
                    format!("memory held by the library grows with every one of {} waves of requests: {:?} bytes", tail, &last[..last.len().min(12)]),
                );
            }
        }
        _ => (),
    }
    j
}

/// A violation that only more of the same can confirm (a leak, or a large bounded cache?).
pub fn confirm(scn: &Scenario) -> Option<Scenario> {
    if scn.prop != "C11" {
        return None;
    }
    let mut s = scn.clone();
    if scn.mode == "double" {
        let round: Vec<Op> = scn.phases[0][0]
            .iter()
            .filter_map(|o| match o {
                Op::Many { n: 1, op } => Some((**op).clone()),
                _ => None,
            })
            .collect();
        s.phases = vec![vec![doubling(&round[..round.len() / 2], 13)]];
        return Some(s);
    }
    if !scn.mode.starts_with("fresh") {
        return None;
    }
    let waves: Vec<Op> = (0..400u64).map(|i| Op::Fresh { from: i * 20, n: 20 }).collect();
    s.phases = if scn.mode == "fresh" { waves.into_iter().map(|o| vec![vec![o]]).collect() } else { vec![vec![waves]] };
    Some(s)
}

/// Something to show of a run.
pub fn describe(scn: &Scenario, run: &Run) -> serde_json::Value {
    let ops: Vec<String> = match &run.end {
        End::Done(res) => res
            .ops
            .iter()
            .take(5)
            .map(|r| format!("{}: {} -> {} ({} lookups, {} steps)", place(r), show_op(scn, &op_at(scn, r)), r.out.show(), r.lookups, r.steps))
            .collect(),
        e => vec![format!("{e:?}")],
    };
    serde_json::json!({
        "seed": scn.seed,
        "mode": scn.mode,
        "schemas": scn.schemas.iter().take(2).map(|s| s.text().chars().take(400).collect::<String>()).collect::<Vec<_>>(),
        "threads": scn.phases.iter().map(Vec::len).max(),
        "preemptions": scn.preempts.iter().take(8).collect::<Vec<_>>(),
        "switches": run.switches,
        "steps": run.steps,
        "trace": format!("{:016x}", run.trace),
        "requests": ops,
    })
}

pub fn run_seed(seed: u64, prop: &str, i: u64) -> u64 {
    mix(seed.wrapping_mul(0x1_0001) ^ crate::rng::fnv(prop.as_bytes()) ^ mix(i))
}
