//! Executes a scenario inside a simulated process: real library code, simulated
//! callers, lookup contexts and surroundings.

use crate::arena::{self, arena};
use crate::doc::Doc;
use crate::model::*;
use crate::rng::{fnv, mix};
use crate::sched::{self, enter, outside};
use cddl_cat::context::{BasicContext, LookupContext};
use cddl_cat::flatten::{flatten_from_str, slice_flatten_from_str};
use cddl_cat::ivt::{Choice, Node, RuleDef, RulesByName};
use cddl_cat::parser::{parse_cddl, slice_parse_cddl, ErrorKind, ParseError};
use cddl_cat::util::{mismatch, ValidateError, ValidateResult};
use cddl_cat::{cbor::validate_cbor, json::validate_json, validate_cbor_bytes, validate_json_str};
use std::cell::{Cell, OnceCell, RefCell, UnsafeCell};
use std::collections::BTreeMap;
use std::marker::PhantomData;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::{Condvar, Mutex};

thread_local! {
    static TASK: Cell<usize> = const { Cell::new(usize::MAX) };
}

struct SimPanic(u32);

pub fn variant(e: &ValidateError) -> &'static str {
    match e {
        ValidateError::ParseError(_) => "ParseError",
        ValidateError::Structural(_) => "Structural",
        ValidateError::Mismatch(_) => "Mismatch",
        ValidateError::MapCut(_) => "MapCut",
        ValidateError::MissingRule(_) => "MissingRule",
        ValidateError::Unsupported(_) => "Unsupported",
        ValidateError::ValueError(_) => "ValueError",
        ValidateError::GenericError => "GenericError",
        _ => "OtherError",
    }
}

fn clip(s: String) -> String {
    if s.len() <= 240 {
        return s;
    }
    let mut n = 200;
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    format!("{}... #{:016x}", &s[..n], fnv(s.as_bytes()))
}

fn err_out(e: &ValidateError) -> Out {
    Out::new(variant(e), clip(format!("{} | {:?}", e, e)))
}

fn res_out(r: &ValidateResult) -> Out {
    match r {
        Ok(()) => Out::new("Ok", ""),
        Err(e) => err_out(e),
    }
}

fn digest(text: String, n: usize) -> Out {
    Out::new("Ok", format!("{} rules, digest {:016x}", n, fnv(text.as_bytes())))
}

struct Slot {
    schema: usize,
    ctx: Option<Rc<BasicContext>>,
    snapshot: RulesByName,
    err: Out,
}

pub struct World {
    scn: Scenario,
    texts: Vec<String>,
    jsons: Vec<String>,
    cbors: Vec<Vec<u8>>,
    slots: UnsafeCell<Vec<Slot>>,
    results: UnsafeCell<Vec<OpRes>>,
    /// Phase, and which of its threads have ended.
    ended: Mutex<(usize, u64)>,
    end: Condvar,
}

impl World {
    /// Until that thread of the phase has ended (unless it is the caller).
    fn wait_for(&self, task: u8) {
        sched::count(sched::C_WAIT);
        let mut e = self.ended.lock().unwrap();
        let phase = e.0;
        let n = self.scn.phases.get(phase).map_or(0, Vec::len);
        if usize::from(task) >= n || TASK.get() == usize::from(task) {
            return;
        }
        while e.0 == phase && e.1 & (1 << task) == 0 {
            e = self.end.wait(e).unwrap();
        }
    }
    #[allow(clippy::mut_from_ref)]
    fn slots(&self) -> &mut Vec<Slot> {
        unsafe { &mut *self.slots.get() }
    }
    #[allow(clippy::mut_from_ref)]
    fn results(&self) -> &mut Vec<OpRes> {
        unsafe { &mut *self.results.get() }
    }
}

/// The simulated lookup context.
struct SimContext<'w> {
    world: &'w World,
    salt: u64,
    rules: &'w RulesByName,
    layers: Vec<BTreeMap<String, RuleDef>>,
    reentrant: Option<(&'w [u32], &'w Val)>,
    endless: Option<u64>,
    fault: Option<Fault>,
    wait: Option<(u32, u8)>,
    latency: u64,
    began_ns: u64,
    n: Cell<u32>,
    names: Cell<u64>,
    late: Cell<u64>,
    failed_at_step: Cell<u64>,
    fired: Cell<bool>,
    answered: RefCell<Option<Out>>,
    never: OnceCell<RuleDef>,
    nested: RefCell<Vec<Out>>,
    seq: Option<RefCell<Vec<String>>>,
}

const OWN_TEXTS: &[&str] = &[
    "hit recursion limit",
    "unexpected KeyValue",
    "unexpected Occur",
    "unexpected Unwrap",
    "literal map member",
    "prelude type map member",
    "map as map member",
    "array as map member",
    "range as map member",
    "control op as map member",
    "improper map choiceify target",
    "improper choiceify target",
    "standalone group",
    "confusing type on range operator",
    "mismatched types on range operator",
    ".lt for float is not supported yet",
    ".ge for float is not supported yet",
    "bad .size range endpoints for uint",
    "bad .size range endpoints for tstr",
    "bad .size target type (int)",
    "bad regexp target type",
    "malformed regexp",
    "control operator",
];

/// What a lookup answers with; the texts come in several forms.
fn make_err(kind: ErrKind, salt: u64, n: u32, name: &str) -> ValidateError {
    let text = match salt % 8 {
        0 => name.to_string(),
        1 => String::new(),
        2 => format!("hit recursion limit {n}"),
        3 => format!("{name} \u{e9}\n{{}}"),
        // Texts the library gives itself.
        4 | 5 => OWN_TEXTS[(salt >> 8) as usize % OWN_TEXTS.len()].to_string(),
        _ => format!("sim-{n}-{name}"),
    };
    match kind {
        ErrKind::Missing => ValidateError::MissingRule(text),
        ErrKind::Structural => ValidateError::Structural(text),
        ErrKind::Unsupported => ValidateError::Unsupported(text),
        ErrKind::Generic => ValidateError::GenericError,
        ErrKind::Value => ValidateError::ValueError(text),
        ErrKind::Mismatch => mismatch(text),
        ErrKind::Cut => match mismatch(text) {
            ValidateError::Mismatch(m) => ValidateError::MapCut(m),
            e => e,
        },
        ErrKind::Parse => ValidateError::ParseError(ParseError {
            kind: match salt / 8 % 4 {
                0 => ErrorKind::MalformedInteger,
                1 => ErrorKind::MalformedText,
                _ => ErrorKind::Unparseable,
            },
            ctx: text,
        }),
    }
}

/// Panics come with payloads of several types.
fn sim_panic(salt: u64, n: u32) -> ! {
    match salt % 3 {
        0 => panic_any(SimPanic(n)),
        1 => panic_any(format!("sim-panic-{n}")),
        _ => panic_any::<&'static str>(Box::leak(format!("sim-panic-{n}").into_boxed_str())),
    }
}

fn panic_out(text: &str) -> Out {
    match text.strip_prefix("sim-panic-") {
        Some(n) => Out::new("SimPanic", n),
        None => Out::new("Panic", clip(text.to_string())),
    }
}

impl SimContext<'_> {
    /// The same for the same request made alone.
    fn salt(&self, n: u32) -> u64 {
        mix(self.salt ^ u64::from(n)) >> 8
    }

    fn fail(&self, e: ValidateError) -> ValidateError {
        if self.answered.borrow().is_none() {
            *self.answered.borrow_mut() = Some(err_out(&e));
            self.failed_at_step.set(sched::my_steps());
        }
        e
    }

    fn answer<'a>(&'a self, name: &str) -> Result<&'a RuleDef, ValidateError> {
        let n = self.n.get() + 1;
        self.n.set(n);
        if let Some(s) = &self.seq {
            if n <= 400 {
                s.borrow_mut().push(name.to_string());
            }
        }
        self.names.set(mix(self.names.get() ^ fnv(name.as_bytes())));
        if self.answered.borrow().is_some() {
            self.late.set(self.late.get() + 1);
        }
        sched::on_lookup(self.latency);
        if let Some((at, task)) = self.wait {
            if at == n {
                self.world.wait_for(task);
            }
        }
        if let Some((at, nested)) = self.reentrant {
            if at.contains(&n) {
                sched::count(sched::C_NESTED);
                let r = validate_op(self.world, nested);
                self.nested.borrow_mut().push(r.out);
            }
        }
        let def = if !self.layers.is_empty() {
            sched::count(sched::C_LAYER);
            self.layers.iter().find_map(|l| l.get(name))
        } else if let Some(seed) = self.endless {
            sched::count(sched::C_ENDLESS);
            let class = name.as_bytes().first();
            let c: Vec<&RuleDef> = self.rules.iter().filter(|(k, _)| k.as_bytes().first() == class).map(|(_, d)| d).collect();
            if c.is_empty() {
                None
            } else {
                Some(c[(mix(seed ^ fnv(name.as_bytes()) ^ u64::from(n)) % c.len() as u64) as usize])
            }
        } else {
            self.rules.get(name)
        };
        match &self.fault {
            Some(Fault::LookupErr { at, kind, persist }) if n == *at || (*persist && n > *at) => {
                if !self.fired.replace(true) {
                    sched::count(sched::C_LOOKUP_ERR);
                }
                return Err(self.fail(make_err(*kind, self.salt(n), n, name)));
            }
            Some(Fault::LookupPanic { at }) if n == *at => {
                sched::count(sched::C_LOOKUP_PANIC);
                self.fired.set(true);
                *self.answered.borrow_mut() = Some(Out::new("SimPanic", format!("{n}")));
                sim_panic(self.salt(n), n);
            }
            Some(Fault::Deadline { ns, kind }) if sched::now_ns() - self.began_ns >= *ns => {
                if !self.fired.replace(true) {
                    sched::count(sched::C_DEADLINE);
                }
                return Err(self.fail(make_err(*kind, self.salt(n), n, name)));
            }
            Some(Fault::Never { at }) if n == *at => {
                if let Some(d) = def {
                    sched::count(sched::C_NEVER);
                    self.fired.set(true);
                    let parms = d.generic_parms.clone();
                    return Ok(self.never.get_or_init(|| RuleDef {
                        generic_parms: parms,
                        node: Node::Choice(Choice { options: Vec::new() }),
                    }));
                }
            }
            _ => (),
        }
        match def {
            Some(d) => Ok(d),
            None => Err(self.fail(ValidateError::MissingRule(name.into()))),
        }
    }
}

impl LookupContext for SimContext<'_> {
    fn lookup_rule<'a>(&'a self, name: &str) -> Result<&'a RuleDef, ValidateError> {
        outside(|| self.answer(name))
    }
}

/// Call into the library; a panic becomes an outcome.
fn call<R>(f: impl FnOnce() -> R) -> Result<R, Out> {
    catch_unwind(AssertUnwindSafe(|| enter(f))).map_err(|p| {
        if let Some(s) = p.downcast_ref::<SimPanic>() {
            Out::new("SimPanic", format!("{}", s.0))
        } else if let Some(s) = p.downcast_ref::<&str>() {
            panic_out(s)
        } else if let Some(s) = p.downcast_ref::<String>() {
            panic_out(s)
        } else {
            Out::new("Panic", "?")
        }
    })
}

fn blank(out: Out) -> OpRes {
    OpRes {
        phase: 0,
        task: 0,
        op: 0,
        out,
        lookups: 0,
        late: 0,
        late_steps: 0,
        names: 0,
        steps: 0,
        allocs: 0,
        answered: None,
        fired: false,
        schema: usize::MAX,
        nested: Vec::new(),
        seq: Vec::new(),
        live: 0,
    }
}

fn validate_op(w: &World, v: &Val) -> OpRes {
    match v.api {
        Api::JsonStr | Api::CborBytes => {
            let s = match v.src {
                Src::Schema(i) => i,
                Src::Slot(i) => w.slots()[i].schema,
            };
            let text = &w.texts[s];
            let r = if v.api == Api::JsonStr {
                let doc = &w.jsons[v.doc];
                call(|| validate_json_str(&v.rule, text, doc))
            } else {
                let doc = &w.cbors[v.doc];
                call(|| validate_cbor_bytes(&v.rule, text, doc))
            };
            let mut o = blank(match &r {
                Ok(r) => res_out(r),
                Err(o) => o.clone(),
            });
            o.schema = s;
            o
        }
        Api::Json | Api::Cbor => {
            let (schema, ctx) = match v.src {
                Src::Slot(i) => {
                    let s = &w.slots()[i];
                    match &s.ctx {
                        Some(c) => (s.schema, c.clone()),
                        None => {
                            let mut o = blank(s.err.clone());
                            o.schema = s.schema;
                            return o;
                        }
                    }
                }
                Src::Schema(i) => match call(|| flatten_from_str(&w.texts[i]).map(BasicContext::new)) {
                    Ok(Ok(c)) => (i, Rc::new(c)),
                    Ok(Err(e)) => return blank(err_out(&e)),
                    Err(o) => return blank(o),
                },
            };
            let mut o = if let Res::Merged { over, seed } = &v.res {
                match merged(w, schema, *over, *seed, &v.rule) {
                    Some(c) => validate_with(w, v, &c),
                    None => blank(Out::new("NoShadow", "")),
                }
            } else {
                validate_with(w, v, &ctx)
            };
            o.schema = schema;
            o
        }
    }
}

/// The rules of a schema and those of another that shadow them.
fn merged(w: &World, base: usize, over: usize, seed: u64, start: &str) -> Option<BasicContext> {
    let top: Vec<&String> = w.scn.schemas[over].rules.iter().filter(|t| shadows(seed, rule_name(t), start)).collect();
    let below = w.scn.schemas[base].rules.iter().filter(|t| !top.iter().any(|x| rule_name(x) == rule_name(t)));
    let texts: Vec<&str> = below.chain(top.iter().copied()).map(|t| t.as_str()).collect();
    let rules = call(|| flatten_from_str(&format!("{}\n", texts.join("\n")))).ok()?.ok()?;
    Some(BasicContext::new(rules))
}

fn validate_with(w: &World, v: &Val, ctx: &BasicContext) -> OpRes {
    let Some(def) = ctx.rules.get(&v.rule) else {
        return blank(Out::new("NoRule", ""));
    };
    enum V {
        J(serde_json::Value),
        C(ciborium::Value),
    }
    let value = if v.api == Api::Json {
        match serde_json::from_str(&w.jsons[v.doc]) {
            Ok(j) => V::J(j),
            Err(_) => return blank(Out::new("BadDoc", "")),
        }
    } else {
        match ciborium::from_reader(w.cbors[v.doc].as_slice()) {
            Ok(c) => V::C(c),
            Err(_) => return blank(Out::new("BadDoc", "")),
        }
    };
    if v.res == Res::Basic {
        let r = match &value {
            V::J(j) => call(|| validate_json(def, j, ctx)),
            V::C(c) => call(|| validate_cbor(def, c, ctx)),
        };
        return blank(match &r {
            Ok(r) => res_out(r),
            Err(o) => o.clone(),
        });
    }
    let mut sc = SimContext {
        world: w,
        salt: fnv(v.rule.as_bytes()) ^ fnv(&w.cbors[v.doc]),
        rules: &ctx.rules,
        layers: Vec::new(),
        reentrant: None,
        endless: None,
        fault: v.fault.clone(),
        wait: v.wait,
        latency: v.latency,
        began_ns: sched::now_ns(),
        n: Cell::new(0),
        names: Cell::new(0),
        late: Cell::new(0),
        failed_at_step: Cell::new(0),
        fired: Cell::new(false),
        answered: RefCell::new(None),
        never: OnceCell::new(),
        nested: RefCell::new(Vec::new()),
        seq: (w.scn.mode == "names").then(RefCell::default),
    };
    match &v.res {
        Res::Layered { k, seed, decoy } => {
            let k = (*k).max(1) as u64;
            let mut layers: Vec<BTreeMap<String, RuleDef>> = vec![BTreeMap::new(); k as usize];
            let layer_of = |name: &str| (mix(*seed ^ fnv(name.as_bytes())) % k) as usize;
            for (name, d) in &ctx.rules {
                layers[layer_of(name)].insert(name.clone(), d.clone());
            }
            if let Some(d) = decoy {
                if let Ok(Ok(decoys)) = call(|| flatten_from_str(&w.texts[*d])) {
                    for (name, d) in decoys {
                        if ctx.rules.contains_key(&name) {
                            let from = layer_of(&name) + 1;
                            for l in layers.iter_mut().skip(from) {
                                l.insert(name.clone(), d.clone());
                            }
                        }
                    }
                }
            }
            sc.layers = layers;
        }
        Res::Shadow { over, seed } => {
            let Ok(Ok(rules)) = call(|| flatten_from_str(&w.texts[*over])) else {
                return blank(Out::new("NoShadow", ""));
            };
            let top = rules.into_iter().filter(|(n, _)| shadows(*seed, n, &v.rule)).collect();
            sc.layers = vec![top, ctx.rules.clone()];
        }
        Res::Reentrant { at, nested } => sc.reentrant = Some((at, nested)),
        Res::Endless { seed } => sc.endless = Some(*seed),
        _ => (),
    }
    let r = match &value {
        V::J(j) => call(|| validate_json(def, j, &sc)),
        V::C(c) => call(|| validate_cbor(def, c, &sc)),
    };
    let mut o = blank(match &r {
        Ok(r) => res_out(r),
        Err(o) => o.clone(),
    });
    drop(r);
    if sc.answered.borrow().is_some() && sc.failed_at_step.get() > 0 {
        o.late_steps = sched::my_steps() - sc.failed_at_step.get();
    }
    o.lookups = u64::from(sc.n.get());
    o.names = sc.names.get();
    o.late = sc.late.get();
    o.fired = sc.fired.get();
    o.answered = sc.answered.take();
    o.nested = sc.nested.take();
    o.seq = sc.seq.take().map(RefCell::into_inner).unwrap_or_default();
    o
}

fn torn(w: &World, schema: usize, cut: usize) -> Out {
    let s = &w.scn.schemas[schema];
    let whole = s.whole();
    let mut cut = cut.min(whole.len());
    while !whole.is_char_boundary(cut) {
        cut -= 1;
    }
    let full = match call(|| flatten_from_str(&whole)) {
        Ok(Ok(r)) => r,
        Ok(Err(e)) => return err_out(&e),
        Err(o) => return o,
    };
    let part = match call(|| flatten_from_str(&whole[..cut])) {
        Ok(Ok(r)) => r,
        Ok(Err(_)) => return Out::new("CutRejected", ""),
        Err(o) => return o,
    };
    // Rules that end before the rule at the cut begins.
    let mut pos = 0;
    let mut seen: Vec<&str> = Vec::new();
    for r in &s.rules {
        let end = pos + r.len() + s.sep_text().len();
        if end > cut {
            break;
        }
        seen.push(r);
        pos = end;
    }
    for r in seen.iter().take(seen.len().saturating_sub(if pos == cut { 1 } else { 0 })) {
        let name = rule_name(r);
        if s.rules.iter().filter(|x| rule_name(x) == name).count() > 1 {
            continue;
        }
        let (Some(a), b) = (full.get(name), part.get(name)) else { continue };
        if Some(a) != b {
            return Out::new("Differs", format!("cut at {cut}: rule {name} has another definition"));
        }
    }
    Out::new("CutAccepted", "")
}

pub fn rule_name(text: &str) -> &str {
    let end = text.find(|c: char| c == ' ' || c == '=' || c == '<').unwrap_or(text.len());
    &text[..end]
}

/// A request no other request resembles.
fn fresh(i: u64, seen: &mut String) {
    let schema = format!(
        "top{i} = {{ k{i}: tstr .regexp \"x{i}[a-z]+\", ? v{i}: g{i}<int>, ? w: &c{i}, * tstr => any }}\n\
         g{i}<T{i}> = [T{i}, * s{i}]\ns{i} = \"lit{i}\" / {i}..l{i}\nl{i} = 99999999\nc{i} = (a: {i}, gone{i})\n"
    );
    let doc = Doc::M(vec![
        (Doc::S(format!("k{i}")), Doc::S(format!("x{i}{}", if i % 5 == 0 { "Z" } else { "abc" }))),
        (Doc::S(format!("v{i}")), Doc::A(vec![Doc::I(i.into()), Doc::S(format!("lit{i}")), Doc::I(i.into())])),
        if i % 7 == 3 {
            (Doc::S("w".into()), Doc::S(format!("q{i}")))
        } else {
            (Doc::S(format!("o{i}")), Doc::N)
        },
    ]);
    let (rule, json, cbor) = (format!("top{i}"), doc.json(), doc.cbor());
    let kind = match i % 4 {
        0 => call(|| validate_json_str(&rule, &schema, &json)),
        1 => call(|| validate_cbor_bytes(&rule, &schema, &cbor)),
        _ => match call(|| flatten_from_str(&schema).map(BasicContext::new)) {
            Ok(Ok(ctx)) => match serde_json::from_str(&json) {
                Ok(j) => call(|| validate_json(&ctx.rules[&rule], &j, &ctx)),
                Err(_) => return,
            },
            Ok(Err(e)) => Ok(Err(e)),
            Err(o) => Err(o),
        },
    };
    let o = kind.map(|r| res_out(&r)).unwrap_or_else(|o| o);
    if seen.len() < 40 {
        seen.push_str(&o.kind[..1]);
    }
}

fn do_op(w: &World, op: &Op) -> OpRes {
    match op {
        Op::Val(v) => validate_op(w, v),
        Op::Compile { how, schema } => {
            let text = &w.texts[*schema];
            let out = match how {
                0 => call(|| parse_cddl(text)).map(|r| match &r {
                    Ok(c) => digest(format!("{:?}", c), c.rules.len()),
                    Err(e) => Out::new("ParseError", clip(format!("{} | {:?}", e, e))),
                }),
                1 => call(|| slice_parse_cddl(text)).map(|r| match &r {
                    Ok(c) => digest(format!("{:?}", c), c.rules.len()),
                    Err(e) => Out::new("ParseError", clip(format!("{} | {:?}", e, e))),
                }),
                2 => call(|| flatten_from_str(text)).map(|r| match &r {
                    Ok(c) => digest(format!("{:?}", c), c.len()),
                    Err(e) => err_out(e),
                }),
                _ => call(|| slice_flatten_from_str(text)).map(|r| match &r {
                    Ok(c) => digest(format!("{:?}", c), c.len()),
                    Err(e) => err_out(e),
                }),
            };
            blank(out.unwrap_or_else(|o| o))
        }
        Op::Reload { slot, schema } => {
            let (new, out) = compile_slot(w, *schema);
            sched::count(sched::C_RELOAD);
            let old = std::mem::replace(&mut w.slots()[*slot], new);
            drop(old);
            blank(out)
        }
        Op::Torn { schema, cut } => blank(torn(w, *schema, *cut)),
        Op::Fresh { from, n } => {
            let mut text = String::new();
            for i in *from..*from + *n {
                fresh(i, &mut text);
            }
            blank(Out::new("Fresh", text))
        }
        Op::Many { n, op } => {
            let first = do_op(w, op);
            for i in 1..*n {
                sched::set_limit(w.scn.budget);
                let next = do_op(w, op);
                if i + 1 == *n || next.out != first.out || next.names != first.names || next.lookups != first.lookups {
                    return next;
                }
            }
            first
        }
    }
}

/// Call from a destructor, while the thread unwinds.
fn while_unwinding<R>(f: &dyn Fn() -> R) -> R {
    struct OnDrop<'a>(&'a dyn Fn());
    impl Drop for OnDrop<'_> {
        fn drop(&mut self) {
            (self.0)();
        }
    }
    sched::count(sched::C_UNWINDING);
    let r = RefCell::new(None);
    let _ = catch_unwind(AssertUnwindSafe(|| {
        let set = || *r.borrow_mut() = Some(f());
        let _call = OnDrop(&set);
        panic_any(SimPanic(0));
    }));
    r.into_inner().unwrap()
}

/// Call with `kb` KiB more of the stack in use.
#[inline(never)]
fn lower<R>(kb: u32, f: &dyn Fn() -> R) -> R {
    if kb == 0 {
        return f();
    }
    let mut block = [0u8; 1024];
    std::hint::black_box(&mut block);
    let r = lower(kb - 1, f);
    std::hint::black_box(&mut block);
    r
}

fn compile_slot(w: &World, schema: usize) -> (Slot, Out) {
    match call(|| flatten_from_str(&w.texts[schema]).map(BasicContext::new)) {
        Ok(Ok(c)) => {
            let snapshot = c.rules.clone();
            let out = digest(format!("{:?}", c.rules), c.rules.len());
            (Slot { schema, ctx: Some(Rc::new(c)), snapshot, err: Out::new("Ok", "") }, out)
        }
        Ok(Err(e)) => {
            let o = err_out(&e);
            (Slot { schema, ctx: None, snapshot: RulesByName::new(), err: o.clone() }, o)
        }
        Err(o) => (Slot { schema, ctx: None, snapshot: RulesByName::new(), err: o.clone() }, o),
    }
}

struct Probe<T>(PhantomData<T>);
trait NotShareable {
    fn shareable(&self) -> bool {
        false
    }
}
impl<T> NotShareable for &Probe<T> {}
impl<T: Send + Sync> Probe<T> {
    fn shareable(&self) -> bool {
        true
    }
}

fn not_shareable() -> Vec<String> {
    let mut v = Vec::new();
    macro_rules! probe {
        ($($t:ty),*) => { $( if !(&Probe::<$t>(PhantomData)).shareable() { v.push(stringify!($t).to_string()); } )* };
    }
    probe!(RuleDef, RulesByName, BasicContext, Node, cddl_cat::ivt::RulesWithStrings);
    v
}

/// Run the scenario (in a process of its own).
pub fn execute(scn: Scenario) -> RunRes {
    let w: &'static World = Box::leak(Box::new(World {
        texts: scn.schemas.iter().map(|s| s.text()).collect(),
        jsons: scn.docs.iter().map(|d| d.json()).collect(),
        cbors: scn.docs.iter().map(|d| d.cbor()).collect(),
        slots: UnsafeCell::new(Vec::new()),
        results: UnsafeCell::new(Vec::new()),
        ended: Mutex::new((0, 0)),
        end: Condvar::new(),
        scn,
    }));
    let mut res = RunRes { not_shareable: not_shareable(), ..RunRes::default() };
    let budget = w.scn.budget;
    if !w.scn.slots.is_empty() {
        sched::run_threads(vec![Box::new(move || {
            for s in &w.scn.slots {
                sched::set_limit(budget);
                let (slot, _) = sched::hold(|| compile_slot(w, *s));
                sched::set_limit(u64::MAX);
                w.slots().push(slot);
            }
        })]);
    }
    sched::mark_setup();
    for (pi, phase) in w.scn.phases.iter().enumerate() {
        sched::shared().phase = pi as u32 + 1;
        *w.ended.lock().unwrap() = (pi, 0);
        let bodies = phase.iter().enumerate().map(|(ti, task)| {
            Box::new(move || {
                TASK.set(ti);
                for (oi, op) in task.iter().enumerate() {
                    sched::op_begin(oi);
                    sched::set_limit(budget);
                    let s0 = sched::my_steps();
                    let a0 = arena().count;
                    if let Op::Val(Val { fault: Some(Fault::AllocFail { at }), .. }) = op {
                        arena().fail_at = a0 + at;
                    }
                    let f0 = arena().failed;
                    let pads = &w.scn.env.pads;
                    let pad = if pads.is_empty() { 0 } else { pads[oi % pads.len()] };
                    let mut r = if w.scn.env.unwinding >> (oi % 32) & 1 == 1 {
                        while_unwinding(&|| lower(pad, &|| do_op(w, op)))
                    } else {
                        lower(pad, &|| do_op(w, op))
                    };
                    arena().fail_at = 0;
                    r.steps = sched::my_steps() - s0;
                    r.allocs = arena().count - a0;
                    r.fired |= arena().failed > f0;
                    sched::set_limit(u64::MAX);
                    r.live = arena().live;
                    r.phase = pi;
                    r.task = ti;
                    r.op = oi;
                    sched::op_end(fnv(r.out.kind.as_bytes()));
                    w.results().push(r);
                }
                w.ended.lock().unwrap().1 |= 1 << ti;
                w.end.notify_all();
            }) as Box<dyn FnOnce()>
        });
        sched::run_threads(bodies.collect());
        res.live.push(arena().live);
        res.blocks.push(arena().live_blocks);
    }
    for (i, s) in w.slots().iter().enumerate() {
        if let Some(c) = &s.ctx {
            if c.rules != s.snapshot {
                res.changed.push(i);
            }
        }
    }
    res.ops = std::mem::take(w.results());
    res
}

pub fn start(env: &Env, scn: &Scenario) {
    arena::start(env.arena_policy, env.arena_skew);
    sched::start(sched::Cfg {
        entropy: env.entropy,
        wall0: env.wall0,
        jumps: env.jumps.clone(),
        env_seed: env.env_seed,
        stack_kb: env.stack_kb,
        stack_slot: env.stack_slot,
        named: env.named,
        rr: scn.rr,
        preempts: scn.preempts.clone(),
        lookup_preempts: scn.lookup_preempts.clone(),
        pid: env.pid,
    });
    for _ in 0..env.tids {
        let _ = std::thread::Builder::new().stack_size(64 << 10).spawn(|| ()).map(|h| h.join());
    }
}
