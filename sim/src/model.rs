//! What a simulated run consists of.  A scenario is complete: running it needs no
//! random choices, so a scenario file is a replay file.

use crate::doc::{damage, damage_text, Dmg, Doc};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Env {
    /// Seed of the bytes getrandom() delivers.
    pub entropy: u64,
    /// Wall clock at the start, ns.
    pub wall0: i64,
    /// (step, ns) jumps of the wall clock.
    pub jumps: Vec<(u64, i64)>,
    /// Seed of the simulated environment variables (None: empty).
    pub env_seed: Option<u64>,
    pub stack_kb: u32,
    pub stack_slot: u32,
    /// Use named std threads instead of foreign ones.
    pub named: bool,
    pub pid: i32,
    pub arena_policy: u8,
    pub arena_skew: u32,
    /// Number of threads that came and went before.
    pub tids: u32,
    /// Stack (KiB) in use by the caller, request by request in turn.
    #[serde(default)]
    pub pads: Vec<u32>,
    /// Requests (by bit) made while the thread is unwinding from a panic of the caller's.
    #[serde(default)]
    pub unwinding: u32,
}

impl Env {
    pub fn plain() -> Env {
        Env { wall0: 1_700_000_000_000_000_000, stack_kb: 4096, pid: 4242, ..Env::default() }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Schema {
    pub rules: Vec<String>,
    /// How the rules are joined (0 newline, 1 blank, 2 comment lines).
    pub sep: u8,
    pub dmg: Vec<Dmg>,
}

impl Schema {
    pub fn sep_text(&self) -> &'static str {
        ["\n", " ", "\n; comment: \"x\" [ {\n"][self.sep as usize % 3]
    }
    pub fn whole(&self) -> String {
        let mut t = self.rules.join(self.sep_text());
        t.push('\n');
        t
    }
    pub fn text(&self) -> String {
        damage_text(&self.whole(), &self.dmg)
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct DocSpec {
    pub doc: Doc,
    pub dmg: Vec<Dmg>,
}

impl DocSpec {
    /// The number of bytes that arrive.
    pub fn len(&self, json: bool) -> usize {
        if json {
            self.json().len()
        } else {
            self.cbor().len()
        }
    }
    pub fn json(&self) -> String {
        damage_text(&self.doc.json(), &self.dmg)
    }
    pub fn cbor(&self) -> Vec<u8> {
        match self.dmg.first() {
            Some(Dmg::Space(z)) => damage(self.doc.cbor_as(*z), &self.dmg[1..]),
            _ => damage(self.doc.cbor(), &self.dmg),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Api {
    JsonStr,
    CborBytes,
    Json,
    Cbor,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Src {
    /// Compile the schema inside the operation.
    Schema(usize),
    /// Use a shared compiled schema.
    Slot(usize),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Res {
    /// The library's BasicContext.
    Basic,
    /// The simulator's context over the same rules.
    Plain,
    /// k stacked contexts over a partition of the rules; lower ones also hold
    /// decoys (rules of the decoy schema) for names defined above them.
    Layered { k: u8, seed: u64, decoy: Option<usize> },
    /// The rules, behind a context with some of the rules of another schema: which
    /// ones, `shadows` tells.
    Shadow { over: usize, seed: u64 },
    /// The same rules put together before they are compiled.
    Merged { over: usize, seed: u64 },
    /// Plain, but the lookups with these ordinals first run another validation.
    Reentrant { at: Vec<u32>, nested: Box<Val> },
    /// Answers each name from the rules, and names it does not hold from the pool:
    /// an endless supply of references.
    Endless { seed: u64 },
}

/// Whether a rule of the shadowing schema is in the upper context; the rule asked for
/// never is.
pub fn shadows(seed: u64, name: &str, start: &str) -> bool {
    name != start && crate::rng::mix(seed ^ crate::rng::fnv(name.as_bytes())) % 8 < 1 + seed % 7
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum ErrKind {
    Missing,
    Structural,
    Unsupported,
    Generic,
    Parse,
    /// The document's fault, says the context.
    Value,
    Mismatch,
    Cut,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Fault {
    /// Lookup number `at` (1-based) fails; if `persist`, so do all later ones.
    LookupErr { at: u32, kind: ErrKind, persist: bool },
    LookupPanic { at: u32 },
    /// Every lookup after this much simulated time fails.
    Deadline { ns: u64, kind: ErrKind },
    AllocFail { at: u64 },
    /// Lookup number `at` is answered with a definition nothing matches.
    Never { at: u32 },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Val {
    pub api: Api,
    pub src: Src,
    pub rule: String,
    pub doc: usize,
    pub res: Res,
    pub fault: Option<Fault>,
    /// Simulated time one lookup takes.
    pub latency: u64,
    /// During lookup `.0` the caller waits for thread `.1` of the phase to end.
    #[serde(default)]
    pub wait: Option<(u32, u8)>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Val(Val),
    /// 0 parse, 1 slice_parse, 2 flatten, 3 slice_flatten; the result is dropped.
    Compile { how: u8, schema: usize },
    /// Compile the schema and put it into the slot.
    Reload { slot: usize, schema: usize },
    /// Compare the rules of a cut schema text with those of the whole one.
    Torn { schema: usize, cut: usize },
    /// `n` requests with schemas and documents never seen before, numbered from `from`.
    Fresh { from: u64, n: u64 },
    /// The same request `n` times; the first result that is not like those before it
    /// (or else the last) counts.
    Many { n: u32, op: Box<Op> },
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Scenario {
    pub prop: String,
    pub mode: String,
    pub seed: u64,
    pub env: Env,
    pub schemas: Vec<Schema>,
    pub docs: Vec<DocSpec>,
    /// Compiled schemas shared by all threads.
    pub slots: Vec<usize>,
    /// Phases of concurrent tasks; the threads of a phase exit at its end.
    pub phases: Vec<Vec<Vec<Op>>>,
    pub preempts: Vec<(u64, u8)>,
    pub lookup_preempts: Vec<(u64, u8)>,
    /// Seed of the choice of the next thread when one blocks or ends (0: in order).
    pub rr: u64,
    /// Steps after which an operation counts as hanging.
    pub budget: u64,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Out {
    /// Ok, the error's variant, Panic, NoSlot ...
    pub kind: String,
    /// Display and Debug text (or a digest of the compiled rules).
    pub text: String,
}

impl Out {
    pub fn new(kind: &str, text: impl Into<String>) -> Out {
        Out { kind: kind.into(), text: text.into() }
    }
    pub fn show(&self) -> String {
        if self.text.is_empty() {
            self.kind.clone()
        } else {
            format!("{} [{}]", self.kind, self.text)
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct OpRes {
    pub phase: usize,
    pub task: usize,
    pub op: usize,
    pub out: Out,
    pub lookups: u64,
    /// Lookups made after the context first answered with an error.
    pub late: u64,
    /// Steps made after that.
    pub late_steps: u64,
    pub names: u64,
    pub steps: u64,
    pub allocs: u64,
    /// The first error (or panic) the context answered with.
    pub answered: Option<Out>,
    /// Whether the fault of the operation took effect.
    pub fired: bool,
    /// Schema the slot held (index of schema).
    pub schema: usize,
    pub nested: Vec<Out>,
    /// Names asked for (kept only where a check needs them).
    pub seq: Vec<String>,
    /// Bytes the library held when the operation had ended.
    pub live: i64,
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct RunRes {
    pub ops: Vec<OpRes>,
    /// Slots whose rules compare unequal to what they were.
    pub changed: Vec<usize>,
    /// Live bytes of the library at the end of each phase.
    pub live: Vec<i64>,
    pub blocks: Vec<i64>,
    /// Types that lack Send or Sync.
    pub not_shareable: Vec<String>,
}

/// Read what this program wrote, however deeply nested the documents in it are.
pub fn from_json<T: serde::de::DeserializeOwned>(text: &[u8]) -> Result<T, serde_json::Error> {
    let mut d = serde_json::Deserializer::from_slice(text);
    d.disable_recursion_limit();
    T::deserialize(&mut d).and_then(|x| d.end().map(|_| x))
}
