//! Runs scenarios in forked processes and collects what happened.

use crate::exec;
use crate::model::*;
use crate::os;
use crate::sched::{self, Shared, COUNTERS};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Done(RunRes),
    Hang,
    Deadlock,
    /// Killed by a signal (abort, stack overflow, ...).
    Signal(i32),
    /// The simulated process stopped in a way only a harness error explains.
    Harness(String),
}

#[derive(Clone, Debug)]
pub struct Run {
    pub end: End,
    pub steps: u64,
    pub sim_ns: u64,
    pub trace: u64,
    pub switches: u64,
    pub alloc_failed: u64,
    pub counters: [u64; COUNTERS],
    pub phase: u32,
    /// (task, operation) in progress when the process ended.
    pub at: Vec<(usize, usize)>,
    pub setup: u64,
    pub hot: Vec<u64>,
}

pub fn map_shared() -> *mut Shared {
    unsafe {
        let p = os::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            os::PROT_RW,
            os::MAP_SHARED | os::MAP_ANON | os::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p as isize != -1);
        sched::SHARED = p as *mut Shared;
        sched::SHARED
    }
}

extern "C" {
    fn alarm(s: u32) -> u32;
}

pub fn run(scn: &Scenario) -> Run {
    let sh = sched::shared();
    sh.verdict = sched::V_NONE;
    sh.phase = 0;
    sh.steps = 0;
    sh.sim_ns = 0;
    sh.trace = 0;
    sh.switches = 0;
    sh.alloc_failed = 0;
    sh.op = [0; sched::MAX_THREADS];
    sh.counters = [0; COUNTERS];
    sh.len = 0;
    sh.setup = 0;
    sh.nhot = 0;
    let scn2 = scn.clone();
    let pid = unsafe { os::fork() };
    if pid < 0 {
        return dead(End::Harness("fork failed".into()));
    }
    if pid == 0 {
        unsafe {
            os::prctl(1, 9u64);
            os::setrlimit(0, &[40, 45]);
            os::setrlimit(4, &[0, 0]);
            alarm(120);
        }
        exec::start(&scn2.env.clone(), &scn2);
        let res = exec::execute(scn2);
        sched::stop();
        let text = serde_json::to_vec(&res).unwrap_or_default();
        let sh = sched::shared();
        if text.is_empty() || text.len() > sched::DATA_MAX {
            unsafe { os::_exit(85) }
        }
        sh.data[..text.len()].copy_from_slice(&text);
        sh.len = text.len() as u64;
        sh.verdict = sched::V_DONE;
        unsafe { os::_exit(0) }
    }
    let mut st = 0;
    loop {
        let r = unsafe { os::waitpid(pid, &mut st, 0) };
        if r == pid {
            break;
        }
    }
    let end = if st & 0x7f != 0 {
        match st & 0x7f {
            24 | 14 => End::Hang,
            s => End::Signal(s),
        }
    } else if st >> 8 & 0xff != 0 {
        End::Harness(format!("exit status {}", st >> 8 & 0xff))
    } else {
        match sh.verdict {
            sched::V_DONE => match from_json(&sh.data[..sh.len as usize]) {
                Ok(r) => End::Done(r),
                Err(e) => End::Harness(format!("unreadable result: {e}")),
            },
            sched::V_HANG => End::Hang,
            sched::V_DEADLOCK => End::Deadlock,
            sched::V_ABORT => End::Signal(6),
            _ => End::Harness("no verdict".into()),
        }
    };
    let mut run = dead(end);
    run.steps = sh.steps;
    run.sim_ns = sh.sim_ns;
    run.trace = sh.trace;
    run.switches = sh.switches;
    run.alloc_failed = sh.alloc_failed;
    run.counters = sh.counters;
    run.phase = sh.phase;
    run.setup = sh.setup;
    run.hot = sh.hot[..sh.nhot as usize].to_vec();
    run.at = sh.op.iter().enumerate().filter(|(_, o)| **o > 0).map(|(t, o)| (t, *o as usize - 1)).collect();
    run
}

fn dead(end: End) -> Run {
    Run { end, steps: 0, sim_ns: 0, trace: 0, switches: 0, alloc_failed: 0, counters: [0; COUNTERS], phase: 0, at: Vec::new(), setup: 0, hot: Vec::new() }
}

/// The outcome of a request made alone, in a fresh process.
#[derive(Clone, Debug)]
pub struct Solo {
    /// None: it did not return.
    pub res: Option<OpRes>,
    /// Steps it took (its process's set-up included).
    pub steps: u64,
}

/// Reference outcomes for one scenario, computed when needed.
#[derive(Default)]
pub struct Refs {
    map: BTreeMap<String, Solo>,
    pub runs: u64,
}

impl Refs {
    /// `op` made alone, with its own kind of context but no fault.
    pub fn as_is(&mut self, scn: &Scenario, op: &Op, schema: usize) -> Solo {
        self.alone(scn, op, schema, false)
    }

    /// `op` made alone, with a plain context; a slot it uses holds schema `schema`.
    pub fn solo(&mut self, scn: &Scenario, op: &Op, schema: usize) -> Solo {
        self.alone(scn, op, schema, true)
    }

    fn alone(&mut self, scn: &Scenario, op: &Op, schema: usize, plain: bool) -> Solo {
        let mut op = op.clone();
        let mut slots = Vec::new();
        let mut schemas = scn.schemas.clone();
        match &mut op {
            Op::Val(v) => {
                if !matches!(v.fault, Some(Fault::LookupErr { .. })) {
                    v.fault = None;
                }
                v.latency = 0;
                v.wait = None;
                // Stacked, re-entrant and the library's own contexts all have to
                // give what a plain context gives.
                v.res = match v.res {
                    Res::Shadow { over, seed } => Res::Merged { over, seed },
                    Res::Endless { seed } => Res::Endless { seed },
                    _ if plain => Res::Plain,
                    ref r => r.clone(),
                };
                if matches!(v.api, Api::JsonStr | Api::CborBytes) {
                    if schema != usize::MAX {
                        v.src = Src::Schema(schema);
                    }
                } else {
                    if let Src::Schema(i) = v.src {
                        v.src = Src::Slot(0);
                        slots = vec![i];
                    } else {
                        v.src = Src::Slot(0);
                        slots = vec![schema];
                    }
                }
            }
            Op::Reload { schema, .. } => op = Op::Compile { how: 2, schema: *schema },
            _ => (),
        }
        let key = format!("{:?}|{:?}", op, slots);
        if let Some(s) = self.map.get(&key) {
            return s.clone();
        }
        if slots.is_empty() {
            schemas = scn.schemas.clone();
        }
        let solo = Scenario {
            prop: "solo".into(),
            mode: String::new(),
            env: Env::plain(),
            schemas: std::mem::take(&mut schemas),
            docs: scn.docs.clone(),
            slots,
            phases: vec![vec![vec![op]]],
            budget: scn.budget,
            ..Scenario::default()
        };
        let r = run(&solo);
        self.runs += 1;
        let s = Solo {
            res: match &r.end {
                End::Done(d) => d.ops.first().cloned(),
                _ => None,
            },
            steps: r.steps,
        };
        self.map.insert(key, s.clone());
        s
    }
}
