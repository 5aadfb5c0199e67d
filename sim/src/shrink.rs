//! Makes a failing scenario smaller while the same kind of violation persists.

use crate::doc::Doc;
use crate::model::*;
use crate::os;
use crate::props::{judge, Violation};
use crate::runner::{run, Refs};

pub struct Shrinker {
    kind: String,
    until: u64,
    pub tried: u64,
}

pub fn fails(scn: &Scenario) -> Option<Violation> {
    let mut refs = Refs::default();
    let r = run(scn);
    judge(scn, &r, &mut refs).violation
}

pub fn shrink(scn: Scenario, kind: &str, seconds: u64) -> (Scenario, u64) {
    let mut s = Shrinker { kind: kind.into(), until: os::real_ns() + seconds * 1_000_000_000, tried: 0 };
    let mut best = scn;
    for _ in 0..4 {
        let before = size(&best);
        s.pass(&mut best);
        if size(&best) >= before || s.done() {
            break;
        }
    }
    (best, s.tried)
}

fn size(s: &Scenario) -> usize {
    serde_json::to_string(s).map_or(usize::MAX, |t| t.len())
}

impl Shrinker {
    fn done(&self) -> bool {
        os::real_ns() > self.until || self.tried > 3000
    }

    fn ok(&mut self, s: &Scenario) -> bool {
        self.tried += 1;
        fails(s).is_some_and(|v| v.kind == self.kind)
    }

    /// Try a change; keep it if the violation persists.
    fn attempt(&mut self, best: &mut Scenario, f: impl FnOnce(&mut Scenario)) -> bool {
        if self.done() {
            return false;
        }
        let mut s = best.clone();
        f(&mut s);
        if s == *best {
            return false;
        }
        if self.ok(&s) {
            *best = s;
            return true;
        }
        false
    }

    /// Remove chunks of a list, large ones first.
    fn list<T: Clone>(&mut self, best: &mut Scenario, get: impl Fn(&mut Scenario) -> Option<&mut Vec<T>>, min: usize) {
        let Some(n) = get(&mut best.clone()).map(|v| v.len()) else { return };
        let mut chunk = n.div_ceil(2).max(1);
        loop {
            let mut i = 0;
            loop {
                let len = get(&mut best.clone()).map_or(0, |v| v.len());
                if i >= len || len <= min {
                    break;
                }
                let k = chunk.min(len - i).min(len - min);
                let removed = self.attempt(best, |s| {
                    if let Some(v) = get(s) {
                        v.drain(i..i + k);
                    }
                });
                if self.done() {
                    return;
                }
                if !removed {
                    i += k;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk = chunk.div_ceil(2);
        }
    }

    fn pass(&mut self, best: &mut Scenario) {
        // What may be removed without the check losing its meaning.
        let waves = best.prop == "C11";
        let pairs = best.prop == "C05" && matches!(best.mode.as_str(), "rename" | "alpha");
        let rule_texts = best.prop != "C10" && !pairs;
        if waves {
            self.waves(best);
        } else if pairs {
            self.pairs(best);
        } else {
            self.list(best, |s| Some(&mut s.phases), 1);
            for p in 0..best.phases.len() {
                self.list(best, |s| s.phases.get_mut(p), 1);
                for t in 0..best.phases[p].len() {
                    self.list(best, |s| s.phases.get_mut(p).and_then(|x| x.get_mut(t)), 0);
                }
            }
        }
        self.list(best, |s| Some(&mut s.preempts), 0);
        self.list(best, |s| Some(&mut s.lookup_preempts), 0);
        self.attempt(best, |s| s.rr = 0);
        self.attempt(best, |s| s.env = Env { stack_kb: s.env.stack_kb, ..Env::plain() });
        self.attempt(best, |s| s.env.stack_kb = 4096);
        self.list(best, |s| Some(&mut s.env.jumps), 0);
        for f in [
            (|e| e.entropy = 0) as fn(&mut Env),
            |e| e.env_seed = None,
            |e| e.wall0 = Env::plain().wall0,
            |e| e.named = false,
            |e| e.stack_slot = 0,
            |e| e.arena_policy = 0,
            |e| e.arena_skew = 0,
            |e| e.tids = 0,
            |e| e.pads = Vec::new(),
            |e| e.pid = 4242,
        ] {
            self.attempt(best, |s| f(&mut s.env));
        }
        // Operations: drop what they do not need.
        for p in 0..best.phases.len() {
            for t in 0..best.phases[p].len() {
                for o in 0..best.phases[p][t].len() {
                    if waves || pairs {
                        break;
                    }
                    let at = |s: &mut Scenario, f: &dyn Fn(&mut Val)| {
                        if let Op::Val(v) = &mut s.phases[p][t][o] {
                            f(v)
                        }
                    };
                    self.attempt(best, |s| at(s, &|v| v.latency = 0));
                    self.attempt(best, |s| at(s, &|v| v.fault = None));
                    self.attempt(best, |s| at(s, &|v| v.wait = None));
                    self.attempt(best, |s| {
                        let o = &mut s.phases[p][t][o];
                        if let Op::Many { op, .. } = o {
                            *o = (**op).clone();
                        }
                    });
                    for _ in 0..20 {
                        if !self.attempt(best, |s| {
                            if let Op::Many { n, .. } = &mut s.phases[p][t][o] {
                                *n = *n / 2 + 1;
                            }
                        }) {
                            break;
                        }
                    }
                    self.attempt(best, |s| at(s, &|v| v.res = Res::Plain));
                    self.attempt(best, |s| {
                        at(s, &|v| {
                            if let Some(Fault::LookupErr { at, .. } | Fault::LookupPanic { at }) = &mut v.fault {
                                *at = 1
                            }
                        })
                    });
                }
            }
        }
        // Unused schemas, slots and documents become empty.
        let text = format!("{:?}", best.phases);
        for i in 0..best.docs.len() {
            self.attempt(best, |s| {
                s.docs[i].doc = Doc::N;
                s.docs[i].dmg.clear();
            });
        }
        for i in 0..best.schemas.len() {
            if !pairs && !text.contains(&format!("Schema({i})")) {
                self.attempt(best, |s| {
                    s.schemas[i].rules.clear();
                    s.schemas[i].dmg.clear();
                });
            }
            self.attempt(best, |s| s.schemas[i].sep = 0);
            if !pairs {
                self.list(best, |s| s.schemas.get_mut(i).map(|x| &mut x.rules), 0);
            }
            self.list(best, |s| s.schemas.get_mut(i).map(|x| &mut x.dmg), 0);
            for k in 0..best.schemas[i].rules.len() {
                if rule_texts {
                    self.rule(best, i, k);
                }
            }
        }
        for i in 0..best.docs.len() {
            self.list(best, |s| s.docs.get_mut(i).map(|x| &mut x.dmg), 0);
            self.doc(best, i, &[]);
        }
    }

    /// Remove a request from every wave at once.
    fn waves(&mut self, best: &mut Scenario) {
        if best.mode.starts_with("fresh") {
            return;
        }
        if best.mode == "waves" {
            for t in (0..best.phases[0].len()).rev() {
                if best.phases[0].len() > 1 {
                    self.attempt(best, |s| {
                        for p in &mut s.phases {
                            p.remove(t);
                        }
                    });
                }
            }
            for t in 0..best.phases[0].len() {
                for o in (0..best.phases[0][t].len()).rev() {
                    self.attempt(best, |s| {
                        for p in &mut s.phases {
                            p[t].remove(o);
                        }
                    });
                }
            }
        } else {
            let waves = match best.phases[0][0].last() {
                Some(Op::Many { n, .. }) => n.trailing_zeros() as usize + 2,
                _ => 14,
            };
            let mut n = best.phases[0][0].len() / waves;
            for o in (0..n).rev() {
                let removed = self.attempt(best, |s| {
                    let mut i = 0;
                    s.phases[0][0].retain(|_| {
                        i += 1;
                        (i - 1) % n != o
                    });
                });
                if removed {
                    n -= 1;
                }
            }
        }
    }

    /// Remove both requests of a pair.
    fn pairs(&mut self, best: &mut Scenario) {
        for i in (0..best.phases[0][0].len() / 2).rev() {
            self.attempt(best, |s| {
                s.phases[0][0].drain(2 * i..2 * i + 2);
            });
        }
    }

    /// Cut away parts of a rule between commas, slashes and brackets.
    fn rule(&mut self, best: &mut Scenario, i: usize, k: usize) {
        let mut from = 0;
        while !self.done() {
            let t = best.schemas[i].rules[k].clone();
            let Some(eq) = t.find("= ") else { return };
            let from_abs = eq + 2 + from;
            if from_abs >= t.len() || !t.is_char_boundary(from_abs) {
                return;
            }
            let mut hit = false;
            // Longest removable piece starting here that ends at a separator.
            let ends: Vec<usize> = t[from_abs..].char_indices().filter(|(_, c)| ",/)]}".contains(*c)).map(|(n, _)| from_abs + n).collect();
            for e in ends.into_iter().rev().take(6) {
                for skip in [2usize, 1, 0] {
                    let e2 = (e + skip).min(t.len());
                    if e2 <= from_abs || !t.is_char_boundary(e2) {
                        continue;
                    }
                    let mut cut = t.clone();
                    cut.replace_range(from_abs..e2, "");
                    if self.attempt(best, |s| s.schemas[i].rules[k] = cut) {
                        hit = true;
                        break;
                    }
                }
                if hit {
                    break;
                }
            }
            if !hit {
                match t[from_abs..].char_indices().find(|(_, c)| ",/([{".contains(*c)) {
                    Some((n, _)) => from += n + 1,
                    None => return,
                }
                while best.schemas[i].rules[k].as_bytes().get(eq + 2 + from) == Some(&b' ') {
                    from += 1;
                }
            }
        }
    }

    fn doc(&mut self, best: &mut Scenario, i: usize, path: &[usize]) {
        fn at<'a>(d: &'a mut Doc, path: &[usize]) -> Option<&'a mut Doc> {
            let Some((p, rest)) = path.split_first() else { return Some(d) };
            match d {
                Doc::A(v) => at(v.get_mut(*p)?, rest),
                Doc::M(v) => at(&mut v.get_mut(*p)?.1, rest),
                Doc::E(d) | Doc::T(_, d) if *p == 0 => at(d, rest),
                _ => None,
            }
        }
        if path.len() > 6 || self.done() {
            return;
        }
        let len = match at(&mut best.docs[i].doc, path) {
            Some(Doc::A(v)) => v.len(),
            Some(Doc::M(v)) => v.len(),
            Some(Doc::E(_) | Doc::T(..)) => 1,
            Some(Doc::N) | None => return,
            _ => 0,
        };
        if self.attempt(best, |s| {
            if let Some(d) = at(&mut s.docs[i].doc, path) {
                *d = Doc::N
            }
        }) {
            return;
        }
        for k in (0..len).rev() {
            self.attempt(best, |s| match at(&mut s.docs[i].doc, path) {
                Some(Doc::A(v)) => {
                    v.remove(k);
                }
                Some(Doc::M(v)) => {
                    v.remove(k);
                }
                _ => (),
            });
        }
        for k in 0..len {
            let mut p = path.to_vec();
            p.push(k);
            self.doc(best, i, &p);
        }
    }
}
