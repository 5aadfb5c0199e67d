//! Demonstrates the known findings of C09 on every run.  What is known is listed in
//! KNOWN_FINDINGS.txt, by the exact input; nothing else is suppressed by it.

use crate::model::*;
use crate::runner::{run, End};
use crate::work::BUDGET;

pub type Outcome = (Vec<String>, Option<(String, Scenario)>);

fn scenario(text: String) -> Scenario {
    Scenario {
        prop: "C09".into(),
        mode: "known".into(),
        env: Env { stack_kb: 2048, ..Env::plain() },
        schemas: vec![Schema { rules: vec![text], sep: 0, dmg: Vec::new() }],
        phases: vec![vec![vec![Op::Compile { how: 0, schema: 0 }]]],
        budget: BUDGET,
        ..Scenario::default()
    }
}

/// (id, input, what fails)
fn findings() -> Vec<(&'static str, Scenario, &'static str)> {
    let deep = format!("t = {}int{}", "[".repeat(20_000), "]".repeat(20_000));
    let slow = format!("t = {}", "[(".repeat(24));
    vec![
        ("deep-nesting", scenario(deep), "parse_cddl of `t = [[[...int...]]]`, 20000 levels deep, overflows the stack"),
        ("cut-alternation", scenario(slow), "parse_cddl of the cut text `t = [([([(...`, 24 pairs, takes a number of steps that doubles with every bracket"),
    ]
}

/// Run by a forked process: (what is still so, as listed) and anything not listed.
pub fn c09(out: &str) -> Outcome {
    let listed = std::fs::read_to_string(format!("{out}/KNOWN_FINDINGS.txt")).unwrap_or_default();
    let mut lines = Vec::new();
    let mut bad = None;
    for (id, scn, what) in findings() {
        let r = run(&scn);
        if !matches!(r.end, End::Signal(_) | End::Hang) {
            continue;
        }
        if listed.lines().any(|l| l.starts_with(&format!("known: property=C09 id={id} "))) {
            lines.push(format!("KNOWN-FINDING: property=C09 id={id} {what}"));
        } else if bad.is_none() {
            bad = Some((format!("{what} ({:?})", r.end), scn));
        }
    }
    (lines, bad)
}
