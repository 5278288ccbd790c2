//! C22: the result log only grows, by one correct record per report.
use ruler::enumo::{Ruleset, Scheduler};
use ruler::{logger, Phase};
use std::time::Duration;
use vharness::engine::*;
use vharness::json::J;
use vharness::oracle::*;
use vharness::scen::*;
use vharness::sx::*;
use vharness::tb::{self, *};
use vharness::{ensure, fail};

/// A scratch directory that is the current one while it lives.
struct Dir(std::path::PathBuf, std::path::PathBuf);
impl Dir {
    fn new() -> Self {
        let old = std::env::current_dir().unwrap();
        let d = std::env::temp_dir().join(format!("vharness-c22-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).unwrap();
        std::env::set_current_dir(&d).unwrap();
        Dir(old, d)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir(&self.0);
        let _ = std::fs::remove_dir_all(&self.1);
    }
}

const LOG: &str = "nightly/data/output.json";
const NAMES: &[&str] = &["herbie", "rational_best", "rational_replicate", "rational", "rational_best2", "old_herbie", "bool", "bv4_fancy", "oopsla \"x\"", "é\n"];

fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c => o.push(c),
        }
    }
    o + "\""
}
fn duration(g: &mut G) -> Duration {
    match g.below(4) {
        0 => Duration::from_secs(g.below(5)),
        1 => Duration::from_millis(g.below(100_000)),
        2 => Duration::from_nanos(g.below(2_000_000_000)),
        _ => Duration::new(g.below(100_000), g.below(1_000_000_000) as u32),
    }
}
fn some_json(g: &mut G, depth: usize) -> String {
    match g.weighted(&[3, 2, 3, 3, if depth > 0 { 3 } else { 0 }, if depth > 0 { 4 } else { 0 }]) {
        0 => ["null", "true", "false", "0", "-1"][g.below(5) as usize].to_string(),
        1 => g.pick(&["7", "18446744073709551615", "-9223372036854775808", "1.0", "0.1", "1e-7", "12.5", "0.30000000000000004"]).to_string(),
        2 => format!("{}", duration(g).as_secs_f64()),
        3 => quote(*g.pick(&["", "herbie", "(+ ?a ?b) ==> (+ ?b ?a)", "[", "\\", "é", "]"])),
        4 => {
            let n = g.small(0, 3);
            let v: Vec<String> = (0..n).map(|_| some_json(g, depth - 1)).collect();
            format!("[{}]", v.join(", "))
        }
        _ => {
            let n = g.small(0, 3);
            let mut ks = vec!["TYPE", "rules", "a", "time"];
            g.shuffle(&mut ks);
            let v: Vec<String> = ks[..n].iter().map(|k| format!("{}: {}", quote(k), some_json(g, depth - 1))).collect();
            format!("{{{}}}", v.join(if g.bool() { "," } else { ",\n  " }))
        }
    }
}

/// Expected split of `target` by what `from` derives, or None when it is too large to decide.
fn split(from: &[(T, T)], target: &[(T, T)], both: bool) -> Option<(Vec<String>, Vec<String>)> {
    let (mut can, mut cannot) = (vec![], vec![]);
    for (l, r) in target {
        if answer(from, l, r, both, 5)? {
            can.push(rule_text(l, r));
        } else {
            cannot.push(rule_text(l, r));
        }
    }
    Some((can, cannot))
}
fn check_split(j: Option<&J>, want: &(Vec<String>, Vec<String>), mode: Option<&str>, what: &str) -> R {
    let j = match j {
        Some(j) => j,
        None => fail!("{} is missing", what),
    };
    let (can, cannot) = (j.get("can").and_then(|x| x.strs()), j.get("cannot").and_then(|x| x.strs()));
    ensure!(can.as_ref() == Some(&want.0), "{}: can is {:?}, expected {:?}", what, can, want.0);
    ensure!(cannot.as_ref() == Some(&want.1), "{}: cannot is {:?}, expected {:?}", what, cannot, want.1);
    let t = j.get("time").and_then(|x| x.num());
    ensure!(t.map_or(false, |t| t >= 0.0), "{}: time is {:?}", what, j.get("time"));
    if let Some(m) = mode {
        ensure!(j.get("derive_type").and_then(|x| x.str()) == Some(m), "{}: mode is {:?}, expected {}", what, j.get("derive_type"), m);
    }
    Ok(())
}
fn check_str(j: &J, k: &str, want: &str) -> R {
    ensure!(j.get(k).and_then(|x| x.str()) == Some(want), "{} is {:?}, expected {:?}", k, j.get(k), want);
    Ok(())
}
fn check_rules(j: &J, want: &[String]) -> R {
    ensure!(j.get("rules").and_then(|x| x.strs()).as_deref() == Some(want), "rules are {:?}, expected {:?}", j.get("rules"), want);
    Ok(())
}
fn check_time(j: &J, want: Duration) -> R {
    ensure!(j.get("time").and_then(|x| x.num()) == Some(want.as_secs_f64()), "time is {:?}, expected {:?}", j.get("time"), want.as_secs_f64());
    Ok(())
}
fn texts(rs: &[(T, T)]) -> Vec<String> {
    rs.iter().map(|(l, r)| rule_text(l, r)).collect()
}
/// A second ruleset, partly derivable from the first.
fn related(g: &mut G, rules: &[(T, T)]) -> Vec<(T, T)> {
    let n = g.size(0, 3);
    let mut out = vec![];
    for _ in 0..n {
        if let Some(x) = goal(g, rules) {
            out.push(x);
        }
    }
    dedup_rules(out)
}

fn history(g: &mut G) -> R {
    let d = Dir::new();
    let mut model: Vec<J> = vec![];
    match g.below(5) {
        0 => g.input("no file"),
        1 => {
            g.input("empty directory");
            std::fs::create_dir_all("nightly/data").unwrap();
        }
        2 => {
            g.input("empty file");
            std::fs::create_dir_all("nightly/data").unwrap();
            std::fs::write(LOG, "").unwrap();
        }
        _ => {
            std::fs::create_dir_all("nightly/data").unwrap();
            let n = if g.chance(4) { g.size(4, 30) } else { g.size(0, 4) };
            let v: Vec<String> = (0..n).map(|_| some_json(g, 3)).collect();
            let s = format!("{}[{}]{}", if g.bool() { "" } else { " " }, v.join(if g.bool() { ", " } else { "\n,\n" }), if g.bool() { "" } else { "\n" });
            g.input(format!("file {}", s));
            model = match J::parse(&s) {
                Some(J::Arr(v)) => v,
                _ => fail!("harness: {} is no list", s),
            };
            std::fs::write(LOG, &s).unwrap();
            g.label("records before");
        }
    }
    let n = if g.chance(4) { g.size(3, 12) } else { g.size(1, 3) };
    let mut reports = 0;
    for _ in 0..n {
        let kind = g.below(3);
        let time = duration(g);
        // the record expected
        let mut check: Box<dyn Fn(&J) -> R> = Box::new(|_| Ok(()));
        let _ = &check;
        match kind {
            0 => {
                set_alg(blank(3));
                let rules = dedup_rules(gen_any_rules(g, 3, 3));
                let other = if g.bool() { related(g, &rules) } else { dedup_rules(gen_any_rules(g, 3, 3)) };
                let (rules, other) = if g.chance(5) {
                    // the limits decide
                    let (rs, l, r) = ladders(g);
                    (rs, vec![(l, r)])
                } else {
                    (rules, other)
                };
                let (rules, other) = if g.bool() { (rules, other) } else { (other, rules) };
                let (spec, base) = match g.below(7) {
                    // names close to those with comparisons left out
                    5 => ("herbie", *g.pick(&["rational", "rational_best2", "a_rational_best", "RATIONAL_BEST", "rational_replicate_"])),
                    6 => (*g.pick(&["rational", "rational_best2", "rational_best", "rational_replicates"]), *g.pick(&["herbie2", "old_herbie", "Herbie", "herbi"])),
                    0 => ("herbie", *g.pick(&["rational_best", "rational_replicate"])),
                    1 => (*g.pick(&["rational_best", "rational_replicate"]), "herbie"),
                    _ => (*g.pick(NAMES), *g.pick(NAMES)),
                };
                let loc = if g.bool() {
                    let n = g.size(0, 4);
                    std::fs::create_dir_all("tests/recipes").unwrap();
                    let mut s = "line\n".repeat(n);
                    if g.bool() {
                        s.push_str("last");
                    }
                    std::fs::write(format!("tests/recipes/{}.rs", spec), &s).unwrap();
                    s.lines().count().to_string()
                } else {
                    let _ = std::fs::remove_file(d.1.join("tests/recipes").join(format!("{}.rs", spec)));
                    "-".to_string()
                };
                g.add_input(format!("baseline {:?} {:?} loc {} | {} | {}", spec, base, loc, rules_text(&rules), rules_text(&other)));
                let skip = |a: &str, b: &str| a == "herbie" && (b == "rational_best" || b == "rational_replicate");
                let mut want = vec![];
                for (x, y, s) in [(&rules, &other, skip(spec, base)), (&other, &rules, skip(base, spec))] {
                    if s {
                        g.label("skipped comparison");
                        want.push(None);
                    } else {
                        match (split(x, y, false), split(x, y, true)) {
                            (Some(p), Some(q)) => {
                                g.label_if(!p.0.is_empty() && !p.1.is_empty(), "mixed split");
                                g.label_if(p != q, "modes differ");
                                want.push(Some((p, q)))
                            }
                            _ => return Err(Stop::Discard),
                        }
                    }
                }
                logger::write_baseline(&ruleset(&rules), spec, &ruleset(&other), base, time);
                let ru = texts(&rules);
                check = Box::new(move |j| {
                    check_str(j, "TYPE", "baseline")?;
                    check_str(j, "spec_name", spec)?;
                    check_str(j, "baseline_name", base)?;
                    check_str(j, "loc", &loc)?;
                    check_rules(j, &ru)?;
                    check_time(j, time)?;
                    let dj = match j.get("derivability") {
                        Some(x) => x,
                        None => fail!("derivability is missing"),
                    };
                    for (k, w) in ["enumo_derives_baseline", "baseline_derives_enumo"].iter().zip(&want) {
                        match w {
                            None => ensure!(dj.get(k) == Some(&J::Obj(vec![])), "{} is skipped but the entry is {:?}", k, dj.get(k)),
                            Some((p, q)) => {
                                let e = match dj.get(k) {
                                    Some(e) => e,
                                    None => fail!("{} is missing", k),
                                };
                                check_split(e.get("lhs"), p, Some("Lhs"), &format!("{} lhs", k))?;
                                check_split(e.get("lhs_rhs"), q, Some("LhsAndRhs"), &format!("{} lhs_rhs", k))?;
                            }
                        }
                    }
                    Ok(())
                });
            }
            1 => {
                let mut al = gen_alg(g, 3, false);
                al.samples = vec![];
                if g.chance(30) {
                    al.validity = Validity::UnknownSome(3);
                }
                let steep = g.chance(5);
                if steep {
                    al.validity = Validity::Always;
                }
                let al = set_alg(al);
                let mut goal_of_ladders = None;
                let mut ported = if steep {
                    // the limits decide
                    let (rs, l, r) = ladders(g);
                    goal_of_ladders = Some((l, r));
                    rs
                } else {
                    gen_valid_rules(g, al, 3)
                };
                if !steep {
                    ported.extend(gen_any_rules(g, al.k, 2));
                }
                g.shuffle(&mut ported);
                let ported = dedup_rules(ported);
                let sound: Vec<(T, T)> = ported.iter().filter(|(l, r)| accepted(l, r)).cloned().collect();
                let gen = if steep { goal_of_ladders.into_iter().collect() } else if g.bool() { related(g, &sound) } else { dedup_rules(gen_valid_rules(g, al, 3)) };
                let domain = *g.pick(NAMES);
                g.add_input(format!("bv {:?} {} | {} | {}", domain, al.describe(), rules_text(&gen), rules_text(&ported)));
                let (p, q) = match (split(&sound, &gen, false), split(&sound, &gen, true)) {
                    (Some(p), Some(q)) => (p, q),
                    _ => return Err(Stop::Discard),
                };
                g.label_if(!p.0.is_empty() && !p.1.is_empty(), "mixed split");
                g.label_if(p != q, "modes differ");
                g.label_if(sound.len() < ported.len(), "unsound rules ported");
                logger::write_bv_derivability(domain, ruleset(&gen), time, ruleset(&ported));
                check = Box::new(move |j| {
                    check_str(j, "TYPE", "bv")?;
                    check_str(j, "domain", domain)?;
                    match (j.get("direct_gen"), j.get("from_bv4"), j.get("derivability")) {
                        (Some(dg), Some(fb), Some(dj)) => {
                            check_rules(dg, &texts(&gen))?;
                            check_time(dg, time)?;
                            check_rules(fb, &texts(&sound))?;
                            ensure!(fb.get("time").and_then(|t| t.num()).map_or(false, |t| t >= 0.0), "validation time is {:?}", fb.get("time"));
                            check_split(dj.get("lhs"), &p, None, "lhs")?;
                            check_split(dj.get("lhs_rhs"), &q, None, "lhs_rhs")?;
                        }
                        _ => fail!("an entry is missing"),
                    }
                    Ok(())
                });
            }
            _ => {
                set_alg(blank(3));
                let rules = dedup_rules(gen_any_rules(g, 3, 4));
                let mut phases = vec![];
                let mut names = vec![];
                for _ in 0..3 {
                    let l = limits(g.size(0, 5), g.size(0, 100), g.size(0, 100));
                    let (s, n) = match g.below(3) {
                        0 => (Scheduler::Simple(l), "eqsat"),
                        1 => (Scheduler::Saturating(l), "sat"),
                        _ => (Scheduler::Compress(l), "compress"),
                    };
                    let rn = *g.pick(&["allowed", "exploratory", "all", ""]);
                    names.push(format!("{} ({})", n, rn));
                    phases.push(Phase { rules: ruleset(&dedup_rules(gen_any_rules(g, 3, 1))), rules_name: rn.to_string(), scheduler: s });
                }
                g.add_input(format!("ff {:?} | {}", names, rules_text(&rules)));
                let rs: Ruleset<Tb> = ruleset(&rules);
                let p3 = phases.pop().unwrap();
                let p2 = phases.pop().unwrap();
                let p1 = phases.pop().unwrap();
                logger::write_ff_phase(p1, p2, p3, time, &rs);
                let ru = texts(&rules);
                check = Box::new(move |j| {
                    check_str(j, "TYPE", "ff_phases")?;
                    for (k, w) in ["phase1", "phase2", "phase3"].iter().zip(&names) {
                        check_str(j, k, w)?;
                    }
                    check_time(j, time)?;
                    check_rules(j, &ru)
                });
            }
        }
        reports += 1;
        let s = std::fs::read_to_string(LOG).unwrap_or_default();
        let now = match J::parse(&s) {
            Some(J::Arr(v)) => v,
            _ => fail!("after report {} the file is no well-formed list: {}", reports, s),
        };
        ensure!(now.len() == model.len() + 1, "after report {} the list has {} records, it had {} before", reports, now.len(), model.len());
        for (i, (x, y)) in now.iter().zip(&model).enumerate() {
            ensure!(x.same(y), "after report {} record {} changed from {:?} to {:?}", reports, i, y, x);
        }
        check(now.last().unwrap())?;
        model = now;
    }
    g.label_if(reports > 1, "several reports");
    g.nontrivial_if(!model.is_empty());
    Ok(())
}

fn main() {
    vharness::engine::main(Prop {
        id: "C22",
        rule: "Histories of 1-3 reports of the three kinds in a scratch directory whose results file is absent, empty or a list of random JSON values; rulesets are random, the second often partly derivable from the first. After each report the file is read by an independent reader: one record more, the earlier ones the same values, and the new one compared field by field with the given data; derivability entries with the splits computed by plain egg. Non-trivial: always (each case makes a report).",
        assumptions: &["files that are no JSON list are not judged", "rulesets whose saturation exceeds the oracle's limits are left out"],
        subs: vec![Sub { name: "history", quick: 35_000, thorough: 1_000_000, f: history }],
        init: tb::init,
    })
}
