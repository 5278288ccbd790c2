//! C08: equality saturation never equates terms the rules do not imply.
use ruler::enumo::{Rule, Scheduler};
use vharness::engine::*;
use vharness::oracle::{self, *};
use vharness::scen::*;
use vharness::sx::*;
use vharness::tb::{self, *};
use vharness::{ensure, fail};

fn gen_limits(g: &mut G, max_iter: usize) -> ruler::Limits {
    limits(
        g.size(0, max_iter),
        if g.chance(35) { g.size(0, 40) } else { BIG },
        if g.chance(35) { g.size(1, 5) } else { BIG },
    )
}
/// Either entry point; the one for derivations stops early when its rule's sides meet.
fn go(g: &mut G, s: &Scheduler, e: &Real, rules: &[(T, T)], goal: Option<(T, T)>) -> (Real, bool) {
    let rs = ruleset(rules);
    let before = rs.to_str_vec();
    let out = match &goal {
        Some((l, r)) => {
            g.label("derivation entry point");
            let rule = Rule::new(&tb::pattern::<Tb>(&to_pat(l)), &tb::pattern::<Tb>(&to_pat(r))).unwrap();
            s.run_derive(e, &rs, &rule)
        }
        None => s.run(e, &rs),
    };
    (out, rs.to_str_vec() == before)
}

/// Arbitrary rules and merges in the free algebra: everything merged is merged by plain saturation.
fn free(g: &mut G) -> R {
    set_alg(blank(3));
    let rules = dedup_rules(gen_any_rules(g, 3, 4));
    let ts = instances(g, &rules, 3, 5);
    let subs = subterms(&ts);
    let mut us = vec![];
    for _ in 0..g.tail(0, 2, 10, 4) {
        us.push((g.pick(&subs).clone(), g.pick(&subs).clone()));
    }
    let lim = gen_limits(g, 3);
    let s = strategy(g, lim);
    let goal = if g.chance(30) && !rules.is_empty() {
        Some(if g.bool() { g.pick(&rules).clone() } else { (g.pick(&subs).clone(), g.pick(&subs).clone()) })
            .filter(|(l, r)| vars_of(&[r]).iter().all(|v| vars_of(&[l]).contains(v)))
    } else {
        None
    };
    g.input(format!(
        "{} | {} | {} | {:?}{}",
        rules_text(&rules),
        show(&ts),
        show_unions(&us),
        s,
        goal.as_ref().map_or(String::new(), |(l, r)| format!(" goal {} ==> {}", l, r))
    ));
    g.label(strategy_name(&s));
    let start = trusted_with(&ts, &us);
    let (t, end) = match s {
        Scheduler::Saturating(_) => {
            let (t, ok) = oracle::run_saturating(start, &rules, lim.iter, 3000);
            (t, if ok { End::Iters } else { End::TooBig })
        }
        _ => oracle::run(start, &rewrites(&rules), lim.iter, 3000),
    };
    if matches!(end, End::TooBig) {
        return Err(Stop::Discard);
    }
    // one more round of everything: the property bounds what is merged, not how fast
    let (t, _) = if t.total_size() < 500 { oracle::run(t, &rewrites(&rules), 1, 20_000) } else { (t, End::Iters) };
    let e = real_with(&ts, &us);
    let before = digest(&e);
    let p0 = partition(subs.iter().map(|t| real_find(&e, t))).unwrap();
    let (out, same) = go(g, &s, &e, &rules, goal);
    ensure!(same, "the ruleset changed");
    ensure!(digest(&e) == before, "the given e-graph changed");
    let pt = partition(subs.iter().map(|x| oracle::find(&t, x))).unwrap();
    let pr = match partition(subs.iter().map(|x| real_find(&out, x))) {
        Some(p) => p,
        None => fail!("a term is no longer represented"),
    };
    g.nontrivial_if(pr.len() < p0.len());
    if let Some((i, j)) = not_coarser(&pr, &pt) {
        fail!("{} and {} are equated, which the rules do not imply", subs[i], subs[j]);
    }
    if let Some((i, j)) = not_coarser(&p0, &pr) {
        fail!("{} and {} were equal before and are not after", subs[i], subs[j]);
    }
    // terms that did not exist before: right-hand instances and their parts
    let mut more = vec![];
    for (_, r) in &rules {
        let mut m = std::collections::BTreeMap::new();
        for v in vars_of(&[r]) {
            m.insert(v, g.pick(&subs).clone());
        }
        more.push(subst(r, &m));
    }
    let more = subterms(&more);
    let all: Vec<&T> = subs.iter().chain(more.iter()).collect();
    for x in &more {
        if let Some(a) = real_find(&out, x) {
            for y in &all {
                if real_find(&out, y) == Some(a) {
                    ensure!(
                        oracle::find(&t, x).is_some() && oracle::find(&t, x) == oracle::find(&t, y),
                        "{} and {} are equated, which the rules do not imply",
                        x,
                        y
                    );
                }
            }
        }
    }
    Ok(())
}

/// Rules that are true in the algebra: every class denotes one function.
fn semantic(g: &mut G) -> R {
    let partial = g.chance(40);
    let mut al = gen_alg(g, 3, partial);
    if al.total() && g.chance(30) {
        al.interval = g.size(1, 2) as u8;
    }
    match g.below(4) {
        0 => al.samples = vec![],
        1 => {
            let mut s = al.all_vals();
            g.shuffle(&mut s);
            s.truncate(g.size(1, s.len()));
            al.samples = s;
        }
        _ => {}
    }
    let al = set_alg(al);
    let rules = dedup_rules(gen_valid_rules(g, al, 5));
    if rules.is_empty() {
        return Err(Stop::Discard);
    }
    let mut ts = instances(g, &rules, al.k, 5);
    ts.push(a("x"));
    ts.push(a("y"));
    let subs = subterms(&ts);
    let mut us = vec![];
    for _ in 0..g.tail(0, 2, 10, 4) {
        let (x, y) = (g.pick(&subs).clone(), g.pick(&subs).clone());
        if al.same(&x, &y) {
            us.push((x, y));
        }
    }
    let lim = gen_limits(g, 3);
    let s = strategy(g, lim);
    let goal = if g.chance(25) { Some(g.pick(&rules).clone()) } else { None };
    g.input(format!("{} | {} | {} | {} | {:?} {}", al.describe(), rules_text(&rules), show(&ts), show_unions(&us), s, goal.is_some()));
    g.label(strategy_name(&s));
    g.label_if(!al.total(), "partial operators");
    g.label_if(al.interval > 0, "constant folding");
    let start = trusted_with(&ts, &us);
    let too_big = match s {
        Scheduler::Saturating(_) => !oracle::run_saturating(start, &rules, lim.iter, 3000).1,
        _ => matches!(oracle::run(start, &rewrites(&rules), lim.iter, 3000).1, End::TooBig),
    };
    if too_big {
        return Err(Stop::Discard);
    }
    let e = real_with(&ts, &us);
    let before = digest(&e);
    let n0 = e.number_of_classes();
    let (out, same) = go(g, &s, &e, &rules, goal);
    ensure!(same, "the ruleset changed");
    ensure!(digest(&e) == before, "the given e-graph changed");
    let vars = vars_of(&ts.iter().collect::<Vec<_>>());
    if let Err(m) = denotations(&out, al, &vars) {
        fail!("{}", m);
    }
    let pr = match partition(subs.iter().map(|x| real_find(&out, x))) {
        Some(p) => p,
        None => fail!("a term is no longer represented"),
    };
    for b in &pr {
        for w in b.windows(2) {
            ensure!(al.same(&subs[w[0]], &subs[w[1]]), "{} and {} are equated but have different values", subs[w[0]], subs[w[1]]);
        }
    }
    g.nontrivial_if(pr.len() < subs.len().min(n0));
    Ok(())
}

fn main() {
    vharness::engine::main(Prop {
        id: "C08",
        rule: "free: arbitrary rules, terms (many are instances of rule sides) and earlier merges, all strategies, limits (iterations 0-3, node and match limits small or unlimited), both entry points; merges are compared with plain egg saturation run one round further, over all subterms and sampled right-hand instances. semantic: rules true in a random finite algebra (partial, sampled, with folding); every class of the result must denote one function. Inputs must be left unchanged and no term lost. Non-trivial: the run merges something.",
        assumptions: &["egg itself is trusted"],
        subs: vec![
            Sub { name: "free", quick: 90_000, thorough: 2_000_000, f: free },
            Sub { name: "semantic", quick: 90_000, thorough: 2_000_000, f: semantic },
        ],
        init: tb::init,
    })
}
