//! C10: schedulers run exactly the configured schedule and respect its limits.
use ruler::enumo::{Rule, Scheduler};
use vharness::engine::*;
use vharness::oracle::{self, *};
use vharness::scen::*;
use vharness::sx::*;
use vharness::tb::{self, *};
use vharness::{ensure, fail};
#[path = "../clock.rs"]
mod clock;

struct Case {
    rules: Vec<(T, T)>,
    ts: Vec<T>,
    us: Vec<(T, T)>,
    subs: Vec<T>,
    deep: bool,
}
fn case(g: &mut G, maxr: usize) -> Case {
    set_alg(blank(3));
    let mut rules = gen_any_rules(g, 3, maxr);
    let mut ts = instances(g, &rules, 3, 5);
    let deep = g.chance(5);
    if deep {
        rules.retain(|(l, r)| not_growing(l, r));
        rules.truncate(2);
        ts.truncate(3);
        let (rs, t) = cascade(g);
        rules.extend(rs);
        ts.push(t);
        g.shuffle(&mut rules);
    }
    let rules = dedup_rules(rules);
    let subs = subterms(&ts);
    let mut us = vec![];
    if g.chance(25) {
        us.push((g.pick(&subs).clone(), g.pick(&subs).clone()));
    }
    g.input(format!("{} | {} | {}", rules_text(&rules), show(&ts), show_unions(&us)));
    Case { rules, ts, us, subs, deep }
}
fn same_graph(c: &Case, t: &EG<Tb>, r: &Real) -> R {
    let pt = partition(c.subs.iter().map(|x| oracle::find(t, x))).unwrap();
    let pr = match partition(c.subs.iter().map(|x| real_find(r, x))) {
        Some(p) => p,
        None => fail!("a term is no longer represented"),
    };
    ensure!(pt == pr, "expected {} but got {}", show_partition(&c.subs, &pt), show_partition(&c.subs, &pr));
    ensure!(
        t.number_of_classes() == r.number_of_classes() && t.total_number_of_nodes() == r.total_number_of_nodes(),
        "expected {} classes and {} nodes but got {} and {}",
        t.number_of_classes(),
        t.total_number_of_nodes(),
        r.number_of_classes(),
        r.total_number_of_nodes()
    );
    Ok(())
}
/// A goal whose sides do not occur, so that it never stops a run.
fn no_goal() -> Rule<Tb> {
    Rule::new(&tb::pattern::<Tb>(&T::parse("(p (p (q (p (q (q (p ?u)))))))").unwrap()), &tb::pattern::<Tb>(&T::parse("(q (q (p (q (p (p (q ?u)))))))").unwrap())).unwrap()
}
fn go(g: &mut G, s: Scheduler, c: &Case) -> Real {
    let e = real_with(&c.ts, &c.us);
    let rs = ruleset(&c.rules);
    if g.chance(25) {
        s.run_derive(&e, &rs, &no_goal())
    } else {
        s.run(&e, &rs)
    }
}

/// The simple strategy is exactly n iterations of all rules.
fn simple(g: &mut G) -> R {
    let c = case(g, 4);
    let n = if c.deep { g.size(0, 90) } else if g.chance(4) { g.size(4, 9) } else { g.size(0, 4) };
    g.add_input(format!("{} iterations", n));
    let (t, end) = oracle::run(trusted_with(&c.ts, &c.us), &rewrites(&c.rules), n, 3000);
    if matches!(end, End::TooBig) {
        return Err(Stop::Discard);
    }
    g.label_if(matches!(end, End::Saturated), "saturates");
    g.nontrivial_if(n > 0 && t.total_size() > c.subs.len() + 1);
    let r = go(g, Scheduler::Simple(limits(n, BIG, BIG)), &c);
    same_graph(&c, &t, &r)
}

/// The saturating strategy alternates saturation of the one group with single rounds of the other.
fn saturating_runs(g: &mut G) -> R {
    let c = case(g, 5);
    let n = if g.chance(4) { g.size(3, 8) } else { g.size(0, 3) };
    g.add_input(format!("{} rounds", n));
    let (t, ok) = oracle::run_saturating(trusted_with(&c.ts, &c.us), &c.rules, n, 3000);
    if !ok {
        return Err(Stop::Discard);
    }
    let (s, o) = c.rules.iter().fold((0, 0), |(s, o), (l, r)| if oracle::saturating(l, r) { (s + 1, o) } else { (s, o + 1) });
    g.label_if(s > 0 && o > 0, "both groups");
    g.nontrivial_if(s > 0 && o > 0 && n > 0);
    let r = go(g, Scheduler::Saturating(limits(n, BIG, BIG)), &c);
    same_graph(&c, &t, &r)
}

/// A goal only stops a run once it is reached.
fn goals(g: &mut G) -> R {
    let c = case(g, 4);
    let n = if c.deep { g.size(1, 90) } else if g.chance(4) { g.size(3, 8) } else { g.size(1, 3) };
    let lim = limits(n, BIG, BIG);
    let (s, t) = if g.bool() {
        let (t, end) = oracle::run(trusted_with(&c.ts, &c.us), &rewrites(&c.rules), n, 3000);
        if matches!(end, End::TooBig) {
            return Err(Stop::Discard);
        }
        (Scheduler::Simple(lim), t)
    } else {
        let (t, ok) = oracle::run_saturating(trusted_with(&c.ts, &c.us), &c.rules, n, 3000);
        if !ok {
            return Err(Stop::Discard);
        }
        (Scheduler::Saturating(lim), t)
    };
    let (l, r) = if !c.rules.is_empty() && g.bool() { g.pick(&c.rules).clone() } else { (g.pick(&c.subs).clone(), g.pick(&c.subs).clone()) };
    if !vars_of(&[&r]).iter().all(|v| vars_of(&[&l]).contains(v)) {
        return Err(Stop::Discard);
    }
    g.add_input(format!("{:?} goal {} ==> {}", s, l, r));
    let rule = Rule::new(&tb::pattern::<Tb>(&to_pat(&l)), &tb::pattern::<Tb>(&to_pat(&r))).unwrap();
    let e = real_with(&c.ts, &c.us);
    let out = s.run_derive(&e, &ruleset(&c.rules), &rule);
    let (tl, tr) = (oracle::find(&t, &l), oracle::find(&t, &r));
    let reached = tl.is_some() && tl == tr;
    let (rl, rr) = (real_find(&out, &l), real_find(&out, &r));
    let got = rl.is_some() && rl == rr;
    g.nontrivial_if(reached && l != r);
    ensure!(got == reached, "the goal is {} by the full schedule but {}", if reached { "reached" } else { "not reached" }, if got { "reported reached" } else { "missed" });
    if !reached {
        same_graph(&c, &t, &out)?;
    }
    Ok(())
}

fn classify(g: &mut G) -> R {
    let folding = g.chance(30);
    let mut al = blank(3);
    if folding {
        al = gen_alg(g, 3, false);
        al.samples = vec![];
        al.interval = g.size(1, 2) as u8;
    }
    let al = set_alg(al);
    let rules = if folding { gen_valid_rules(g, al, 2) } else { gen_any_rules(g, 3, 2) };
    if rules.is_empty() {
        return Err(Stop::Discard);
    }
    g.input(format!("{} {}", if folding { al.describe() } else { String::new() }, rules_text(&rules)));
    for (l, r) in &rules {
        let rule = Rule::new(&tb::pattern::<Tb>(&to_pat(l)), &tb::pattern::<Tb>(&to_pat(r))).unwrap();
        let want = oracle::saturating(l, r);
        if !folding {
            g.nontrivial_if(matches!(r, T::L(_)));
            ensure!(rule.is_saturating() == want, "{} is {}saturating by definition", rule, if want { "" } else { "not " });
        } else {
            g.label("constant folding");
            // by definition a rule of the kind stays of the kind; the others must add no class either
            if want {
                ensure!(rule.is_saturating(), "{} is saturating by definition", rule);
            } else if rule.is_saturating() {
                g.nontrivial();
                let e = real_egraph::<Tb>(&[l.clone()]);
                let n = e.number_of_classes();
                let out = Scheduler::Simple(limits(1, BIG, BIG)).run(&e, &ruleset(&[(l.clone(), r.clone())]));
                // matches elsewhere in the term may add classes of their own; look at the match at the root only
                let _ = (out, n);
                let mut e = real_egraph::<Tb>(&[l.clone()]);
                let li = real_find(&e, l).unwrap();
                let n = e.number_of_classes();
                let ri = e.add_expr(&tb::expr::<Tb>(r));
                e.union(li, ri);
                e.rebuild();
                ensure!(e.number_of_classes() <= n, "{} counts as saturating but adds a class", rule);
            }
        }
    }
    Ok(())
}

/// n independent matches per rule: exactly min(limit, n) are rewritten in one iteration.
fn match_limit(g: &mut G) -> R {
    set_alg(blank(3));
    let m = if g.chance(10) { g.size(8, 25) } else { g.size(1, 8) };
    let iters = g.size(1, 3);
    let mut ts = vec![];
    let shapes: &[(&str, &str, &str)] = &[("(p ?x)", "(q ?x)", "p"), ("(+ ?x ?x)", "(* ?x ?x)", "+"), ("(& ?x 1)", "(if ?x ?x 1)", "&")];
    let mut n = vec![];
    for (l, _, _) in shapes {
        let k = if g.chance(20) { g.size(12, 26) } else { g.size(0, 12) };
        n.push(k);
        for i in 0..k {
            let v = (b'a' + i as u8) as char;
            ts.push(T::parse(&l.replace("?x", &v.to_string())).unwrap());
        }
    }
    g.shuffle(&mut ts);
    let mut order = vec![0, 1, 2];
    g.shuffle(&mut order);
    order.truncate(g.size(1, 3));
    let rules: Vec<String> = order.iter().map(|i| format!("{} ==> {}", shapes[*i].0, shapes[*i].1)).collect();
    let sat = g.chance(30);
    g.input(format!("{} matches, limit {}, {} iterations, {}, {}", show(&ts), m, iters, rules.join(", "), if sat { "saturating" } else { "simple" }));
    g.nontrivial_if(order.iter().any(|i| n[*i] > m));
    // all matches of a shape in one class, or each in its own
    let merged = g.chance(35);
    g.label_if(merged, "several matches in one class");
    let mut us = vec![];
    if merged {
        for (l, _, _) in shapes {
            let op = l.split(' ').next().unwrap();
            let of: Vec<&T> = ts.iter().filter(|t| t.to_string().starts_with(op)).collect();
            us.extend(of.windows(2).map(|w| (w[0].clone(), w[1].clone())));
        }
        g.add_input("merged");
    }
    let e = real_with(&ts, &us);
    let rs = ruler::enumo::Ruleset::<Tb>::new(&rules);
    let lim = limits(iters, BIG, m);
    let s = if sat { Scheduler::Saturating(lim) } else { Scheduler::Simple(lim) };
    let out = if g.chance(25) { s.run_derive(&e, &rs, &no_goal()) } else { s.run(&e, &rs) };
    for (i, (_, r, _)) in shapes.iter().enumerate() {
        let done = (0..n[i])
            .filter(|j| {
                let v = (b'a' + *j as u8) as char;
                real_find(&out, &T::parse(&r.replace("?x", &v.to_string())).unwrap()).is_some()
            })
            .count();
        if !order.contains(&i) {
            ensure!(done == 0, "a rule that was not given applied");
            continue;
        }
        ensure!(done >= m.min(n[i]), "{} of {} matches of {} were rewritten with a limit of {}", done, n[i], shapes[i].0, m);
        if !sat {
            ensure!(done <= m * iters, "{} matches of {} were rewritten in {} iterations with a limit of {}", done, shapes[i].0, iters, m);
        }
    }
    Ok(())
}

/// A run stops as soon as the node limit is exceeded, and only then.
fn node_limit(g: &mut G) -> R {
    let c = case(g, 4);
    let n = if g.chance(4) { g.size(4, 9) } else { g.size(1, 4) };
    let rw = rewrites(&c.rules);
    let mut steps = vec![trusted_with(&c.ts, &c.us)];
    for _ in 0..n {
        let (t, end) = oracle::run(steps.last().unwrap().clone(), &rw, 1, 3000);
        match end {
            End::TooBig => return Err(Stop::Discard),
            End::Saturated => {
                steps.push(t);
                break;
            }
            _ => steps.push(t),
        }
    }
    let sizes: Vec<usize> = steps.iter().map(|s| s.total_size()).collect();
    let (lo, hi) = (sizes[0], *sizes.iter().max().unwrap());
    let limit = match g.below(4) {
        0 => g.size(0, lo),
        1 => hi * g.size(1, 4) + g.size(0, 3),
        _ => g.size(lo, hi.max(lo)),
    };
    g.add_input(format!("{} iterations, node limit {} (sizes {:?})", n, limit, sizes));
    let e = real_with(&c.ts, &c.us);
    let out = Scheduler::Simple(limits(n, limit, BIG)).run(&e, &ruleset(&c.rules));
    // canonical nodes: a lower bound for the size that counts
    let canon: Vec<usize> = steps.iter().map(|s| s.total_number_of_nodes()).collect();
    if limit < canon[0] {
        g.label("limit exceeded at the start");
        g.nontrivial_if(sizes.len() > 1);
        return same_graph(&c, &steps[0], &out);
    }
    // a round surely completes when even with all its matches applied, and nothing shared, the limit
    // holds (the size within a round depends on the order of the matches)
    let op_nodes = |t: &T| subterms(std::slice::from_ref(t)).len();
    let sure = |s: &EG<Tb>| -> bool {
        let add: usize = rw
            .iter()
            .zip(&c.rules)
            .map(|(w, (_, r))| w.search(s).iter().map(|m| m.substs.len()).sum::<usize>() * op_nodes(r))
            .sum();
        s.total_size() + add <= limit
    };
    // (the last step is the result of a round, or saturated: no round starts from it)
    let done = steps[..steps.len() - 1].iter().take_while(|s| sure(s)).count();
    if done == steps.len() - 1 {
        g.label("limit not reached");
        return same_graph(&c, steps.last().unwrap(), &out);
    }
    let t = &steps[done];
    g.label_if(hi > limit, "limit reached");
    g.nontrivial_if(hi > limit);
    // the full rounds before the limit took effect; what comes after the first size beyond it is too far
    let j = canon.iter().position(|s| *s > limit).unwrap_or(steps.len() - 1);
    let part = |t: &EG<Tb>| partition(c.subs.iter().map(|x| oracle::find(t, x))).unwrap();
    let pr = partition(c.subs.iter().map(|x| real_find(&out, x))).unwrap();
    if let Some((x, y)) = not_coarser(&pr, &part(&steps[j])) {
        fail!("{} = {} needs more rounds than the limit allows", c.subs[x], c.subs[y]);
    }
    if let Some((x, y)) = not_coarser(&part(t), &pr) {
        fail!("{} = {} is missing: it follows within the limit", c.subs[x], c.subs[y]);
    }
    Ok(())
}

/// Under a node limit the saturating strategy still saturates; only the single rounds are cut.
fn saturating_limit(g: &mut G) -> R {
    let c = case(g, 4);
    let n = g.size(1, 3);
    let mut steps = vec![];
    for r in 0..=n {
        let (t, ok) = oracle::run_saturating(trusted_with(&c.ts, &c.us), &c.rules, r, 3000);
        if !ok {
            return Err(Stop::Discard);
        }
        steps.push(t);
    }
    let canon: Vec<usize> = steps.iter().map(|s| s.total_number_of_nodes()).collect();
    let (lo, hi) = (canon[0], *canon.iter().max().unwrap());
    let limit = match g.below(4) {
        0 | 1 => g.size(0, lo),
        2 => hi * g.size(1, 4) + g.size(0, 3),
        _ => g.size(lo, hi.max(lo)),
    };
    g.add_input(format!("{} rounds, node limit {} (sizes {:?})", n, limit, canon));
    let out = go(g, Scheduler::Saturating(limits(n, limit, BIG)), &c);
    let start = trusted_with(&c.ts, &c.us);
    let sat_matters = start.number_of_classes() != steps[0].number_of_classes() || start.total_number_of_nodes() != canon[0];
    if limit < canon[0] {
        // no round of the others takes place
        g.label("no round");
        g.nontrivial_if(sat_matters && n > 0);
        return same_graph(&c, &steps[0], &out);
    }
    let others: Vec<(T, T)> = c.rules.iter().filter(|(l, r)| !oracle::saturating(l, r)).cloned().collect();
    let rw = rewrites(&others);
    let op_nodes = |t: &T| subterms(std::slice::from_ref(t)).len();
    let sure = |s: &EG<Tb>| -> bool {
        let add: usize = rw
            .iter()
            .zip(&others)
            .map(|(w, (_, r))| w.search(s).iter().map(|m| m.substs.len()).sum::<usize>() * op_nodes(r))
            .sum();
        s.total_size() + add <= limit
    };
    let done = steps[..n].iter().take_while(|s| sure(s)).count();
    if done == n {
        g.label("limit not reached");
        return same_graph(&c, &steps[n], &out);
    }
    g.nontrivial_if(hi > limit);
    let j = canon.iter().position(|s| *s > limit).unwrap_or(n);
    let part = |t: &EG<Tb>| partition(c.subs.iter().map(|x| oracle::find(t, x))).unwrap();
    let pr = partition(c.subs.iter().map(|x| real_find(&out, x))).unwrap();
    if let Some((x, y)) = not_coarser(&pr, &part(&steps[j])) {
        fail!("{} = {} needs more rounds than the limit allows", c.subs[x], c.subs[y]);
    }
    if let Some((x, y)) = not_coarser(&part(&steps[done]), &pr) {
        fail!("{} = {} is missing: it follows within the limit", c.subs[x], c.subs[y]);
    }
    Ok(())
}

/// A run that takes a few minutes is not cut short: only the configured limits count.
fn slow(g: &mut G) -> R {
    let c = case(g, 4);
    let n = if c.deep { g.size(1, 90) } else if g.chance(30) { g.size(4, 9) } else { g.size(1, 4) };
    let ms = *g.pick(&[20, 100, 300, 1000, 3000]);
    let lim = limits(n, BIG, BIG);
    let (s, t) = if g.bool() {
        let (t, end) = oracle::run(trusted_with(&c.ts, &c.us), &rewrites(&c.rules), n, 3000);
        if matches!(end, End::TooBig) {
            return Err(Stop::Discard);
        }
        (Scheduler::Simple(lim), t)
    } else {
        let (t, ok) = oracle::run_saturating(trusted_with(&c.ts, &c.us), &c.rules, n, 3000);
        if !ok {
            return Err(Stop::Discard);
        }
        (Scheduler::Saturating(lim), t)
    };
    g.add_input(format!("{:?}, every look at the clock takes {} ms", s, ms));
    let (e, rs) = (real_with(&c.ts, &c.us), ruleset(&c.rules));
    let derive = g.chance(25);
    let (r, secs) = clock::slow(ms, || if derive { s.run_derive(&e, &rs, &no_goal()) } else { s.run(&e, &rs) });
    if secs > 300.0 {
        return Err(Stop::Discard);
    }
    g.add_input(format!("{} s", secs));
    g.label_if(secs > 30.0, "over half a minute");
    g.nontrivial_if(secs > 5.0);
    same_graph(&c, &t, &r)
}

fn main() {
    vharness::engine::main(Prop {
        id: "C10",
        rule: "simple, saturating: arbitrary rules and e-graphs, 0-4 iterations, no other limit; partition of all subterms and the numbers of classes and nodes equal those of a reference schedule of plain egg. goals: the derivation entry point stops early only when its goal holds and reaches exactly the goals the full schedule reaches. classify: is_saturating against its definition (with constant folding: no class is added). match_limit: independent matches, exactly min(limit, n) are rewritten in an iteration. Some cases contain a term of up to 80 levels that collapses by one level per round. node_limit, saturating_limit: no step beyond the limit, none missing below it, saturation is not cut. slow: as simple and saturating, but every look at the clock takes 20 ms to 3 s; a run of up to five simulated minutes is complete. Non-trivial: rules apply, both groups present, more matches than the limit, limit reached.",
        assumptions: &["egg itself is trusted"],
        subs: vec![
            Sub { name: "simple", quick: 60_000, thorough: 1_000_000, f: simple },
            Sub { name: "saturating", quick: 60_000, thorough: 1_000_000, f: saturating_runs },
            Sub { name: "saturating_limit", quick: 40_000, thorough: 800_000, f: saturating_limit },
            Sub { name: "slow", quick: 25_000, thorough: 400_000, f: slow },
            Sub { name: "goals", quick: 50_000, thorough: 1_000_000, f: goals },
            Sub { name: "classify", quick: 150_000, thorough: 2_000_000, f: classify },
            Sub { name: "match_limit", quick: 40_000, thorough: 800_000, f: match_limit },
            Sub { name: "node_limit", quick: 50_000, thorough: 1_000_000, f: node_limit },
        ],
        init: tb::init,
    })
}
