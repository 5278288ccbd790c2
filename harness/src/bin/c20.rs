//! C20: class analysis data stay consistent under any rewriting.
use egg::{CostFunction, Language};
use std::collections::BTreeMap;
use vharness::engine::*;
use vharness::oracle::*;
use vharness::scen::*;
use vharness::sx::*;
use vharness::tb::{self, *};
use vharness::{ensure, fail};

type Range = (Option<u8>, Option<u8>);

fn inside(a: Range, b: Range) -> bool {
    let low = match (a.0, b.0) {
        (_, None) => true,
        (Some(x), Some(y)) => x >= y,
        (None, Some(_)) => false,
    };
    let high = match (a.1, b.1) {
        (_, None) => true,
        (Some(x), Some(y)) => x <= y,
        (None, Some(_)) => false,
    };
    low && high
}
/// The domain's interval of an operation, from the intervals of its arguments.
fn op_range(al: &Alg, op: &str, rs: &[Range]) -> Range {
    if al.interval < 2 {
        return (None, None);
    }
    let b: Vec<(u8, u8)> = rs.iter().map(|(x, y)| (x.unwrap_or(0), y.unwrap_or(al.k - 1))).collect();
    let mut vals = vec![];
    match b.len() {
        1 => (b[0].0..=b[0].1).for_each(|x| vals.push(al.un(UN.iter().position(|o| *o == op).unwrap(), x))),
        2 => (b[0].0..=b[0].1).for_each(|x| {
            (b[1].0..=b[1].1).for_each(|y| vals.push(al.bi(BI.iter().position(|o| *o == op).unwrap(), x, y)))
        }),
        _ => (b[0].0..=b[0].1)
            .for_each(|x| (b[1].0..=b[1].1).for_each(|y| (b[2].0..=b[2].1).for_each(|z| vals.push(al.te(x, y, z))))),
    }
    let vals: Vec<u8> = vals.into_iter().flatten().collect();
    (vals.iter().min().copied(), vals.iter().max().copied())
}
fn term_range(al: &Alg, t: &T) -> Range {
    match t {
        T::A(s) => match s.parse::<u8>() {
            Ok(v) if al.interval > 0 => (Some(v % al.k), Some(v % al.k)),
            _ => (None, None),
        },
        T::L(xs) => {
            let rs: Vec<Range> = xs[1..].iter().map(|x| term_range(al, x)).collect();
            op_range(al, &xs[0].to_string(), &rs)
        }
    }
}

struct Model {
    al: &'static Alg,
    vars: Vec<String>,
    /// every expression ever inserted, with all its parts
    terms: Vec<T>,
}

fn check(m: &Model, e: &Real, when: &str) -> R {
    let al = m.al;
    let len = al.samples.len().pow(m.vars.len() as u32);
    let folding = al.interval > 0;
    if !al.samples.is_empty() {
        ensure!(e.analysis.cvec_len == len, "{}: vectors have {} positions, expected {}", when, e.analysis.cvec_len, len);
    }
    let ok = |n: &Tb| match n {
        Tb::Num(_) => al.allowed[NOPS - 1],
        Tb::Var(_) => true,
        Tb::Un(i, _) => al.allowed[*i as usize],
        Tb::Bi(i, _) => al.allowed[UN.len() + *i as usize],
        Tb::Te(_) => al.allowed[UN.len() + BI.len()],
    };
    // sizes of the smallest extractable members
    let mut cost: BTreeMap<egg::Id, usize> = BTreeMap::new();
    loop {
        let mut changed = false;
        for c in e.classes() {
            for n in &c.nodes {
                let k = n.children().iter().try_fold(1usize, |s, i| cost.get(&e.find(*i)).map(|k| s + k));
                if let (true, Some(k)) = (ok(n), k) {
                    if cost.get(&c.id).map_or(true, |o| k < *o) {
                        cost.insert(c.id, k);
                        changed = true;
                    }
                }
            }
        }
        if !changed {
            break;
        }
    }
    // the variables' columns
    let mut cols: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    if !al.samples.is_empty() {
        for v in &m.vars {
            let id = match real_find(e, &a(v)) {
                Some(i) => i,
                None => fail!("{}: variable {} is gone", when, v),
            };
            let col: Option<Vec<u8>> = e[id].data.cvec.iter().map(|x| x.map(|x| x.0)).collect();
            match col {
                Some(c) if c.len() == len => cols.insert(v.clone(), c),
                _ => fail!("{}: variable {} has the vector {:?}", when, v, e[id].data.cvec),
            };
        }
    }
    for t in &m.terms {
        let id = match real_find(e, t) {
            Some(i) => i,
            None => fail!("{}: {} is no longer represented", when, t),
        };
        let d = &e[id].data;
        if !al.samples.is_empty() {
            ensure!(d.cvec.len() == len, "{}: the class of {} has {} values", when, t, d.cvec.len());
            for i in 0..len {
                let want = al.eval(t, &|v| Some(cols[v][i]));
                let got = d.cvec[i].map(|v| v.0);
                ensure!(want.is_none() || want == got, "{}: value {} of the class of {} is {:?}, the term gives {:?}", when, i, t, got, want);
            }
        }
        let r = (d.interval.low.map(|v| v.0), d.interval.high.map(|v| v.0));
        let tr = term_range(al, t);
        ensure!(inside(r, tr), "{}: the class of {} has interval {:?}, wider than {:?} of the term", when, t, r, tr);
    }
    for c in e.classes() {
        let d = &c.data;
        // values: exactly what some member evaluates to
        if !al.samples.is_empty() {
            ensure!(d.cvec.len() == len, "{}: class {} has {} values", when, c.id, d.cvec.len());
            for i in 0..len {
                let mut want: Option<u8> = None;
                for n in &c.nodes {
                    let ch: Option<Vec<u8>> = n.children().iter().map(|x| e[*x].data.cvec[i].map(|v| v.0)).collect();
                    let v = ch.and_then(|ch| match n {
                        Tb::Num(v) => Some(v.0 % al.k),
                        Tb::Var(s) => cols.get(&s.to_string()).map(|c| c[i]),
                        Tb::Un(o, _) => al.un(*o as usize, ch[0]),
                        Tb::Bi(o, _) => al.bi(*o as usize, ch[0], ch[1]),
                        Tb::Te(_) => al.te(ch[0], ch[1], ch[2]),
                    });
                    if let Some(v) = v {
                        ensure!(want.is_none() || want == Some(v), "{}: members of class {} differ at position {}", when, c.id, i);
                        want = Some(v);
                    }
                }
                ensure!(
                    d.cvec[i].map(|v| v.0) == want,
                    "{}: class {} ({}) has value {:?} at position {}, its members give {:?}",
                    when,
                    c.id,
                    d.simplest,
                    d.cvec[i],
                    i,
                    want
                );
            }
        }
        // the simplest term
        let s = expr_t(&d.simplest);
        let id = real_find(e, &s);
        ensure!(id == Some(e.find(c.id)), "{}: {} is recorded as simplest of a class it is no member of", when, s);
        let size = ruler::ExtractableAstSize.cost_rec(&d.simplest);
        match cost.get(&c.id) {
            Some(k) => ensure!(size == *k, "{}: {} is recorded as simplest (size {}), the class has a member of size {}", when, s, size, k),
            None => ensure!(size == usize::MAX, "{}: {} has size {} but the class has no allowed member", when, s, size),
        }
        // intervals
        let r = (d.interval.low.map(|v| v.0), d.interval.high.map(|v| v.0));
        for n in &c.nodes {
            let nr = match n {
                Tb::Num(v) if folding => (Some(v.0 % al.k), Some(v.0 % al.k)),
                Tb::Num(_) | Tb::Var(_) => (None, None),
                n => {
                    let rs: Vec<Range> = n
                        .children()
                        .iter()
                        .map(|x| {
                            let i = &e[*x].data.interval;
                            (i.low.map(|v| v.0), i.high.map(|v| v.0))
                        })
                        .collect();
                    op_range(al, &n.to_string(), &rs)
                }
            };
            ensure!(inside(r, nr), "{}: the class of {} has interval {:?}, wider than {:?} of member {:?}", when, s, r, nr, n);
        }
        for v in d.cvec.iter().flatten() {
            ensure!(
                inside((Some(v.0), Some(v.0)), r),
                "{}: {} takes the value {} outside of its interval {:?}",
                when,
                s,
                v,
                r
            );
        }
        if let (Some(x), Some(y)) = r {
            if x == y {
                ensure!(
                    c.nodes.iter().any(|n| matches!(n, Tb::Num(v) if v.0 == x)),
                    "{}: {} can only be {} but its class does not contain that constant",
                    when,
                    s,
                    x
                );
            }
        }
    }
    Ok(())
}

fn history(g: &mut G) -> R {
    any_history(g, false)
}
/// Total functions with full intervals, where what one class learns matters to the classes above it.
fn intervals(g: &mut G) -> R {
    any_history(g, true)
}
fn any_history(g: &mut G, intervals: bool) -> R {
    let kind = if intervals { 5 } else { g.below(10) };
    let partial = kind < 4;
    // a total algebra of which the domain knows a part: terms that are equal in the whole are merged,
    // so that a class gains values from members that are defined in different places
    let extended = kind >= 7;
    let mut al = gen_alg(g, 4, partial);
    let whole: &'static Alg = Box::leak(Box::new(al.clone()));
    if extended {
        let pct = *g.pick(&[10u64, 30, 60]);
        al.un.iter_mut().for_each(|t| undefine(g, t, pct));
        al.bi.iter_mut().for_each(|t| undefine(g, t, pct));
        undefine(g, &mut al.te, pct);
    }
    al.interval = if intervals { 2 } else { g.below(3) as u8 };
    if intervals && g.chance(70) {
        // images of a part of the values only, so that intervals are neither full nor points
        let top = al.k - 1;
        let cut = |g: &mut G, t: &mut Vec<Option<u8>>| {
            if g.bool() {
                let (lo, hi) = if g.bool() { (0, top.saturating_sub(1)) } else { (1.min(top), top) };
                t.iter_mut().for_each(|v| *v = v.map(|v| v.clamp(lo, hi)));
            }
        };
        al.un.iter_mut().for_each(|t| cut(g, t));
        al.bi.iter_mut().for_each(|t| cut(g, t));
        cut(g, &mut al.te);
    }
    if al.interval == 2 && !al.total() {
        // an interval says nothing about where a term is defined: folding would extend partial functions
        al.interval = 1;
    }
    if g.chance(30) {
        for i in 0..NOPS {
            al.allowed[i] = g.chance(60);
        }
    }
    match if intervals { g.below(2) } else { g.below(4) } {
        0 => al.samples = vec![],
        1 => {
            let n = g.size(1, al.k as usize);
            g.shuffle(&mut al.samples);
            al.samples.truncate(n);
        }
        _ => {}
    }
    let nv = g.size(1, if al.k > 3 { 2 } else { 3 });
    let al = set_alg(al);
    let vars: Vec<&str> = VARS[..nv].to_vec();
    let names: Vec<String> = vars.iter().map(|v| v.to_string()).collect();
    let vals = al.all_vals();
    let whole = if extended { whole } else { al };
    let rules = if intervals { vec![] } else { gen_valid_rules(g, whole, 4) };
    let mut log = vec![];
    let mut start: Vec<T> = vars.iter().map(|v| a(v)).collect();
    for _ in 0..g.size(0, 4) {
        start.push(gen_term(g, &vars, al.k, 2));
    }
    g.input(format!("{} | start {} | rules {}", al.describe(), show(&start), rules_text(&rules)));
    let mut e: Real = real_egraph(&start);
    let mut m = Model { al, vars: names.clone(), terms: subterms(&start) };
    if al.samples.is_empty() {
        e.analysis.cvec_len = 0;
    }
    e.rebuild();
    check(&m, &e, "at the start")?;
    let steps = if intervals {
        g.size(2, 14)
    } else if g.chance(3) { g.size(8, 40) } else { g.size(1, 8) };
    let mut dirty = false;
    let (mut merged, mut ran) = (0, 0);
    for step in 0..steps {
        match g.weighted(&[4, 5, 2, 2]) {
            0 => {
                let t = if g.bool() && !rules.is_empty() {
                    instances(g, &rules, al.k, 1).remove(0)
                } else if intervals && g.chance(70) {
                    // on top of what is there
                    let part = |g: &mut G| g.pick(&m.terms).clone();
                    match g.below(3) {
                        0 => T::L(vec![a(*g.pick(&UN)), part(g)]),
                        1 => T::L(vec![a(*g.pick(&BI)), part(g), part(g)]),
                        _ => T::L(vec![a("if"), part(g), part(g), part(g)]),
                    }
                } else {
                    gen_term(g, &vars, al.k, 3)
                };
                if t.atoms() > 60 {
                    continue;
                }
                // instances use the first two variables
                if !vars_of(&[&t]).iter().all(|v| names.contains(v)) {
                    continue;
                }
                log.push(format!("add {}", t));
                e.add_expr(&tb::expr::<Tb>(&t));
                for s in subterms(&[t]) {
                    if !m.terms.contains(&s) {
                        m.terms.push(s);
                    }
                }
            }
            1 => {
                // merge terms that are the same function
                let x = g.pick(&m.terms).clone();
                let f = whole.table(&x, &names, &vals);
                let same: Vec<&T> = m.terms.iter().filter(|t| **t != x && whole.table(t, &names, &vals) == f).collect();
                if same.is_empty() {
                    continue;
                }
                let y = (*g.pick(&same)).clone();
                log.push(format!("merge {} {}", x, y));
                g.label_if(al.table(&x, &names, &vals) != al.table(&y, &names, &vals), "values of several members");
                let (i, j) = (e.lookup_expr(&tb::expr::<Tb>(&x)), e.lookup_expr(&tb::expr::<Tb>(&y)));
                let (i, j) = match (i, j) {
                    (Some(i), Some(j)) => (i, j),
                    // a lookup may fail between merges and the next rebuild
                    _ if dirty => {
                        e.rebuild();
                        (real_find(&e, &x).unwrap(), real_find(&e, &y).unwrap())
                    }
                    _ => fail!("{} or {} is not represented", x, y),
                };
                if e.union(i, j) {
                    merged += 1;
                }
            }
            2 => {
                log.push("rebuild".into());
                e.rebuild();
                dirty = false;
                g.add_input(log.last().unwrap());
                check(&m, &e, &format!("after step {}", step))?;
                continue;
            }
            _ => {
                if rules.is_empty() {
                    continue;
                }
                e.rebuild();
                dirty = false;
                let s = {
                    let n = g.size(1, 2);
                    strategy(g, limits(n, BIG, 2000))
                };
                log.push(format!("run {:?}", s));
                g.add_input(log.last().unwrap());
                if e.total_size() > 150 {
                    continue;
                }
                let before = e.number_of_classes();
                e = s.run(&e, &ruleset(&rules));
                ran += 1;
                if e.number_of_classes() != before {
                    g.label("rules changed the classes");
                }
                if e.total_size() > 3000 {
                    return Err(Stop::Discard);
                }
                check(&m, &e, &format!("after step {} ({})", step, strategy_name(&s)))?;
                continue;
            }
        }
        g.add_input(log.last().unwrap());
        dirty = true;
        if g.chance(40) {
            e.rebuild();
            dirty = false;
            check(&m, &e, &format!("after step {}", step))?;
        }
    }
    e.rebuild();
    check(&m, &e, "at the end")?;
    g.label_if(merged > 0, "merged");
    g.label_if(ran > 0, "rules run");
    g.label_if(al.interval == 2, "full intervals");
    g.label_if(al.allowed.iter().any(|x| !x), "operators disallowed");
    g.label_if(al.samples.is_empty(), "no vectors");
    g.label_if(!al.total(), "partial");
    g.label_if(extended, "merged by a total extension");
    g.nontrivial_if(merged > 0 || ran > 0);
    Ok(())
}

fn main() {
    vharness::engine::main(Prop {
        id: "C20",
        rule: "Histories of up to 8, rarely 40, steps over a random finite algebra (2-4 values, total or partial, no / literal / (total algebras) full intervals, some operators disallowed, full, partial or no sampling): insert a term, merge two terms that are the same function, rebuild, run valid rules with any strategy. intervals: up to 14 such steps without rules, with full intervals, operators of partial range and terms built on top of those that are there. After every rebuild every class is checked: vector = the join of its members' values at the variables' own assignment and of every term ever inserted, simplest term a member of least size under ExtractableAstSize, interval within that of every member, point intervals contain their constant. Non-trivial: something was merged or rules were run.",
        assumptions: &["classes without an extractable member may record any member as simplest", "the analysis data are judged after a rebuild, when egg promises them"],
        subs: vec![Sub { name: "history", quick: 150_000, thorough: 4_000_000, f: history }, Sub { name: "intervals", quick: 120_000, thorough: 3_000_000, f: intervals }],
        init: tb::init,
    })
}
