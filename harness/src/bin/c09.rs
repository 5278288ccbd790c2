//! C09: compressing merges what saturation would, and never grows the e-graph.
use egg::Language;
use ruler::enumo::Scheduler;
use std::collections::{BTreeMap, HashSet};
use vharness::engine::*;
use vharness::oracle::{self, *};
use vharness::scen::*;
use vharness::sx::*;
use vharness::tb::{self, *};
use vharness::{ensure, fail};

fn compare(g: &mut G, e: &Real, subs: &[T], rules: &[(T, T)], lim: ruler::Limits, folding: bool) -> Result<Real, Stop> {
    let rs = ruleset(rules);
    let before = digest(e);
    let simple = Scheduler::Simple(lim).run(e, &rs);
    let comp = Scheduler::Compress(lim).run(e, &rs);
    ensure!(digest(e) == before, "the given e-graph changed");
    let ids: Vec<egg::Id> = e.classes().map(|c| c.id).collect();
    let name = |id: egg::Id| {
        subs.iter().find(|t| real_find(e, t) == Some(id)).map_or(format!("class {}", id), |t| t.to_string())
    };
    for (i, x) in ids.iter().enumerate() {
        for y in &ids[i + 1..] {
            let (a, b) = (simple.find(*x) == simple.find(*y), comp.find(*x) == comp.find(*y));
            if a != b {
                fail!(
                    "{} and {} are {} by running the rules but {} by compressing",
                    name(*x),
                    name(*y),
                    if a { "equated" } else { "not equated" },
                    if b { "equated" } else { "not equated" }
                );
            }
        }
    }
    let blocks: HashSet<egg::Id> = ids.iter().map(|i| comp.find(*i)).collect();
    ensure!(
        comp.number_of_classes() == blocks.len(),
        "{} classes after compressing, but the original classes account for {}",
        comp.number_of_classes(),
        blocks.len()
    );
    ensure!(comp.number_of_classes() <= e.number_of_classes(), "the number of classes grew");
    // every node is an original one
    let canon = |n: &Tb| n.clone().map_children(|c| comp.find(c));
    let mut orig: BTreeMap<Tb, egg::Id> = BTreeMap::new();
    for c in e.classes() {
        for n in &c.nodes {
            let id = comp.find(c.id);
            if let Some(o) = orig.insert(canon(n), id) {
                ensure!(o == id, "equal expressions are in different classes after compressing");
            }
        }
    }
    let mut nodes = HashSet::new();
    for c in comp.classes() {
        for n in &c.nodes {
            let n = canon(n);
            match orig.get(&n) {
                Some(o) => ensure!(*o == c.id, "an expression moved to a class it was not merged with"),
                None => ensure!(folding && n.is_leaf(), "a new expression with root {} appeared", n),
            }
            nodes.insert(n);
        }
    }
    for n in orig.keys() {
        ensure!(nodes.contains(n), "an expression with root {} is gone", n);
    }
    for t in subs {
        ensure!(real_find(&comp, t).is_some(), "{} is no longer represented", t);
    }
    g.nontrivial_if(comp.number_of_classes() < e.number_of_classes());
    g.label_if(simple.total_size() > e.total_size() + 2, "saturation adds terms");
    Ok(comp)
}

fn pick_limits(g: &mut G) -> ruler::Limits {
    limits(
        g.size(0, 3),
        if g.chance(35) { g.size(0, 40) } else { BIG },
        if g.chance(35) { g.size(1, 5) } else { BIG },
    )
}

fn free(g: &mut G) -> R {
    set_alg(blank(3));
    let mut rules = dedup_rules(gen_any_rules(g, 3, 4));
    let mut ts = instances(g, &rules, 3, 6);
    let deep = g.chance(4);
    if deep {
        rules.retain(|(l, r)| not_growing(l, r));
        rules.truncate(2);
        ts.truncate(3);
        let (rs, t) = cascade(g);
        rules = dedup_rules(rules.into_iter().chain(rs).collect());
        ts.push(t);
    }
    let subs = subterms(&ts);
    let mut us = vec![];
    for _ in 0..g.tail(0, 2, 10, 4) {
        us.push((g.pick(&subs).clone(), g.pick(&subs).clone()));
    }
    let mut lim = pick_limits(g);
    if deep {
        lim.iter = g.size(0, 90);
    }
    g.input(format!("{} | {} | {} | {:?}", rules_text(&rules), show(&ts), show_unions(&us), lim));
    let (t, end) = oracle::run(trusted_with(&ts, &us), &rewrites(&rules), lim.iter, 3000);
    if matches!(end, End::TooBig) {
        return Err(Stop::Discard);
    }
    let e = real_with(&ts, &us);
    let comp = compare(g, &e, &subs, &rules, lim, false)?;
    if lim.node == BIG && lim.match_ == BIG {
        g.label("compared with plain saturation");
        let pt = partition(subs.iter().map(|x| oracle::find(&t, x))).unwrap();
        let pc = partition(subs.iter().map(|x| real_find(&comp, x))).unwrap();
        if pt != pc {
            fail!("the rules give {} but compressing gives {}", show_partition(&subs, &pt), show_partition(&subs, &pc));
        }
    }
    Ok(())
}

fn semantic(g: &mut G) -> R {
    let partial = g.chance(40);
    let mut al = gen_alg(g, 3, partial);
    if al.total() && g.chance(40) {
        al.interval = g.size(1, 2) as u8;
    }
    let al = set_alg(al);
    let rules = dedup_rules(gen_valid_rules(g, al, 5));
    if rules.is_empty() {
        return Err(Stop::Discard);
    }
    let mut ts = instances(g, &rules, al.k, 6);
    ts.push(a("x"));
    let subs = subterms(&ts);
    let mut us = vec![];
    for _ in 0..g.tail(0, 2, 10, 4) {
        let (x, y) = (g.pick(&subs).clone(), g.pick(&subs).clone());
        if al.same(&x, &y) {
            us.push((x, y));
        }
    }
    let lim = pick_limits(g);
    g.input(format!("{} | {} | {} | {} | {:?}", al.describe(), rules_text(&rules), show(&ts), show_unions(&us), lim));
    g.label_if(!al.total(), "partial operators");
    g.label_if(al.interval > 0, "constant folding");
    let (_, end) = oracle::run(trusted_with(&ts, &us), &rewrites(&rules), lim.iter, 3000);
    if matches!(end, End::TooBig) {
        return Err(Stop::Discard);
    }
    let e = real_with(&ts, &us);
    compare(g, &e, &subs, &rules, lim, al.interval > 0)?;
    Ok(())
}

/// A random tree of one operator over the leaves, in random order.
fn tree(g: &mut G, op: &str, mut leaves: Vec<T>) -> T {
    g.shuffle(&mut leaves);
    while leaves.len() > 1 {
        let i = g.below(leaves.len() as u64 - 1) as usize;
        let (x, y) = (leaves.remove(i), leaves.remove(i));
        leaves.insert(i, l(op, vec![x, y]));
    }
    leaves.pop().unwrap()
}

/// Few terms whose saturation is very much larger than they are: sums in different order and nesting.
fn growth(g: &mut G) -> R {
    set_alg(blank(3));
    let n = g.size(4, 8);
    let mut leaves: Vec<T> = (0..n).map(|i| a(&((b'a' + i as u8) as char).to_string())).collect();
    if g.chance(30) {
        leaves[0] = leaves[1].clone();
    }
    let mut ts = vec![];
    for _ in 0..g.size(2, 3) {
        let mut ls = leaves.clone();
        if g.chance(25) {
            ls[0] = a("1");
        }
        ts.push(tree(g, "+", ls));
    }
    let p = |s: &str| T::parse(s).unwrap();
    let mut rules = vec![(p("(+ x y)"), p("(+ y x)"))];
    rules.push(if g.bool() { (p("(+ x (+ y z))"), p("(+ (+ x y) z)")) } else { (p("(+ (+ x y) z)"), p("(+ x (+ y z))")) });
    if g.chance(30) {
        rules.push((p("(+ x x)"), p("(p x)")));
    }
    let mut lim = limits(g.size(3, 9), BIG, BIG);
    if g.bool() {
        // an unbounded number of forms of which a deep one can be recognized
        let d = g.size(2, 9);
        let mut deep = a("x");
        for _ in 0..d {
            deep = l("q", vec![deep]);
        }
        rules = vec![(p("(p x)"), p("(p (q x))"))];
        for (s, t) in [("(p x)", "(p (+ x x))"), ("(p x)", "(p (* x 1))"), ("(p x)", "(p (& 0 x))")] {
            if g.chance(40) {
                rules.push((p(s), p(t)));
            }
        }
        rules.push((l("p", vec![deep]), if g.bool() { a("x") } else { p("(q (q x))") }));
        ts = vec![p("(p a)"), p("(q (q b))")];
        if g.bool() {
            ts.push(p("(q (q a))"));
        }
        if g.chance(30) {
            ts.push(p("(p (+ a b))"));
        }
        lim = limits(g.size(d.saturating_sub(2), d + 2), BIG, BIG);
    }
    g.input(format!("{} | {} | {:?}", rules_text(&rules), show(&ts), lim));
    let (t, end) = oracle::run(trusted_with(&ts, &[]), &rewrites(&rules), lim.iter, 20_000);
    if matches!(end, End::TooBig) {
        return Err(Stop::Discard);
    }
    let subs = subterms(&ts);
    let e = real_with(&ts, &[]);
    g.label_if(t.total_size() > 100 * e.total_number_of_nodes(), "grows a hundredfold");
    let comp = compare(g, &e, &subs, &rules, lim, false)?;
    let pt = partition(subs.iter().map(|x| oracle::find(&t, x))).unwrap();
    let pc = partition(subs.iter().map(|x| real_find(&comp, x))).unwrap();
    if pt != pc {
        fail!("the rules give {} but compressing gives {}", show_partition(&subs, &pt), show_partition(&subs, &pc));
    }
    Ok(())
}

fn main() {
    vharness::engine::main(Prop {
        id: "C09",
        rule: "free: arbitrary rules, terms and earlier merges; semantic: rules true in a random algebra, with value vectors, partial operators and folding; iterations 0-3, node and match limits small or unlimited. Compress is compared with Simple on a copy for every pair of original classes, its nodes with the original nodes, and (unlimited cases) its partition with plain egg saturation. Non-trivial: compressing merges something.",
        assumptions: &["egg itself is trusted"],
        subs: vec![
            Sub { name: "free", quick: 100_000, thorough: 2_000_000, f: free },
            Sub { name: "growth", quick: 400, thorough: 8_000, f: growth },
            Sub { name: "semantic", quick: 100_000, thorough: 2_000_000, f: semantic },
        ],
        init: tb::init,
    })
}
