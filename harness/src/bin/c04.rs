//! C04: every workload term is in the e-graph with its true value vector.
use ruler::enumo::{Filter, Metric, Workload};
use std::collections::BTreeSet;
use vharness::engine::*;
use vharness::oracle::*;
use vharness::sx::*;
use vharness::tb::{self, *};
use vharness::{ensure, fail};

/// A workload whose terms are `ts`, assembled in various ways.
fn assemble(g: &mut G, ts: &[T]) -> Workload {
    let set = |ts: &[T]| Workload::Set(ts.iter().map(|t| t.to_sexp()).collect());
    match g.below(4) {
        0 => set(ts),
        1 => {
            let cut = g.size(0, ts.len());
            set(&ts[..cut]).append(set(&ts[cut..]))
        }
        2 => Workload::new(["HOLE"]).plug("HOLE", &set(ts)),
        _ => Workload::Filter(Filter::MetricLt(Metric::Atoms, 1000), Box::new(set(ts))),
    }
}

/// Assignments read off the variables' own vectors must be exactly all combinations of the samples.
fn rows_of(
    e: &ruler::EGraph<Tb, ruler::SynthAnalysis>,
    vars: &[String],
    samples: &[u8],
) -> Result<Vec<Vec<u8>>, String> {
    let n = samples.len().pow(vars.len() as u32);
    if e.analysis.cvec_len != n {
        return Err(format!("vector length {} instead of {}", e.analysis.cvec_len, n));
    }
    let mut rows = vec![vec![]; n];
    for v in vars {
        let id = match real_find(e, &a(v)) {
            Some(i) => i,
            None => return Err(format!("variable {} is missing", v)),
        };
        let c = &e[id].data.cvec;
        if c.len() != n {
            return Err(format!("variable {} has a vector of length {} instead of {}", v, c.len(), n));
        }
        for (r, x) in rows.iter_mut().zip(c) {
            match x {
                Some(x) => r.push(x.0),
                None => return Err(format!("variable {} has an undefined entry", v)),
            }
        }
    }
    let distinct: BTreeSet<&Vec<u8>> = rows.iter().collect();
    if distinct.len() != n {
        return Err(format!("only {} of {} assignments are sampled", distinct.len(), n));
    }
    if rows.iter().any(|r| r.iter().any(|v| !samples.contains(v))) {
        return Err("a value that is no sample".to_string());
    }
    Ok(rows)
}

fn values(g: &mut G) -> R {
    let partial = g.chance(50);
    let mut al = gen_alg(g, 4, partial);
    let nv = g.tail(0, 4, 6, 1);
    let names = {
        let mut v: Vec<&str> = if g.chance(70) { VARS.to_vec() } else { ["x", "X", "xx", "y", "Y", "x1", "x'", "yx", "_x"].to_vec() };
        g.shuffle(&mut v);
        v.truncate(nv);
        v
    };
    // some of the values as samples, in any order
    let mut s = al.all_vals();
    g.shuffle(&mut s);
    let hi = if nv >= 4 { s.len().min(if nv > 4 { 2 } else { 3 }) } else { s.len() };
    let m = g.size(1, hi);
    s.truncate(m);
    al.samples = s;
    if al.total() && g.chance(40) {
        al.interval = g.size(1, 2) as u8;
    }
    let al = set_alg(al);
    let n = if g.chance(4) { g.size(6, 30) } else { g.size(1, 6) };
    let mut ts = vec![];
    for _ in 0..n {
        let d = g.size(0, 3);
        ts.push(gen_term(g, &names, al.k, d));
    }
    if g.chance(20) {
        ts.push(ts[0].clone());
    }
    g.input(format!("{} | {}", al.describe(), show(&ts)));
    let vars = vars_of(&ts.iter().collect::<Vec<_>>());
    g.label(match vars.len() {
        0 => "no variable",
        1 => "1 variable",
        2 => "2 variables",
        3 => "3 variables",
        4 => "4 variables",
        _ => "5 or 6 variables",
    });
    g.label_if(!al.total(), "partial operators");
    g.label_if(al.interval > 0, "constant folding");
    let w = assemble(g, &ts);
    let mut e = w.to_egraph::<Tb>();
    // folding queues merges that take effect on rebuilding; without folding there is nothing to rebuild
    e.rebuild();
    let subs = subterms(&ts);
    g.nontrivial_if(!vars.is_empty() && subs.len() > vars.len());
    let rows = match rows_of(&e, &vars, &al.samples) {
        Ok(r) => r,
        Err(m) => fail!("{} | {}: {}", al.describe(), show(&ts), m),
    };
    let ids: Vec<_> = subs.iter().map(|t| real_find(&e, t)).collect();
    for (t, id) in subs.iter().zip(&ids) {
        let id = match id {
            Some(i) => i,
            None => fail!("{} is not in the e-graph of {}", t, show(&ts)),
        };
        let want: Vec<Option<u8>> = rows
            .iter()
            .map(|r| al.eval(t, &|v| vars.iter().position(|x| x == v).map(|i| r[i])))
            .collect();
        let got: Vec<Option<u8>> = e[*id].data.cvec.iter().map(|v| v.map(|v| v.0)).collect();
        ensure!(want == got, "{}: {} has the values {:?}, its class has {:?} (rows {:?})", al.describe(), t, want, got, rows);
    }
    let p = partition(ids).unwrap();
    if al.interval == 0 {
        ensure!(p.len() == subs.len(), "different terms in one class: {}", show_partition(&subs, &p));
        let all: BTreeSet<String> = subs.iter().map(|t| t.to_string()).collect();
        ensure!(
            e.number_of_classes() == all.len(),
            "{} classes for {} distinct subterms of {}",
            e.number_of_classes(),
            all.len(),
            show(&ts)
        );
    } else {
        // merged terms are equal at every input, and at least one is a literal or folds to one
        for b in &p {
            for w in b.windows(2) {
                ensure!(al.same(&subs[w[0]], &subs[w[1]]), "{} and {} are merged but differ", subs[w[0]], subs[w[1]]);
            }
        }
    }
    // every class is a subterm, a variable, or (with folding) contains a literal
    for c in e.classes() {
        let mine = subs.iter().any(|t| real_find(&e, t) == Some(c.id));
        let lit = al.interval > 0 && c.nodes.iter().any(|n| matches!(n, Tb::Num(_)));
        ensure!(mine || lit, "class {:?} is no subterm of {}", c, show(&ts));
    }
    Ok(())
}

/// The cross product itself.
fn product(g: &mut G) -> R {
    let n = g.tail(0, 5, 9, 5);
    let m = g.size(1, if n >= 6 { 2 } else if n >= 4 { 4 } else { 7 });
    let mut ts: Vec<u32> = (10..10 + m as u32).collect();
    g.shuffle(&mut ts);
    g.input(format!("{:?} ^ {}", ts, n));
    g.nontrivial_if(n >= 2 && m >= 2);
    let p = ruler::self_product(&ts, n);
    ensure!(p.len() == n, "{} rows instead of {}", p.len(), n);
    if n == 0 {
        return Ok(());
    }
    let len = m.pow(n as u32);
    for r in &p {
        ensure!(r.len() == len, "row of length {} instead of {}", r.len(), len);
    }
    let cols: BTreeSet<Vec<u32>> = (0..len).map(|i| p.iter().map(|r| r[i]).collect()).collect();
    ensure!(cols.len() == len, "{} of {} combinations occur in {:?}", cols.len(), len, p);
    ensure!(cols.iter().all(|c| c.iter().all(|x| ts.contains(x))), "foreign value");
    Ok(())
}

/// The pointwise evaluation macro: a result is undefined where an argument is, and only there or
/// where the operation says so.
fn pointwise(g: &mut G) -> R {
    use ruler::map;
    let n = g.size(0, 6);
    let mut col = |_: usize| -> Vec<Option<u8>> { (0..n).map(|_| if g.chance(30) { None } else { Some(g.below(5) as u8) }).collect() };
    let cs = [col(0), col(1), col(2)];
    g.input(format!("{:?}", cs));
    g.nontrivial_if(n > 0);
    let f1 = |x: u8| if x == 3 { None } else { Some(x as u32 * 7 + 1) };
    let f2 = |x: u8, y: u8| if y == 0 { None } else { Some(x as u32 * 100 + y as u32) };
    let f3 = |x: u8, y: u8, z: u8| if z == 2 { None } else { Some(x as u32 * 100 + y as u32 * 10 + z as u32) };
    let get = |i: &usize| &cs[*i];
    let (i, j, k) = (&0usize, &1usize, &2usize);
    let r1: Vec<Option<u32>> = map!(get, i => f1(*i));
    let r2: Vec<Option<u32>> = map!(get, i, j => f2(*i, *j));
    let r3: Vec<Option<u32>> = map!(get, i, j, k => f3(*i, *j, *k));
    let w1: Vec<Option<u32>> = (0..n).map(|t| cs[0][t].and_then(f1)).collect();
    let w2: Vec<Option<u32>> = (0..n).map(|t| cs[0][t].and_then(|x| cs[1][t].and_then(|y| f2(x, y)))).collect();
    let w3: Vec<Option<u32>> =
        (0..n).map(|t| cs[0][t].and_then(|x| cs[1][t].and_then(|y| cs[2][t].and_then(|z| f3(x, y, z))))).collect();
    ensure!(r1 == w1, "unary: {:?} instead of {:?}", r1, w1);
    ensure!(r2 == w2, "binary: {:?} instead of {:?}", r2, w2);
    ensure!(r3 == w3, "ternary: {:?} instead of {:?}", r3, w3);
    Ok(())
}

fn main() {
    vharness::engine::main(Prop {
        id: "C04",
        rule: "random finite algebras (total and partial, with and without constant folding), 0-4 variables, 1-4 samples per variable, up to 7 terms, in workloads assembled from sets, appends, plugs and filters; the rows are read off the variables' vectors, must be every combination once, and every subterm's vector is compared with reference evaluation. Also the cross product and the pointwise macro on their own. Non-trivial: at least one variable and one operator (cross product: at least 2 samples and 2 variables).",
        assumptions: &["sample values are distinct", "the test domain's variable initialisation is that of the shipped domains (self_product)"],
        subs: vec![
            Sub { name: "values", quick: 600_000, thorough: 12_000_000, f: values },
            Sub { name: "product", quick: 3_000, thorough: 20_000, f: product },
            Sub { name: "pointwise", quick: 100_000, thorough: 1_000_000, f: pointwise },
        ],
        init: tb::init,
    })
}
