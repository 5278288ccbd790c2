//! C01: a workload evaluates to exactly the terms its operators denote.
use ruler::enumo::Workload;
use vharness::engine::*;
use vharness::gen;
use vharness::sx::*;
use vharness::{ensure, fail};

const CAP: usize = 1500;

/// Builds the model expression and the real workload in step; `real` uses the builder methods or
/// the raw operators at random.
fn build(g: &mut G, depth: usize, stats: &mut [bool; 6]) -> (W, Workload) {
    let k = if depth == 0 { 0 } else { g.weighted(&[3, 6, 6, 4]) };
    match k {
        0 => {
            let ts = gen::terms(g, 5, 2);
            let real = if g.bool() {
                Workload::new(ts.iter().map(|t| t.to_string()))
            } else {
                Workload::Set(ts.iter().map(|t| t.to_sexp()).collect())
            };
            (W::Set(ts), real)
        }
        1 => {
            let (w, rw) = build(g, depth - 1, stats);
            let (p, rp) = if g.chance(20) { (W::Set(vec![]), Workload::empty()) } else { build(g, depth - 1, stats) };
            let name = gen::atom(g);
            let empty = matches!(&p, W::Set(v) if v.is_empty());
            let r = if g.chance(75) {
                stats[0] = true;
                if empty {
                    stats[1] = true;
                }
                rw.plug(name.clone(), &rp)
            } else {
                Workload::Plug(Box::new(rw), name.clone(), Box::new(rp))
            };
            (W::Plug(Box::new(w), name, Box::new(p)), r)
        }
        2 => {
            let (w, rw) = build(g, depth - 1, stats);
            let around = w.eval(CAP).unwrap_or_default();
            let f = gen::filter(g, 2, &around);
            let r = if g.chance(75) {
                match &rw {
                    Workload::Plug(..) => stats[2] = true,
                    Workload::Filter(..) => stats[3] = true,
                    _ => {}
                }
                rw.filter(f.to_ruler())
            } else {
                Workload::Filter(f.to_ruler(), Box::new(rw))
            };
            (W::Filter(f, Box::new(w)), r)
        }
        _ => {
            let (w, rw) = build(g, depth - 1, stats);
            let (v, rv) = build(g, depth - 1, stats);
            let r = if g.chance(75) {
                if matches!(rw, Workload::Append(_)) || matches!(rv, Workload::Append(_)) {
                    stats[4] = true;
                }
                rw.append(rv)
            } else {
                Workload::Append(vec![rw, rv])
            };
            (W::Append(vec![w, v]), r)
        }
    }
}

fn compare(what: &str, w: &W, r: &Workload) -> R {
    let expected = match w.eval(CAP) {
        Ok(e) => e,
        Err(TooBig) => return Err(Stop::Discard),
    };
    let actual: Vec<T> = r.force().iter().map(T::of_sexp).collect();
    ensure!(
        sorted(expected.clone()) == sorted(actual.clone()),
        "{}: {}\nworkload {}",
        what,
        diff(&expected, &actual),
        w
    );
    // evaluating again gives the same answer
    let again: Vec<T> = r.force().iter().map(T::of_sexp).collect();
    if again != actual {
        fail!("{}: evaluating twice differs for {}", what, w);
    }
    Ok(())
}

fn expr(g: &mut G) -> R {
    let mut st = [false; 6];
    let depth = g.size(1, 5);
    let (w, r) = build(g, depth, &mut st);
    // refuse expressions whose stages explode (the model checks every stage)
    let e = match w.eval(CAP) {
        Ok(e) => e,
        Err(TooBig) => return Err(Stop::Discard),
    };
    g.input(w.to_string());
    g.label_if(st[0], "plug builder");
    g.label_if(st[1], "empty plug builder");
    g.label_if(st[2], "filter on plug");
    g.label_if(st[3], "filter on filter");
    g.label_if(st[4], "append flattening");
    g.label_if(!e.is_empty(), "non-empty result");
    g.nontrivial_if((st[0] || st[2] || st[3] || st[4]) && !e.is_empty());
    compare("expr", &w, &r)
}

/// Straight chains of the builder methods, as recipes write them.
fn chain(g: &mut G) -> R {
    let (n0, d0) = (g.size(1, 6), g.size(1, 3));
    let ts: Vec<T> = (0..n0).map(|_| gen::term(g, d0)).collect();
    let mut w = W::Set(ts.clone());
    let mut r = Workload::new(ts.iter().map(|t| t.to_string()));
    let n = g.tail(1, 7, 14, 5);
    let mut kinds = 0;
    for _ in 0..n {
        let cur = match w.eval(CAP) {
            Ok(c) => c,
            Err(TooBig) => return Err(Stop::Discard),
        };
        match g.weighted(&[5, 6, 2, 1]) {
            0 => {
                // plug a name that occurs
                let mut name = gen::atom(g);
                if !cur.is_empty() && g.chance(80) {
                    let t = g.pick(&cur).clone();
                    let mut ls = vec![];
                    t.leaves(&mut ls);
                    name = g.pick(&ls).to_string();
                }
                let pegs = gen::terms(g, 4, 1);
                let pw = W::Set(pegs.clone());
                let mut rp = Workload::Set(pegs.iter().map(|t| t.to_sexp()).collect());
                let mut mp = pw;
                if g.chance(15) {
                    // a peg workload that is empty only once evaluated
                    let f = Fil::Lt(Met::Atoms, 1);
                    rp = rp.filter(f.to_ruler());
                    mp = W::Filter(f, Box::new(mp));
                }
                w = W::Plug(Box::new(w), name.clone(), Box::new(mp));
                r = r.plug(name, &rp);
                kinds |= 1;
            }
            1 => {
                let f = gen::filter(g, 2, &cur);
                w = W::Filter(f.clone(), Box::new(w));
                r = r.filter(f.to_ruler());
                kinds |= 2;
            }
            2 => {
                let ts = gen::terms(g, 4, 2);
                let v = W::Set(ts.clone());
                let rv = Workload::new(ts.iter().map(|t| t.to_string()));
                if g.bool() {
                    w = W::Append(vec![w, v]);
                    r = r.append(rv);
                } else {
                    w = W::Append(vec![v, w]);
                    r = rv.append(r);
                }
                kinds |= 4;
            }
            _ => {
                // self-append / self-plug
                if g.bool() {
                    w = W::Append(vec![w.clone(), w]);
                    r = r.clone().append(r);
                } else {
                    let name = gen::atom(g);
                    let (w2, r2) = (w.clone(), r.clone());
                    w = W::Plug(Box::new(w), name.clone(), Box::new(w2));
                    r = r.plug(name, &r2);
                }
                kinds |= 8;
            }
        }
    }
    let e = match w.eval(CAP) {
        Ok(e) => e,
        Err(TooBig) => return Err(Stop::Discard),
    };
    g.input(w.to_string());
    g.label_if(kinds & 3 == 3, "plug and filter");
    g.label_if(kinds & 7 == 7, "plug, filter and append");
    g.label_if(!e.is_empty(), "non-empty result");
    g.nontrivial_if(kinds & 3 == 3 && !e.is_empty());
    compare("chain", &w, &r)
}

/// Plugging with nothing: only terms without the name survive, whatever the name.
fn empty_plug(g: &mut G) -> R {
    let ts = gen::terms(g, 8, 3);
    let name = if g.chance(40) { g.pick(gen::ODD_ATOMS).to_string() } else { gen::atom(g) };
    let mut w = W::Set(ts.clone());
    let mut r = Workload::new(ts.iter().map(|t| t.to_string()));
    if g.bool() {
        let other = gen::atom(g);
        let pegs = gen::terms(g, 3, 1);
        w = W::Plug(Box::new(w), other.clone(), Box::new(W::Set(pegs.clone())));
        r = r.plug(other, &Workload::Set(pegs.iter().map(|t| t.to_sexp()).collect()));
    }
    w = W::Plug(Box::new(w), name.clone(), Box::new(W::Set(vec![])));
    r = r.plug(name.clone(), &Workload::empty());
    let e = match w.eval(CAP) {
        Ok(e) => e,
        Err(TooBig) => return Err(Stop::Discard),
    };
    g.input(w.to_string());
    g.label_if(gen::ODD_ATOMS.contains(&name.as_str()), "name special in patterns");
    g.label_if(e.len() < ts.len(), "something removed");
    g.nontrivial_if(!ts.is_empty());
    compare("empty plug", &w, &r)
}

fn main() {
    vharness::engine::main(Prop {
        id: "C01",
        rule: "random workload expressions (term sets, plug, filter, append, built by the builder methods or the raw operators, nesting up to 5) and random builder chains; the evaluated workload is compared as a multiset with a reference evaluator. Non-trivial: a builder rewrite was reached and the denotation is non-empty (empty-plug cases: the workload has terms).",
        assumptions: &["lists in terms are non-empty", "stages with more than 1500 terms are discarded"],
        subs: vec![
            Sub { name: "expr", quick: 400_000, thorough: 1_500_000, f: expr },
            Sub { name: "chain", quick: 400_000, thorough: 1_500_000, f: chain },
            Sub { name: "empty-plug", quick: 60_000, thorough: 200_000, f: empty_plug },
        ],
        init: || (),
    })
}
