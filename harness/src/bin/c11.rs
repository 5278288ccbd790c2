//! C11: value matching proposes exactly the pairs of classes whose values agree.
use ruler::enumo::{Ruleset, Scheduler};
use vharness::engine::*;
use vharness::oracle::*;
use vharness::scen::*;
use vharness::sx::*;
use vharness::tb::{self, *};
use vharness::fail;

/// The e-graph of a workload under a random interpretation, sometimes merged further (soundly).
fn scene(g: &mut G) -> Result<Real, Stop> {
    let partial = g.chance(75);
    let mut al = gen_alg(g, 3, partial);
    if partial && g.chance(50) {
        // many undefined values
        for t in al.un.iter_mut().chain(al.bi.iter_mut()) {
            for x in t.iter_mut() {
                if g.chance(35) {
                    *x = None;
                }
            }
        }
    }
    if al.total() && g.chance(30) {
        al.interval = 1;
    }
    let mut s = al.all_vals();
    g.shuffle(&mut s);
    s.truncate(g.size(1, s.len()));
    al.samples = s;
    let al = set_alg(al);
    let n = if g.chance(4) { g.size(9, 40) } else { g.size(1, 9) };
    let vars = &VARS[..if g.chance(4) { 4 } else { g.size(1, 3) }];
    let d = g.size(1, 2);
    let ts: Vec<T> = (0..n).map(|_| gen_term(g, vars, al.k, d)).collect();
    let mut e = real_egraph::<Tb>(&ts);
    g.input(format!("{} | {}", al.describe(), show(&ts)));
    g.label_if(!al.total(), "partial operators");
    if g.chance(30) {
        let rules = dedup_rules(gen_valid_rules(g, al, 3));
        g.add_input(format!("compressed with {}", rules_text(&rules)));
        e = Scheduler::Compress(limits(2, 500, BIG)).run(&e, &ruleset(&rules));
        g.label("after compressing");
    }
    Ok(e)
}
fn vec_text(c: &[Option<V>]) -> String {
    c.iter().map(|v| v.map_or("_".into(), |v| v.to_string())).collect()
}

fn general(g: &mut G) -> R {
    let e = scene(g)?;
    let terms = match smallest(&e, &|_| true, 6) {
        Some(t) => t,
        None => return Err(Stop::Discard),
    };
    let got = Ruleset::cvec_match(&e);
    let cs: Vec<_> = e.classes().collect();
    let mut pairs = vec![];
    let (mut undef, mut partly) = (false, false);
    for (i, x) in cs.iter().enumerate() {
        for y in &cs[i + 1..] {
            let z = || x.data.cvec.iter().zip(&y.data.cvec);
            let differ = z().any(|(a, b)| a.is_some() && b.is_some() && a != b);
            let agree = z().any(|(a, b)| a.is_some() && a == b);
            if !differ && agree {
                pairs.push((x.id, y.id));
                partly |= x.data.cvec != y.data.cvec;
            }
            undef |= !differ && !agree && x.data.is_defined() && y.data.is_defined();
        }
    }
    g.label_if(partly, "agreeing where both defined only");
    g.label_if(undef, "nowhere both defined");
    g.nontrivial_if(!pairs.is_empty());
    if let Err(m) = check_candidates(&got, &pairs, &terms) {
        let vs: Vec<String> = cs.iter().map(|c| format!("{}:{}", terms[&c.id][0], vec_text(&c.data.cvec))).collect();
        fail!("{} ({})", m, vs.join(" "));
    }
    Ok(())
}
fn fast(g: &mut G) -> R {
    let e = scene(g)?;
    let terms = match smallest(&e, &|_| true, 6) {
        Some(t) => t,
        None => return Err(Stop::Discard),
    };
    let got = Ruleset::fast_cvec_match(&e);
    let cs: Vec<_> = e.classes().collect();
    let mut pairs = vec![];
    for (i, x) in cs.iter().enumerate() {
        for y in &cs[i + 1..] {
            if x.data.cvec == y.data.cvec && x.data.cvec.iter().any(|v| v.is_some()) {
                pairs.push((x.id, y.id));
            }
        }
    }
    g.nontrivial_if(!pairs.is_empty());
    if let Err(m) = check_candidates(&got, &pairs, &terms) {
        let vs: Vec<String> = cs.iter().map(|c| format!("{}:{}", terms[&c.id][0], vec_text(&c.data.cvec))).collect();
        fail!("{} ({})", m, vs.join(" "));
    }
    Ok(())
}

fn main() {
    vharness::engine::main(Prop {
        id: "C11",
        rule: "Workloads under random interpretations (often with many undefined results, random sample values, folding), sometimes compressed first; expected pairs are all pairs of classes judged by the definition on their value vectors, expected rules all pairs of smallest terms (any of them when several are smallest), compared up to renaming. Non-trivial: at least one pair agrees.",
        assumptions: &[],
        subs: vec![
            Sub { name: "general", quick: 120_000, thorough: 2_500_000, f: general },
            Sub { name: "fast", quick: 80_000, thorough: 1_500_000, f: fast },
        ],
        init: tb::init,
    })
}
