//! C17: fast-forwarding yields allowed rules implied by prior and exploratory rules.
use ruler::enumo::{Ruleset, Scheduler, Workload};
use ruler::recipe_utils::run_fast_forwarding;
use ruler::SynthLanguage;
use std::collections::BTreeMap;
use vharness::engine::*;
use vharness::oracle::{self, *};
use vharness::scen::*;
use vharness::sx::*;
use vharness::tb::{self, *};
use vharness::{ensure, fail};

fn uses(t: &T, ops: &[&str]) -> bool {
    match t {
        T::A(_) => false,
        T::L(xs) => ops.iter().any(|o| xs[0] == a(o)) || xs[1..].iter().any(|x| uses(x, ops)),
    }
}
fn infer(c: &FfCase) -> Ruleset<Tb> {
    let wl = Workload::Set(c.ts.iter().map(|t| t.to_sexp()).collect());
    run_fast_forwarding::<Tb>(wl, ruleset(&c.prior), c.pl, c.ml)
}
/// The e-graph of the terms with what the rules equate, and no new terms.
fn compressed(ts: &[T], rules: &[(T, T)], iters: usize) -> EG<Tb> {
    let mut e = egraph::<Tb>(ts);
    let (big, _) = oracle::run(e.clone(), &rewrites(rules), iters, BIG);
    let subs = subterms(ts);
    let p = partition(subs.iter().map(|x| find(&big, x))).unwrap();
    let ids: Vec<_> = subs.iter().map(|x| find(&e, x).unwrap()).collect();
    for b in &p {
        for i in &b[1..] {
            e.union(ids[b[0]], ids[*i]);
        }
    }
    e.rebuild();
    e
}
fn together(c: &FfCase) -> Vec<(T, T)> {
    dedup_rules(c.prior.iter().chain(&c.expl).cloned().collect())
}

/// Every returned rule is allowed, new and implied.
fn sound(g: &mut G) -> R {
    let c = ff_case(g, false);
    if c.ts.is_empty() {
        return Err(Stop::Discard);
    }
    let all = together(&c);
    let (t, end) = oracle::run(egraph::<Tb>(&c.ts), &rewrites(&all), 3 * c.pl.iter, 6000);
    if matches!(end, End::TooBig) {
        return Err(Stop::Discard);
    }
    let got = infer(&c);
    // what the allowed prior rules say is settled before any rule is proposed
    let ok: Vec<(T, T)> = c.prior.iter().filter(|(x, y)| !uses(x, &c.hidden) && !uses(y, &c.hidden)).cloned().collect();
    let t0 = compressed(&c.ts, &ok, c.pl.iter);
    let vars = vars_of(&c.ts.iter().collect::<Vec<_>>());
    g.nontrivial_if(got.len() > 0);
    g.label_if(!c.prior.is_empty() && got.len() > 0, "prior rules");
    for r in got.iter() {
        let (x, y) = rule_pair(r);
        ensure!(!uses(&x, &c.hidden) && !uses(&y, &c.hidden), "{} uses a hidden operator", r);
        ensure!(!c.prior.contains(&(x.clone(), y.clone())), "{} is a prior rule", r);
        // an instance with workload variables was equated
        let rv = vars_of(&[&x, &y]);
        let (mut found, mut settled) = (false, false);
        for m in renamings(&rv, &vars) {
            let (x, y) = (subst(&x, &m), subst(&y, &m));
            let (i, j) = (find(&t, &x), find(&t, &y));
            if i.is_some() && i == j {
                found = true;
                let k = find(&t0, &x);
                settled = k.is_some() && k == find(&t0, &y);
                if !settled {
                    break;
                }
            }
        }
        ensure!(!settled, "{} relates only terms that the allowed prior rules equate", r);
        ensure!(found, "{} does not follow from the prior and the exploratory rules over the workload", r);
    }
    Ok(())
}
/// All injective renamings.
fn renamings(from: &[String], to: &[String]) -> Vec<BTreeMap<String, T>> {
    let mut out = vec![BTreeMap::new()];
    for f in from {
        let mut next = vec![];
        for m in &out {
            for t in to {
                if !m.values().any(|x| *x == a(t)) {
                    let mut m = m.clone();
                    m.insert(f.clone(), a(t));
                    next.push(m);
                }
            }
        }
        out = next;
    }
    out
}

/// Which rewrites are allowed.
fn allowed(g: &mut G) -> R {
    let mut al = blank(3);
    let hidden: Vec<usize> = (0..NOPS).filter(|_| g.chance(30)).collect();
    hidden.iter().for_each(|i| al.allowed[*i] = false);
    set_alg(al);
    let (l, r) = (gen_term(g, &VARS[..2], 3, 3), gen_term(g, &VARS[..2], 3, 3));
    g.input(format!("hidden {:?} | {} and {}", hidden, l, r));
    let names: Vec<&str> = UN.iter().chain(BI).chain(&[TE]).copied().collect();
    let shown = |t: &T| !subterms(std::slice::from_ref(t)).iter().any(|s| match s {
        T::L(xs) => hidden.iter().any(|i| names.get(*i).map_or(false, |o| xs[0] == a(o))),
        T::A(s) => hidden.contains(&(NOPS - 1)) && s.parse::<u8>().is_ok(),
    });
    let pat = |t: &T| tb::pattern::<Tb>(&to_pat(t));
    let (sl, sr) = (shown(&l), shown(&r));
    let got = Tb::is_allowed_rewrite(&pat(&l), &pat(&r));
    ensure!(got == (sl && sr), "the rewrite is {}", if got { "allowed" } else { "not allowed" });
    g.nontrivial_if(!hidden.is_empty());
    g.label_if(sl != sr, "one side only");
    Ok(())
}
/// Nothing that could be written is lost.
fn lossless(g: &mut G) -> R {
    let mut c = ff_case(g, true);
    // a class that only hidden operators express has no term to propose before it is explained
    let hidden = c.hidden.clone();
    c.ts.retain(|t| !uses(t, &hidden));
    if c.ts.is_empty() {
        return Err(Stop::Discard);
    }
    let all = together(&c);
    let (_, end) = oracle::run(egraph::<Tb>(&c.ts), &rewrites(&all), 3 * c.pl.iter, 4000);
    if matches!(end, End::TooBig) {
        return Err(Stop::Discard);
    }
    // what the rules equate at least
    let (t, _) = oracle::run(egraph::<Tb>(&c.ts), &rewrites(&c.expl), c.pl.iter, BIG);
    let (t, _) = oracle::run(t, &rewrites(&all), c.pl.iter, BIG);
    let got = infer(&c);
    let subs: Vec<T> = subterms(&c.ts).into_iter().filter(|t| !uses(t, &c.hidden)).collect();
    // all candidates there may have been, as terms that may help
    let e0 = real_egraph::<Tb>(&c.ts);
    let prior = ruleset(&c.prior);
    let (ok, _) = prior.partition(|r| Tb::is_allowed_rewrite(&r.lhs, &r.rhs));
    let e1 = Scheduler::Compress(c.pl).run(&e0, &ok);
    let e2 = Scheduler::Simple(c.pl).run(&e1, &ruleset(&c.expl));
    let e3 = Scheduler::Compress(c.pl).run(&e2, &ruleset(&all));
    let allowed = |n: &Tb| n.is_allowed_op();
    let (small1, small2) = match (smallest(&e1, &allowed, 20), smallest(&e2, &allowed, 20)) {
        (Some(x), Some(y)) => (x, y),
        _ => return Err(Stop::Discard),
    };
    let blocks = partition(subs.iter().map(|x| find(&t, x))).unwrap();
    let mut equal = vec![];
    let mut judged = vec![];
    for b in &blocks {
        // a class is proposed by its smallest term at the time
        let mut members: Vec<T> = b.iter().map(|i| subs[*i].clone()).collect();
        for (e, s) in [(&e1, &small1), (&e2, &small2)] {
            for i in b {
                if let Some(ts) = real_find(e, &subs[*i]).and_then(|id| s.get(&id)) {
                    members.extend(ts.iter().cloned());
                }
            }
        }
        let clear = members.iter().all(|x| members.iter().all(|y| comparable(x, y)));
        for (k, i) in b.iter().enumerate() {
            for j in &b[k + 1..] {
                if comparable(&subs[*i], &subs[*j]) {
                    equal.push((*i, *j));
                    if clear {
                        judged.push((*i, *j));
                    }
                }
            }
        }
    }
    let mut extra = vec![];
    for rs in [Ruleset::extract_candidates(&e1, &e2), Ruleset::extract_candidates(&e2, &e3)] {
        for r in rs.iter() {
            let (x, y) = rule_pair(r);
            extra.push(x);
            extra.push(y);
        }
    }
    // minimization in no rounds drops nothing, so only what is compressed before can explain the rest
    let helps = |r: &(T, T)| c.ml.iter > 0 || !(uses(&r.0, &c.hidden) || uses(&r.1, &c.hidden));
    g.label_if(c.ml.iter == 0 && !c.prior.iter().all(|r| helps(r)), "prior rules that do not help");
    let rules = dedup_rules(c.prior.iter().filter(|r| helps(r)).cloned().chain(got.iter().map(rule_pair)).collect());
    g.nontrivial_if(!judged.is_empty() && !got.is_empty());
    match explain(&subs, &equal, &judged, &extra, &rules) {
        Ok(Some(_)) => Ok(()),
        Ok(None) => {
            g.label("too large to decide");
            Ok(())
        }
        Err(m) => fail!("{} from {}", m, rules_text(&rules)),
    }
}

fn main() {
    vharness::engine::main(Prop {
        id: "C17",
        rule: "Random sets of hidden operators, exploratory rules that explain operators by hidden terms (sound: also other rules and their reverses), arbitrary prior rules, workloads of up to 7 terms, 1-2 iterations. sound: every rule returned has allowed operators only, is no prior rule and is an instance of an equality plain egg finds with all rules over the workload. No rule returned may relate only terms that the allowed prior rules equate. allowed: a rewrite is allowed when both sides have allowed operators only. lossless: every pair of allowed workload terms equated by the rules (and writable) follows from the prior and returned rules (when minimization has no rounds, only from the allowed prior rules and the returned ones). Non-trivial: some rule is returned (lossless: and some pair is judged).",
        assumptions: &["egg itself is trusted", "lossless: workload terms contain no hidden operators, exploratory right sides contain hidden operators and variables only; classes with terms of unrelated variables are left out"],
        subs: vec![
            Sub { name: "sound", quick: 80_000, thorough: 1_500_000, f: sound },
            Sub { name: "allowed", quick: 30_000, thorough: 300_000, f: allowed },
            Sub { name: "lossless", quick: 60_000, thorough: 1_200_000, f: lossless },
        ],
        init: tb::init,
    })
}
