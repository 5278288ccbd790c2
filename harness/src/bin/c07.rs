//! C07: a rule rewrites exactly the matches of its left side to its right side.
use ruler::enumo::{Rule, Ruleset, Scheduler};
use vharness::engine::*;
use vharness::oracle::{self, *};
use vharness::scen::*;
use vharness::sx::*;
use vharness::tb::{self, *};
use vharness::{ensure, fail};

/// One iteration of a ruleset given as text, in the free algebra (no values): the equivalences on
/// all subterms and the number of classes agree with egg applying the intended directions.
fn apply(g: &mut G) -> R {
    let al = set_alg(Alg { k: 3, samples: vec![], ..blank(3) });
    let rules = dedup_rules(gen_any_rules(g, al.k, 3));
    if rules.is_empty() {
        return Err(Stop::Discard);
    }
    let mut texts = vec![];
    let mut expect: Vec<(T, T)> = vec![];
    let mut arrows = vec![];
    for (l, r) in &rules {
        let both = vars_of(&[l]).iter().all(|v| vars_of(&[r]).contains(v));
        let arrow = if both && g.chance(40) { "<=>" } else { *g.pick(&["=>", "==>"]) };
        arrows.push(arrow);
        texts.push(format!("{} {} {}", to_pat(l), arrow, to_pat(r)));
        expect.push((l.clone(), r.clone()));
        if arrow == "<=>" {
            expect.push((r.clone(), l.clone()));
        }
    }
    let expect = dedup_rules(expect);
    let ts = instances(g, &expect, al.k, 5);
    let iters = g.size(1, 2);
    g.input(format!("{} | {} | {} iterations", texts.join(", "), show(&ts), iters));
    for a in &arrows {
        g.label(a);
    }
    let subs = subterms(&ts);
    let (trusted, end) = oracle::run(oracle::egraph::<Tb>(&ts), &rewrites(&expect), iters, 4000);
    if matches!(end, End::TooBig) {
        return Err(Stop::Discard);
    }
    let rs: Ruleset<Tb> = Ruleset::new(&texts);
    let eg = real_egraph::<Tb>(&ts);
    let out = Scheduler::Simple(limits(iters, BIG, BIG)).run(&eg, &rs);
    let pt = partition(subs.iter().map(|t| oracle::find(&trusted, t))).unwrap();
    let pr = match partition(subs.iter().map(|t| real_find(&out, t))) {
        Some(p) => p,
        None => fail!("a term disappeared: rules {:?} on {}", texts, show(&ts)),
    };
    g.nontrivial_if(pt.len() < subs.len());
    ensure!(
        pt == pr,
        "rules {:?} on {}, {} iterations:\n expected {}\n got {}",
        texts,
        show(&ts),
        iters,
        show_partition(&subs, &pt),
        show_partition(&subs, &pr)
    );
    // every right-hand instance is there too
    for (l, r) in &expect {
        for t in &subs {
            if let Some(m) = match_t(l, t) {
                let inst = subst(r, &m);
                match (real_find(&out, t), real_find(&out, &inst)) {
                    (Some(a), Some(b)) if a == b => {}
                    x => fail!("match {} of {}: instance {} is not merged with it ({:?})", t, rule_text(l, r), inst, x),
                }
            }
        }
    }
    ensure!(
        out.number_of_classes() == trusted.number_of_classes(),
        "rules {:?} on {}: {} classes expected, got {}",
        texts,
        show(&ts),
        trusted.number_of_classes(),
        out.number_of_classes()
    );
    Ok(())
}

/// Syntactic matching of plain-variable patterns.
fn match_t(p: &T, t: &T) -> Option<std::collections::BTreeMap<String, T>> {
    fn go(p: &T, t: &T, m: &mut std::collections::BTreeMap<String, T>) -> bool {
        match (p, t) {
            (T::A(s), _) if s.parse::<u8>().is_err() => match m.get(s) {
                Some(u) => u == t,
                None => {
                    m.insert(s.clone(), t.clone());
                    true
                }
            },
            (T::A(s), T::A(u)) => s == u,
            (T::L(xs), T::L(ys)) => {
                xs.len() == ys.len() && xs[0] == ys[0] && xs[1..].iter().zip(&ys[1..]).all(|(x, y)| go(x, y, m))
            }
            _ => false,
        }
    }
    let mut m = Default::default();
    if go(p, t, &mut m) {
        Some(m)
    } else {
        None
    }
}

/// Partially undefined values: with rules that relate equal partial functions, merges agree with a
/// reference in which entirely undefined classes take part in no merge.
fn guard(g: &mut G) -> R {
    let mut al = gen_alg(g, 3, true);
    // make some operator undefined everywhere, so that undefined classes are common
    match g.below(4) {
        0 => al.un[0].iter_mut().for_each(|x| *x = None),
        1 => {
            al.un[1].iter_mut().for_each(|x| *x = None);
            al.bi[2].iter_mut().for_each(|x| *x = None);
        }
        2 => {
            let i = g.below(3) as usize;
            let mut first = true;
            for x in al.bi[i].iter_mut() {
                if first || g.chance(70) {
                    *x = None;
                }
                first = false;
            }
        }
        _ => {}
    }
    let al = set_alg(al);
    let mut rules = gen_valid_rules(g, al, 4);
    // pairs that are undefined everywhere, and pairs undefined at every sampled point
    let vars: Vec<String> = VARS[..2].iter().map(|s| s.to_string()).collect();
    let und: Vec<T> = (0..12)
        .map(|_| gen_op(g, &VARS[..2], al.k, 2))
        .filter(|t| al.table(t, &vars, &al.all_vals()).iter().all(|x| x.is_none()))
        .collect();
    for w in und.windows(2) {
        if vars_of(&[&w[1]]).iter().all(|v| vars_of(&[&w[0]]).contains(v)) && rules.len() < 6 {
            rules.push((w[0].clone(), w[1].clone()));
        }
    }
    let rules = dedup_rules(rules);
    if rules.is_empty() {
        return Err(Stop::Discard);
    }
    let mut ts = instances(g, &rules, al.k, 5);
    ts.push(a("x"));
    ts.push(a("y"));
    let iters = g.size(1, 3);
    let order = vars_of(&ts.iter().collect::<Vec<_>>());
    g.input(format!("{} | {} | {} | {} iterations", al.describe(), rules_text(&rules), show(&ts), iters));
    let (trusted, end) = run_guarded(&ts, Vals::new(al, order.clone(), &al.all_vals()), &rules, iters, 3000);
    if matches!(end, End::TooBig) {
        return Err(Stop::Discard);
    }
    let subs = subterms(&ts);
    let undef: Vec<bool> = subs.iter().map(|t| al.table(t, &order, &al.all_vals()).iter().all(|v| v.is_none())).collect();
    let out = Scheduler::Simple(limits(iters, BIG, BIG)).run(&real_egraph::<Tb>(&ts), &ruleset(&rules));
    let pt = partition(subs.iter().map(|t| trusted.lookup_expr(&tb::expr::<Tb>(t)).map(|i| trusted.find(i)))).unwrap();
    let pr = match partition(subs.iter().map(|t| real_find(&out, t))) {
        Some(p) => p,
        None => fail!("a term disappeared"),
    };
    // was there a match that had to be refused?
    let refused = rules.iter().any(|(l, r)| {
        subs.iter().zip(&undef).any(|(t, u)| *u && match_t(l, t).map_or(false, |m| subst(r, &m) != *t))
    });
    g.label_if(refused, "refused match");
    g.label_if(pt.len() < subs.len(), "merges");
    g.nontrivial_if(refused || pt.len() < subs.len());
    ensure!(
        pt == pr,
        "{}\nrules {} on {}, {} iterations:\n expected {}\n got {}",
        al.describe(),
        rules_text(&rules),
        show(&ts),
        iters,
        show_partition(&subs, &pt),
        show_partition(&subs, &pr)
    );
    Ok(())
}

/// A rule object: name, sides and direction from text; construction fails exactly when the right
/// side has variables that the left side lacks; both ways of construction rewrite alike.
fn object(g: &mut G) -> R {
    set_alg(blank(3));
    let d = g.size(0, 3);
    let l0 = gen_term(g, &VARS[..3], 3, d);
    let d = g.size(0, 3);
    let r0 = gen_term(g, &VARS[..3], 3, d);
    let (lp, rp) = (to_pat(&l0), to_pat(&r0));
    g.input(format!("{} / {}", lp, rp));
    let (vl, vr) = (vars_of(&[&l0]), vars_of(&[&r0]));
    let fwd = vr.iter().all(|v| vl.contains(v));
    let bwd = vl.iter().all(|v| vr.contains(v));
    g.label_if(!fwd, "unbound right variable");
    g.label_if(fwd && bwd, "both directions");
    g.nontrivial_if(!vl.is_empty() || !vr.is_empty());
    let (lpat, rpat) = (pattern::<Tb>(&lp), pattern::<Tb>(&rp));
    let made = Rule::<Tb>::new(&lpat, &rpat);
    ensure!(made.is_some() == fwd, "Rule::new({}, {}) is {}", lp, rp, if made.is_some() { "accepted" } else { "refused" });
    let check = |rule: &Rule<Tb>, l: &T, r: &T, how: &str| -> R {
        let name = format!("{} ==> {}", to_pat(l), to_pat(r));
        ensure!(rule.name.to_string() == name, "{}: name {} instead of {}", how, rule.name, name);
        ensure!(rule.to_string() == name, "{}: prints {} instead of {}", how, rule, name);
        ensure!(pat_t(&rule.lhs) == to_pat(l) && pat_t(&rule.rhs) == to_pat(r), "{}: sides {} / {} of {}", how, rule.lhs, rule.rhs, name);
        // the stored rewrite goes the way the name says
        let mut rs = Ruleset::<Tb>::default();
        rs.add(rule.clone());
        let out = Scheduler::Simple(limits(1, BIG, BIG)).run(&real_egraph::<Tb>(&[l.clone()]), &rs);
        ensure!(
            real_find(&out, l).is_some() && real_find(&out, l) == real_find(&out, r),
            "{}: {} does not rewrite its own left side",
            how,
            name
        );
        // and only that way: on the right side alone nothing new happens unless the left matches it
        let (tr, end) = oracle::run(oracle::egraph::<Tb>(&[r.clone()]), &rewrites(&[(l.clone(), r.clone())]), 1, 2000);
        if !matches!(end, End::TooBig) {
            let out = Scheduler::Simple(limits(1, BIG, BIG)).run(&real_egraph::<Tb>(&[r.clone()]), &rs);
            ensure!(
                out.number_of_classes() == tr.number_of_classes() && (real_find(&out, l).is_some() == oracle::find(&tr, l).is_some()),
                "{}: {} applied to its right side alone: {} classes, expected {}",
                how,
                name,
                out.number_of_classes(),
                tr.number_of_classes()
            );
        }
        Ok(())
    };
    if let Some(r) = &made {
        check(r, &l0, &r0, "new")?;
    }
    if fwd {
        let sp = |g: &mut G| " ".repeat(g.size(1, 3));
        let arrow = *g.pick(&["=>", "==>"]);
        let text = format!("{}{}{}{}{}", lp, sp(g), arrow, sp(g), rp);
        match Rule::<Tb>::from_string(&text) {
            Ok((f, b)) => {
                ensure!(b.is_none(), "{} gives a backward rule", text);
                check(&f, &l0, &r0, "text")?;
            }
            Err(e) => fail!("{} is refused: {}", text, e),
        }
        if bwd {
            let text = format!("{}{}<=>{}{}", lp, sp(g), sp(g), rp);
            match Rule::<Tb>::from_string(&text) {
                Ok((f, Some(b))) => {
                    check(&f, &l0, &r0, "two-way text")?;
                    check(&b, &r0, &l0, "two-way text, backward")?;
                }
                Ok((_, None)) => fail!("{} gives no backward rule", text),
                Err(e) => fail!("{} is refused: {}", text, e),
            }
        }
    }
    // text without an arrow is refused with an error
    let text = format!("{} {} {}", lp, g.pick(&["=", "->", "==", ""]), rp);
    ensure!(Rule::<Tb>::from_string(&text).is_err(), "{} is accepted", text);
    Ok(())
}

fn main() {
    vharness::engine::main(Prop {
        id: "C07",
        rule: "random rules in text form (=>, ==>, <=>; repeated variables, literals, nested operators, permuted arguments, subterm right sides) applied to terms containing instances of their sides; the resulting equivalences on all subterms are compared with egg applying the intended directions, and with a reference that refuses entirely undefined classes when the operators are partial. Non-trivial: something is merged or a match is refused (rule objects: the rule has variables).",
        assumptions: &["arrows in rule text are surrounded by blanks", "egg itself is trusted"],
        subs: vec![
            Sub { name: "apply", quick: 200_000, thorough: 4_000_000, f: apply },
            Sub { name: "guard", quick: 150_000, thorough: 3_000_000, f: guard },
            Sub { name: "object", quick: 150_000, thorough: 3_000_000, f: object },
        ],
        init: tb::init,
    })
}
