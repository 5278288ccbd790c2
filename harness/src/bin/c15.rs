//! C15: derivability answers follow from the rules and split rulesets exactly.
use ruler::enumo::{Rule, Ruleset};
use ruler::{DeriveType, Limits};
use vharness::engine::*;
use vharness::oracle::{self, *};
use vharness::scen::*;
use vharness::sx::*;
use vharness::tb::{self, *};
use vharness::{ensure, fail, io};

fn rule(l: &T, r: &T) -> Option<Rule<Tb>> {
    Rule::new(&tb::pattern::<Tb>(&to_pat(l)), &tb::pattern::<Tb>(&to_pat(r)))
}
fn verdicts(g: &mut G) -> R {
    set_alg(blank(3));
    let mut rules = dedup_rules(gen_any_rules(g, 3, 4));
    let (l, r) = if g.chance(4) {
        // many rounds of saturation are needed
        rules.retain(|(l, r)| not_growing(l, r));
        rules.truncate(2);
        let (rs, t) = cascade(g);
        rules = dedup_rules(rules.into_iter().chain(rs).collect());
        let inner = subterms(std::slice::from_ref(&t));
        let same: Vec<T> = inner.iter().filter(|x| x.to_string().starts_with("(&")).cloned().collect();
        let t = if g.bool() { t } else { g.pick(&inner).clone() };
        (t, if g.bool() || same.is_empty() { g.pick(&inner).clone() } else { g.pick(&same).clone() })
    } else if g.chance(3) {
        let (rs, l, r) = ladders(g);
        rules = rs;
        (l, r)
    } else {
        match goal(g, &rules) {
            Some(x) => x,
            None => return Err(Stop::Discard),
        }
    };
    if !vars_of(&[&r]).iter().all(|v| vars_of(&[&l]).contains(v)) {
        return Err(Stop::Discard);
    }
    let iters = if g.chance(4) { g.size(4, 8) } else { g.size(0, 4) };
    g.input(format!("{} | {} | {} iterations", rules_text(&rules), rule_text(&l, &r), iters));
    let ((lhs, n1), (both, n2)) = match (answer_size(&rules, &l, &r, false, iters), answer_size(&rules, &l, &r, true, iters)) {
        (Some(a), Some(b)) => (a, b),
        _ => return Err(Stop::Discard),
    };
    let size = n1.max(n2);
    g.label_if(both && size > 500, "derivable in a large e-graph");
    let rs = ruleset(&rules);
    let ru = rule(&l, &r).unwrap();
    // a limit comfortably above what the whole run needs
    let lim = limits(iters, if g.bool() { size + size / 2 + 20 } else { BIG }, BIG);
    let rl = rs.can_derive(DeriveType::Lhs, &ru, lim);
    let rb = rs.can_derive(DeriveType::LhsAndRhs, &ru, lim);
    g.nontrivial_if(both && l != r);
    g.label_if(lhs && l != r, "derivable from the left");
    g.label_if(both && !lhs, "derivable from both sides only");
    g.label_if(!both, "not derivable");
    ensure!(rl == lhs, "from the left side: derivable {} by the rules, answer {}", lhs, rl);
    ensure!(rb == both, "from both sides: derivable {} by the rules, answer {}", both, rb);
    ensure!(!rl || rb, "derivable from the left but not from both sides");
    // smaller limits may lose answers, never invent them
    let lim = limits(iters, if g.bool() { g.size(0, 30) } else { BIG }, if g.bool() { g.size(1, 4) } else { BIG });
    g.add_input(format!("{:?}", lim));
    ensure!(lhs || !rs.can_derive(DeriveType::Lhs, &ru, lim), "from the left side: derivable only with smaller limits");
    ensure!(both || !rs.can_derive(DeriveType::LhsAndRhs, &ru, lim), "from both sides: derivable only with smaller limits");
    Ok(())
}

/// Reordered sums by commutativity and associativity: the e-graphs reach thousands of nodes.
fn sums(g: &mut G) -> R {
    set_alg(blank(3));
    let op = *g.pick(&["+", "*", "&"]);
    let (x, y, z) = (a(VARS[0]), a(VARS[1]), a(VARS[2]));
    let b = |p: &T, q: &T| l(op, vec![p.clone(), q.clone()]);
    let mut rules = vec![(b(&x, &y), b(&y, &x)), (b(&x, &b(&y, &z)), b(&b(&x, &y), &z))];
    if g.bool() {
        rules.push((b(&b(&x, &y), &z), b(&x, &b(&y, &z))));
    }
    if g.chance(20) {
        rules.push((b(&x, &x), x.clone()));
    }
    g.shuffle(&mut rules);
    let n = g.size(3, 7);
    let mut leaves: Vec<T> = (0..n).map(|i| a(VARS[i % VARS.len()])).collect();
    fn tree(g: &mut G, op: &str, ls: &[T]) -> T {
        if ls.len() == 1 {
            return ls[0].clone();
        }
        let k = g.size(1, ls.len() - 1);
        let (p, q) = (tree(g, op, &ls[..k]), tree(g, op, &ls[k..]));
        l(op, vec![p, q])
    }
    let s = tree(g, op, &leaves);
    g.shuffle(&mut leaves);
    if g.chance(10) {
        leaves[0] = leaves[n - 1].clone();
    }
    let t = tree(g, op, &leaves);
    let iters = g.size(1, 6);
    g.input(format!("{} | {} | {} iterations", rules_text(&rules), rule_text(&s, &t), iters));
    let rs = ruleset(&rules);
    let ru = rule(&s, &t).unwrap();
    for both in [false, true] {
        let (want, size) = match answer_size(&rules, &s, &t, both, iters) {
            Some(x) => x,
            None => return Err(Stop::Discard),
        };
        g.nontrivial_if(want && size > 100);
        g.label_if(want && size > 500, "derivable in a large e-graph");
        g.label_if(!want, "not derivable");
        let lim = limits(iters, if g.bool() { size + size / 2 + 20 } else { BIG }, BIG);
        let got = rs.can_derive(if both { DeriveType::LhsAndRhs } else { DeriveType::Lhs }, &ru, lim);
        ensure!(got == want, "derivable {} by the rules ({} nodes), answer {} ({})", want, size, got, if both { "both sides" } else { "left side" });
    }
    Ok(())
}

fn split(g: &mut G) -> R {
    set_alg(blank(3));
    let rules = dedup_rules(gen_any_rules(g, 3, 4));
    let mut against = vec![];
    for _ in 0..if g.chance(3) { g.size(6, 30) } else { g.size(0, 6) } {
        if let Some(x) = goal(g, &rules) {
            against.push(x);
        }
    }
    if g.chance(30) {
        against.extend(rules.iter().filter(|_| g.bool()).cloned());
        g.label("own rules among the targets");
    }
    let against = dedup_rules(against);
    let iters = g.size(0, 3);
    let rs = ruleset(&rules);
    let ru = ruleset(&against);
    let lim = match g.below(10) {
        0 => limits(iters, g.size(0, 30), BIG),
        1 => limits(iters, BIG, g.size(1, 4)),
        _ => limits(iters, BIG, BIG),
    };
    g.input(format!("{} | {} | {:?}", rules_text(&rules), rules_text(&against), lim));
    for both in [false, true] {
        let mut want = (vec![], vec![]);
        for (l, r) in &against {
            let whole = match answer(&rules, l, r, both, iters) {
                // the single answer under the same limits
                Some(x) if lim.node < BIG || lim.match_ < BIG => {
                    g.label("small limits");
                    let one = rs.can_derive(if both { DeriveType::LhsAndRhs } else { DeriveType::Lhs }, &rule(l, r).unwrap(), lim);
                    ensure!(x || !one, "{} is derivable under limits only", rule_text(l, r));
                    Some(one)
                }
                x => x,
            };
            match whole {
                None => return Err(Stop::Discard),
                Some(true) => want.0.push(rule_text(l, r)),
                Some(false) => want.1.push(rule_text(l, r)),
            }
        }
        g.nontrivial_if(!want.0.is_empty() && !want.1.is_empty());
        let (can, cannot) = rs.derive(if both { DeriveType::LhsAndRhs } else { DeriveType::Lhs }, &ru, lim);
        if can.to_str_vec() != want.0 || cannot.to_str_vec() != want.1 {
            fail!(
                "{}: derivable {:?} and not {:?}, but the split is {:?} and {:?}",
                if both { "from both sides" } else { "from the left side" },
                want.0,
                want.1,
                can.to_str_vec(),
                cannot.to_str_vec()
            );
        }
    }
    ensure!(rs.to_str_vec() == ruleset(&rules).to_str_vec() && ru.to_str_vec() == ruleset(&against).to_str_vec(), "an operand changed");
    Ok(())
}

/// The printed comparison of two rule files counts and lists that split.
fn report(g: &mut G) -> R {
    set_alg(blank(3));
    let rules = dedup_rules(gen_any_rules(g, 3, 3));
    let mut against = vec![];
    for _ in 0..g.size(0, 6) {
        if let Some((l, r)) = goal(g, &rules) {
            if g.chance(40) && rule(&r, &l).is_some() {
                against.push((r.clone(), l.clone()));
            }
            against.push((l, r));
        }
    }
    let against: Vec<(T, T)> = dedup_rules(against).into_iter().filter(|(l, r)| rule(l, r).is_some()).collect();
    let both = g.bool();
    g.input(format!("{} | {} | {}", rules_text(&rules), rules_text(&against), if both { "both sides" } else { "left side" }));
    if against.iter().any(|(l, r)| answer(&rules, l, r, both, Limits::deriving().iter).is_none()) {
        return Err(Stop::Discard);
    }
    let (rs, ru) = (ruleset(&rules), ruleset(&against));
    rs.to_file("one.rules");
    ru.to_file("two.rules");
    let t = || if both { DeriveType::LhsAndRhs } else { DeriveType::Lhs };
    let ((), out) = io::capture(|| Ruleset::<Tb>::print_derive(t(), "one.rules", "two.rules"));
    let (can, cannot) = rs.derive(t(), &ru, Limits::deriving());
    let lines: Vec<&str> = out.lines().collect();
    let numbers = |s: &str| -> Vec<usize> { s.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect() };
    ensure!(lines.len() >= 2, "printed only {:?}", out);
    ensure!(numbers(lines[0]) == [rules.len(), against.len()], "rulesets of {} and {} rules are announced as {:?}", rules.len(), against.len(), lines[0]);
    ensure!(numbers(lines[1]) == [can.len(), cannot.len()], "{} derivable and {} not, printed {:?}", can.len(), cannot.len(), lines[1]);
    let mut shown = vec![];
    for l in &lines[2..] {
        match l.split_once(" <=> ") {
            Some((a, b)) => {
                shown.push(format!("{} ==> {}", a, b));
                if a != b {
                    shown.push(format!("{} ==> {}", b, a));
                }
            }
            None => shown.push(l.to_string()),
        }
    }
    let mut want = cannot.to_str_vec();
    want.sort();
    shown.sort();
    ensure!(shown == want, "the missing rules {:?} are printed as {:?}", want, &lines[2..]);
    g.nontrivial_if(!can.is_empty() && !cannot.is_empty());
    Ok(())
}

/// Every rule of a ruleset is derivable from it, with values and folding as well.
fn own(g: &mut G) -> R {
    let mut al = gen_alg(g, 3, false);
    al.interval = g.size(0, 2) as u8;
    al.samples = vec![];
    let al = set_alg(al);
    let rules = dedup_rules(gen_valid_rules(g, al, 4));
    if rules.is_empty() {
        return Err(Stop::Discard);
    }
    let iters = g.size(1, 2);
    g.input(format!("{} | {} | {} iterations", al.describe(), rules_text(&rules), iters));
    let sides: Vec<T> = rules.iter().flat_map(|(l, r)| [l.clone(), r.clone()]).collect();
    if !oracle::run_saturating(egraph::<Tb>(&sides), &rules, iters, 3000).1 {
        return Err(Stop::Discard);
    }
    let rs: Ruleset<Tb> = ruleset(&rules);
    g.nontrivial_if(rules.iter().any(|(l, r)| l != r));
    for (l, r) in &rules {
        let ru = rule(l, r).unwrap();
        for t in [DeriveType::Lhs, DeriveType::LhsAndRhs] {
            ensure!(rs.can_derive(t, &ru, limits(iters, BIG, BIG)), "{} is not derivable ({:?}) from a ruleset containing it", ru, t);
        }
    }
    // and nothing untrue is derivable
    let vars = &VARS[..2];
    for _ in 0..4 {
        let (l, r) = (gen_term(g, vars, al.k, 2), gen_term(g, vars, al.k, 2));
        if let Some(ru) = rule(&l, &r) {
            if !oracle::run_saturating(egraph::<Tb>(&[l.clone(), r.clone()]), &rules, iters, 3000).1 {
                continue;
            }
            let (x, y) = (
                rs.can_derive(DeriveType::Lhs, &ru, limits(iters, BIG, BIG)),
                rs.can_derive(DeriveType::LhsAndRhs, &ru, limits(iters, BIG, BIG)),
            );
            ensure!(!(x || y) || al.same(&l, &r), "{} is reported derivable from rules that are true, but is false", ru);
            ensure!(!x || y, "{} is derivable from its left side but not from both", ru);
            g.label_if(y && l != r, "derivable");
        }
    }
    Ok(())
}

fn main() {
    vharness::engine::main(Prop {
        id: "C15",
        rule: "verdicts: arbitrary rulesets and goals (terms reached by rewriting, instances, reverses, own rules, random), iterations 0-4; both modes must answer exactly as a saturating schedule of plain egg, smaller node and match limits may only lose answers. sums: reordered sums of up to seven terms by commutativity and associativity, thousands of nodes. split: both parts of the derive partition, in order (own rules and limits that run out included). report: the printed comparison of two rule files gives both sizes, both counts and lists the rest exactly. own: rules true in a random algebra (with folding) derive themselves and nothing false. Non-trivial: derivable with different sides; both parts non-empty.",
        assumptions: &["egg itself is trusted"],
        subs: vec![
            Sub { name: "verdicts", quick: 70_000, thorough: 1_500_000, f: verdicts },
            Sub { name: "sums", quick: 1_500, thorough: 40_000, f: sums },
            Sub { name: "split", quick: 25_000, thorough: 500_000, f: split },
            Sub { name: "report", quick: 4_000, thorough: 80_000, f: report },
            Sub { name: "own", quick: 25_000, thorough: 500_000, f: own },
        ],
        init: tb::init,
    })
}
