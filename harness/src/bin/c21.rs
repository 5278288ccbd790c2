//! C21: generalizing terms to rules renames variables consistently; scores order rules as documented.
#![allow(unused_imports, unused_mut, dead_code)]
use egg::RecExpr;
use ruler::enumo::Rule;
use ruler::{HashMap, Pattern, Symbol, SynthLanguage, Var};
use std::collections::{BTreeMap, BTreeSet};
use vharness::engine::*;
use vharness::oracle::subterms;
use vharness::scen::*;
use vharness::sx::*;
use vharness::tb::{self, *};
use vharness::{ensure, fail};

mod bv {
    ruler::impl_bv!(8);
}

const NAMES: &[&str] = &["x", "y", "a", "b", "c", "z", "d", "x1", "foo", "e", "A", "a1", "v_2", "Z", "w", "q1", "f", "g", "h", "i", "j", "k", "B", "C", "m", "zz"];

/// The pattern is the term with variables renamed; extends the renaming.
fn renamed(t: &T, p: &T, m: &mut BTreeMap<String, String>) -> Result<(), String> {
    match (t, p) {
        (T::A(s), T::A(q)) => {
            if s.parse::<u8>().is_ok() {
                return if s == q { Ok(()) } else { Err(format!("the literal {} became {}", s, q)) };
            }
            if !q.starts_with('?') {
                return Err(format!("the variable {} became {}", s, q));
            }
            match m.get(s) {
                Some(o) if o != q => Err(format!("the variable {} became both {} and {}", s, o, q)),
                Some(_) => Ok(()),
                None => {
                    if let Some((o, _)) = m.iter().find(|(_, v)| *v == q) {
                        return Err(format!("the variables {} and {} both became {}", o, s, q));
                    }
                    m.insert(s.clone(), q.clone());
                    Ok(())
                }
            }
        }
        (T::L(xs), T::L(ys)) if xs.len() == ys.len() && xs[0] == ys[0] => {
            for (x, y) in xs[1..].iter().zip(&ys[1..]) {
                renamed(x, y, m)?;
            }
            Ok(())
        }
        _ => Err(format!("{} became {}", t, p)),
    }
}

fn gen_pair(g: &mut G, bvs: bool) -> Vec<T> {
    let n = if g.chance(2) {
        g.size(13, 26)
    } else if g.chance(6) {
        g.size(7, 12)
    } else {
        g.size(0, 6)
    };
    let mut names: Vec<&str> = NAMES.to_vec();
    g.shuffle(&mut names);
    names.truncate(n);
    let k = g.size(1, 3);
    let mut out: Vec<T> = vec![];
    for _ in 0..k {
        let d = if n > 6 { 4 } else { g.size(0, 3) };
        let t = if n > 12 && out.is_empty() {
            // all of them
            names.iter().skip(1).fold(a(names[0]), |t, v| l(*g.pick(BI), if g.bool() { vec![t, a(v)] } else { vec![a(v), t] }))
        } else {
            gen_term(g, &names, 9, d)
        };
        // make sharing likely: reuse an earlier term or one of its parts
        let t = if !out.is_empty() && g.chance(30) {
            let s = subterms(&out);
            let o = g.pick(&s).clone();
            match &t {
                T::L(xs) => {
                    let mut v = xs.clone();
                    let i = g.size(1, v.len() - 1);
                    v[i] = o;
                    T::L(v)
                }
                _ => o,
            }
        } else {
            t
        };
        out.push(if bvs { to_bv(&t) } else { t });
    }
    out
}
fn to_bv(t: &T) -> T {
    match t {
        T::A(_) => t.clone(),
        T::L(xs) => {
            let op = match (xs.len(), xs[0].to_string().as_str()) {
                (2, "p") => "~",
                (2, _) => "-",
                (3, "+") => "+",
                (3, "*") => "--",
                (3, _) => "&",
                _ => return T::L(vec![a("^"), to_bv(&xs[1]), T::L(vec![a("<<"), to_bv(&xs[2]), to_bv(&xs[3])])]),
            };
            let mut v = vec![a(op)];
            v.extend(xs[1..].iter().map(to_bv));
            T::L(v)
        }
    }
}

fn general<L: SynthLanguage>(g: &mut G, bvs: bool) -> R {
    let ts = gen_pair(g, bvs);
    g.input(show(&ts));
    let vars = vars_of(&ts.iter().collect::<Vec<_>>());
    g.nontrivial_if(vars.len() >= 2 && ts.iter().any(|t| matches!(t, T::L(_))));
    g.label_if(vars.len() > 6, "many variables");
    let es: Vec<RecExpr<L>> = ts.iter().map(tb::expr::<L>).collect();
    let mut map: HashMap<Symbol, Var> = Default::default();
    let ps: Vec<Pattern<L>> = es.iter().map(|e| L::generalize(e, &mut map)).collect();
    let texts: Vec<T> = ps.iter().map(pat_t).collect();
    g.add_input(format!("gives {}", show(&texts)));
    let mut m = BTreeMap::new();
    for (t, p) in ts.iter().zip(&texts) {
        if let Err(e) = renamed(t, p, &mut m) {
            fail!("{}", e);
        }
    }
    let rec: BTreeMap<String, String> = map.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
    ensure!(rec == m, "the recorded renaming is {:?}, the patterns use {:?}", rec, m);
    for (e, t) in es.iter().zip(&ts) {
        ensure!(expr_t(e) == *t, "the term itself changed to {}", e);
    }
    // text of the rule and instances
    for i in 1..ps.len() {
        let (p, q) = (&ps[i - 1], &ps[i]);
        let lv: BTreeSet<String> = p.vars().iter().map(|v| v.to_string()).collect();
        let rule = Rule::<L>::new(p, q);
        let ok = q.vars().iter().all(|v| lv.contains(&v.to_string()));
        ensure!(rule.is_some() == ok, "a rule {} ==> {} {}", p, q, if ok { "cannot be made" } else { "can be made" });
        if let Some(r) = rule {
            ensure!(r.name.to_string() == format!("{} ==> {}", texts[i - 1], texts[i]), "the rule is called {}", r.name);
        }
    }
    // the names of the variables do not matter
    let mut fresh: Vec<&str> = NAMES.to_vec();
    g.shuffle(&mut fresh);
    let ren: BTreeMap<String, String> = vars.iter().zip(&fresh).map(|(v, f)| (v.clone(), f.to_string())).collect();
    let us: Vec<T> = ts.iter().map(|t| rename(t, &|s| ren[s].clone())).collect();
    let mut map2: HashMap<Symbol, Var> = Default::default();
    let qs: Vec<T> = us.iter().map(|t| pat_t(&L::generalize(&tb::expr::<L>(t), &mut map2))).collect();
    ensure!(qs == texts, "with the variables renamed to {} the patterns are {}", show(&us), show(&qs));
    // instantiating gives the pattern's variables as variables, and generalizing that the pattern again
    let mut map3: HashMap<Symbol, Var> = Default::default();
    let mut m3 = BTreeMap::new();
    for (p, t) in ps.iter().zip(&texts) {
        let e = L::instantiate(p);
        let s = strip(t);
        ensure!(expr_t(&e) == s, "instantiating {} gives {}", t, e);
        let again = pat_t(&L::generalize(&e, &mut map3));
        if let Err(e) = renamed(&s, &again, &mut m3) {
            fail!("generalizing {} again: {}", s, e);
        }
    }
    Ok(())
}
fn tables(g: &mut G) -> R {
    general::<Tb>(g, false)
}
fn bitvectors(g: &mut G) -> R {
    general::<bv::Bv>(g, true)
}

fn score(g: &mut G) -> R {
    let mut rules: Vec<(T, T)> = vec![];
    let n = if g.chance(3) { g.size(5, 20) } else { g.size(2, 5) };
    for _ in 0..n {
        let nv = if g.chance(5) { g.size(4, 6) } else { g.size(1, 4) };
        let mut vars = VARS.to_vec();
        g.shuffle(&mut vars);
        vars.truncate(nv);
        let (dl, dr) = if nv > 4 { (5, 5) } else { (g.size(1, 3), g.size(0, 3)) };
        let k = 9;
        if g.chance(40) && !rules.is_empty() {
            // a small variation of an earlier rule
            let (l0, r0) = g.pick(&rules).clone();
            let (x, y) = match g.below(4) {
                0 => (l(*g.pick(UN), vec![l0]), r0),
                1 => (l0.clone(), l(*g.pick(BI), vec![r0.clone(), r0])),
                2 => (r0, l0),
                _ => {
                    let s = subterms(&[l0.clone(), r0.clone()]);
                    let o = g.pick(&s).clone();
                    (l(*g.pick(BI), vec![l0, o.clone()]), o)
                }
            };
            rules.push((x, y));
        } else {
            rules.push((gen_term(g, &vars, k, dl), gen_term(g, &vars, k, dr)));
        }
    }
    let rules: Vec<(T, T)> = rules
        .into_iter()
        .map(|(x, y)| {
            let (vx, vy) = (vars_of(&[&x]), vars_of(&[&y]));
            if vy.iter().all(|v| vx.contains(v)) {
                (x, y)
            } else {
                (l("+", vec![x, y.clone()]), y)
            }
        })
        .collect();
    g.input(rules_text(&rules));
    g.nontrivial();
    let made: Vec<Rule<Tb>> =
        rules.iter().map(|(x, y)| Rule::new(&tb::pattern(&to_pat(x)), &tb::pattern(&to_pat(y))).unwrap()).collect();
    for i in 0..rules.len() {
        let (p, q) = (&made[i].lhs, &made[i].rhs);
        let si = Tb::score(p, q);
        for j in 0..rules.len() {
            let sj = Tb::score(&made[j].lhs, &made[j].rhs);
            let want = ref_score(&rules[i].0, &rules[i].1).cmp(&ref_score(&rules[j].0, &rules[j].1));
            ensure!(si.cmp(&sj) == want, "{} against {}: scores compare {:?}, by the documented order {:?}", made[i], made[j], si.cmp(&sj), want);
            ensure!(made[i].score().cmp(&made[j].score()) == want, "{} against {}: the rules' scores compare otherwise", made[i], made[j]);
            g.label_if(i < j && want == std::cmp::Ordering::Equal, "equal scores");
        }
        // the direction does not matter, nor do names
        ensure!(Tb::score(q, p) == si, "{} scores {:?} and {:?} reversed", made[i], si, Tb::score(q, p));
        let ren = |t: &T| to_pat(&rename(t, &|s| format!("{}9", s)));
        let (p2, q2) = (tb::pattern::<Tb>(&ren(&rules[i].0)), tb::pattern::<Tb>(&ren(&rules[i].1)));
        ensure!(Tb::score(&p2, &q2) == si, "{} scores differently with other variable names", made[i]);
    }
    Ok(())
}

fn main() {
    vharness::engine::main(Prop {
        id: "C21",
        rule: "Groups of 1-3 terms over up to 12, rarely 26, variables whose names include the letters that generalization hands out, in a table-driven domain and in 8-bit vectors, generalized with one map and compared with the renaming read off the patterns; repeated with renamed variables; instantiated and generalized again. score: groups of 2-5 rules, many of them small variations of each other, all pairs compared with the documented lexicographic order. Non-trivial: at least two variables and an operator; every group of rules.",
        assumptions: &["at most 26 different variables in a rule, as the names are single letters", "a constant counts once per side"],
        subs: vec![
            Sub { name: "tables", quick: 250_000, thorough: 6_000_000, f: tables },
            Sub { name: "bitvectors", quick: 80_000, thorough: 2_000_000, f: bitvectors },
            Sub { name: "score", quick: 150_000, thorough: 4_000_000, f: score },
        ],
        init: tb::init,
    })
}
