//! C03: grammar iteration enumerates every term up to the bound exactly once.
use ruler::enumo::Workload;
use ruler::recipe_utils::{base_lang, iter_metric, substitute};
use vharness::engine::*;
use vharness::ensure;
use vharness::gen;
use vharness::sx::*;

/// A production: an operator applied to terminals, small closed terms and nonterminal occurrences.
fn production(g: &mut G, nt: &str, op: usize) -> T {
    let opn = format!("op{}", op);
    let n = if g.chance(4) { g.size(3, 6) } else { g.size(1, 3) };
    let mut v = vec![T::A(opn)];
    for _ in 0..n {
        v.push(match g.weighted(&[5, 2, 1]) {
            0 => T::A(nt.to_string()),
            1 => T::A(g.pick(&["t", "u"]).to_string()),
            _ => {
                // nested operator inside the production
                if g.bool() {
                    T::L(vec![T::A("h".into()), T::A(nt.to_string())])
                } else {
                    T::L(vec![T::A("h".into()), T::A("t".into())])
                }
            }
        });
    }
    T::L(v)
}

/// All terms of the grammar with metric <= n, by an independent bottom-up enumeration: a term is
/// in the language iff it is a production with every nonterminal occurrence replaced by a term of
/// the language (occurrences independent). Fixpoint over the finite set of terms within the bound.
fn language(prods: &[T], nt: &str, m: Met, n: usize, cap: usize) -> Option<Vec<T>> {
    let mut lang: std::collections::BTreeSet<T> = Default::default();
    loop {
        let have: Vec<T> = lang.iter().cloned().collect();
        let mut grew = false;
        for p in prods {
            // prune: enumerate fillings recursively with the bound checked on completed terms
            let mut ls = vec![];
            p.leaves(&mut ls);
            let occ = ls.iter().filter(|x| **x == nt).count();
            if occ > 0 && (have.len() as f64).powi(occ as i32) > 200_000.0 {
                return None;
            }
            for t in p.plug(nt, &have) {
                if m.of(&t) <= n && lang.insert(t) {
                    grew = true;
                    if lang.len() > cap {
                        return None;
                    }
                }
            }
        }
        if !grew {
            return Some(lang.into_iter().collect());
        }
    }
}

fn iter(g: &mut G) -> R {
    let nt = g.pick(&["EXPR", "E", "a", "X1"]).to_string();
    let mut prods: Vec<T> = vec![];
    let nterm = if g.chance(5) { g.size(3, 7) } else if g.chance(95) { g.size(1, 3) } else { 0 };
    for i in 0..nterm {
        if g.chance(80) {
            prods.push(T::A(format!("k{}", i)));
        } else {
            prods.push(T::L(vec![T::A("c".into()), T::A(format!("k{}", i))]));
        }
    }
    let nops = if g.chance(5) { g.size(3, 6) } else if g.chance(92) { g.size(1, 3) } else { 0 };
    for i in 0..nops {
        prods.push(production(g, &nt, i));
    }
    g.shuffle(&mut prods);
    // an unambiguous grammar: pairwise distinct productions (operators are distinct by name)
    let m = Met::gen(g);
    let n = match m {
        Met::Atoms => if g.chance(10) { g.size(7, 16) } else { g.size(1, 7) },
        Met::Lists | Met::Depth => if g.chance(10) { g.size(3, 9) } else { g.size(1, 3) },
    };
    g.input(format!("grammar {} nonterminal {} {:?} <= {}", show(&prods), nt, m, n));
    let expected = match language(&prods, &nt, m, n, 1200) {
        Some(e) => e,
        None => return Err(Stop::Discard),
    };
    let wk = Workload::new(prods.iter().map(|t| t.to_string()));
    // guard against blow-up inside the code under test: stages are bounded by |L|^occurrences
    let maxocc = prods
        .iter()
        .map(|p| {
            let mut ls = vec![];
            p.leaves(&mut ls);
            ls.iter().filter(|x| **x == nt.as_str()).count()
        })
        .max()
        .unwrap_or(0);
    if ((expected.len() + prods.len()) as f64).powi(maxocc as i32) * (n as f64) > 200_000.0 {
        return Err(Stop::Discard);
    }
    let actual: Vec<T> = iter_metric(wk, &nt, m.to_ruler(), n).force().iter().map(T::of_sexp).collect();
    g.label_if(matches!(m, Met::Atoms), "atoms");
    g.label_if(matches!(m, Met::Lists), "lists");
    g.label_if(matches!(m, Met::Depth), "depth");
    g.label_if(expected.len() > 50, "more than 50 terms");
    g.nontrivial_if(expected.len() > prods.len());
    ensure!(sorted(actual.clone()) == expected, "grammar {} over {}, {:?} <= {}: {}", show(&prods), nt, m, n, diff(&expected, &actual));
    Ok(())
}

fn base(g: &mut G) -> R {
    let k = g.size(0, 7);
    let m = Met::gen(g);
    let n = match m {
        Met::Atoms => g.size(1, if k > 4 { 5 } else { 6 }),
        _ => g.size(1, 2),
    };
    g.input(format!("base_lang({}) {:?} <= {}", k, m, n));
    let mut prods = vec![a("VAR"), a("VAL")];
    for i in 1..=k {
        prods.push(l(&format!("OP{}", i), (0..i).map(|_| a("EXPR")).collect()));
    }
    let b: Vec<T> = base_lang(k).force().iter().map(T::of_sexp).collect();
    ensure!(sorted(b.clone()) == sorted(prods.clone()), "base_lang({}) is {}", k, show(&b));
    let expected = match language(&prods, "EXPR", m, n, 1500) {
        Some(e) => e,
        None => return Err(Stop::Discard),
    };
    if ((expected.len() + 3) as f64).powi(k as i32) > 400_000.0 {
        return Err(Stop::Discard);
    }
    g.nontrivial_if(k > 0);
    let actual: Vec<T> = iter_metric(base_lang(k), "EXPR", m.to_ruler(), n).force().iter().map(T::of_sexp).collect();
    ensure!(sorted(actual.clone()) == expected, "base_lang({}) {:?} <= {}: {}", k, m, n, diff(&expected, &actual));
    Ok(())
}

fn subst(g: &mut G) -> R {
    let ts = gen::terms(g, 6, 3);
    let subs = gen::terms(g, 4, 2);
    let mut name = gen::atom(g);
    if !ts.is_empty() && g.chance(70) {
        let t = g.pick(&ts).clone();
        let mut ls = vec![];
        t.leaves(&mut ls);
        name = g.pick(&ls).to_string();
    }
    g.input(format!("{{{}}} [{} := {}]", show(&ts), name, show(&subs)));
    let mut expected = vec![];
    for s in &subs {
        for t in &ts {
            expected.push(t.subst1(&name, s));
        }
    }
    let occurs = ts.iter().any(|t| {
        let mut ls = vec![];
        t.leaves(&mut ls);
        ls.iter().filter(|x| **x == name).count() > 1
    });
    g.label_if(occurs, "several occurrences in a term");
    g.nontrivial_if(occurs && subs.len() > 1);
    let set = |v: &[T]| Workload::Set(v.iter().map(|t| t.to_sexp()).collect());
    // the substitutes may themselves be a composed workload
    let sub_w = if g.bool() {
        set(&subs)
    } else {
        let k = subs.len() / 2;
        Workload::Append(vec![set(&subs[..k]), set(&subs[k..])])
    };
    let actual: Vec<T> = substitute(set(&ts), sub_w, &name).force().iter().map(T::of_sexp).collect();
    ensure!(
        sorted(actual.clone()) == sorted(expected.clone()),
        "substitute {} in {{{}}} by {{{}}}: {}",
        name,
        show(&ts),
        show(&subs),
        diff(&expected, &actual)
    );
    Ok(())
}

fn main() {
    vharness::engine::main(Prop {
        id: "C03",
        rule: "random grammars (0-3, rarely 7, terminals, 0-3, rarely 6, operator productions, usually with up to three arguments, including nested operators), nonterminal names, metrics and bounds, compared with an independent bottom-up enumeration; base grammars of arity up to 7; random substitutions. Non-trivial: the language has more terms than productions (iteration), the atom occurs repeatedly in a term and there are several substitutes (substitution).",
        assumptions: &["recursive productions carry an operator atom", "productions are pairwise distinct by operator", "languages of more than 1500 terms are discarded"],
        subs: vec![
            Sub { name: "iter", quick: 9_000, thorough: 200_000, f: iter },
            Sub { name: "base", quick: 150, thorough: 3_000, f: base },
            Sub { name: "substitute", quick: 60_000, thorough: 1_000_000, f: subst },
        ],
        init: || (),
    })
}
