//! C02: a filter keeps exactly the terms that satisfy its definition.
use ruler::enumo::Workload;
use vharness::engine::*;
use vharness::ensure;
use vharness::gen;
use vharness::sx::*;

fn kept(f: &Fil, t: &T) -> bool {
    !Workload::Filter(f.to_ruler(), Box::new(Workload::Set(vec![t.to_sexp()]))).force().is_empty()
}

/// Single term, single (possibly nested) filter.
fn test(g: &mut G) -> R {
    let t = if g.chance(5) {
        let d = g.size(0, 12);
        gen::deep(g, d)
    } else {
        let d = g.size(0, 4);
        gen::term(g, d)
    };
    let fd = g.size(0, 3);
    let f = gen::filter(g, fd, std::slice::from_ref(&t));
    g.input(format!("{} on {}", f, t));
    let e = f.test(&t);
    g.label_if(e, "kept");
    g.label_if(!e, "rejected");
    g.label_if(matches!(f, Fil::And(_) | Fil::Or(_) | Fil::Not(_)), "connective");
    g.label_if(matches!(f, Fil::Contains(_) | Fil::Excludes(_)), "pattern");
    g.label_if(matches!(f, Fil::Canon(_)), "canon");
    g.label_if(matches!(f, Fil::Lt(..) | Fil::Eq(..)), "metric");
    g.nontrivial_if(matches!(t, T::L(_)));
    ensure!(kept(&f, &t) == e, "filter {} on {}: expected {}", f, t, if e { "kept" } else { "rejected" });
    Ok(())
}

/// Metric boundaries: the bound is placed at, just below and just above the real size.
fn metric(g: &mut G) -> R {
    let t = if g.below(400) == 0 {
        // sizes beyond a byte
        let n = g.size(240, 300);
        g.label("hundreds of parts");
        match g.below(3) {
            0 => gen::deep(g, n),
            1 => T::L(vec![T::A("a".into()); n]),
            _ => T::L((0..n).map(|i| if i % 3 == 0 { T::A("b".into()) } else { T::L(vec![T::A("a".into())]) }).collect()),
        }
    } else if g.chance(10) {
        let d = g.size(0, 30);
        gen::deep(g, d)
    } else {
        let d = g.size(0, 5);
        gen::term(g, d)
    };
    let m = Met::gen(g);
    let v = m.of(&t);
    let n = (v + g.size(0, 2)).saturating_sub(1);
    g.input(format!("{:?} {} on {}", m, n, t));
    g.nontrivial_if(matches!(t, T::L(_)));
    for f in [Fil::Lt(m, n), Fil::Eq(m, n)] {
        ensure!(kept(&f, &t) == f.test(&t), "filter {} on {} ({:?} = {})", f, t, m, v);
    }
    Ok(())
}

fn pat_shape(g: &mut G, d: usize, root: bool) -> Pat {
    if !root && (d == 0 || g.chance(60)) {
        return match g.weighted(&[7, 2, 1]) {
            0 => Pat::Var(gen::pvar(g)),
            1 => Pat::Lit(g.pick(&["a", "b", "+"]).to_string()),
            _ => Pat::Wild,
        };
    }
    let n = if g.chance(5) { g.size(4, 9) } else { g.size(1, 4) };
    Pat::List((0..n).map(|_| pat_shape(g, d - 1, false)).collect())
}

/// An instance of the pattern in which every variable usually stands for one term, and sometimes
/// an occurrence deviates.
fn instance(g: &mut G, p: &Pat, bind: &mut Vec<(String, T)>, dev: u64, used_dev: &mut bool) -> T {
    match p {
        Pat::Wild => gen::term(g, 1),
        Pat::Lit(s) => T::A(s.clone()),
        Pat::Var(v) => {
            if let Some((_, t)) = bind.iter().find(|(w, _)| w == v) {
                let t = t.clone();
                if g.chance(dev) {
                    *used_dev = true;
                    return match g.below(4) {
                        0 => gen::term(g, 1),
                        // an atom whose text is that of the other term
                        3 => T::A(t.to_sexp().to_string()),
                        1 => T::L(vec![t]),
                        _ => {
                            let (from, to) = (gen::atom(g), gen::atom(g));
                            t.map_atoms(&|x| if x == from { to.clone() } else { x.to_string() })
                        }
                    };
                }
                t
            } else {
                let t = if g.bool() && !bind.is_empty() { bind[0].1.clone() } else { gen::term(g, 2) };
                bind.push((v.clone(), t.clone()));
                t
            }
        }
        Pat::List(ps) => T::L(ps.iter().map(|q| instance(g, q, bind, dev, used_dev)).collect()),
    }
}

/// Patterns with repeated variables, on instances of them (exact or with one occurrence changed),
/// alone or buried in a larger term next to another partial instance.
fn nonlinear(g: &mut G) -> R {
    let p = pat_shape(g, 3, true);
    let mut dev = false;
    let pct = *g.pick(&[0u64, 30]);
    let t = instance(g, &p, &mut vec![], pct, &mut dev);
    let x = match g.below(3) {
        0 => t.clone(),
        1 => T::L(vec![T::A("f".into()), t.clone(), gen::term(g, 2)]),
        _ => {
            let mut d2 = false;
            let u = instance(g, &p, &mut vec![], 50, &mut d2);
            T::L(vec![T::A("g".into()), u, T::L(vec![T::A("f".into()), t.clone()])])
        }
    };
    g.input(format!("{} on {}", p, x));
    let shape = format!("{}", p);
    let words: Vec<&str> = shape.split(|c: char| c == '(' || c == ')' || c == ' ').filter(|w| w.starts_with('?')).collect();
    let rep = words.iter().any(|v| words.iter().filter(|w| w == &v).count() > 1);
    g.label_if(rep, "repeated variable");
    g.label_if(dev, "deviating occurrence");
    let f = Fil::Contains(p.clone());
    g.label_if(f.test(&x), "matches");
    g.nontrivial_if(rep);
    for f in [Fil::Contains(p.clone()), Fil::Excludes(p.clone()), Fil::Not(Box::new(Fil::Contains(p.clone())))] {
        ensure!(kept(&f, &x) == f.test(&x), "filter {} on {}: expected {}", f, x, f.test(&x));
    }
    Ok(())
}

/// Patterns read from text mean the same as patterns built directly.
fn pattern_text(g: &mut G) -> R {
    let d = g.size(0, 4);
    let t = gen::term(g, d);
    let mut subs = vec![];
    t.subterms(&mut subs);
    let s = (*g.pick(&subs)).clone();
    // in pattern text * and ?v are special, so the literals must not be
    let odd = |x: &str| gen::ODD_ATOMS.contains(&x);
    let mut ls = vec![];
    s.leaves(&mut ls);
    if ls.iter().any(|x| odd(x)) {
        return Err(Stop::Discard);
    }
    let p = if g.chance(70) { gen::pat_from(g, &s) } else { gen::pat(g, 3) };
    g.input(format!("{} on {}", p, t));
    g.nontrivial_if(matches!(p, Pat::List(_)));
    let parsed: ruler::enumo::Pattern = p.to_string().parse().unwrap();
    ensure!(parsed == p.to_ruler(), "pattern text {} parsed as {:?}", p, parsed);
    let real = !Workload::Set(vec![t.to_sexp()]).filter(ruler::enumo::Filter::Contains(parsed)).force().is_empty();
    let f = Fil::Contains(p);
    ensure!(real == f.test(&t), "{} on {}: expected {}", f, t, f.test(&t));
    Ok(())
}

/// Canon on terms over few symbols: permutations and repetitions of the listed symbols.
fn canon(g: &mut G) -> R {
    let names = ["a", "b", "c", "d", "e", "p", "q", "r", "s", "t", "u", "v"];
    let k = if g.chance(8) { g.size(4, 12) } else { g.size(1, 4) };
    let mut syms: Vec<String> = names[..k].iter().map(|s| s.to_string()).collect();
    if g.bool() {
        g.shuffle(&mut syms);
    }
    // mostly the next symbol in order, so that canonical terms with many symbols come up
    fn go(g: &mut G, d: usize, syms: &[String], next: &mut usize, tidy: u64) -> T {
        if d == 0 || !g.chance(60) {
            if g.chance(tidy) {
                let hi = (*next).min(syms.len() - 1);
                let i = if g.chance(70) { hi } else { g.size(0, hi) };
                *next = (*next).max(i + 1);
                return T::A(syms[i].clone());
            }
            return if g.chance(20) { T::A("z".into()) } else { T::A(g.pick(syms).clone()) };
        }
        let n = if g.chance(10) { g.size(3, 8) } else { g.size(1, 3) };
        let mut v: Vec<T> = vec![T::A("+".into())];
        v.extend((0..n).map(|_| go(g, d - 1, syms, next, tidy)));
        T::L(v)
    }
    let tidy = *g.pick(&[0u64, 90, 100]);
    let t = go(g, 3, &syms, &mut 0, tidy);
    let f = Fil::Canon(syms);
    g.input(format!("{} on {}", f, t));
    let e = f.test(&t);
    g.label_if(e, "canonical");
    g.nontrivial_if(matches!(t, T::L(_)));
    ensure!(kept(&f, &t) == e, "{} on {}: expected {}", f, t, e);
    Ok(())
}

/// On a whole term list the filter keeps order and repetitions of the kept terms.
fn list(g: &mut G) -> R {
    let ts = gen::terms(g, 12, 3);
    let f = gen::filter(g, 2, &ts);
    g.input(format!("{} on {}", f, show(&ts)));
    let e: Vec<T> = ts.iter().filter(|t| f.test(t)).cloned().collect();
    g.nontrivial_if(!e.is_empty() && e.len() < ts.len());
    let r: Vec<T> =
        Workload::Set(ts.iter().map(|t| t.to_sexp()).collect()).filter(f.to_ruler()).force().iter().map(T::of_sexp).collect();
    ensure!(r == e, "{} on {}: expected {}, got {}", f, show(&ts), show(&e), show(&r));
    Ok(())
}

fn main() {
    vharness::engine::main(Prop {
        id: "C02",
        rule: "random terms and filters (patterns abstracted from subterms of the term, metric bounds around the real size, symbol orders, nested connectives) compared with a reference definition. Non-trivial: the term is a list, for pattern cases the pattern has variables and structure, for list cases some but not all terms are kept.",
        assumptions: &["lists in terms are non-empty"],
        subs: vec![
            Sub { name: "test", quick: 2_000_000, thorough: 10_000_000, f: test },
            Sub { name: "metric", quick: 600_000, thorough: 3_000_000, f: metric },
            Sub { name: "nonlinear", quick: 1_500_000, thorough: 8_000_000, f: nonlinear },
            Sub { name: "pattern-text", quick: 400_000, thorough: 2_000_000, f: pattern_text },
            Sub { name: "canon", quick: 600_000, thorough: 3_000_000, f: canon },
            Sub { name: "list", quick: 400_000, thorough: 2_000_000, f: list },
        ],
        init: || (),
    })
}
