//! C05: terms, patterns, workloads and rulesets survive printing and parsing.
use egg::SymbolLang;
use ruler::enumo::{Filter, Metric, Pattern, Rule, Ruleset, Sexp, Workload};
use vharness::engine::*;
use vharness::gen;
use vharness::sx::*;
use vharness::tb::{self, *};
use vharness::{ensure, fail, io};

const CHARS: &[char] = &[
    'a', 'b', 'Z', '0', '9', '-', '+', '*', '/', '<', '>', '=', '!', '?', '&', '|', '^', '~', '%', '$', '@', ':', '.', ',', ';', '#', '_',
    '\'', '`', '[', ']', '{', '}', '\\', 'é', 'λ', '∧', '😀',
];
/// Any atom without blanks, parentheses and double quotes.
fn atom(g: &mut G) -> String {
    if g.chance(40) {
        return gen::atom(g);
    }
    let n = g.tail(1, 5, 60, 2);
    (0..n).map(|_| *g.pick(CHARS)).collect()
}
fn term(g: &mut G, depth: usize) -> T {
    if depth == 0 || !g.chance(60) {
        return T::A(atom(g));
    }
    let n = if g.chance(5) { 0 } else { g.tail(1, 4, 14, 2) };
    T::L((0..n).map(|_| term(g, depth - 1)).collect())
}
/// The term as text with blanks wherever they are allowed.
fn spaced(g: &mut G, t: &T) -> String {
    let blank = |g: &mut G, lo: usize| " ".repeat(g.small(lo, 3));
    match t {
        T::A(s) => s.clone(),
        T::L(xs) => {
            let mut s = format!("({}", blank(g, 0));
            for (i, x) in xs.iter().enumerate() {
                if i > 0 {
                    let both = matches!(x, T::A(_)) && matches!(xs[i - 1], T::A(_));
                    s.push_str(&blank(g, if both { 1 } else { 0 }));
                }
                s.push_str(&spaced(g, x));
            }
            format!("{}{})", s, blank(g, 0))
        }
    }
}

fn terms(g: &mut G) -> R {
    let t = if g.chance(2) {
        // deep nesting
        let n = g.size(50, 300);
        let mut t = T::A(atom(g));
        for _ in 0..n {
            t = if g.bool() { T::L(vec![a("f"), t]) } else { T::L(vec![t, a("g")]) };
        }
        t
    } else {
        let d = g.size(0, 4);
        term(g, d)
    };
    g.input(t.to_string().chars().take(300).collect::<String>());
    g.nontrivial_if(matches!(t, T::L(_)));
    let s = t.to_sexp();
    let text = s.to_string();
    ensure!(T::parse(&text).as_ref() == Some(&t), "{:?} prints as {:?}", t, text);
    match text.parse::<Sexp>() {
        Ok(b) => ensure!(b == s, "{:?} printed and parsed is {:?}", s, b),
        Err(e) => fail!("{:?} does not parse: {}", text, e),
    }
    let text = spaced(g, &t);
    match text.parse::<Sexp>() {
        Ok(b) => ensure!(b == s, "{:?} parses as {:?}", text, b),
        Err(e) => fail!("{:?} does not parse: {}", text, e),
    }
    Ok(())
}

fn patterns(g: &mut G) -> R {
    let d = g.size(0, 4);
    let t = term(g, d);
    g.input(t.to_string());
    fn pat(t: &T) -> Pattern {
        match t {
            T::A(s) if s == "*" => Pattern::Wild,
            T::A(s) if s.starts_with('?') => Pattern::Var(s.clone()),
            T::A(s) => Pattern::Lit(s.clone()),
            T::L(xs) => Pattern::List(xs.iter().map(pat).collect()),
        }
    }
    let want = pat(&t);
    g.nontrivial_if(!matches!(want, Pattern::Lit(_)));
    let text = spaced(g, &t);
    match text.parse::<Pattern>() {
        Ok(b) => ensure!(b == want, "{:?} parses as {:?} instead of {:?}", text, b, want),
        Err(e) => fail!("{:?} does not parse: {}", text, e),
    }
    Ok(())
}

fn workloads(g: &mut G) -> R {
    let n = g.tail(0, 6, 120, 2);
    let mut ts: Vec<T> = (0..n).map(|_| term(g, 3)).collect();
    ts.retain(|t| *t != T::L(vec![]));
    let set = |ts: &[T]| Workload::Set(ts.iter().map(|t| t.to_sexp()).collect());
    let w = match g.below(4) {
        0 => set(&ts),
        1 => {
            let m = g.small(0, 3);
            let pegs: Vec<T> = (0..m).map(|_| term(g, 1)).collect();
            set(&ts).plug("a", &set(&pegs))
        }
        2 => {
            let more: Vec<T> = (0..2).map(|_| term(g, 2)).collect();
            Workload::Append(vec![set(&ts), set(&more), Workload::empty()])
        }
        _ => set(&ts).filter(Filter::MetricLt(Metric::Atoms, 6)),
    };
    // `a` with no pegs can leave nothing, plugs can explode
    let forced = w.force();
    if forced.len() > 500 {
        return Err(Stop::Discard);
    }
    g.input(forced.iter().map(|s| T::of_sexp(s).to_string()).collect::<Vec<_>>().join(" "));
    g.nontrivial_if(!forced.is_empty());
    // the file may have had other, longer contents
    if g.bool() {
        std::fs::write("w.terms", "(old content)\n".repeat(200)).unwrap();
    } else {
        let _ = std::fs::remove_file("w.terms");
    }
    w.to_file("w.terms");
    let back = Workload::from_file("w.terms");
    let got = back.force();
    ensure!(
        got == forced,
        "written and read back: {} instead of {}",
        show(&got.iter().map(T::of_sexp).collect::<Vec<_>>()),
        show(&forced.iter().map(T::of_sexp).collect::<Vec<_>>())
    );
    // reading a second time and writing what was read changes nothing
    back.to_file("w.terms");
    ensure!(Workload::from_file("w.terms").force() == forced, "second round trip differs");
    // the constructor from strings
    let again = Workload::new(forced.iter().map(|s| s.to_string()));
    ensure!(again.force() == forced, "Workload::new of the printed terms differs");
    let strs: Vec<String> = forced.iter().map(|s| s.to_string()).collect();
    let refs: Vec<&str> = strs.iter().map(|s| s.as_str()).collect();
    ensure!(Workload::from(&refs[..]).force() == forced, "Workload::from of the printed terms differs");
    // the printed listing is one term per line
    if g.chance(30) {
        let ((), out) = io::capture(|| w.pretty_print());
        let lines: Vec<String> = out.lines().map(|l| l.to_string()).collect();
        ensure!(lines == strs, "printed as {:?} instead of {:?}", lines, strs);
    }
    Ok(())
}

/// Pattern term for SymbolLang: operators are arbitrary atoms, variables ?x ?y ?z.
fn sym_term(g: &mut G, depth: usize, vars: &[&str]) -> T {
    if depth == 0 || !g.chance(60) {
        return if !vars.is_empty() && g.chance(60) { T::A(g.pick(vars).to_string()) } else { T::A(op(g)) };
    }
    let n = if g.chance(3) { g.size(3, 8) } else { g.size(0, 3) };
    let mut v = vec![T::A(op(g))];
    v.extend((0..n).map(|_| sym_term(g, depth - 1, vars)));
    if v.len() == 1 {
        // a list with only an operator prints as the operator
        return v.pop().unwrap();
    }
    T::L(v)
}
fn op(g: &mut G) -> String {
    let s = atom(g);
    if s.contains("=>") || s.contains('\\') || s.starts_with('?') {
        return "h".into();
    }
    s
}
fn pat_vars(t: &T) -> Vec<String> {
    let mut ls = vec![];
    t.leaves(&mut ls);
    let mut v: Vec<String> = ls.into_iter().filter(|s| s.starts_with('?')).map(|s| s.to_string()).collect();
    v.sort();
    v.dedup();
    v
}

fn check_rule<L: ruler::SynthLanguage>(r: &Rule<L>, l: &T, rhs: &T, how: &str) -> R {
    // some operator names are printed in quotes
    let plain = |s: &str| s.replace('"', "");
    let side = |p: &ruler::Pattern<L>| T::parse(&plain(&p.to_string()));
    ensure!(
        side(&r.lhs).as_ref() == Some(l) && side(&r.rhs).as_ref() == Some(rhs),
        "{}: {} / {} instead of {} / {}",
        how,
        r.lhs,
        r.rhs,
        l,
        rhs
    );
    ensure!(plain(&r.name) == format!("{} ==> {}", l, rhs), "{}: the name is {}", how, r.name);
    ensure!(r.rewrite.name.to_string() == *r.name, "{}: the rewrite is named {}", how, r.rewrite.name);
    Ok(())
}

/// Rules over a language: the expected one-way rules in order, from a list of texts with arrows.
fn rules_of<L: ruler::SynthLanguage>(g: &mut G, pairs: &[(T, T)]) -> R {
    let mut want: Vec<(T, T)> = vec![];
    let mut lines = vec![];
    let mut put = |l: &T, r: &T| {
        if !want.iter().any(|(a, b)| a == l && b == r) {
            want.push((l.clone(), r.clone()))
        }
    };
    for (l, r) in pairs {
        let both = pat_vars(l) == pat_vars(r);
        let arrow = if both && g.chance(40) { "<=>" } else { *g.pick(&["==>", "=>"]) };
        let pad = |g: &mut G| " ".repeat(g.small(1, 3));
        let lead = if g.chance(10) { " " } else { "" };
        lines.push(format!("{}{}{}{}{}{}", lead, spaced(g, l), pad(g), arrow, pad(g), spaced(g, r)));
        put(l, r);
        if arrow == "<=>" {
            put(r, l);
        }
        // one text gives one or two rule objects
        match Rule::<L>::from_string(lines.last().unwrap()) {
            Ok((f, b)) => {
                check_rule(&f, l, r, lines.last().unwrap())?;
                ensure!(b.is_some() == (arrow == "<=>"), "{:?}: backward rule {}", lines.last().unwrap(), b.is_some());
                if let Some(b) = b {
                    check_rule(&b, r, l, lines.last().unwrap())?;
                }
                // the printed rule parses back
                match Rule::<L>::from_string(&f.to_string()) {
                    Ok((f2, None)) => check_rule(&f2, l, r, "printed rule")?,
                    _ => fail!("printed rule {} does not parse back to one rule", f),
                }
            }
            Err(e) => fail!("{:?} is refused: {}", lines.last().unwrap(), e),
        }
    }
    g.input(lines.join(" ;; "));
    g.label_if(lines.iter().any(|l| l.contains("<=>")), "two-way text");
    g.nontrivial_if(!want.is_empty());
    let same = |rs: &Ruleset<L>, how: &str| -> R {
        let names: Vec<String> = want.iter().map(|(l, r)| format!("{} ==> {}", l, r)).collect();
        let got: Vec<String> = rs.to_str_vec().iter().map(|s| s.replace('"', "")).collect();
        ensure!(got == names, "{}: {:?} instead of {:?}", how, got, names);
        for ((k, r), (l, rh)) in rs.0.iter().zip(&want) {
            ensure!(*k == r.name, "{}: stored under {}", how, k);
            check_rule(r, l, rh, how)?;
        }
        Ok(())
    };
    let rs = Ruleset::<L>::new(&lines);
    same(&rs, "from text")?;
    same(&Ruleset::new(rs.to_str_vec()), "from its own listing")?;
    if g.bool() {
        std::fs::write("r.rules", "(old ?a) ==> (content ?a)\n".repeat(200)).unwrap();
    } else {
        let _ = std::fs::remove_file("r.rules");
    }
    rs.to_file("r.rules");
    let back = Ruleset::<L>::from_file("r.rules");
    same(&back, "written and read back")?;
    ensure!(back == rs, "the ruleset read back is not equal to the one written");
    // a hand-written file with all kinds of arrows
    std::fs::write("h.rules", lines.iter().map(|l| format!("{}\n", l)).collect::<String>()).unwrap();
    same(&Ruleset::from_file("h.rules"), "read from a file with arrows")?;
    Ok(())
}

fn rules_sym(g: &mut G) -> R {
    let n = g.tail(0, 6, 60, 2);
    let mut pairs = vec![];
    for _ in 0..n {
        let l = sym_term(g, 3, &["?x", "?y", "?long-name", "?0"]);
        let vs = pat_vars(&l);
        let vs: Vec<&str> = vs.iter().map(|s| s.as_str()).collect();
        let r = if g.chance(20) { l.clone() } else { sym_term(g, 3, &vs) };
        pairs.push((l, r));
    }
    rules_of::<SymbolLang>(g, &pairs)
}
fn rules_tb(g: &mut G) -> R {
    let mut rs = gen_any_rules(g, 3, 6);
    if g.chance(50) {
        rs.extend(rs.clone().into_iter().map(|(l, r)| (r, l)).filter(|(l, r)| vars_of(&[r]).iter().all(|v| vars_of(&[l]).contains(v))));
    }
    let pairs: Vec<(T, T)> = rs.iter().map(|(l, r)| (to_pat(l), to_pat(r))).collect();
    rules_of::<Tb>(g, &pairs)
}

fn main() {
    vharness::engine::main(Prop {
        id: "C05",
        rule: "random terms over atoms with punctuation and non-ASCII characters (deep ones too), filter patterns, workloads composed of all operators, and rulesets of two languages with all arrow forms; printed and parsed, written to files (also over longer old contents) and read back, compared with an independent parser's view. Non-trivial: the term is a list, the pattern is no plain literal, the workload or ruleset is not empty.",
        assumptions: &[
            "atoms contain no blanks, parentheses or double quotes (the text format cannot express them)",
            "operator names in rules contain neither an arrow nor a backslash, and arrows are surrounded by blanks",
        ],
        subs: vec![
            Sub { name: "terms", quick: 300_000, thorough: 6_000_000, f: terms },
            Sub { name: "patterns", quick: 150_000, thorough: 3_000_000, f: patterns },
            Sub { name: "workloads", quick: 35_000, thorough: 500_000, f: workloads },
            Sub { name: "rules_sym", quick: 35_000, thorough: 500_000, f: rules_sym },
            Sub { name: "rules_tb", quick: 35_000, thorough: 500_000, f: rules_tb },
        ],
        init: tb::init,
    })
}
