//! C19: for bitvector domains, evaluation and validation agree with the semantics.
#![allow(unused_imports, unused_mut, dead_code)]
use ruler::enumo::Workload;
use ruler::{SynthLanguage, ValidationResult};
use std::collections::{BTreeMap, BTreeSet};
use vharness::engine::*;
use vharness::oracle::{real_find, subterms};
use vharness::sx::*;
use vharness::{ensure, fail};

mod w1 {
    ruler::impl_bv!(1);
}
mod w2 {
    ruler::impl_bv!(2);
}
mod w3 {
    ruler::impl_bv!(3);
}
mod w4 {
    ruler::impl_bv!(4);
}
mod w5 {
    ruler::impl_bv!(5);
}
mod w8 {
    ruler::impl_bv!(8);
}
mod w16 {
    ruler::impl_bv!(16);
}
mod w32 {
    ruler::impl_bv!(32);
}
mod w33 {
    ruler::impl_bv!(33);
}
mod w63 {
    ruler::impl_bv!(63);
}
mod w64 {
    ruler::impl_bv!(64);
}
mod w65 {
    ruler::impl_bv!(65);
}
mod w100 {
    ruler::impl_bv!(100);
}
mod w127 {
    ruler::impl_bv!(127);
}
mod w128 {
    ruler::impl_bv!(128);
}
const WIDTHS: &[u32] = &[1, 2, 3, 4, 5, 8, 16, 32, 33, 63, 64, 65, 100, 127, 128];
macro_rules! at {
    ($w:expr, $f:ident, $g:expr) => {{
        let g = $g;
        fn f<L: SynthLanguage>(g: &mut G, n: u32) -> R {
            $f::<L>(g, n)
        }
        match $w {
        1 => f::<w1::Bv>(g, 1),
        2 => f::<w2::Bv>(g, 2),
        3 => f::<w3::Bv>(g, 3),
        4 => f::<w4::Bv>(g, 4),
        5 => f::<w5::Bv>(g, 5),
        8 => f::<w8::Bv>(g, 8),
        16 => f::<w16::Bv>(g, 16),
        32 => f::<w32::Bv>(g, 32),
        33 => f::<w33::Bv>(g, 33),
        63 => f::<w63::Bv>(g, 63),
        64 => f::<w64::Bv>(g, 64),
        65 => f::<w65::Bv>(g, 65),
        100 => f::<w100::Bv>(g, 100),
        127 => f::<w127::Bv>(g, 127),
        128 => f::<w128::Bv>(g, 128),
            _ => unreachable!(),
        }
    }};
}

const UN: &[&str] = &["-", "~"];
const BI: &[&str] = &["+", "--", "*", "<<", ">>", "&", "|", "^"];
const VARS: &[&str] = &["x", "y", "z"];

fn mask(n: u32) -> u128 {
    if n == 128 {
        u128::MAX
    } else {
        (1 << n) - 1
    }
}
fn number(s: &str) -> Option<u128> {
    if let Some(b) = s.strip_prefix("#b") {
        return u128::from_str_radix(b, 2).ok();
    }
    s.parse().ok()
}
fn eval(t: &T, n: u32, env: &BTreeMap<String, u128>) -> u128 {
    let m = mask(n);
    match t {
        T::A(s) => match number(s) {
            Some(v) => v & m,
            None => env[s],
        },
        T::L(xs) => {
            let x = eval(&xs[1], n, env);
            let op = xs[0].to_string();
            if xs.len() == 2 {
                return m & match op.as_str() {
                    "-" => (m - x).wrapping_add(1),
                    _ => m - x,
                };
            }
            let y = eval(&xs[2], n, env);
            m & match op.as_str() {
                "+" => x.wrapping_add(y),
                "--" => x.wrapping_add((m - y).wrapping_add(1)),
                "*" => x.wrapping_mul(y),
                "<<" => {
                    if y < n as u128 {
                        x << y
                    } else {
                        0
                    }
                }
                ">>" => {
                    if y < n as u128 {
                        x >> y
                    } else {
                        0
                    }
                }
                "&" => x & y,
                "|" => x | y,
                _ => x ^ y,
            }
        }
    }
}
fn vars_of(ts: &[&T]) -> Vec<String> {
    let mut out = vec![];
    for t in ts {
        match t {
            T::A(s) => {
                if number(s).is_none() && !out.contains(s) {
                    out.push(s.clone());
                }
            }
            T::L(xs) => {
                for x in &xs[1..] {
                    for v in vars_of(&[x]) {
                        if !out.contains(&v) {
                            out.push(v);
                        }
                    }
                }
            }
        }
    }
    out
}
fn value(g: &mut G, n: u32) -> u128 {
    let raw = (g.u64() as u128) << 64 | g.u64() as u128;
    let s = g.below(n as u64 + 2) as u128;
    mask(n) & match g.below(6) {
        0 => s,
        1 => mask(n).wrapping_sub(s),
        2 => (1u128 << (n - 1)).wrapping_add(s),
        3 => (1u128 << (n - 1)).wrapping_sub(s),
        4 => 1u128 << g.below(n as u64),
        _ => raw,
    }
}
fn literal(g: &mut G, n: u32) -> T {
    let v = value(g, n);
    if g.chance(15) {
        a(&format!("#b{:b}", v))
    } else {
        a(&v.to_string())
    }
}
fn term(g: &mut G, n: u32, vars: &[&str], depth: usize, mul: bool) -> T {
    if depth == 0 || !g.chance(70) {
        return if vars.is_empty() || g.chance(30) { literal(g, n) } else { a(*g.pick(vars)) };
    }
    if g.chance(25) {
        let o = *g.pick(UN);
        return l(o, vec![term(g, n, vars, depth - 1, mul)]);
    }
    let mut o = *g.pick(BI);
    if o == "*" && !mul {
        o = "+";
    }
    let x = term(g, n, vars, depth - 1, mul);
    let y = term(g, n, vars, depth - 1, mul);
    l(o, vec![x, y])
}
fn con(c: &impl std::fmt::Display) -> u128 {
    c.to_string().parse().unwrap()
}

/// Value vectors of a workload.
fn evaluation(g: &mut G) -> R {
    let w = *g.pick(WIDTHS);
    at!(w, vectors, g)
}
fn vectors<L: SynthLanguage>(g: &mut G, n: u32) -> R {
    let nv = g.weighted(&[20, 80, 80, 20, 2]);
    let vars = &["x", "y", "z", "w"][..nv];
    let k = if g.chance(3) { g.size(6, 20) } else { g.size(1, 6) };
    let d = if g.chance(3) { 6 } else { 3 };
    let ts: Vec<T> = (0..k).map(|_| term(g, n, vars, d, true)).collect();
    g.input(format!("width {} | {}", n, show(&ts)));
    let e = Workload::Set(ts.iter().map(|t| t.to_sexp()).collect()).to_egraph::<L>();
    let vs = vars_of(&ts.iter().collect::<Vec<_>>());
    g.label_if(vs.is_empty(), "no variables");
    g.nontrivial_if(ts.iter().any(|t| matches!(t, T::L(_))));
    let len = e.analysis.cvec_len;
    let get = |t: &T| -> Result<Vec<u128>, Stop> {
        let id = match real_find::<L>(&e, t) {
            Some(i) => i,
            None => fail!("{} is not in the e-graph", t),
        };
        let c = &e[id].data.cvec;
        ensure!(c.len() == len, "the vector of {} has {} values, expected {}", t, c.len(), len);
        let mut out = vec![];
        for v in c {
            match v {
                Some(v) => out.push(con(v)),
                None => fail!("undefined value of {}", t),
            }
        }
        Ok(out)
    };
    let mut cols = BTreeMap::new();
    for v in &vs {
        cols.insert(v.clone(), get(&a(v))?);
    }
    // every combination of the sample values, once
    let mut samples: BTreeSet<u128> = BTreeSet::new();
    for i in 0..2u128 {
        for v in [(1u128 << (n - 1)).wrapping_add(i), (mask(n) >> 1).wrapping_sub(i), i, 0u128.wrapping_sub(i)] {
            samples.insert(v & mask(n));
        }
    }
    let rows: BTreeSet<Vec<u128>> = (0..len).map(|i| vs.iter().map(|v| cols[v][i]).collect()).collect();
    ensure!(rows.len() == len, "an assignment occurs twice ({} different of {})", rows.len(), len);
    ensure!(len == samples.len().pow(vs.len() as u32), "{} assignments of {} sample values to {} variables", len, samples.len(), vs.len());
    for v in &vs {
        for x in &cols[v] {
            ensure!(samples.contains(x), "{} is sampled at {:#x}, which is none of the domain's sample values", v, x);
        }
    }
    for t in subterms(&ts) {
        let c = get(&t)?;
        for i in 0..len {
            let env: BTreeMap<String, u128> = vs.iter().map(|v| (v.clone(), cols[v][i])).collect();
            let want = eval(&t, n, &env);
            ensure!(c[i] == want, "{} at {:?} is {:#x}, expected {:#x}", t, env, c[i], want);
        }
    }
    Ok(())
}

fn pat(t: &T) -> T {
    match t {
        T::A(s) => a(&if number(s).is_some() { s.clone() } else { format!("?{}", s) }),
        T::L(xs) => {
            let mut v = vec![xs[0].clone()];
            v.extend(xs[1..].iter().map(pat));
            T::L(v)
        }
    }
}
fn verdict<L: SynthLanguage>(l: &T, r: &T) -> ValidationResult {
    let p: ruler::Pattern<L> = pat(l).to_string().parse().unwrap_or_else(|_| panic!("pattern {}", l));
    let q: ruler::Pattern<L> = pat(r).to_string().parse().unwrap_or_else(|_| panic!("pattern {}", r));
    L::validate(&p, &q)
}

/// Identities that hold at every width.
fn identity(g: &mut G, n: u32) -> (T, T) {
    const IDS: &[(&str, &str)] = &[
        ("(+ x y)", "(+ y x)"),
        ("(+ x (+ y z))", "(+ (+ x y) z)"),
        ("(-- x y)", "(+ x (- y))"),
        ("(- x)", "(+ (~ x) 1)"),
        ("(-- x x)", "0"),
        ("(^ x x)", "0"),
        ("(& x (| x y))", "x"),
        ("(~ (& x y))", "(| (~ x) (~ y))"),
        ("(~ (~ x))", "x"),
        ("(- (- x))", "x"),
        ("(^ x y)", "(-- (| x y) (& x y))"),
        ("(+ x y)", "(+ (^ x y) (<< (& x y) 1))"),
        ("(<< x 0)", "x"),
        ("(>> 0 x)", "0"),
        ("(* x 1)", "x"),
        ("(* x 0)", "0"),
        ("(& (<< x z) (<< y z))", "(<< (& x y) z)"),
        ("(& (>> x z) (>> y z))", "(>> (& x y) z)"),
        ("(& x y)", "(& y x)"),
        ("(| x (& y z))", "(& (| x y) (| x z))"),
        ("(^ x (^ y z))", "(^ (^ x y) z)"),
        ("(-- x y)", "(- (-- y x))"),
        ("(~ x)", "(-- (- x) 1)"),
    ];
    let m = mask(n);
    let lit = |v: u128| a(&(v & m).to_string());
    match g.below(8) {
        0 => {
            let (c, d) = (value(g, n), value(g, n));
            (l("+", vec![l("+", vec![a("x"), lit(c)]), lit(d)]), l("+", vec![a("x"), lit(c.wrapping_add(d))]))
        }
        1 => {
            let (c, d) = (value(g, n), value(g, n));
            (l("^", vec![l("^", vec![a("x"), lit(c)]), lit(d)]), l("^", vec![a("x"), lit(c ^ d)]))
        }
        2 => {
            let c = value(g, n);
            (l("~", vec![l("&", vec![a("x"), lit(c)])]), l("|", vec![l("~", vec![a("x")]), lit(m - c)]))
        }
        3 => (l("^", vec![a("x"), lit(m)]), l("~", vec![a("x")])),
        4 => {
            let c = value(g, n);
            (l("--", vec![a("x"), lit(c)]), l("+", vec![a("x"), lit(0u128.wrapping_sub(c))]))
        }
        _ => {
            let (p, q) = *g.pick(IDS);
            let (p, q) = (T::parse(p).unwrap(), T::parse(q).unwrap());
            let ex = |g: &mut G, v: &str| if g.chance(25) { term(g, n, &VARS[..2], 1, false) } else { a(v) };
            let m: BTreeMap<&str, T> = [("x", ex(g, "x")), ("y", ex(g, "y")), ("z", ex(g, "z"))].into_iter().collect();
            fn sub(t: &T, m: &BTreeMap<&str, T>) -> T {
                match t {
                    T::A(s) => m.get(s.as_str()).cloned().unwrap_or_else(|| t.clone()),
                    T::L(xs) => {
                        let mut v = vec![xs[0].clone()];
                        v.extend(xs[1..].iter().map(|x| sub(x, m)));
                        T::L(v)
                    }
                }
            }
            (sub(&p, &m), sub(&q, &m))
        }
    }
}
/// A small change that usually breaks the identity.
fn perturb(g: &mut G, n: u32, t: &T) -> T {
    match t {
        T::A(s) => match number(s) {
            Some(v) => match g.below(3) {
                0 => a(&(mask(n) & (v ^ 1 << g.below(n as u64))).to_string()),
                1 => a(&(mask(n) & v.wrapping_add(1)).to_string()),
                _ => a("x"),
            },
            None => {
                if g.bool() {
                    a(*g.pick(VARS))
                } else {
                    literal(g, n)
                }
            }
        },
        T::L(xs) => {
            let mut v = xs.clone();
            if g.chance(40) {
                let o = if xs.len() == 2 { *g.pick(UN) } else { *g.pick(BI) };
                if o != "*" || n <= 4 {
                    v[0] = a(o);
                }
            } else if xs.len() == 3 && g.chance(30) {
                v.swap(1, 2);
            } else {
                let k = g.size(1, xs.len() - 1);
                v[k] = perturb(g, n, &xs[k]);
            }
            T::L(v)
        }
    }
}

fn validation(g: &mut G) -> R {
    let w = if g.chance(50) { g.size(1, 4) as u32 } else { *g.pick(WIDTHS) };
    at!(w, rules, g)
}
fn rules<L: SynthLanguage>(g: &mut G, n: u32) -> R {
    let (mut known, l, r) = match g.below(5) {
        0 | 1 => {
            let (x, y) = identity(g, n);
            (true, x, y)
        }
        2 | 3 => {
            let (x, y) = identity(g, n);
            (false, x.clone(), perturb(g, n, &y))
        }
        _ => {
            let vs = &VARS[..g.size(0, 2)];
            let x = term(g, n, vs, 2, n <= 4 || vs.is_empty());
            let y = if vs.is_empty() && g.bool() {
                a(&eval(&x, n, &BTreeMap::new()).to_string())
            } else {
                term(g, n, vs, 2, n <= 4)
            };
            (false, x, y)
        }
    };
    let (l, r) = if g.bool() { (l, r) } else { (r, l) };
    g.input(format!("width {} | {} ==> {}", n, pat(&l), pat(&r)));
    let vs = vars_of(&[&l, &r]);
    // an input on which the sides differ
    let mut witness: Option<BTreeMap<String, u128>> = None;
    let total = n as usize * vs.len();
    let exhaustive = total <= 12;
    if exhaustive {
        for i in 0..1u128 << total {
            let env: BTreeMap<String, u128> = vs.iter().enumerate().map(|(k, v)| (v.clone(), i >> (k as u32 * n) & mask(n))).collect();
            if eval(&l, n, &env) != eval(&r, n, &env) {
                witness = Some(env);
                break;
            }
        }
        ensure!(!known || witness.is_none(), "harness: {} ==> {} is no identity", l, r);
        known |= witness.is_none();
    } else {
        for _ in 0..60 {
            let env: BTreeMap<String, u128> = vs.iter().map(|v| (v.clone(), value(g, n))).collect();
            if eval(&l, n, &env) != eval(&r, n, &env) {
                witness = Some(env);
                break;
            }
        }
        ensure!(!known || witness.is_none(), "harness: {} ==> {} is no identity", l, r);
    }
    if witness.is_none() && !known {
        g.label("undecided");
    }
    g.nontrivial_if(l != r && (known || witness.is_some()));
    match verdict::<L>(&l, &r) {
        ValidationResult::Valid => {
            g.label("accepted");
            if let Some(w) = witness {
                fail!("the validator accepts the rule although the sides differ at {:x?}", w);
            }
        }
        ValidationResult::Invalid => {
            g.label("rejected");
            ensure!(!known, "the validator rejects the rule although its sides are equal on every input");
        }
        ValidationResult::Unknown => {
            g.label("unknown");
            // exhaustively decidable rules take the solver a few milliseconds; several tries, as a loaded
            // machine can make it run into its time limit once
            if exhaustive && total <= 8 {
                let decided = (0..5).any(|i| {
                    std::thread::sleep(std::time::Duration::from_millis(200 * i));
                    !matches!(verdict::<L>(&l, &r), ValidationResult::Unknown)
                });
                ensure!(decided, "the validator does not decide a rule over {} input bits", total);
            }
        }
    }
    Ok(())
}

/// Rules that are false at very few inputs (the factors of a number), or true because the number is
/// prime: the solver often gives up on them, and then must not guess.
fn hard(g: &mut G) -> R {
    let w = *g.pick(&[8, 16, 32, 32, 64, 64, 128]);
    at!(w, factors, g)
}
fn prime(n: u128) -> bool {
    n >= 2 && (2..).take_while(|d| d * d <= n).all(|d| n % d != 0)
}
fn factors<L: SynthLanguage>(g: &mut G, n: u32) -> R {
    // factors of k bits, below 2^31 so that trial division is quick
    let k = (n / 2).min(31);
    let mut pick = || {
        let mut p = (1u128 << (k - 1)) + g.below(1 << (k - 1)) as u128 | 1;
        while !prime(p) {
            p = if p + 2 >> k == 0 { p + 2 } else { (1 << (k - 1)) + 1 };
        }
        p
    };
    let (p, q) = (pick(), pick());
    let truth = n <= 32 && g.chance(30);
    // a prime beyond every factor of k bits is no product of two factors of k bits
    let mut c = p * q;
    if truth {
        c |= 1;
        while !(c >> k > 0 && prime(c)) {
            c = if c + 2 <= mask(n) { c + 2 } else { (1 << k) + 1 };
        }
    }
    let sh = |v: &str| T::parse(&format!("(>> {} {})", v, n - k)).unwrap();
    let (x, y) = (sh("x"), sh("y"));
    let z = T::parse(&format!("({} (* {} {}) {})", g.pick(&["^", "--"]), x, y, c)).unwrap();
    let nz = T::parse(&format!("(>> (| {} (- {})) {})", z, z, n - 1)).unwrap();
    let (l, r) = match g.below(3) {
        0 => (nz, a("1")),
        1 => (T::parse(&format!("(* {} w)", nz)).unwrap(), a("w")),
        _ => (T::parse(&format!("(+ w {})", nz)).unwrap(), T::parse("(+ 1 w)").unwrap()),
    };
    g.input(format!("width {} | {} ==> {}", n, pat(&l), pat(&r)));
    let env = |x: u128, y: u128| -> BTreeMap<String, u128> {
        [("x".to_string(), x << (n - k)), ("y".to_string(), y << (n - k)), ("w".to_string(), 5)].into_iter().collect()
    };
    let e = env(p, q);
    let differ = eval(&l, n, &e) != eval(&r, n, &e);
    ensure!(differ != truth, "harness: {} ==> {} at {:?}", l, r, e);
    g.nontrivial();
    g.label(if truth { "true" } else { "false at few inputs" });
    match verdict::<L>(&l, &r) {
        ValidationResult::Valid => {
            g.label("accepted");
            ensure!(truth, "the validator accepts the rule although the sides differ at {:x?}", e);
        }
        ValidationResult::Invalid => {
            g.label("rejected");
            ensure!(!truth, "the validator rejects the rule although its sides are equal on every input");
        }
        ValidationResult::Unknown => g.label("unknown"),
    }
    Ok(())
}

fn main() {
    vharness::engine::main(Prop {
        id: "C19",
        rule: "Bitvector domains of fifteen widths from 1 to 128. evaluation: workloads of up to 6, rarely 20, terms over 0-4 variables; value vectors against an independent interpreter at the assignment read off the variables' vectors, which must list every combination of the sample values once. validation: identities true at every width (some with random literals), perturbed identities and random rules; truth by exhaustion up to 12 input bits, otherwise by construction or a random counterexample. hard: rules that are false exactly at the factorisations of a number, or true because it is prime, which the solver often cannot decide in its time. Non-trivial: a term with an operator; a rule with different sides whose truth is known.",
        assumptions: &["z3 is trusted to answer within its own limits; unknown is always permitted", "at larger widths false rules without a counterexample among 60 random inputs are not judged"],
        subs: vec![
            Sub { name: "evaluation", quick: 60_000, thorough: 1_500_000, f: evaluation },
            Sub { name: "validation", quick: 6_000, thorough: 150_000, f: validation },
            Sub { name: "hard", quick: 120, thorough: 1_500, f: hard },
        ],
        init: || {},
    })
}
