//! Generators for terms, patterns, filters and workloads over plain s-expressions.
use crate::engine::G;
use crate::sx::*;

pub const ATOMS: &[&str] = &["a", "b", "c", "x", "+", "f", "EXPR", "VAR", "0", "1", "-2", "=", "<=>", "é"];
/// Names that mean something in the pattern language but are ordinary atoms in terms.
pub const ODD_ATOMS: &[&str] = &["*", "?x", "?y", "?"];

pub fn atom(g: &mut G) -> String {
    match g.weighted(&[12, 3, 1]) {
        0 => g.pick(&ATOMS[..6]).to_string(),
        1 => g.pick(ATOMS).to_string(),
        _ => g.pick(ODD_ATOMS).to_string(),
    }
}

/// A term that is a path of the given length with small siblings.
pub fn deep(g: &mut G, len: usize) -> T {
    let mut t = T::A(atom(g));
    for _ in 0..len {
        let n = g.small(0, 2);
        let at = g.size(0, n);
        let mut xs: Vec<T> = (0..n).map(|_| T::A(atom(g))).collect();
        xs.insert(at, t);
        t = T::L(xs);
    }
    t
}

/// A term with non-empty lists, nesting up to `depth`.
pub fn term(g: &mut G, depth: usize) -> T {
    if depth == 0 || !g.chance(55) {
        return T::A(atom(g));
    }
    let n = g.tail(1, 4, 12, 2);
    T::L((0..n).map(|_| term(g, depth - 1)).collect())
}

pub fn terms(g: &mut G, max: usize, depth: usize) -> Vec<T> {
    let n = g.tail(0, max, 8 * max, 2);
    (0..n)
        .map(|_| {
            if g.chance(2) {
                let len = g.size(3, 12);
                deep(g, len)
            } else {
                term(g, depth)
            }
        })
        .collect()
}

/// A pattern variable: mostly one of three, so that repeats are common.
pub fn pvar(g: &mut G) -> String {
    if g.chance(10) {
        g.pick(&["?w", "?u", "?xy", "?x1", "?a", "?"]).to_string()
    } else {
        g.pick(&["?x", "?y", "?z"]).to_string()
    }
}

pub fn pat(g: &mut G, depth: usize) -> Pat {
    match g.weighted(&[4, 1, 3, if depth == 0 { 0 } else { 6 }]) {
        0 => {
            // a literal in the pattern language never starts with ? and is not *
            let s = g.pick(&ATOMS[..6]).to_string();
            Pat::Lit(s)
        }
        1 => Pat::Wild,
        2 => Pat::Var(pvar(g)),
        _ => {
            let n = g.tail(1, 4, 9, 3);
            Pat::List((0..n).map(|_| pat(g, depth - 1)).collect())
        }
    }
}

/// A pattern obtained from a term by abstracting some subterms, so that it matches often.
pub fn pat_from(g: &mut G, t: &T) -> Pat {
    match g.weighted(&[7, 1, 2]) {
        1 => return Pat::Wild,
        2 => return Pat::Var(pvar(g)),
        _ => {}
    }
    match t {
        T::A(s) => Pat::Lit(s.clone()),
        T::L(xs) => Pat::List(xs.iter().map(|x| pat_from(g, x)).collect()),
    }
}

pub fn filter(g: &mut G, depth: usize, around: &[T]) -> Fil {
    let k = g.weighted(&[6, 2, 4, 4, 2, if depth > 0 { 3 } else { 0 }, if depth > 0 { 2 } else { 0 }, if depth > 0 { 2 } else { 0 }]);
    match k {
        0 => Fil::Lt(Met::gen(g), g.tail(0, 9, 40, 3)),
        1 => Fil::Eq(Met::gen(g), g.tail(0, 6, 40, 3)),
        2 | 3 => {
            let p = if !around.is_empty() && g.chance(70) {
                let t = g.pick(around).clone();
                let mut subs = vec![];
                t.subterms(&mut subs);
                let s = (*g.pick(&subs)).clone();
                pat_from(g, &s)
            } else {
                pat(g, 2)
            };
            if k == 2 {
                Fil::Contains(p)
            } else {
                Fil::Excludes(p)
            }
        }
        4 => {
            let mut syms = vec!["a".to_string(), "b".into(), "c".into(), "x".into()];
            if g.chance(10) {
                syms.extend(["+", "f", "0", "1", "EXPR"].map(String::from));
            }
            g.shuffle(&mut syms);
            syms.truncate(g.size(0, 9));
            Fil::Canon(syms)
        }
        5 => {
            let n = g.tail(0, 4, 9, 4);
            Fil::And((0..n).map(|_| filter(g, depth - 1, around)).collect())
        }
        6 => {
            let n = g.tail(0, 3, 9, 4);
            Fil::Or((0..n).map(|_| filter(g, depth - 1, around)).collect())
        }
        _ => Fil::Not(Box::new(filter(g, depth - 1, around))),
    }
}
