//! Harness-side terms: independent parser, printer, metrics, matching and substitution.
use crate::engine::G;
use ruler::enumo::Sexp;
use std::collections::BTreeMap;

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum T {
    A(String),
    L(Vec<T>),
}
use T::*;

pub fn a(s: &str) -> T {
    A(s.to_string())
}
pub fn l(op: &str, args: Vec<T>) -> T {
    let mut v = vec![a(op)];
    v.extend(args);
    L(v)
}

impl std::fmt::Display for T {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            A(s) => write!(f, "{}", s),
            L(xs) => {
                write!(f, "(")?;
                for (i, x) in xs.iter().enumerate() {
                    if i > 0 {
                        write!(f, " ")?;
                    }
                    write!(f, "{}", x)?;
                }
                write!(f, ")")
            }
        }
    }
}

impl T {
    pub fn to_sexp(&self) -> Sexp {
        match self {
            A(s) => Sexp::Atom(s.clone()),
            L(xs) => Sexp::List(xs.iter().map(|x| x.to_sexp()).collect()),
        }
    }
    pub fn of_sexp(s: &Sexp) -> T {
        match s {
            Sexp::Atom(s) => A(s.clone()),
            Sexp::List(xs) => L(xs.iter().map(T::of_sexp).collect()),
        }
    }
    pub fn parse(s: &str) -> Option<T> {
        let mut toks = vec![];
        let mut cur = String::new();
        for c in s.chars() {
            match c {
                '(' | ')' => {
                    if !cur.is_empty() {
                        toks.push(std::mem::take(&mut cur));
                    }
                    toks.push(c.to_string());
                }
                c if c.is_whitespace() => {
                    if !cur.is_empty() {
                        toks.push(std::mem::take(&mut cur));
                    }
                }
                c => cur.push(c),
            }
        }
        if !cur.is_empty() {
            toks.push(cur);
        }
        let mut stack: Vec<Vec<T>> = vec![vec![]];
        for t in toks {
            match t.as_str() {
                "(" => stack.push(vec![]),
                ")" => {
                    let x = stack.pop()?;
                    stack.last_mut()?.push(L(x));
                }
                _ => stack.last_mut()?.push(A(t)),
            }
        }
        if stack.len() != 1 || stack[0].len() != 1 {
            return None;
        }
        stack.pop()?.pop()
    }
    pub fn atoms(&self) -> usize {
        match self {
            A(_) => 1,
            L(xs) => xs.iter().map(|x| x.atoms()).sum(),
        }
    }
    pub fn lists(&self) -> usize {
        match self {
            A(_) => 0,
            L(xs) => 1 + xs.iter().map(|x| x.lists()).sum::<usize>(),
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            A(_) => 1,
            L(xs) => 1 + xs.iter().map(|x| x.depth()).max().unwrap_or(0),
        }
    }
    pub fn subterms<'a>(&'a self, out: &mut Vec<&'a T>) {
        out.push(self);
        if let L(xs) = self {
            for x in xs {
                x.subterms(out)
            }
        }
    }
    /// All ways to replace each occurrence of the atom `name` by one of `pegs`.
    pub fn plug(&self, name: &str, pegs: &[T]) -> Vec<T> {
        match self {
            A(s) => {
                if s == name {
                    pegs.to_vec()
                } else {
                    vec![self.clone()]
                }
            }
            L(xs) => {
                let mut acc: Vec<Vec<T>> = vec![vec![]];
                for x in xs {
                    let alts = x.plug(name, pegs);
                    let mut next = vec![];
                    for pre in &acc {
                        for alt in &alts {
                            let mut p = pre.clone();
                            p.push(alt.clone());
                            next.push(p);
                        }
                    }
                    acc = next;
                }
                acc.into_iter().map(L).collect()
            }
        }
    }
    /// Replace every occurrence of the atom by the one term.
    pub fn subst1(&self, name: &str, by: &T) -> T {
        match self {
            A(s) if s == name => by.clone(),
            A(_) => self.clone(),
            L(xs) => L(xs.iter().map(|x| x.subst1(name, by)).collect()),
        }
    }
    pub fn leaves<'a>(&'a self, out: &mut Vec<&'a str>) {
        match self {
            A(s) => out.push(s),
            L(xs) => xs.iter().for_each(|x| x.leaves(out)),
        }
    }
    pub fn map_atoms(&self, f: &dyn Fn(&str) -> String) -> T {
        match self {
            A(s) => A(f(s)),
            L(xs) => L(xs.iter().map(|x| x.map_atoms(f)).collect()),
        }
    }
}

/// Patterns of the filter language.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Pat {
    Wild,
    Var(String),
    Lit(String),
    List(Vec<Pat>),
}
impl std::fmt::Display for Pat {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Pat::Wild => write!(f, "*"),
            Pat::Var(s) | Pat::Lit(s) => write!(f, "{}", s),
            Pat::List(xs) => {
                write!(f, "(")?;
                for (i, x) in xs.iter().enumerate() {
                    if i > 0 {
                        write!(f, " ")?;
                    }
                    write!(f, "{}", x)?;
                }
                write!(f, ")")
            }
        }
    }
}
impl Pat {
    pub fn to_ruler(&self) -> ruler::enumo::Pattern {
        use ruler::enumo::Pattern as P;
        match self {
            Pat::Wild => P::Wild,
            Pat::Var(s) => P::Var(s.clone()),
            Pat::Lit(s) => P::Lit(s.clone()),
            Pat::List(xs) => P::List(xs.iter().map(|x| x.to_ruler()).collect()),
        }
    }
    fn constraints<'t>(&self, t: &'t T, out: &mut Vec<(String, &'t T)>) -> bool {
        match (self, t) {
            (Pat::Wild, _) => true,
            (Pat::Var(v), _) => {
                out.push((v.clone(), t));
                true
            }
            (Pat::Lit(s), A(x)) => s == x,
            (Pat::List(ps), L(xs)) => ps.len() == xs.len() && ps.iter().zip(xs).all(|(p, x)| p.constraints(x, out)),
            _ => false,
        }
    }
    /// Shape match, then every pattern variable must stand for one term only.
    pub fn matches(&self, t: &T) -> bool {
        let mut cs = vec![];
        if !self.constraints(t, &mut cs) {
            return false;
        }
        let mut m: BTreeMap<String, &T> = BTreeMap::new();
        cs.into_iter().all(|(v, x)| *m.entry(v).or_insert(x) == x)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Met {
    Atoms,
    Lists,
    Depth,
}
impl Met {
    pub fn of(self, t: &T) -> usize {
        match self {
            Met::Atoms => t.atoms(),
            Met::Lists => t.lists(),
            Met::Depth => t.depth(),
        }
    }
    pub fn to_ruler(self) -> ruler::enumo::Metric {
        match self {
            Met::Atoms => ruler::enumo::Metric::Atoms,
            Met::Lists => ruler::enumo::Metric::Lists,
            Met::Depth => ruler::enumo::Metric::Depth,
        }
    }
    pub fn gen(g: &mut G) -> Met {
        *g.pick(&[Met::Atoms, Met::Lists, Met::Depth])
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Fil {
    Lt(Met, usize),
    Eq(Met, usize),
    Contains(Pat),
    Excludes(Pat),
    Canon(Vec<String>),
    And(Vec<Fil>),
    Or(Vec<Fil>),
    Not(Box<Fil>),
}
impl std::fmt::Display for Fil {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let many = |n: &str, fs: &[Fil]| format!("{}[{}]", n, fs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "));
        match self {
            Fil::Lt(m, n) => write!(f, "{:?}<{}", m, n),
            Fil::Eq(m, n) => write!(f, "{:?}={}", m, n),
            Fil::Contains(p) => write!(f, "Contains {}", p),
            Fil::Excludes(p) => write!(f, "Excludes {}", p),
            Fil::Canon(v) => write!(f, "Canon{:?}", v),
            Fil::And(fs) => write!(f, "{}", many("And", fs)),
            Fil::Or(fs) => write!(f, "{}", many("Or", fs)),
            Fil::Not(x) => write!(f, "Not({})", x),
        }
    }
}
impl Fil {
    pub fn to_ruler(&self) -> ruler::enumo::Filter {
        use ruler::enumo::Filter as F;
        match self {
            Fil::Lt(m, n) => F::MetricLt(m.to_ruler(), *n),
            Fil::Eq(m, n) => F::MetricEq(m.to_ruler(), *n),
            Fil::Contains(p) => F::Contains(p.to_ruler()),
            Fil::Excludes(p) => F::Excludes(p.to_ruler()),
            Fil::Canon(v) => F::Canon(v.clone()),
            Fil::And(fs) => F::And(fs.iter().map(|f| f.to_ruler()).collect()),
            Fil::Or(fs) => F::Or(fs.iter().map(|f| f.to_ruler()).collect()),
            Fil::Not(f) => F::Invert(Box::new(f.to_ruler())),
        }
    }
    pub fn test(&self, t: &T) -> bool {
        match self {
            Fil::Lt(m, n) => m.of(t) < *n,
            Fil::Eq(m, n) => m.of(t) == *n,
            Fil::Contains(p) => {
                let mut s = vec![];
                t.subterms(&mut s);
                s.into_iter().any(|x| p.matches(x))
            }
            Fil::Excludes(p) => {
                let mut s = vec![];
                t.subterms(&mut s);
                !s.into_iter().any(|x| p.matches(x))
            }
            Fil::Canon(syms) => {
                // the listed symbols that occur first occur in listed order, starting with the first
                let mut ls = vec![];
                t.leaves(&mut ls);
                let mut seen: Vec<&str> = vec![];
                for x in ls {
                    if syms.iter().any(|s| s == x) && !seen.contains(&x) {
                        seen.push(x);
                    }
                }
                seen.iter().enumerate().all(|(i, x)| syms[i] == *x)
            }
            Fil::And(fs) => fs.iter().all(|f| f.test(t)),
            Fil::Or(fs) => fs.iter().any(|f| f.test(t)),
            Fil::Not(f) => !f.test(t),
        }
    }
}

/// Workload expressions.
#[derive(Clone, Debug)]
pub enum W {
    Set(Vec<T>),
    Plug(Box<W>, String, Box<W>),
    Filter(Fil, Box<W>),
    Append(Vec<W>),
}
impl std::fmt::Display for W {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            W::Set(ts) => write!(f, "{{{}}}", ts.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(", ")),
            W::Plug(w, n, p) => write!(f, "{}.plug({}, {})", w, n, p),
            W::Filter(x, w) => write!(f, "{}.filter({})", w, x),
            W::Append(ws) => write!(f, "append[{}]", ws.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(" ++ ")),
        }
    }
}
pub struct TooBig;
impl W {
    /// Textbook meaning; gives up beyond `cap` terms at any stage.
    pub fn eval(&self, cap: usize) -> Result<Vec<T>, TooBig> {
        let r = match self {
            W::Set(ts) => ts.clone(),
            W::Plug(w, n, p) => {
                let ws = w.eval(cap)?;
                let ps = p.eval(cap)?;
                let mut out = vec![];
                for t in ws {
                    // size of the product before building it
                    let mut ls = vec![];
                    t.leaves(&mut ls);
                    let occ = ls.iter().filter(|x| **x == n.as_str()).count() as u32;
                    if (ps.len() as f64).powi(occ as i32) > cap as f64 {
                        return Err(TooBig);
                    }
                    out.extend(t.plug(n, &ps));
                    if out.len() > cap {
                        return Err(TooBig);
                    }
                }
                out
            }
            W::Filter(f, w) => w.eval(cap)?.into_iter().filter(|t| f.test(t)).collect(),
            W::Append(ws) => {
                let mut out = vec![];
                for w in ws {
                    out.extend(w.eval(cap)?);
                }
                out
            }
        };
        if r.len() > cap {
            return Err(TooBig);
        }
        Ok(r)
    }
}

/// All rooted selections of one alternative per hole, see `W::eval`; helper for multiset comparison.
pub fn sorted(ts: impl IntoIterator<Item = T>) -> Vec<T> {
    let mut v: Vec<T> = ts.into_iter().collect();
    v.sort();
    v
}

pub fn show(ts: &[T]) -> String {
    let mut s = ts.iter().take(40).map(|t| t.to_string()).collect::<Vec<_>>().join(", ");
    if ts.len() > 40 {
        s.push_str(&format!(", … {} in all", ts.len()));
    }
    s
}

pub fn diff(expected: &[T], actual: &[T]) -> String {
    let (e, a) = (sorted(expected.iter().cloned()), sorted(actual.iter().cloned()));
    let count = |v: &[T], t: &T| v.iter().filter(|x| *x == t).count();
    let mut all: Vec<&T> = e.iter().chain(a.iter()).collect();
    all.sort();
    all.dedup();
    let mut s = String::new();
    let mut n = 0;
    for t in all {
        let (ce, ca) = (count(&e, t), count(&a, t));
        if ce != ca {
            n += 1;
            if n <= 8 {
                s.push_str(&format!("{}: expected {} times, got {}; ", t, ce, ca));
            }
        }
    }
    format!("{} terms differ: {}", n, s)
}
