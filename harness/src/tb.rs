//! A rewriting domain whose operators are interpreted by arbitrary finite tables (set per case), so
//! that validity of a rule is decidable by enumeration and value vectors can be exhaustive.
use crate::engine::G;
use crate::sx::T;
use egg::{FromOp, Id, Language, RecExpr};
use ruler::enumo::Ruleset;
use ruler::{map, self_product, CVec, EGraph, Interval, Pattern, Symbol, SynthAnalysis, SynthLanguage, ValidationResult};
use std::collections::BTreeMap;
use std::fmt;
use std::sync::atomic::{AtomicPtr, Ordering};

pub const UN: &[&str] = &["p", "q"];
pub const BI: &[&str] = &["+", "*", "&"];
pub const TE: &str = "if";
/// Operator index in `Alg::allowed`: unary, then binary, then the ternary one, then literals.
pub const NOPS: usize = 7;
pub const VARS: &[&str] = &["x", "y", "z", "w", "v", "u"];

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct V(pub u8);
impl fmt::Display for V {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Validity {
    /// Valid iff both sides are the same partial function.
    Exact,
    Always,
    /// As Exact, but answers Unknown for rules whose text hashes to 0 modulo the number.
    UnknownSome(u64),
    /// As Exact, but decided by the direction as well: rules whose left side is smaller are refused.
    Directed,
}

#[derive(Clone, Debug)]
pub struct Alg {
    pub k: u8,
    pub un: Vec<Vec<Option<u8>>>,
    pub bi: Vec<Vec<Option<u8>>>,
    pub te: Vec<Option<u8>>,
    /// Values every variable is sampled at.
    pub samples: Vec<u8>,
    /// 0: no intervals, 1: literals only (constant folding), 2: full interval analysis.
    pub interval: u8,
    pub allowed: [bool; NOPS],
    pub exploratory: Vec<String>,
    pub validity: Validity,
}

impl Default for Alg {
    fn default() -> Self {
        Alg {
            k: 2,
            un: vec![vec![Some(0); 2]; UN.len()],
            bi: vec![vec![Some(0); 4]; BI.len()],
            te: vec![Some(0); 8],
            samples: vec![0, 1],
            interval: 0,
            allowed: [true; NOPS],
            exploratory: vec![],
            validity: Validity::Exact,
        }
    }
}

static ALG: AtomicPtr<Alg> = AtomicPtr::new(std::ptr::null_mut());
/// Installs the interpretation for the following code (leaks the small table; workers are short-lived).
pub fn set_alg(a: Alg) -> &'static Alg {
    let p = Box::into_raw(Box::new(a));
    ALG.store(p, Ordering::SeqCst);
    unsafe { &*p }
}
/// Installs an interpretation made before.
pub fn use_alg(a: &'static Alg) {
    ALG.store(a as *const Alg as *mut Alg, Ordering::SeqCst);
}
pub fn alg() -> &'static Alg {
    let p = ALG.load(Ordering::SeqCst);
    if p.is_null() {
        return set_alg(Alg::default());
    }
    unsafe { &*p }
}

impl Alg {
    pub fn un(&self, i: usize, a: u8) -> Option<u8> {
        self.un[i][a as usize]
    }
    pub fn bi(&self, i: usize, a: u8, b: u8) -> Option<u8> {
        self.bi[i][a as usize * self.k as usize + b as usize]
    }
    pub fn te(&self, a: u8, b: u8, c: u8) -> Option<u8> {
        let k = self.k as usize;
        self.te[(a as usize * k + b as usize) * k + c as usize]
    }
    pub fn total(&self) -> bool {
        self.un.iter().chain(self.bi.iter()).all(|t| t.iter().all(|x| x.is_some())) && self.te.iter().all(|x| x.is_some())
    }
    pub fn describe(&self) -> String {
        let tab = |t: &[Option<u8>]| t.iter().map(|x| x.map_or("_".to_string(), |v| v.to_string())).collect::<String>();
        let mut s = format!("Z{}", self.k);
        for (n, t) in UN.iter().zip(&self.un).chain(BI.iter().zip(&self.bi)) {
            s.push_str(&format!(" {}={}", n, tab(t)));
        }
        s.push_str(&format!(" if={} samples={:?} int={} {:?}", tab(&self.te), self.samples, self.interval, self.validity));
        if self.allowed.iter().any(|x| !x) {
            s.push_str(&format!(" allowed={:?}", self.allowed));
        }
        s
    }

    /// Reference semantics of a term.
    pub fn eval(&self, t: &T, env: &dyn Fn(&str) -> Option<u8>) -> Option<u8> {
        match t {
            T::A(s) => match s.parse::<u8>() {
                Ok(n) => Some(n % self.k),
                Err(_) => env(s),
            },
            T::L(xs) => {
                let op = match &xs[0] {
                    T::A(s) => s.as_str(),
                    _ => panic!("operator expected"),
                };
                let mut vs = vec![];
                for x in &xs[1..] {
                    vs.push(self.eval(x, env));
                }
                let vs: Option<Vec<u8>> = vs.into_iter().collect();
                let vs = vs?;
                match vs.len() {
                    1 => self.un(UN.iter().position(|o| *o == op).unwrap(), vs[0]),
                    2 => self.bi(BI.iter().position(|o| *o == op).unwrap(), vs[0], vs[1]),
                    3 => self.te(vs[0], vs[1], vs[2]),
                    _ => panic!("arity"),
                }
            }
        }
    }

    /// Values of the term at every assignment of `vals` to `vars` (first variable varies slowest).
    pub fn table(&self, t: &T, vars: &[String], vals: &[u8]) -> Vec<Option<u8>> {
        let n = vars.len();
        let rows = vals.len().pow(n as u32);
        (0..rows)
            .map(|r| {
                let env = |s: &str| {
                    let i = vars.iter().position(|v| v == s).unwrap_or_else(|| panic!("unbound {}", s));
                    Some(vals[(r / vals.len().pow((n - 1 - i) as u32)) % vals.len()])
                };
                self.eval(t, &env)
            })
            .collect()
    }
    pub fn all_vals(&self) -> Vec<u8> {
        (0..self.k).collect()
    }
    /// Same partial function of the variables of both terms?
    pub fn same(&self, l: &T, r: &T) -> bool {
        let vars = vars_of(&[l, r]);
        let vals = self.all_vals();
        self.table(l, &vars, &vals) == self.table(r, &vars, &vals)
    }
}

pub fn is_op(s: &str) -> bool {
    UN.contains(&s) || BI.contains(&s) || s == TE
}
/// Variables of domain terms in order of first occurrence.
pub fn vars_of(ts: &[&T]) -> Vec<String> {
    fn go(t: &T, out: &mut Vec<String>) {
        match t {
            T::A(s) => {
                if s.parse::<u8>().is_err() && !out.contains(s) {
                    out.push(s.clone())
                }
            }
            T::L(xs) => xs[1..].iter().for_each(|x| go(x, out)),
        }
    }
    let mut v = vec![];
    for t in ts {
        go(t, &mut v)
    }
    v
}
/// Pattern text: variables get a question mark.
pub fn to_pat(t: &T) -> T {
    match t {
        T::A(s) => T::A(if s.parse::<u8>().is_err() { format!("?{}", s) } else { s.clone() }),
        T::L(xs) => {
            let mut v = vec![xs[0].clone()];
            v.extend(xs[1..].iter().map(to_pat));
            T::L(v)
        }
    }
}
pub fn strip(t: &T) -> T {
    t.map_atoms(&|s| s.strip_prefix('?').unwrap_or(s).to_string())
}
pub fn rename(t: &T, f: &dyn Fn(&str) -> String) -> T {
    match t {
        T::A(s) => T::A(if s.parse::<u8>().is_err() { f(s) } else { s.clone() }),
        T::L(xs) => {
            let mut v = vec![xs[0].clone()];
            v.extend(xs[1..].iter().map(|x| rename(x, f)));
            T::L(v)
        }
    }
}
/// Simultaneous substitution of terms for variables.
pub fn subst(t: &T, m: &BTreeMap<String, T>) -> T {
    match t {
        T::A(s) => m.get(s).cloned().unwrap_or_else(|| t.clone()),
        T::L(xs) => {
            let mut v = vec![xs[0].clone()];
            v.extend(xs[1..].iter().map(|x| subst(x, m)));
            T::L(v)
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Tb {
    Num(V),
    Un(u8, [Id; 1]),
    Bi(u8, [Id; 2]),
    Te([Id; 3]),
    Var(Symbol),
}

impl Language for Tb {
    fn matches(&self, other: &Self) -> bool {
        match (self, other) {
            (Tb::Num(a), Tb::Num(b)) => a == b,
            (Tb::Un(a, _), Tb::Un(b, _)) => a == b,
            (Tb::Bi(a, _), Tb::Bi(b, _)) => a == b,
            (Tb::Te(_), Tb::Te(_)) => true,
            (Tb::Var(a), Tb::Var(b)) => a == b,
            _ => false,
        }
    }
    fn children(&self) -> &[Id] {
        match self {
            Tb::Un(_, x) => x,
            Tb::Bi(_, x) => x,
            Tb::Te(x) => x,
            _ => &[],
        }
    }
    fn children_mut(&mut self) -> &mut [Id] {
        match self {
            Tb::Un(_, x) => x,
            Tb::Bi(_, x) => x,
            Tb::Te(x) => x,
            _ => &mut [],
        }
    }
}
impl fmt::Display for Tb {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Tb::Num(v) => write!(f, "{}", v),
            Tb::Un(i, _) => write!(f, "{}", UN[*i as usize]),
            Tb::Bi(i, _) => write!(f, "{}", BI[*i as usize]),
            Tb::Te(_) => write!(f, "{}", TE),
            Tb::Var(s) => write!(f, "{}", s),
        }
    }
}
impl FromOp for Tb {
    type Error = egg::FromOpError;
    fn from_op(op: &str, ch: Vec<Id>) -> Result<Self, Self::Error> {
        if ch.is_empty() {
            return Ok(match op.parse::<u8>() {
                Ok(n) => Tb::Num(V(n)),
                Err(_) => Tb::Var(op.into()),
            });
        }
        if let (Some(i), 1) = (UN.iter().position(|o| *o == op), ch.len()) {
            return Ok(Tb::Un(i as u8, [ch[0]]));
        }
        if let (Some(i), 2) = (BI.iter().position(|o| *o == op), ch.len()) {
            return Ok(Tb::Bi(i as u8, [ch[0], ch[1]]));
        }
        if op == TE && ch.len() == 3 {
            return Ok(Tb::Te([ch[0], ch[1], ch[2]]));
        }
        Err(egg::FromOpError::new(op, ch))
    }
}

impl SynthLanguage for Tb {
    type Constant = V;

    fn eval<'a, F>(&'a self, cvec_len: usize, mut get_cvec: F) -> CVec<Self>
    where
        F: FnMut(&'a Id) -> &'a CVec<Self>,
    {
        let al = alg();
        match self {
            Tb::Num(v) => vec![Some(V(v.0 % al.k)); cvec_len],
            Tb::Var(_) => vec![],
            Tb::Un(i, [a]) => map!(get_cvec, a => al.un(*i as usize, a.0).map(V)),
            Tb::Bi(i, [a, b]) => map!(get_cvec, a, b => al.bi(*i as usize, a.0, b.0).map(V)),
            Tb::Te([a, b, c]) => map!(get_cvec, a, b, c => al.te(a.0, b.0, c.0).map(V)),
        }
    }

    fn mk_interval<'a, F>(&'a self, mut get: F) -> Interval<V>
    where
        F: FnMut(&'a Id) -> &'a Interval<V>,
    {
        let al = alg();
        if al.interval == 0 {
            return Interval::default();
        }
        if let Tb::Num(v) = self {
            let v = V(v.0 % al.k);
            return Interval::new(Some(v), Some(v));
        }
        if al.interval == 1 || matches!(self, Tb::Var(_)) {
            return Interval::default();
        }
        let rs: Vec<(u8, u8)> = self
            .children()
            .iter()
            .map(|c| {
                let i = get(c);
                (i.low.map_or(0, |v| v.0), i.high.map_or(al.k - 1, |v| v.0))
            })
            .collect();
        let mut vals = vec![];
        match self {
            Tb::Un(i, _) => {
                for a in rs[0].0..=rs[0].1 {
                    vals.push(al.un(*i as usize, a));
                }
            }
            Tb::Bi(i, _) => {
                for a in rs[0].0..=rs[0].1 {
                    for b in rs[1].0..=rs[1].1 {
                        vals.push(al.bi(*i as usize, a, b));
                    }
                }
            }
            Tb::Te(_) => {
                for a in rs[0].0..=rs[0].1 {
                    for b in rs[1].0..=rs[1].1 {
                        for c in rs[2].0..=rs[2].1 {
                            vals.push(al.te(a, b, c));
                        }
                    }
                }
            }
            _ => {}
        }
        let vals: Vec<u8> = vals.into_iter().flatten().collect();
        match (vals.iter().min(), vals.iter().max()) {
            (Some(a), Some(b)) => Interval::new(Some(V(*a)), Some(V(*b))),
            _ => Interval::default(),
        }
    }

    fn initialize_vars(egraph: &mut EGraph<Self, SynthAnalysis>, vars: &[String]) {
        let al = alg();
        if al.samples.is_empty() {
            // no value vectors in this configuration
            for v in vars {
                egraph.add(Tb::Var(Symbol::from(v.clone())));
            }
            return;
        }
        let consts: Vec<Option<V>> = al.samples.iter().map(|v| Some(V(*v))).collect();
        let cvecs = self_product(&consts, vars.len());
        egraph.analysis.cvec_len = consts.len().pow(vars.len() as u32);
        for (i, v) in vars.iter().enumerate() {
            let id = egraph.add(Tb::Var(Symbol::from(v.clone())));
            egraph[id].data.cvec = cvecs[i].clone();
        }
    }

    fn to_var(&self) -> Option<Symbol> {
        if let Tb::Var(s) = self {
            Some(*s)
        } else {
            None
        }
    }
    fn mk_var(sym: Symbol) -> Self {
        Tb::Var(sym)
    }
    fn is_constant(&self) -> bool {
        matches!(self, Tb::Num(_))
    }
    fn mk_constant(c: V, _egraph: &mut EGraph<Self, SynthAnalysis>) -> Self {
        Tb::Num(c)
    }
    fn is_fast_forwarding() -> bool {
        !alg().exploratory.is_empty()
    }
    fn get_exploratory_rules() -> Ruleset<Self> {
        Ruleset::new(alg().exploratory.iter())
    }
    fn is_allowed_op(&self) -> bool {
        let a = &alg().allowed;
        match self {
            Tb::Un(i, _) => a[*i as usize],
            Tb::Bi(i, _) => a[UN.len() + *i as usize],
            Tb::Te(_) => a[UN.len() + BI.len()],
            Tb::Num(_) => a[NOPS - 1],
            Tb::Var(_) => true,
        }
    }
    fn validate(lhs: &Pattern<Self>, rhs: &Pattern<Self>) -> ValidationResult {
        let (l, r) = (pat_t(lhs), pat_t(rhs));
        validate_t(&l, &r)
    }
}

pub fn validate_t(l: &T, r: &T) -> ValidationResult {
    let al = alg();
    let yes = match &al.validity {
        Validity::Always => return ValidationResult::Valid,
        Validity::UnknownSome(n) => {
            if crate::engine::fnv(format!("{} {}", l, r).as_bytes()) % n == 0 {
                return ValidationResult::Unknown;
            }
            al.same(&strip(l), &strip(r))
        }
        Validity::Exact => al.same(&strip(l), &strip(r)),
        Validity::Directed => l.atoms() >= r.atoms() && al.same(&strip(l), &strip(r)),
    };
    if yes {
        ValidationResult::Valid
    } else {
        ValidationResult::Invalid
    }
}

pub fn pat_t<L: SynthLanguage>(p: &Pattern<L>) -> T {
    T::parse(&p.to_string()).expect("pattern text")
}
pub fn expr_t<L: SynthLanguage>(e: &RecExpr<L>) -> T {
    T::parse(&e.to_string()).expect("expression text")
}
pub fn expr<L: SynthLanguage>(t: &T) -> RecExpr<L> {
    t.to_string().parse().unwrap_or_else(|_| panic!("not a term of the domain: {}", t))
}
pub fn pattern<L: SynthLanguage>(t: &T) -> Pattern<L> {
    t.to_string().parse().unwrap_or_else(|_| panic!("not a pattern of the domain: {}", t))
}

/// Interns every symbol the domain uses in a fixed order (symbol order follows interning order).
pub fn init() {
    for v in VARS {
        let _ = Symbol::from(*v);
    }
    for c in b'a'..=b'z' {
        let s = (c as char).to_string();
        let _ = Symbol::from(s.as_str());
        let _ = Symbol::from(format!("?{}", s).as_str());
    }
}

// ---------------------------------------------------------------------------------- generators

pub fn undefine(g: &mut G, t: &mut [Option<u8>], pct: u64) {
    for x in t.iter_mut() {
        if g.chance(pct) {
            *x = None;
        }
    }
}

/// A random interpretation; `partial` allows undefined results.
pub fn gen_alg(g: &mut G, kmax: u8, partial: bool) -> Alg {
    let k = g.size(2, kmax as usize) as u8;
    let kk = k as u32;
    let mut un = vec![];
    for _ in 0..UN.len() {
        let kind = g.below(6);
        let c = g.below(k as u64) as u8;
        let mut t: Vec<Option<u8>> = (0..k)
            .map(|x| {
                Some(match kind {
                    0 => k - 1 - x,
                    1 => (x + 1) % k,
                    2 => c,
                    3 => x,
                    4 => ((x as u32 * x as u32) % kk) as u8,
                    _ => g.below(k as u64) as u8,
                })
            })
            .collect();
        if partial && g.chance(40) {
            undefine(g, &mut t, 30);
        }
        un.push(t);
    }
    let mut bi = vec![];
    for _ in 0..BI.len() {
        let kind = g.below(10);
        let c = g.below(k as u64) as u8;
        let mut t: Vec<Option<u8>> = vec![];
        for x in 0..k {
            for y in 0..k {
                t.push(match kind {
                    0 => Some((x + y) % k),
                    1 => Some(((x as u32 * y as u32) % kk) as u8),
                    2 => Some(x.min(y)),
                    3 => Some(x.max(y)),
                    4 => Some((x + k - y) % k),
                    5 => Some(x),
                    6 => Some(c),
                    7 => {
                        // division modulo k where it has exactly one answer
                        let sols: Vec<u8> = (0..k).filter(|q| (*q as u32 * y as u32) % kk == x as u32).collect();
                        if partial {
                            if sols.len() == 1 {
                                Some(sols[0])
                            } else {
                                None
                            }
                        } else {
                            Some(sols.first().copied().unwrap_or(0))
                        }
                    }
                    8 => {
                        // random commutative
                        if y < x {
                            t[(y as usize) * k as usize + x as usize]
                        } else {
                            Some(g.below(k as u64) as u8)
                        }
                    }
                    _ => Some(g.below(k as u64) as u8),
                });
            }
        }
        if partial && g.chance(30) {
            undefine(g, &mut t, 25);
        }
        bi.push(t);
    }
    let kind = g.below(4);
    let mut te = vec![];
    for x in 0..k {
        for y in 0..k {
            for z in 0..k {
                te.push(Some(match kind {
                    0 | 1 => {
                        if x != 0 {
                            y
                        } else {
                            z
                        }
                    }
                    2 => x.min(y).max(z),
                    _ => g.below(k as u64) as u8,
                }));
            }
        }
    }
    if partial && g.chance(20) {
        undefine(g, &mut te, 20);
    }
    Alg { k, un, bi, te, samples: (0..k).collect(), interval: 0, allowed: [true; NOPS], exploratory: vec![], validity: Validity::Exact }
}

/// A random domain term over the given variables.
pub fn gen_term(g: &mut G, vars: &[&str], k: u8, depth: usize) -> T {
    if depth == 0 || !g.chance(65) {
        return if vars.is_empty() || g.chance(25) {
            T::A(g.below(k as u64).to_string())
        } else {
            T::A(g.pick(vars).to_string())
        };
    }
    gen_op(g, vars, k, depth)
}
/// As `gen_term`, with an operator at the root.
pub fn gen_op(g: &mut G, vars: &[&str], k: u8, depth: usize) -> T {
    let (op, n) = match g.weighted(&[3, 5, 1]) {
        0 => (*g.pick(UN), 1),
        1 => (*g.pick(BI), 2),
        _ => (TE, 3),
    };
    crate::sx::l(op, (0..n).map(|_| gen_term(g, vars, k, depth - 1)).collect())
}

/// The term with the arguments of some operators in another order.
pub fn swap_args(g: &mut G, t: &T) -> T {
    match t {
        T::L(xs) => {
            let mut args: Vec<T> = xs[1..].iter().map(|x| swap_args(g, x)).collect();
            if g.bool() {
                g.shuffle(&mut args);
            }
            args.insert(0, xs[0].clone());
            T::L(args)
        }
        t => t.clone(),
    }
}

/// Rules (left, right) over plain variables that are valid in the algebra (same partial function,
/// for all instances); every variable of the right side occurs on the left.
pub fn gen_valid_rules(g: &mut G, al: &Alg, max: usize) -> Vec<(T, T)> {
    let wide = g.chance(5);
    let vars = &VARS[..if wide { g.size(4, 5) } else { g.size(1, 3) }];
    let max = if g.chance(4) { 4 * max } else { max };
    let names: Vec<String> = vars.iter().map(|s| s.to_string()).collect();
    let vals = al.all_vals();
    let mut buckets: BTreeMap<Vec<Option<u8>>, Vec<T>> = BTreeMap::new();
    let mut rules: Vec<(T, T)> = vec![];
    let tries = 12 + 6 * max;
    for _ in 0..tries {
        // over many variables, often the permutation of an earlier term
        let earlier: Vec<&T> = if wide { buckets.values().flatten().collect() } else { vec![] };
        let t = if !earlier.is_empty() && g.bool() {
            let t = (*g.pick(&earlier)).clone();
            swap_args(g, &t)
        } else {
            gen_term(g, vars, al.k, if wide { 3 } else { 2 })
        };
        let f = al.table(&t, &names, &vals);
        let b = buckets.entry(f).or_default();
        if b.contains(&t) {
            continue;
        }
        if !b.is_empty() {
            let o = g.pick(b).clone();
            let (l, r) = if g.bool() { (t.clone(), o) } else { (o, t.clone()) };
            let (vl, vr) = (vars_of(&[&l]), vars_of(&[&r]));
            let (l, r) = if vr.iter().all(|v| vl.contains(v)) { (l, r) } else { (r, l) };
            let (vl, vr) = (vars_of(&[&l]), vars_of(&[&r]));
            // operators are strict: with undefined values a rule stays true for all instances only if
            // both sides depend on the same variables
            let closed = al.total() || vl.iter().all(|v| vr.contains(v));
            if closed && vr.iter().all(|v| vl.contains(v)) && !rules.contains(&(l.clone(), r.clone())) {
                rules.push((l, r));
            }
        }
        b.push(t);
        if rules.len() >= max {
            break;
        }
    }
    rules
}

/// Arbitrary rules (not valid in anything) whose right variables occur on the left; mostly with an
/// operator on the left.
pub fn gen_any_rules(g: &mut G, k: u8, max: usize) -> Vec<(T, T)> {
    let n = if g.chance(4) { g.size(max, 5 * max) } else { g.size(0, max) };
    let mut rules = vec![];
    for _ in 0..n {
        let wide = g.chance(5);
        let vars = &VARS[..if wide { g.size(4, 6) } else { g.size(1, 3) }];
        let dl = if wide { 3 } else { g.size(1, 2) };
        let l = if g.chance(95) { gen_op(g, vars, k, dl) } else { gen_term(g, vars, k, 1) };
        let vl = vars_of(&[&l]);
        let vls: Vec<&str> = vl.iter().map(|s| s.as_str()).collect();
        let r = match g.weighted(&[3, 1, 1]) {
            0 => gen_term(g, &vls, k, 2),
            1 => {
                // a subterm of the left
                let mut s = vec![];
                l.subterms(&mut s);
                let c: Vec<T> = s.into_iter().filter(|t| !matches!(t, T::A(x) if is_op(x))).cloned().collect();
                g.pick(&c).clone()
            }
            _ => {
                // arguments permuted
                match &l {
                    T::L(xs) => {
                        let mut args = xs[1..].to_vec();
                        g.shuffle(&mut args);
                        let mut v = vec![xs[0].clone()];
                        v.extend(args);
                        T::L(v)
                    }
                    t => t.clone(),
                }
            }
        };
        rules.push((l, r));
    }
    rules
}

pub fn rule_text(l: &T, r: &T) -> String {
    format!("{} ==> {}", to_pat(l), to_pat(r))
}
pub fn rules_text(rs: &[(T, T)]) -> String {
    rs.iter().map(|(l, r)| rule_text(l, r)).collect::<Vec<_>>().join(", ")
}
pub fn ruleset(rs: &[(T, T)]) -> Ruleset<Tb> {
    Ruleset::new(rs.iter().map(|(l, r)| rule_text(l, r)))
}
/// Rules with duplicates (same text) removed, as a ruleset would keep them.
pub fn dedup_rules(rs: Vec<(T, T)>) -> Vec<(T, T)> {
    let mut out: Vec<(T, T)> = vec![];
    for r in rs {
        if !out.contains(&r) {
            out.push(r);
        }
    }
    out
}
