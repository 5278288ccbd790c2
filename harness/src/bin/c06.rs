//! C06: rulesets behave as ordered sets of rules keyed by their text.
use egg::SymbolLang;
use ruler::enumo::{Rule, Ruleset};
use ruler::SynthLanguage;
use std::collections::BTreeSet;
use vharness::engine::*;
use vharness::io;
use vharness::sx::*;
use vharness::tb::{self, *};
use vharness::{ensure, fail};

/// A rule by its pattern sides.
type P = (T, T);
fn name(p: &P) -> String {
    format!("{} ==> {}", p.0, p.1)
}
fn rev(p: &P) -> P {
    (p.1.clone(), p.0.clone())
}
fn pvars(t: &T) -> BTreeSet<String> {
    let mut v = vec![];
    t.leaves(&mut v);
    v.into_iter().filter(|s| s.starts_with('?')).map(|s| s.to_string()).collect()
}
fn ok(p: &P) -> bool {
    pvars(&p.1).is_subset(&pvars(&p.0))
}
fn mk<L: SynthLanguage>(p: &P) -> Rule<L> {
    Rule::new(&tb::pattern::<L>(&p.0), &tb::pattern::<L>(&p.1)).expect("rule")
}

/// The model: rules in order of first insertion.
#[derive(Clone, Default, PartialEq, Debug)]
struct M(Vec<P>);
impl M {
    fn add(&mut self, p: &P) {
        if !self.0.contains(p) {
            self.0.push(p.clone())
        }
    }
    fn set(&self) -> BTreeSet<String> {
        self.0.iter().map(name).collect()
    }
    fn list(&self) -> Vec<String> {
        self.0.iter().map(name).collect()
    }
    fn bidir(&self) -> usize {
        let s = self.set();
        self.0
            .iter()
            .filter(|p| {
                let r = name(&rev(p));
                // the second of a pair is not counted
                !(ok(&rev(p)) && s.contains(&r) && r < name(p))
            })
            .count()
    }
}

fn check<L: SynthLanguage>(rs: &Ruleset<L>, m: &M, pool: &[P], how: &str) -> R {
    let list = m.list();
    ensure!(rs.to_str_vec() == list, "{}: listing {:?} instead of {:?}", how, rs.to_str_vec(), list);
    ensure!(rs.len() == list.len() && rs.is_empty() == list.is_empty(), "{}: length {} of {:?}", how, rs.len(), list);
    let it: Vec<String> = rs.iter().map(|r| r.name.to_string()).collect();
    ensure!(it == list, "{}: iteration {:?} instead of {:?}", how, it, list);
    let it2: Vec<(String, String)> = (&*rs).into_iter().map(|(k, r)| (k.to_string(), r.to_string())).collect();
    let it3: Vec<(String, String)> = rs.clone().into_iter().map(|(k, r)| (k.to_string(), r.to_string())).collect();
    let want: Vec<(String, String)> = list.iter().map(|s| (s.clone(), s.clone())).collect();
    ensure!(it2 == want && it3 == want, "{}: pairs {:?} / {:?} instead of {:?}", how, it2, it3, want);
    let mut copy = rs.clone();
    let it4: Vec<(String, String)> = (&mut copy).into_iter().map(|(k, r)| (k.to_string(), r.to_string())).collect();
    let it5: Vec<String> = copy.iter_mut().map(|r| r.name.to_string()).collect();
    ensure!(it4 == want && it5 == list, "{}: {:?} / {:?} instead of {:?}", how, it4, it5, list);
    for p in pool {
        let r = mk::<L>(p);
        ensure!(rs.contains(&r) == m.0.contains(p), "{}: contains({}) is {}", how, name(p), rs.contains(&r));
    }
    Ok(())
}

fn listing<L: SynthLanguage>(rs: &Ruleset<L>, m: &M, how: &str) -> R {
    let want = m.bidir();
    ensure!(rs.bidir_len() == want, "{}: two-way count {} instead of {} for {:?}", how, rs.bidir_len(), want, m.list());
    let ((), out) = io::capture(|| rs.pretty_print());
    let mut lines: Vec<&str> = out.lines().collect();
    ensure!(lines.len() == want, "{}: {} lines printed instead of {}: {:?}", how, lines.len(), want, lines);
    for p in &m.0 {
        if *p == rev(p) {
            let both = format!("{} <=> {}", p.0, p.1);
            ensure!(lines.contains(&name(p).as_str()) || lines.contains(&both.as_str()), "{}: {} is not shown in {:?}", how, name(p), lines);
            continue;
        }
        let two = ok(&rev(p)) && m.0.contains(&rev(p));
        let forms = if two {
            vec![format!("{} <=> {}", p.0, p.1), format!("{} <=> {}", p.1, p.0)]
        } else {
            vec![name(p)]
        };
        let n = lines.iter().filter(|l| forms.iter().any(|f| f == *l)).count();
        ensure!(n == 1, "{}: {} is shown {} times in {:?}", how, name(p), n, lines);
    }
    lines.sort();
    lines.dedup();
    ensure!(lines.len() == want, "{}: repeated lines", how);
    Ok(())
}

fn history<L: SynthLanguage>(g: &mut G, pool: Vec<P>) -> R {
    if pool.is_empty() {
        return Err(Stop::Discard);
    }
    let some = |g: &mut G| -> Vec<P> {
        let n = g.tail(0, pool.len().min(6), pool.len(), 8);
        (0..n).map(|_| g.pick(&pool).clone()).collect()
    };
    let build = |ps: &[P]| -> (Ruleset<L>, M) {
        let mut m = M::default();
        ps.iter().for_each(|p| m.add(p));
        (Ruleset::new(ps.iter().map(name)), m)
    };
    let first = some(g);
    let (mut rs, mut m) = build(&first);
    let mut log = vec![format!("new{:?}", first.iter().map(name).collect::<Vec<_>>())];
    check(&rs, &m, &pool, "new")?;
    let n = if g.chance(3) { g.size(8, 30) } else { g.size(1, 8) };
    let (mut removed, mut repeated) = (false, false);
    for _ in 0..n {
        let how;
        match g.weighted(&[3, 2, 2, 2, 3, 2, 1]) {
            0 => {
                let p = g.pick(&pool).clone();
                how = format!("add {}", name(&p));
                repeated |= m.0.contains(&p);
                rs.add(mk(&p));
                m.add(&p);
            }
            1 => {
                let ps = some(g);
                how = format!("add_all {:?}", ps.iter().map(name).collect::<Vec<_>>());
                let rules: Vec<Rule<L>> = ps.iter().map(mk).collect();
                rs.add_all(rules.iter().collect());
                ps.iter().for_each(|p| m.add(p));
            }
            2 => {
                let ps = some(g);
                let (o, om) = build(&ps);
                how = format!("extend {:?}", om.list());
                repeated |= om.0.iter().any(|p| m.0.contains(p));
                rs.extend(o);
                om.0.iter().for_each(|p| m.add(p));
            }
            3 => {
                let ps = some(g);
                let (o, om) = build(&ps);
                how = format!("union {:?}", om.list());
                let u = rs.union(&o);
                check(&rs, &m, &pool, &format!("{} (left operand)", how))?;
                check(&o, &om, &pool, &format!("{} (right operand)", how))?;
                rs = u;
                om.0.iter().for_each(|p| m.add(p));
            }
            4 => {
                let ps = some(g);
                let (o, om) = build(&ps);
                how = format!("remove_all {:?}", om.list());
                removed |= om.0.iter().any(|p| m.0.contains(p));
                rs.remove_all(o);
                let mut want = m.clone();
                want.0.retain(|p| !om.0.contains(p));
                let got = rs.to_str_vec();
                let set: BTreeSet<String> = got.iter().cloned().collect();
                ensure!(
                    set == want.set() && got.len() == want.0.len(),
                    "{}: {:?} instead of {:?}",
                    how,
                    got,
                    want.list()
                );
                // removal may reorder; the following operations work on the order it left
                want.0.sort_by_key(|p| got.iter().position(|x| *x == name(p)));
                m = want;
            }
            5 => {
                let salt = g.below(1000);
                how = format!("partition {}", salt);
                let yes = |s: &str| fnv(format!("{}{}", salt, s).as_bytes()) % 2 == 0;
                let (a, b) = rs.partition(|r| yes(&r.name));
                let (ma, mb): (Vec<P>, Vec<P>) = m.0.iter().cloned().partition(|p| yes(&name(p)));
                let (ma, mb) = (M(ma), M(mb));
                check(&a, &ma, &pool, &format!("{} (yes)", how))?;
                check(&b, &mb, &pool, &format!("{} (no)", how))?;
                check(&rs, &m, &pool, &format!("{} (operand)", how))?;
                if g.bool() {
                    rs = a;
                    m = ma;
                } else if g.bool() {
                    rs = b;
                    m = mb;
                }
            }
            _ => {
                how = "copy".to_string();
                let c = rs.clone();
                ensure!(c == rs && !(c != rs), "a copy differs");
                let p = g.pick(&pool).clone();
                let mut d = rs.clone();
                d.add(mk(&p));
                check(&rs, &m, &pool, "the original after its copy changed")?;
                ensure!((d == rs) == m.0.contains(&p), "equality after adding {}", name(&p));
                let ps = some(g);
                let (o, om) = build(&ps);
                if om.set() != m.set() {
                    ensure!(o != rs && rs != o, "different sets are equal: {:?} {:?}", om.list(), m.list());
                }
                rs = c;
            }
        }
        log.push(how.clone());
        check(&rs, &m, &pool, &how)?;
    }
    g.input(log.join("; "));
    g.label_if(removed, "removes");
    g.label_if(repeated, "re-adds");
    let two = m.0.iter().any(|p| m.0.contains(&rev(p)));
    g.label_if(two, "has a rule and its reverse");
    g.label_if(m.0.iter().any(|p| *p == rev(p)), "has a self-inverse rule");
    g.nontrivial_if(removed || repeated);
    listing(&rs, &m, log.last().unwrap())
}

fn pool(g: &mut G, mut ps: Vec<P>) -> Vec<P> {
    let mut out: Vec<P> = vec![];
    g.shuffle(&mut ps);
    for p in ps {
        for q in [p.clone(), rev(&p)] {
            if ok(&q) && !out.contains(&q) && g.chance(75) {
                out.push(q);
            }
        }
    }
    out
}

fn tb_rules(g: &mut G) -> R {
    let ps: Vec<P> = gen_any_rules(g, 3, 6).iter().map(|(l, r)| (to_pat(l), to_pat(r))).collect();
    let ps = pool(g, ps);
    history::<Tb>(g, ps)
}
fn sym_rules(g: &mut G) -> R {
    const S: &[&str] = &["?a", "?b", "c", "(f ?a)", "(f ?b)", "(* ?a ?b)", "(* ?b ?a)", "(f (f ?a))", "(* ?a c)", "(* c ?a)", "(g ?a ?a)"];
    let n = if g.chance(4) { g.size(6, 40) } else { g.size(1, 6) };
    let mut ps = vec![];
    for _ in 0..n {
        ps.push((T::parse(g.pick::<&str>(S)).unwrap(), T::parse(g.pick::<&str>(S)).unwrap()));
    }
    let ps = pool(g, ps);
    history::<SymbolLang>(g, ps)
}

/// Rules between short atoms, whose texts contain each other.
fn atom_rules(g: &mut G) -> R {
    const S: &[&str] = &["a", "b", "aa", "ab", "ba", "bb", "(f a)", "(f b)", "(f ab)", "(ab a)"];
    let n = if g.chance(4) { g.size(6, 40) } else { g.size(1, 6) };
    let mut ps = vec![];
    for _ in 0..n {
        ps.push((T::parse(g.pick::<&str>(S)).unwrap(), T::parse(g.pick::<&str>(S)).unwrap()));
    }
    let mut all = vec![];
    for p in ps {
        for q in [p.clone(), rev(&p)] {
            if !all.contains(&q) && g.chance(95) {
                all.push(q);
            }
        }
    }
    history::<SymbolLang>(g, all)
}

/// Text with repetitions, two-way arrows and lines that are no rules.
fn from_text(g: &mut G) -> R {
    let rs = gen_any_rules(g, 3, 5);
    if rs.is_empty() {
        return Err(Stop::Discard);
    }
    let mut m = M::default();
    let mut lines = vec![];
    let n = g.size(1, 8);
    for _ in 0..n {
        let (l, r) = g.pick(&rs);
        let p = (to_pat(l), to_pat(r));
        let two = ok(&rev(&p)) && g.bool();
        lines.push(format!("{} {} {}", p.0, if two { "<=>" } else { "==>" }, p.1));
        m.add(&p);
        if two {
            m.add(&rev(&p));
        }
    }
    g.input(lines.join("; "));
    g.nontrivial_if(m.0.len() < n);
    let r = Ruleset::<Tb>::new(&lines);
    check(&r, &m, &m.0.clone(), "from text")?;
    // order of the text does not matter for the set
    let mut sh = lines.clone();
    g.shuffle(&mut sh);
    let r2 = Ruleset::<Tb>::new(&sh);
    let s: BTreeSet<String> = r2.to_str_vec().into_iter().collect();
    if s != m.set() {
        fail!("shuffled text gives {:?} instead of {:?}", s, m.set());
    }
    Ok(())
}

fn main() {
    vharness::engine::main(Prop {
        id: "C06",
        rule: "histories of up to 8 operations (add, add_all, extend, union, remove_all, partition, copy and compare) over a pool of up to 12 rules with their reverses, self-inverse rules and rules absent from the set, for two languages; after every operation listing, iteration, length, membership of every pool rule and operands are compared with a model, at the end the two-way count and the printed listing. Non-trivial: an operation removes or re-adds a present rule (text: a rule is repeated).",
        assumptions: &["remove_all may reorder the remaining rules", "equality of rulesets with the same rules in different order is unspecified"],
        subs: vec![
            Sub { name: "tb", quick: 60_000, thorough: 1_200_000, f: tb_rules },
            Sub { name: "sym", quick: 60_000, thorough: 1_200_000, f: sym_rules },
            Sub { name: "atoms", quick: 60_000, thorough: 1_200_000, f: atom_rules },
            Sub { name: "text", quick: 40_000, thorough: 800_000, f: from_text },
        ],
        init: tb::init,
    })
}
