//! C23: rule inference is deterministic.
use ruler::enumo::{Metric, Ruleset, Scheduler, Workload};
use ruler::recipe_utils::{recursive_rules, run_fast_forwarding, run_workload, Lang};
use ruler::DeriveType;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use vharness::engine::*;
use vharness::oracle::{limits, real_egraph, BIG};
use vharness::scen::*;
use vharness::sx::*;
use vharness::tb::{self, *};
use vharness::{ensure, fail};
#[path = "../clock.rs"]
mod clock;

/// One inference: what it is, and how to run it (any number of times).
struct Job {
    what: String,
    run: Box<dyn Fn() -> Vec<String> + Send + Sync>,
}

fn names(r: &Ruleset<Tb>) -> Vec<String> {
    r.iter().map(|r| r.name.to_string()).collect()
}
fn lists(rs: &[(&str, &Ruleset<Tb>)]) -> Vec<String> {
    let mut out = vec![];
    for (n, r) in rs {
        out.push(format!("{}:", n));
        out.extend(names(r));
    }
    out
}
fn some_limits(g: &mut G, most: usize) -> ruler::Limits {
    limits(g.size(1, most), if g.chance(40) { g.size(10, 300) } else { 3000 }, if g.chance(30) { g.size(1, 5) } else { BIG })
}

fn job(g: &mut G) -> Job {
    let kind = g.below(7);
    job_of(g, kind)
}
fn job_of(g: &mut G, kind: u64) -> Job {
    match kind {
        0 => {
            // matching, of a plain or a compressed e-graph
            let partial = g.chance(50);
            let mut al = gen_alg(g, 3, partial);
            al.interval = g.below(2) as u8;
            let al = set_alg(al);
            let rules = if g.bool() { gen_valid_rules(g, al, 3) } else { vec![] };
            let nv = g.size(1, 2);
            let n = g.size(2, 12);
            let ts: Vec<T> = (0..n).map(|_| gen_term(g, &VARS[..nv], al.k, 2)).collect();
            let lim = some_limits(g, 2);
            Job {
                what: format!("matching | {} | {} | {} | {:?}", al.describe(), rules_text(&rules), show(&ts), lim),
                run: Box::new(move || {
                    use_alg(al);
                    let e = Scheduler::Compress(lim).run(&real_egraph::<Tb>(&ts), &ruleset(&rules));
                    lists(&[("matching", &Ruleset::cvec_match(&e)), ("fast matching", &Ruleset::fast_cvec_match(&e))])
                }),
            }
        }
        1 => {
            // candidates from merges
            let rules = dedup_rules(gen_any_rules(g, 3, 4));
            let mut al = blank(3);
            for i in 0..NOPS {
                al.allowed[i] = !g.chance(20);
            }
            let al = set_alg(al);
            let ts = instances(g, &rules, 3, 8);
            let lim = some_limits(g, 2);
            let s = strategy(g, lim);
            Job {
                what: format!("candidates | {} | {} | {:?} | {:?}", rules_text(&rules), show(&ts), s, al.allowed),
                run: Box::new(move || {
                    use_alg(al);
                    let e = real_egraph::<Tb>(&ts);
                    lists(&[("candidates", &Ruleset::extract_candidates(&e, &s.run(&e, &ruleset(&rules))))])
                }),
            }
        }
        2 => {
            let c = min_case(g, 7, true);
            let lim = some_limits(g, 2);
            let s = strategy(g, lim);
            Job {
                what: format!("minimization | {} | prior {} | {} | {:?}", c.al.describe(), rules_text(&c.prior), rules_text(&c.cands), s),
                run: Box::new(move || {
                    use_alg(c.al);
                    let mut r = ruleset(&c.cands);
                    let (chosen, invalid) = r.minimize(ruleset(&c.prior), s);
                    lists(&[("chosen", &chosen), ("invalid", &invalid), ("left", &r)])
                }),
            }
        }
        3 => {
            // partition and derivability of many rules
            let al = set_alg(blank(3));
            let rules = dedup_rules(gen_any_rules(g, 3, 4));
            let n = g.size(0, 20);
            let mut target = gen_any_rules(g, 3, n);
            for _ in 0..4 {
                target.extend(goal(g, &rules));
            }
            let target = dedup_rules(target);
            let lim = limits(g.size(1, 3), 500, g.size(1, 50));
            Job {
                what: format!("derivability | {} | {} | {:?}", rules_text(&rules), rules_text(&target), lim),
                run: Box::new(move || {
                    use_alg(al);
                    let (r, t) = (ruleset(&rules), ruleset(&target));
                    let (a, b) = r.derive(DeriveType::Lhs, &t, lim);
                    let (c, d) = r.derive(DeriveType::LhsAndRhs, &t, lim);
                    let (e, f) = t.partition(|x| x.name.len() % 3 != 0);
                    lists(&[("left can", &a), ("left cannot", &b), ("both can", &c), ("both cannot", &d), ("yes", &e), ("no", &f)])
                }),
            }
        }
        4 => {
            let partial = g.chance(30);
            let mut al = gen_alg(g, 3, partial);
            if g.chance(30) {
                al.interval = 1;
            }
            let al = set_alg(al);
            let prior = if g.bool() { dedup_rules(gen_valid_rules(g, al, 3)) } else { vec![] };
            let nv = g.size(1, 2);
            let n = g.size(2, 10);
            let ts: Vec<T> = (0..n).map(|_| gen_term(g, &VARS[..nv], al.k, 2)).collect();
            let (pl, ml) = (some_limits(g, 2), some_limits(g, 2));
            let fast = g.bool();
            Job {
                what: format!("inference | {} | prior {} | {} | fast {} {:?} {:?}", al.describe(), rules_text(&prior), show(&ts), fast, pl, ml),
                run: Box::new(move || {
                    use_alg(al);
                    let w = Workload::Set(ts.iter().map(|t| t.to_sexp()).collect());
                    lists(&[("rules", &run_workload::<Tb>(w, ruleset(&prior), pl, ml, fast))])
                }),
            }
        }
        5 => {
            let c = ff_case(g, false);
            let al = alg();
            let (mut pl, mut ml) = (c.pl, c.ml);
            pl.node = 2000;
            ml.node = 2000;
            Job {
                what: format!("fast-forwarding | hidden {:?} | {} | prior {} | {} | {:?} {:?}", c.hidden, rules_text(&c.expl), rules_text(&c.prior), show(&c.ts), pl, ml),
                run: Box::new(move || {
                    use_alg(al);
                    let w = Workload::Set(c.ts.iter().map(|t| t.to_sexp()).collect());
                    lists(&[("rules", &run_fast_forwarding::<Tb>(w, ruleset(&c.prior), pl, ml))])
                }),
            }
        }
        _ => {
            let al = set_alg(gen_alg(g, 3, false));
            let prior = if g.chance(40) { dedup_rules(gen_valid_rules(g, al, 2)) } else { vec![] };
            let vars = VARS[..g.size(1, 2)].iter().map(|s| s.to_string()).collect::<Vec<_>>();
            let vals = if g.bool() { vec!["0".to_string()] } else { vec![] };
            let ops = vec![
                UN[..g.size(0, 2)].iter().map(|s| s.to_string()).collect::<Vec<_>>(),
                BI[..g.size(1, 2)].iter().map(|s| s.to_string()).collect(),
            ];
            let n = g.size(1, 3);
            let lang = Lang { vals, vars, ops };
            Job {
                what: format!("recursive inference | {} | {:?} up to {} atoms | prior {}", al.describe(), lang, n, rules_text(&prior)),
                run: Box::new(move || {
                    use_alg(al);
                    lists(&[("rules", &recursive_rules::<Tb>(Metric::Atoms, n, lang.clone(), ruleset(&prior)))])
                }),
            }
        }
    }
}
/// The result, or the message of the panic.
fn result(j: &Job) -> Vec<String> {
    match catch_unwind(AssertUnwindSafe(|| (j.run)())) {
        Ok(v) => v,
        Err(e) => {
            let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or(e.downcast_ref::<String>().cloned()).unwrap_or_default();
            vec![format!("panic {}", m)]
        }
    }
}
fn labels(g: &mut G, v: &[String]) {
    g.label_if(v[0].starts_with("panic"), "no result");
    g.nontrivial_if(v.iter().filter(|s| s.contains("==>")).count() >= 2);
}
fn differ(a: &[String], b: &[String]) -> String {
    let i = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let none = "nothing".to_string();
    format!("at place {} {:?} against {:?}", i, a.get(i).unwrap_or(&none), b.get(i).unwrap_or(&none))
}

thread_local! {
    static POOLS: Vec<(usize, rayon::ThreadPool)> = [1, 2, 5, 16]
        .iter()
        .map(|n| (*n, rayon::ThreadPoolBuilder::new().num_threads(*n).build().unwrap()))
        .collect();
}

/// Repeats in one process, with other work in between and with different thread counts.
fn repeats(g: &mut G) -> R {
    let j = job(g);
    let between = if g.bool() { Some(job(g)) } else { None };
    g.input(format!("{}{}", j.what, between.as_ref().map_or(String::new(), |b| format!(" / between: {}", b.what))));
    let first = result(&j);
    labels(g, &first);
    if let Some(b) = &between {
        let _ = result(b);
        g.label("other work in between");
    }
    let again = result(&j);
    ensure!(first == again, "run again: {}", differ(&first, &again));
    let (v, secs) = clock::slow(*g.pick(&[3, 20, 100]), || result(&j));
    if secs < 300.0 {
        g.label_if(secs > 10.0, "on a slow machine");
        ensure!(first == v, "on a slow machine ({} s): {}", secs, differ(&first, &v));
    }
    POOLS.with(|ps| {
        for (n, p) in ps {
            let v = p.install(|| result(&j));
            ensure!(first == v, "with {} threads: {}", n, differ(&first, &v));
        }
        Ok(())
    })
}

/// The same job in other processes: other thread counts, other work before.
fn processes(g: &mut G) -> R {
    elsewhere(g, &|g| job(g), "--jobs")
}
/// In a process that met the names in another order before. Only jobs with rules that are true, as
/// egg itself orders different variables of one class by when their names were first met.
fn other_names(g: &mut G) -> R {
    elsewhere(
        g,
        &|g| {
            let kind = *g.pick(&[0u64, 4, 6]);
            job_of(g, kind)
        },
        "--jobs-late",
    )
}
fn elsewhere(g: &mut G, job: &dyn Fn(&mut G) -> Job, mode: &str) -> R {
    let exe = match std::env::current_exe() {
        Ok(e) => e,
        Err(e) => fail!("harness: {}", e),
    };
    let n = g.size(1, 12);
    let mut jobs = vec![];
    let mut codes = vec![];
    let mut what = vec![];
    for _ in 0..n {
        let s = g.choices().len();
        let j = job(g);
        codes.push(g.choices()[s..].to_vec());
        what.push(j.what.clone());
        jobs.push(j);
    }
    let threads = *g.pick(&["1", "3", "8"]);
    let order = g.below(3);
    g.input(format!("{} threads, order {} | {}", threads, order, what.join(" /// ")));
    let want: Vec<Vec<String>> = jobs.iter().map(result).collect();
    g.nontrivial_if(want.iter().flatten().filter(|s| s.contains("==>")).count() >= 2);
    let dir = std::env::temp_dir();
    let file = dir.join(format!("vharness-c23-{}", std::process::id()));
    let mut idx: Vec<usize> = (0..jobs.len()).collect();
    match order {
        0 => {}
        1 => idx.reverse(),
        _ => g.shuffle(&mut idx),
    }
    let text: Vec<String> = idx.iter().map(|i| codes[*i].iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" ")).collect();
    std::fs::write(&file, text.join("\n")).unwrap();
    let st = Command::new(exe)
        .arg(mode)
        .arg(&file)
        .env("RAYON_NUM_THREADS", threads)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status();
    let out = std::fs::read_to_string(&file).unwrap_or_default();
    let _ = std::fs::remove_file(&file);
    let ok = st.map(|s| s.success()).unwrap_or(false);
    ensure!(ok, "the other process failed");
    let got: Vec<Vec<String>> = serde_json::from_str(&out).unwrap();
    for (k, i) in idx.iter().enumerate() {
        ensure!(want[*i] == got[k], "in another process ({}): {}", what[*i], differ(&want[*i], &got[k]));
    }
    Ok(())
}
fn child(late: bool, path: &str) -> ! {
    std::panic::set_hook(Box::new(|_| {}));
    if late {
        for v in VARS.iter().rev() {
            let _ = ruler::Symbol::from(*v);
        }
        for c in (b'a'..=b'z').rev() {
            let _ = ruler::Symbol::from(format!("?{}", c as char));
            let _ = ruler::Symbol::from((c as char).to_string());
        }
    }
    tb::init();
    let path = path.to_string();
    let ok = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || {
            let s = std::fs::read_to_string(&path).unwrap();
            let out: Vec<Vec<String>> = s
                .lines()
                .map(|l| {
                    let g = &mut G::of(l.split_whitespace().map(|c| c.parse().unwrap()).collect());
                    let kind = if late { *g.pick(&[0u64, 4, 6]) } else { g.below(7) };
                    result(&job_of(g, kind))
                })
                .collect();
            std::fs::write(&path, serde_json::to_string(&out).unwrap()).unwrap();
        })
        .unwrap()
        .join()
        .is_ok();
    std::process::exit(if ok { 0 } else { 4 })
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("--jobs") => child(false, &args[2]),
        Some("--jobs-late") => child(true, &args[2]),
        _ => {}
    }
    vharness::engine::main(Prop {
        id: "C23",
        rule: "Random jobs of seven kinds (value matching, candidates from merges, minimization, partition and derivability of up to 24 rules, inference, fast-forwarding, recursive inference) with random limits. repeats: each is run twice in the process with another job in between and once in pools of 1, 2, 5 and 16 threads, and once on a simulated slow machine (where every look at the clock takes 3 to 100 ms; runs below five minutes count). processes: batches of up to 12 jobs are run here and, in another order, in another process with 1, 3 or 8 threads. The lists of rules must be the same, in order. Non-trivial: results with at least two rules.",
        assumptions: &["a call that gives up must give up with the same message every time"],
        subs: vec![
            Sub { name: "repeats", quick: 12_000, thorough: 300_000, f: repeats },
            Sub { name: "processes", quick: 800, thorough: 20_000, f: processes },
            Sub { name: "other_names", quick: 400, thorough: 10_000, f: other_names },
        ],
        init: tb::init,
    })
}
