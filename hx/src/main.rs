//! hx: the bounded side of the checks.  Every property has a generator of
//! cases and an evaluator that runs the real crate in /repo against an
//! executable form of the property.  It supplies failing inputs for obligations the verifier
//! rejects, and covers (labelled bounded) what is not under contract.
mod build;
mod cases;
mod cfgeval;
mod fsys;
mod graphs;
mod meta;
mod model;
mod oracle;
mod queries;
mod rng;
mod strings;
use cases::Outcome;
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};

fn eval(c: &Value) -> Outcome {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| cases::eval(c))) {
        Ok(o) => o,
        Err(e) => Outcome::Violated(format!("unexpected panic: {}", build::panic_text(e))),
    }
}
fn hash(v: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

struct Agg {
    evals: u64,
    trivial: u64,
    skipped: u64,
    distinct: HashSet<u64>,
    samples: Vec<(u64, Value)>,
    bad: Vec<(u64, String, Value)>,
    nbad: u64,
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().skip(1).collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    match a.first().map(|s| s.as_str()) {
        Some("check") => {
            let prop = a[1].clone();
            let seed: u64 = opt("--seed").map_or(1, |s| s.parse().unwrap());
            let n: u64 = opt("--n").map_or(1000, |s| s.parse().unwrap());
            let threads: u64 = opt("--threads").map_or(8, |s| s.parse().unwrap());
            let secs: f64 = opt("--secs").map_or(1e9, |s| s.parse().unwrap());
            let start = std::time::Instant::now();
            let next = AtomicU64::new(0);
            let agg = Mutex::new(Agg { evals: 0, trivial: 0, skipped: 0, distinct: HashSet::new(), samples: vec![], bad: vec![], nbad: 0 });
            std::thread::scope(|s| {
                for _ in 0..threads {
                    s.spawn(|| {
                        loop {
                            let from = next.fetch_add(64, Ordering::Relaxed);
                            if from >= n || start.elapsed().as_secs_f64() > secs {
                                break;
                            }
                            let mut l = Agg { evals: 0, trivial: 0, skipped: 0, distinct: HashSet::new(), samples: vec![], bad: vec![], nbad: 0 };
                            for k in from..(from + 64).min(n) {
                                let cs = seed.wrapping_mul(1_000_000_007).wrapping_add(k);
                                let c = cases::generate_case(&prop, cs);
                                let o = eval(&c);
                                l.evals += 1;
                                match o {
                                    Outcome::Held(true) => {
                                        l.distinct.insert(hash(&c.to_string()));
                                        if k < 3 {
                                            l.samples.push((k, c));
                                        }
                                    }
                                    Outcome::Held(false) => l.trivial += 1,
                                    Outcome::Skipped => l.skipped += 1,
                                    Outcome::Violated(e) => {
                                        l.nbad += 1;
                                        l.bad.push((cs, e, c));
                                    }
                                }
                            }
                            let mut g = agg.lock().unwrap();
                            g.evals += l.evals;
                            g.trivial += l.trivial;
                            g.skipped += l.skipped;
                            g.distinct.extend(l.distinct);
                            g.samples.extend(l.samples);
                            g.nbad += l.nbad;
                            for b in l.bad {
                                if g.bad.len() < 50 {
                                    g.bad.push(b);
                                }
                            }
                        }
                    });
                }
            });
            let mut g = agg.into_inner().unwrap();
            g.samples.sort_by_key(|s| s.0);
            // the smallest failing cases are the most useful ones
            g.bad.sort_by_key(|b| b.2.to_string().len());
            g.bad.truncate(3);
            println!(
                "{}",
                json!({"prop": prop, "evaluations": g.evals, "trivial": g.trivial, "skipped": g.skipped, "distinct_nontrivial": g.distinct.len(),
                       "rule": cases::rule(&prop), "violations": g.nbad, "bad": g.bad.iter().map(|b| json!({"case_seed": b.0, "what": b.1, "case": b.2})).collect::<Vec<_>>(),
                       "samples": g.samples.iter().take(2).map(|s| &s.1).collect::<Vec<_>>(), "wall_s": start.elapsed().as_secs_f64()})
            );
        }
        // exit 1 when the case still violates its property
        Some("replay") => {
            let t = std::fs::read_to_string(&a[1]).expect("read");
            let v: Value = serde_json::from_str(&t).expect("json");
            let c = if v["case"].is_object() { &v["case"] } else { &v };
            match eval(c) {
                Outcome::Violated(e) => {
                    println!("{e}");
                    std::process::exit(1);
                }
                Outcome::Skipped => println!("not attributable"),
                Outcome::Held(_) => println!("holds"),
            }
        }
        Some("case") => {
            let c = cases::generate_case(&a[1], a[2].parse().unwrap());
            println!("{c}");
        }
        // what kinds of mismatch there are: for working on the generator
        Some("hist") => {
            let mut m: BTreeMap<String, (u64, u64)> = BTreeMap::new();
            for k in 0..a[2].parse::<u64>().unwrap() {
                let c = cases::generate_case(&a[1], k);
                let t = match eval(&c) {
                    Outcome::Held(true) => "held".into(),
                    Outcome::Held(false) => "trivial".into(),
                    Outcome::Skipped => "skipped".into(),
                    Outcome::Violated(e) => format!("BAD {}", e.chars().take(60).collect::<String>()),
                };
                let e = m.entry(t).or_insert((0, k));
                e.0 += 1;
            }
            for (k, v) in m {
                println!("{:7} (seed {}) {k}", v.0, v.1);
            }
        }
        _ => {
            eprintln!("usage: hx check|replay|case|hist ...; properties {:?}", cases::PROPS);
            std::process::exit(2);
        }
    }
}
