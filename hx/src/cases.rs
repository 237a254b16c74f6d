//! One generator and one evaluator per property.  A case is a JSON value, so
//! every violation can be written down and replayed.
use crate::model::{Config, Doc, Facets, Opts, gen_config, generate};
use crate::rng::Rng;
use crate::{build, graphs, meta, oracle, queries, strings};
use serde_json::{Value, json};

pub enum Outcome {
    /// held; `true` when the case exercises the property
    Held(bool),
    /// cannot be attributed to this property (another one already fails on it)
    Skipped,
    Violated(String),
}
use Outcome::*;

pub const PROPS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22",
];

pub fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" => "a package id written in cargo's old or stable format",
        "C02" => "a set of package ids with shared parts, compared pairwise",
        "C03" => "a metadata document and configuration where at least one package is filtered or two crates are left",
        "C04" | "C09" | "C10" | "C20" => "a metadata document and configuration whose graph has at least one dependency link",
        "C05" => "a document and a configuration with an ignored kind where the oracle drops at least one link for its kind",
        "C06" => "a document with a target-specific link, with or without selected targets",
        "C07" => "a document and a configuration whose exclusions match at least one package",
        "C08" => "a document and a selection (paths or whole workspace); half of them on a real directory tree with symlinks",
        "C11" | "C12" | "C13" => "a built graph with at least two crates, queried exhaustively",
        "C14" => "a package spec string, well-formed or damaged",
        "C15" => "a feature list entry",
        "C16" => "a document with a crates.io package the index lists",
        "C17" => "a combination of options of the cargo command",
        "C18" => "a metadata document",
        "C19" => "a metadata document and configuration",
        "C21" => "a JSON text with scrambled keys, left out optional fields and unknown keys, or with one defect",
        _ => "a metadata value with every field set",
    }
}

fn docs(r: &mut Rng, prop: &str) -> (Doc, Config) {
    let mut o = Opts::default();
    let mut f = Facets { ignore: 50, targets: 40, exclude: 25, select: 30 };
    o.max_pkgs = *r.pick(&[3, 5, 8, 8, 8, 12, 16]);
    match prop {
        "C05" => {
            o.more_kind = *r.pick(&["", "dev", "build", "normal"]);
            o.target_pct = 15;
            f = Facets { ignore: 100, targets: 15, exclude: 10, select: 20 };
        }
        "C06" => {
            o.target_pct = 75;
            o.optional_pct = 20;
            f = Facets { ignore: 10, targets: 80, exclude: 5, select: 10 };
        }
        "C07" => {
            o.more_src = true;
            o.target_pct = 15;
            f = Facets { ignore: 15, targets: 10, exclude: 100, select: 20 };
        }
        "C08" => {
            o.target_pct = 0;
            o.optional_pct = 15;
            f = Facets { ignore: 0, targets: 0, exclude: 0, select: 70 };
        }
        "C19" => {
            f = Facets { ignore: 50, targets: 40, exclude: 50, select: 50 };
        }
        _ => {}
    }
    let d = generate(r, o);
    let c = gen_config(r, &d.json, f);
    (d, c)
}

pub fn generate_case(prop: &str, seed: u64) -> Value {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut v = match prop {
        "C01" => strings::gen_c01(r),
        "C02" => strings::gen_c02(r),
        "C14" => strings::gen_c14(r),
        "C15" => strings::gen_c15(r),
        "C16" => meta::gen_c16(r),
        "C17" => meta::gen_c17(r),
        "C18" => meta::gen_c18(r),
        "C21" => meta::gen_c21(r),
        "C22" => meta::gen_c22(r),
        // what the library documents as out of its reach: one manifest name for two packages
        "C04same" => {
            let d = generate(r, Opts { same_toml_name: true, max_pkgs: 5, ..Default::default() });
            let c = gen_config(r, &d.json, Facets { ignore: 0, targets: 0, exclude: 0, select: 0 });
            json!({"doc": d.json, "config": c.to_json(), "seed": 0, "fs": false})
        }
        _ => {
            let (mut d, c) = docs(r, prop);
            if prop == "C19" {
                match r.below(12) {
                    0 => d.json["resolve"] = Value::Null,
                    1 => {
                        // an empty workspace
                        d.json["packages"] = json!([]);
                        d.json["workspace_members"] = json!([]);
                        d.json["resolve"] = json!({"nodes": [], "root": null});
                    }
                    _ => {}
                }
            }
            let fs = prop == "C08" && r.chance(50);
            json!({"doc": d.json, "config": c.to_json(), "seed": r.below(1 << 30), "fs": fs})
        }
    };
    v["prop"] = json!(&prop[..3]);
    v
}

type R = Result<(), String>;
fn out(r: R, nontrivial: bool) -> Outcome {
    match r {
        Ok(()) => Held(nontrivial),
        Err(e) => Violated(e),
    }
}

pub fn eval(c: &Value) -> Outcome {
    let prop = c["prop"].as_str().unwrap();
    match prop {
        "C01" => out(strings::c01(c), true),
        "C02" => out(strings::c02(c), true),
        "C14" => out(strings::c14(c), true),
        "C15" => out(strings::c15(c), true),
        "C16" => out(meta::c16(c), c["doc"]["packages"].as_array().unwrap().iter().any(|p| p["source"] == crate::model::CRATES_IO && c["index"][p["name"].as_str().unwrap()].is_array())),
        "C17" => out(meta::c17(c), true),
        "C18" => out(meta::c18(c), true),
        "C21" => out(meta::c21(c), true),
        "C22" => out(meta::c22(c), true),
        "C19" => {
            let cfg = Config::from_json(&c["config"]);
            out(graphs::outcome(&c["doc"], &cfg), true)
        }
        "C08" if c["fs"] == true => crate::fsys::eval(c),
        _ => graph_case(prop, c),
    }
}

fn agree(x: &graphs::Ctx) -> bool {
    graphs::included(x).is_ok() && graphs::links(x).is_ok()
}
/// Whether the document without the setting in question already fails: then a
/// mismatch says nothing about that setting.
fn baseline_fails(doc: &Value, c: &Config) -> bool {
    match graphs::ctx(doc, c) {
        Ok(Some(x)) => !agree(&x),
        Ok(None) => false,
        Err(_) => true,
    }
}

fn graph_case(prop: &str, c: &Value) -> Outcome {
    let doc = &c["doc"];
    let cfg = Config::from_json(&c["config"]);
    let base = match prop {
        "C05" => Some(Config { ignore: vec![], ..cfg.clone() }),
        "C06" if !cfg.targets.is_empty() => Some(Config { targets: vec![], ..cfg.clone() }),
        "C07" => Some(Config { exclude: vec![], ..cfg.clone() }),
        _ => None,
    };
    let x = match graphs::ctx(doc, &cfg) {
        Ok(Some(x)) => x,
        Ok(None) => return Held(false),
        Err(e) => {
            return if base.is_some_and(|b| baseline_fails(doc, &b)) { Skipped } else { Violated(e) };
        }
    };
    let any_link = !x.spec.links.is_empty();
    let r = match prop {
        "C03" => {
            let r = graphs::partition(doc, &x).and_then(|()| reordered(doc, &cfg, &x, c["seed"].as_u64().unwrap()));
            return out(r, !x.b.filtered.is_empty() || x.b.k.len() > 1);
        }
        "C04" => graphs::included(&x).and_then(|()| graphs::links(&x)),
        "C05" | "C06" | "C07" => {
            let r = graphs::included(&x).and_then(|()| graphs::links(&x));
            let nt = match prop {
                "C05" => {
                    let all = oracle::solve(&x.md, base.as_ref().unwrap());
                    all.links.iter().any(|l| oracle::kind_ignored(&x.md, &cfg, l.from, l.kind))
                }
                "C06" => x.md.rdeps.iter().flatten().flat_map(|d| &d.kinds).any(|k| k.1.is_some()),
                _ => x.md.pkgs.iter().any(|p| cfg.exclude.iter().any(|e| oracle::spec_excludes(e, p))),
            };
            if r.is_err() && base.is_some_and(|b| baseline_fails(doc, &b)) {
                return Skipped;
            }
            return out(r, nt);
        }
        "C08" => graphs::included(&x).and_then(|()| graphs::root_features(&x)),
        "C09" | "C10" => {
            if !agree(&x) {
                return Skipped;
            }
            if prop == "C09" { graphs::features(&x) } else { graphs::mapping(&x) }
        }
        "C11" => return out(queries::lookups(&x, c["seed"].as_u64().unwrap()), x.b.k.len() > 1),
        "C12" => return out(queries::direct(&x), x.b.k.len() > 1),
        "C13" => return out(queries::filtered(&x), x.b.k.len() > 1),
        "C20" => graphs::shape(&x),
        _ => unreachable!("{prop}"),
    };
    out(r, any_link)
}

/// C03: the order of the arrays does not matter.
fn reordered(doc: &Value, cfg: &Config, x: &graphs::Ctx, seed: u64) -> R {
    let mut r = Rng::new(seed);
    let mut d = doc.clone();
    let mut mix = |v: &mut Value| {
        if let Some(a) = v.as_array_mut() {
            for i in (1..a.len()).rev() {
                let j = r.below(i + 1);
                a.swap(i, j);
            }
        }
    };
    mix(&mut d["packages"]);
    mix(&mut d["workspace_members"]);
    mix(&mut d["resolve"]["nodes"]);
    for n in d["resolve"]["nodes"].as_array_mut().unwrap() {
        mix(&mut n["deps"]);
        mix(&mut n["features"]);
        mix(&mut n["dependencies"]);
        for k in n["deps"].as_array_mut().unwrap() {
            mix(&mut k["dep_kinds"]);
        }
    }
    let list = |b: &build::Built| -> Vec<String> { b.k.krates().map(|p| p.id.repr.clone()).collect() };
    match build::build(&d.to_string(), cfg)? {
        Err(e) => Err(format!("with the arrays in another order the build fails: {e}")),
        Ok(b) => {
            let (a, b) = (list(&x.b), list(&b));
            if a == b { Ok(()) } else { Err(format!("with the arrays in another order the crates are {b:?} instead of {a:?}")) }
        }
    }
}

