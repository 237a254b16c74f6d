//! Bounded checks of the metadata side: index features (C16), the cargo command
//! (C17), the metadata helpers (C18), reading (C21) and writing (C22).
use crate::build::{Built, builder, run};
use crate::model::{Config, Opts, generate};
use crate::rng::Rng;
use crate::strings::catch;
use krates::{Cmd, LockOptions, cm, index, semver};
use serde_json::{Map, Value, json};
use std::collections::{BTreeMap, BTreeSet};

type R = Result<(), String>;
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}

// ---- C16 ----------------------------------------------------------------
pub fn gen_c16(r: &mut Rng) -> Value {
    let mut d = generate(r, Opts { max_pkgs: 5, ..Default::default() });
    let pk = d.json["packages"].as_array_mut().unwrap();
    let mut idx = Map::new();
    let names: Vec<String> = pk.iter().map(|p| p["name"].as_str().unwrap().to_string()).collect();
    for p in pk.iter_mut() {
        // sources that look like crates.io but are not
        if !p["source"].is_null() && r.chance(15) {
            p["source"] = json!(*r.pick(&[
                "registry+https://github.com/rust-lang/crates.io-index2",
                "sparse+https://index.crates.io/",
                "registry+https://my.reg/index",
                "registry+https://github.com/rust-lang/crates.io-inde",
            ]));
        }
        // a feature list as an old cargo published it
        if r.chance(40) {
            let f = *r.pick(&["f1", "old", "default", "std"]);
            let v: Vec<String> = (0..r.below(4))
                .map(|_| (*r.pick(&["undeclared", "opt-dep", "f1", "std", "dep:a", "a/f1", "b?/f2", "x/y", "serde", "old"])).to_string())
                .collect();
            let fs = p["features"].as_object_mut().unwrap();
            if r.chance(50) || !fs.contains_key(f) {
                fs.insert(f.into(), json!(v));
            }
        }
    }
    for (i, n) in names.iter().enumerate() {
        if r.chance(20) {
            continue;
        }
        if r.chance(10) {
            idx.insert(n.clone(), Value::Null);
            continue;
        }
        let mut vs = vec![];
        let own = d.json["packages"][i]["version"].as_str().unwrap().to_string();
        for _ in 0..1 + r.below(3) {
            let v = if r.chance(60) { own.clone() } else { (*r.pick(&["0.1.0", "1.2.0", "9.9.9", "0.1.1", "0.1.0+other", "1.10.0"])).to_string() };
            let mut fs = Map::new();
            for _ in 0..r.below(5) {
                let f = *r.pick(&["f1", "f2", "std", "default", "extra", "undeclared", "old"]);
                let l: Vec<String> = (0..r.below(4))
                    .map(|_| (*r.pick(&["f2", "std", "extra", "serde", "dep:serde", "a/f1", "b?/f2", "missing-dep", "default", "opt"])).to_string())
                    .collect();
                fs.insert(f.into(), json!(l));
            }
            if vs.iter().any(|x: &Value| x["version"] == v.as_str()) {
                continue;
            }
            vs.push(json!({"version": v, "features": fs}));
        }
        idx.insert(n.clone(), json!(vs));
    }
    // names nobody has
    if r.chance(30) {
        idx.insert("unrelated".into(), json!([{"version": "1.0.0", "features": {}}]));
    }
    let mut doc = d.json;
    // nothing is to be enabled here: the graph is not what is checked
    for n in doc["resolve"]["nodes"].as_array_mut().unwrap() {
        n["features"] = json!([]);
        n["deps"] = json!([]);
        n["dependencies"] = json!([]);
    }
    json!({"doc": doc, "index": idx})
}
pub fn c16(c: &Value) -> R {
    let doc = &c["doc"];
    let mut b = builder(&Config { workspace: true, ..Default::default() });
    let asked = std::sync::Arc::new(std::sync::Mutex::new(Vec::<BTreeSet<String>>::new()));
    let (a2, idx) = (asked.clone(), c["index"].clone());
    b.with_crates_io_index(Box::new(move |names| {
        a2.lock().unwrap().push(names);
        idx.as_object()
            .unwrap()
            .iter()
            .map(|(k, v)| {
                let ik = v.as_array().map(|vs| index::IndexKrate {
                    versions: vs
                        .iter()
                        .map(|v| index::IndexKrateVersion {
                            version: v["version"].as_str().unwrap().parse().unwrap(),
                            features: serde_json::from_value(v["features"].clone()).unwrap(),
                        })
                        .collect(),
                });
                (k.clone(), ik)
            })
            .collect()
    }));
    let Built { k, filtered } = run(&doc.to_string(), b)?.map_err(|e| format!("the build fails: {e}"))?;
    let pk = doc["packages"].as_array().unwrap();
    let names: BTreeSet<String> = pk.iter().map(|p| p["name"].as_str().unwrap().to_string()).collect();
    let asked = asked.lock().unwrap();
    ensure!(asked.len() == 1, "the index is asked {} times instead of once", asked.len());
    ensure!(asked[0] == names, "the index is asked for {:?} instead of {names:?}", asked[0]);
    let mut got: BTreeMap<&str, &BTreeMap<String, Vec<String>>> = BTreeMap::new();
    for p in k.krates().chain(filtered.iter()) {
        got.insert(&p.id.repr, &p.features);
    }
    for p in pk {
        let own: BTreeMap<String, Vec<String>> = serde_json::from_value(p["features"].clone()).unwrap();
        let mut want = own.clone();
        if p["source"] == crate::model::CRATES_IO {
            let v: semver::Version = p["version"].as_str().unwrap().parse().unwrap();
            let entry = c["index"][p["name"].as_str().unwrap()]
                .as_array()
                .and_then(|vs| vs.iter().find(|e| e["version"].as_str().unwrap().parse::<semver::Version>().unwrap() == v));
            if let Some(e) = entry {
                for (f, l) in e["features"].as_object().unwrap() {
                    if !own.contains_key(f) {
                        want.insert(f.clone(), serde_json::from_value(l.clone()).unwrap());
                    }
                }
                let referenced: BTreeSet<String> = want.values().flatten().filter(|i| !i.starts_with("dep:") && !i.contains('/')).cloned().collect();
                for n in referenced {
                    if !want.contains_key(&n) {
                        want.insert(n.clone(), vec![format!("dep:{n}")]);
                    }
                }
            }
        }
        let id = p["id"].as_str().unwrap();
        let g = got.get(id).ok_or_else(|| format!("package {id} is gone"))?;
        ensure!(**g == want, "{id}: the features are {g:?} instead of {want:?}");
    }
    Ok(())
}

// ---- C17 ----------------------------------------------------------------
pub fn gen_c17(r: &mut Rng) -> Value {
    let words = |r: &mut Rng, xs: &[&str], n: usize| -> Vec<String> { (0..r.below(n + 1)).map(|_| (*r.pick(xs)).to_string()).collect() };
    let feats = ["a", "b", "feat-1", "zz", "c++20", "a/b", "B", "f10", "f9"];
    let others = ["--filter-platform", "x86_64-unknown-linux-gnu", "--locked", "-v", "--config", "a=1", "-Zunstable", "--features", "last", ""];
    let mani = ["Cargo.toml", "sub/Cargo.toml", "/abs/ws/Cargo.toml", "./Cargo.toml", "../up/Cargo.toml", "/Cargo.toml", "/a b/c/Cargo.toml"];
    let dirs = ["", ".", "/abs", "rel/dir", "/abs/ws"];
    let opt = |r: &mut Rng, xs: &[&str], pct: u64| -> Value { if r.chance(pct) { json!(*r.pick(xs)) } else { Value::Null } };
    let via_cmd = r.chance(70);
    json!({
        "via_cmd": via_cmd,
        "cargo": opt(r, &["cargo", "/opt/x/cargo", "my cargo"], 40),
        "manifest": opt(r, &mani, 50),
        "dir": opt(r, &dirs, 50),
        // lists of calls
        "features": (0..r.below(3)).map(|_| words(r, &feats, 4)).collect::<Vec<_>>(),
        "other": (0..r.below(3)).map(|_| words(r, &others, 3)).collect::<Vec<_>>(),
        "all": r.chance(40), "no_default": r.chance(40),
        "lock": if r.chance(60) { json!([r.chance(50), r.chance(50), r.chance(50)]) } else { Value::Null },
        "no_deps": r.chance(40),
        "env": if r.chance(40) { json!({"HX_A": "1", "HX_B": ""}) } else { json!({}) },
        "order": r.below(2),
    })
}
pub fn c17(c: &Value) -> R {
    let strs = |v: &Value| -> Vec<String> { serde_json::from_value(v.clone()).unwrap() };
    let calls = |v: &Value| -> Vec<Vec<String>> { v.as_array().unwrap().iter().map(strs).collect() };
    let via_cmd = c["via_cmd"] == true;
    let lock = if via_cmd { c["lock"].as_array() } else { None };
    let r = catch(|| {
        let mut mdc = if via_cmd {
            let mut b = Cmd::new();
            if c["order"] == 1 {
                for o in calls(&c["other"]) {
                    b.other_options(o);
                }
            }
            if let Some(p) = c["cargo"].as_str() {
                b.cargo_path(p);
            }
            if let Some(p) = c["manifest"].as_str() {
                b.manifest_path(p);
            }
            if let Some(p) = c["dir"].as_str() {
                b.current_dir(p);
            }
            for f in calls(&c["features"]) {
                b.features(f);
            }
            if c["all"] == true {
                b.all_features();
            }
            if c["no_default"] == true {
                b.no_default_features();
            }
            if let Some(l) = lock {
                b.lock_opts(LockOptions { frozen: l[0] == true, locked: l[1] == true, offline: l[2] == true });
            }
            if c["order"] == 0 {
                for o in calls(&c["other"]) {
                    b.other_options(o);
                }
            }
            cm::MetadataCommand::from(b)
        } else {
            let mut m = cm::MetadataCommand::new();
            if let Some(p) = c["cargo"].as_str() {
                m.cargo_path(p);
            }
            if let Some(p) = c["dir"].as_str() {
                m.current_dir(p);
            }
            m.other_options(calls(&c["other"]).concat());
            m
        };
        if c["no_deps"] == true {
            mdc.no_deps();
        }
        for (k, v) in c["env"].as_object().unwrap() {
            mdc.env(k, v.as_str().unwrap());
        }
        let cmd = mdc.cargo_command();
        let s = |o: &std::ffi::OsStr| o.to_str().unwrap().to_string();
        (
            s(cmd.get_program()),
            cmd.get_args().map(s).collect::<Vec<_>>(),
            cmd.get_current_dir().map(|p| p.to_str().unwrap().to_string()),
            cmd.get_envs().map(|(k, v)| (s(k), v.map(s))).collect::<BTreeMap<_, _>>(),
        )
    });
    let (program, args, dir, envs) = r?;
    let show = format!("{program} {args:?} in {dir:?}");
    let want_prog = c["cargo"].as_str().map(String::from).or_else(|| std::env::var("CARGO").ok()).unwrap_or_else(|| "cargo".into());
    ensure!(program == want_prog, "runs {program:?} instead of {want_prog:?}");
    ensure!(args.len() >= 3 && args[0] == "metadata" && args[1] == "--format-version" && args[2] == "1", "does not start with `metadata --format-version 1`: {show}");
    let other: Vec<String> = calls(&c["other"]).concat();
    ensure!(args.len() >= 3 + other.len() && args[args.len() - other.len()..] == other[..], "does not end in the extra options {other:?}: {show}");
    let mut mid: Vec<String> = args[3..args.len() - other.len()].to_vec();
    let mut flag = |name: &str, want: bool| -> R {
        let n = mid.iter().filter(|a| *a == name).count();
        ensure!(n == usize::from(want), "{name} appears {n} times instead of {}: {show}", usize::from(want));
        mid.retain(|a| a != name);
        Ok(())
    };
    flag("--all-features", via_cmd && c["all"] == true)?;
    flag("--no-default-features", via_cmd && c["no_default"] == true)?;
    flag("--frozen", lock.is_some_and(|l| l[0] == true))?;
    flag("--locked", lock.is_some_and(|l| l[1] == true))?;
    flag("--offline", lock.is_some_and(|l| l[2] == true))?;
    flag("--no-deps", c["no_deps"] == true)?;
    let feats: BTreeSet<String> = if via_cmd { calls(&c["features"]).concat().into_iter().collect() } else { BTreeSet::new() };
    let mut rest: Vec<String> = vec![];
    let (mut seen_feats, mut seen_mani) = (None, None);
    let mut it = mid.into_iter();
    while let Some(a) = it.next() {
        match a.as_str() {
            "--features" => {
                ensure!(seen_feats.is_none(), "--features is given twice: {show}");
                seen_feats = Some(it.next().unwrap_or_default());
            }
            "--manifest-path" => {
                ensure!(seen_mani.is_none(), "--manifest-path is given twice: {show}");
                seen_mani = Some(it.next().unwrap_or_default());
            }
            _ => rest.push(a),
        }
    }
    ensure!(rest.is_empty(), "unexpected arguments {rest:?}: {show}");
    let got: Vec<String> = seen_feats.iter().flat_map(|s| s.split([' ', ',']).map(String::from)).collect();
    ensure!(got.iter().eq(feats.iter()), "asks for the features {got:?} instead of {feats:?}: {show}");
    ensure!(seen_feats.is_some() != feats.is_empty(), "asks for features {seen_feats:?} although {feats:?} are requested: {show}");
    let manifest = if via_cmd { c["manifest"].as_str() } else { None };
    let want_dir = match manifest {
        Some(m) => {
            ensure!(seen_mani.as_deref() == Some("Cargo.toml"), "does not run on the Cargo.toml in the directory of {m}: {show}");
            Some(m.strip_suffix("Cargo.toml").unwrap())
        }
        None => {
            ensure!(seen_mani.is_none(), "names a manifest although none is given: {show}");
            c["dir"].as_str()
        }
    };
    let same = match (&want_dir, &dir) {
        (None, None) => true,
        (Some(w), Some(d)) => {
            let norm = |s: &str| std::path::Path::new(if s.is_empty() { "." } else { s }).components().collect::<std::path::PathBuf>();
            norm(w) == norm(d) || (!via_cmd && *w == d.as_str())
        }
        _ => false,
    };
    ensure!(same, "runs in {dir:?} instead of {want_dir:?}: {show}");
    let want_env: BTreeMap<String, Option<String>> = c["env"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), Some(v.as_str().unwrap().to_string()))).collect();
    ensure!(envs == want_env, "passes the environment {envs:?} instead of {want_env:?}");
    Ok(())
}

// ---- C18 ----------------------------------------------------------------
pub fn gen_c18(r: &mut Rng) -> Value {
    let mut doc = generate(r, Opts { max_pkgs: 6, ..Default::default() }).json;
    for p in doc["packages"].as_array_mut().unwrap() {
        for k in ["license_file", "readme"] {
            if r.chance(50) {
                p[k] = json!(*r.pick(&["LICENSE", "README.md", "docs/x.md", "../LICENSE", "/abs/file", "./a", "a b"]));
            }
        }
    }
    let ids: Vec<Value> = doc["packages"].as_array().unwrap().iter().map(|p| p["id"].clone()).collect();
    match r.below(4) {
        0 => doc["resolve"] = Value::Null,
        1 => doc["resolve"]["root"] = r.pick(&ids).clone(),
        _ => {}
    }
    if r.chance(60) {
        // the workspace root is the directory of some package, or close to one
        let mp = r.pick(doc["packages"].as_array().unwrap())["manifest_path"].as_str().unwrap().to_string();
        let d = mp.strip_suffix("/Cargo.toml").unwrap().to_string();
        doc["workspace_root"] = json!(match r.below(4) {
            0 => d.rsplit_once('/').unwrap().0.to_string(),
            1 => format!("{d}/sub"),
            _ => d,
        });
    }
    let subset = |r: &mut Rng| -> Vec<Value> { ids.iter().filter(|_| r.chance(50)).cloned().collect() };
    if r.chance(60) {
        let mut s = subset(r);
        s.reverse();
        doc["workspace_default_members"] = json!(s);
    }
    if r.chance(40) {
        let s = subset(r);
        doc["workspace_members"] = json!(s);
    }
    json!({"doc": doc})
}
pub fn c18(c: &Value) -> R {
    let doc = &c["doc"];
    let md: cm::Metadata = serde_json::from_value(doc.clone()).map_err(|e| format!("rejected: {e}"))?;
    let pk = doc["packages"].as_array().unwrap();
    let id = |p: &cm::Package| p.id.repr.clone();
    let want = if doc["resolve"].is_null() {
        let m = format!("{}/Cargo.toml", doc["workspace_root"].as_str().unwrap());
        pk.iter().find(|p| p["manifest_path"] == m.as_str())
    } else {
        pk.iter().find(|p| p["id"] == doc["resolve"]["root"])
    }
    .map(|p| p["id"].as_str().unwrap().to_string());
    let got = catch(|| md.root_package().map(id))?;
    ensure!(got == want, "the root package is {got:?} instead of {want:?}");
    for (k, got) in [
        ("workspace_members", catch(|| md.workspace_packages().into_iter().map(id).collect::<Vec<_>>())?),
        ("workspace_default_members", catch(|| md.workspace_default_packages().into_iter().map(id).collect::<Vec<_>>())?),
    ] {
        let l = doc[k].as_array().unwrap();
        let want: Vec<String> = pk.iter().filter(|p| l.contains(&p["id"])).map(|p| p["id"].as_str().unwrap().to_string()).collect();
        ensure!(got == want, "the packages of {k} are {got:?} instead of {want:?}");
    }
    for p in pk {
        let pid = cm::PackageId { repr: p["id"].as_str().unwrap().into() };
        let q = catch(|| &md[&pid])?;
        ensure!(q.id == pid && q.manifest_path.as_str() == p["manifest_path"], "indexing by {} returns {}", pid.repr, q.id.repr);
        let dir = p["manifest_path"].as_str().unwrap().strip_suffix("/Cargo.toml").unwrap();
        for (k, got) in [("license_file", catch(|| q.license_file())?), ("readme", catch(|| q.readme())?)] {
            let want = p[k].as_str().map(|f| if f.starts_with('/') { f.to_string() } else { format!("{dir}/{f}") });
            let got = got.map(|g| g.as_str().to_string());
            ensure!(got == want, "{k} of {} is {got:?} instead of {want:?}", pid.repr);
        }
    }
    Ok(())
}

// ---- C21, C22 -------------------------------------------------------------
/// a length: mostly below n, now and then much longer
fn len(r: &mut Rng, n: usize) -> usize {
    match r.below(40) { 0 => 4 + r.below(10), 1 => n + r.below(3), _ => r.below(n) }
}
fn s(r: &mut Rng) -> String {
    (*r.pick(&["", "a", "foo-bar", "x y", "ünïcode \u{1F980}", "q\"uote\\", "line\nbreak", "1.2.3", "null", "/some/path", "dep:x", "cfg(unix)"])).to_string()
}
fn ls(r: &mut Rng) -> Value {
    json!((0..len(r, 4)).map(|_| s(r)).collect::<Vec<_>>())
}
fn os(r: &mut Rng) -> Value {
    if r.chance(50) { json!(s(r)) } else { Value::Null }
}
fn any(r: &mut Rng, d: usize) -> Value {
    match r.below(if d == 0 { 5 } else { 7 }) {
        0 => Value::Null,
        1 => json!(r.chance(50)),
        2 => json!([-1i64, 0, 7, i64::MAX][r.below(4)]),
        3 => json!(s(r)),
        4 => json!([0.5, -1.25][r.below(2)]),
        5 => json!((0..r.below(3)).map(|_| any(r, d - 1)).collect::<Vec<_>>()),
        _ => json!({"k": any(r, d - 1), "other-key": any(r, d - 1)}),
    }
}
const KINDS: &[&str] = &["normal", "dev", "build"];
const TKINDS: &[&str] = &["example", "test", "bench", "custom-build", "bin", "lib", "rlib", "dylib", "cdylib", "staticlib", "proc-macro"];
const CTYPES: &[&str] = &["bin", "lib", "rlib", "dylib", "cdylib", "staticlib", "proc-macro"];
const EDS: &[&str] = &["2015", "2018", "2021", "2024"];
fn some_of(r: &mut Rng, xs: &[&str]) -> Value {
    json!((0..len(r, 4)).map(|_| *r.pick(xs)).collect::<Vec<_>>())
}
fn vers(r: &mut Rng) -> Value {
    json!(*r.pick(&["0.1.0", "1.0.0-alpha.1", "2.3.4+meta", "10.20.30", "0.0.0", "1.0.0-rc.1+b.2"]))
}
/// A document in canonical form: every field present, optional ones may be null.
pub fn canonical(r: &mut Rng) -> Value {
    let id = |r: &mut Rng| json!(format!("registry+https://x#{}@{}", s(r), r.below(4)));
    let ids = |r: &mut Rng| -> Value { (0..len(r, 3)).map(|_| id(r)).collect::<Vec<_>>().into() };
    let target = |r: &mut Rng| {
        json!({"name": s(r), "kind": some_of(r, TKINDS), "crate_types": some_of(r, CTYPES), "required-features": ls(r), "src_path": s(r),
               "edition": *r.pick(EDS), "doctest": r.chance(50), "test": r.chance(50), "doc": r.chance(50)})
    };
    let dep = |r: &mut Rng| {
        json!({"name": s(r), "source": os(r), "req": *r.pick(&["*", "^1.2.3", "=0.1.0", ">=1, <2", "~0.3", "^0.1.0-rc.1"]), "kind": *r.pick(KINDS),
               "optional": r.chance(50), "uses_default_features": r.chance(50), "features": ls(r), "target": os(r), "rename": os(r),
               "registry": os(r), "path": os(r)})
    };
    let package = |r: &mut Rng| {
        let mut feats = Map::new();
        for _ in 0..len(r, 4) {
            feats.insert(s(r), ls(r));
        }
        json!({"name": s(r), "version": vers(r), "authors": ls(r), "id": id(r), "source": os(r), "description": os(r),
               "dependencies": (0..len(r, 3)).map(|_| dep(r)).collect::<Vec<_>>(), "license": os(r), "license_file": os(r),
               "targets": (0..len(r, 3)).map(|_| target(r)).collect::<Vec<_>>(), "features": feats, "manifest_path": s(r),
               "categories": ls(r), "keywords": ls(r), "readme": os(r), "repository": os(r), "homepage": os(r), "documentation": os(r),
               "edition": *r.pick(EDS), "metadata": any(r, 2), "links": os(r),
               "publish": if r.chance(50) { ls(r) } else { Value::Null }, "default_run": os(r),
               "rust_version": if r.chance(50) {
                   let n = |r: &mut Rng| *r.pick(&["0", "1", "9", "10", "70", "100", "12345", "4294967296"]);
                   let z = r.chance(60);
                   json!(format!("{}.{}.{}", n(r), n(r), if z { "0" } else { n(r) }))
               } else { Value::Null }})
    };
    let node = |r: &mut Rng| {
        json!({"id": id(r), "dependencies": ids(r), "features": ls(r),
               "deps": (0..len(r, 3)).map(|_| json!({"name": s(r), "pkg": id(r), "dep_kinds": (0..len(r, 3)).map(|_|
                    json!({"kind": *r.pick(KINDS), "target": os(r)})).collect::<Vec<_>>()})).collect::<Vec<_>>()})
    };
    json!({
        "packages": (0..len(r, 4)).map(|_| package(r)).collect::<Vec<_>>(),
        "workspace_members": ids(r),
        "workspace_default_members": if r.chance(70) { ids(r) } else { Value::Null },
        "resolve": if r.chance(80) { json!({"nodes": (0..len(r, 3)).map(|_| node(r)).collect::<Vec<_>>(), "root": if r.chance(50) { id(r) } else { Value::Null }}) } else { Value::Null },
        "workspace_root": s(r), "target_directory": s(r), "metadata": any(r, 2), "version": r.below(3),
    })
}

#[derive(Clone, Copy, PartialEq)]
enum Ty {
    Md,
    Resolve,
    Node,
    NodeDep,
    DepKind,
    Package,
    Target,
    Dep,
    Other,
}
/// (key, default when absent); keys not listed are required.
fn optional(t: Ty) -> &'static [(&'static str, &'static str)] {
    match t {
        Ty::Md => &[("workspace_default_members", "null"), ("resolve", "null"), ("metadata", "null"), ("version", "0")],
        Ty::Resolve => &[],
        Ty::Node => &[("deps", "[]"), ("features", "[]")],
        Ty::NodeDep => &[("dep_kinds", "[]")],
        Ty::DepKind => &[("kind", "\"normal\""), ("target", "null")],
        Ty::Package => &[
            ("authors", "[]"), ("source", "null"), ("description", "null"), ("license", "null"), ("license_file", "null"), ("categories", "[]"),
            ("keywords", "[]"), ("readme", "null"), ("repository", "null"), ("homepage", "null"), ("documentation", "null"), ("edition", "\"2015\""),
            ("metadata", "null"), ("links", "null"), ("publish", "null"), ("default_run", "null"), ("rust_version", "null"),
        ],
        Ty::Target => &[("crate_types", "[]"), ("required-features", "[]"), ("edition", "\"2015\""), ("doctest", "true"), ("test", "true"), ("doc", "true")],
        Ty::Dep => &[("source", "null"), ("kind", "\"normal\""), ("target", "null"), ("rename", "null"), ("registry", "null"), ("path", "null")],
        Ty::Other => &[],
    }
}
fn child(t: Ty, key: &str) -> Ty {
    match (t, key) {
        (Ty::Md, "packages") => Ty::Package,
        (Ty::Md, "resolve") => Ty::Resolve,
        (Ty::Resolve, "nodes") => Ty::Node,
        (Ty::Node, "deps") => Ty::NodeDep,
        (Ty::NodeDep, "dep_kinds") => Ty::DepKind,
        (Ty::Package, "dependencies") => Ty::Dep,
        (Ty::Package, "targets") => Ty::Target,
        _ => Ty::Other,
    }
}
/// Writes `v` in another way that means the same: keys in any order, unknown
/// keys in between, optional fields left out when they have their default.
fn scramble(r: &mut Rng, v: &Value, t: Ty, out: &mut String) {
    match v {
        Value::Object(m) if t != Ty::Other => {
            let mut items: Vec<String> = vec![];
            for (k, x) in m {
                let d = optional(t).iter().find(|(n, _)| n == k).map(|d| d.1);
                if d.is_some_and(|d| d == x.to_string()) {
                    // `workspace_default_members` is never null in a document
                    let nullable = d == Some("null") && k != "workspace_default_members";
                    if r.chance(40) || (d == Some("null") && !nullable) {
                        continue;
                    }
                    // cargo writes a null kind for normal dependencies
                    if k == "kind" && r.chance(50) {
                        items.push("\"kind\":null".into());
                        continue;
                    }
                }
                let mut s = format!("{}:", Value::String(k.clone()));
                if t == Ty::Package && k == "rust_version" && x.as_str().is_some_and(|x| x.ends_with(".0")) && r.chance(50) {
                    let x = x.as_str().unwrap();
                    s.push_str(&format!("\"{}\"", &x[..x.len() - 2]));
                } else {
                    scramble(r, x, child(t, k), &mut s);
                }
                items.push(s);
            }
            for _ in 0..r.below(3) {
                if r.chance(40) {
                    let k = *r.pick(&["unknown", "extra-key", "Name", "packages_", "kinds", "new_field", ""]);
                    items.push(format!("{}:{}", Value::String(k.into()), any(r, 2)));
                }
            }
            for i in (1..items.len()).rev() {
                let j = r.below(i + 1);
                items.swap(i, j);
            }
            out.push('{');
            out.push_str(&items.join(if r.chance(20) { " ,\n" } else { "," }));
            out.push('}');
        }
        Value::Array(a) if t != Ty::Other => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                scramble(r, x, t, out);
            }
            out.push(']');
        }
        _ => out.push_str(&v.to_string()),
    }
}
/// every (path, type) of an object in the document
fn objects(v: &Value, t: Ty, path: String, out: &mut Vec<(String, Ty)>) {
    match v {
        Value::Object(m) if t != Ty::Other => {
            out.push((path.clone(), t));
            for (k, x) in m {
                objects(x, child(t, k), format!("{path}/{k}"), out);
            }
        }
        Value::Array(a) if t != Ty::Other => {
            for (i, x) in a.iter().enumerate() {
                objects(x, t, format!("{path}/{i}"), out);
            }
        }
        _ => {}
    }
}

/// The value in memory, as a canonical document; independent of `ser.rs`.
pub fn view(m: &cm::Metadata) -> Value {
    let id = |i: &cm::PackageId| json!(i.repr);
    let ids = |v: &[cm::PackageId]| -> Value { v.iter().map(id).collect::<Vec<_>>().into() };
    let kind = |k: &cm::DependencyKind| match k {
        cm::DependencyKind::Normal => "normal",
        cm::DependencyKind::Development => "dev",
        cm::DependencyKind::Build => "build",
    };
    let ed = |e: &cm::Edition| match e {
        cm::Edition::E2015 => "2015",
        cm::Edition::E2018 => "2018",
        cm::Edition::E2021 => "2021",
        cm::Edition::E2024 => "2024",
    };
    let path = |p: &Option<cm::PathBuf>| p.as_ref().map(|p| p.as_str().to_string());
    let tk = |k: &cm::TargetKind| match k {
        cm::TargetKind::Bench => "bench",
        cm::TargetKind::Bin => "bin",
        cm::TargetKind::CustomBuild => "custom-build",
        cm::TargetKind::CDyLib => "cdylib",
        cm::TargetKind::DyLib => "dylib",
        cm::TargetKind::Example => "example",
        cm::TargetKind::Lib => "lib",
        cm::TargetKind::ProcMacro => "proc-macro",
        cm::TargetKind::RLib => "rlib",
        cm::TargetKind::StaticLib => "staticlib",
        cm::TargetKind::Test => "test",
    };
    let ct = |k: &cm::CrateType| match k {
        cm::CrateType::Bin => "bin",
        cm::CrateType::CDyLib => "cdylib",
        cm::CrateType::DyLib => "dylib",
        cm::CrateType::Lib => "lib",
        cm::CrateType::ProcMacro => "proc-macro",
        cm::CrateType::RLib => "rlib",
        cm::CrateType::StaticLib => "staticlib",
    };
    json!({
        "packages": m.packages.iter().map(|p| json!({
            "name": p.name, "version": p.version.to_string(), "authors": p.authors, "id": id(&p.id), "source": p.source.as_ref().map(|s| s.repr.clone()),
            "description": p.description,
            "dependencies": p.dependencies.iter().map(|d| json!({
                "name": d.name, "source": d.source, "req": d.req.to_string(), "kind": kind(&d.kind), "optional": d.optional,
                "uses_default_features": d.uses_default_features, "features": d.features, "target": d.target, "rename": d.rename,
                "registry": d.registry, "path": path(&d.path)})).collect::<Vec<_>>(),
            "license": p.license, "license_file": path(&p.license_file),
            "targets": p.targets.iter().map(|t| json!({
                "name": t.name, "kind": t.kind.iter().map(tk).collect::<Vec<_>>(), "crate_types": t.crate_types.iter().map(ct).collect::<Vec<_>>(),
                "required-features": t.required_features, "src_path": t.src_path.as_str(), "edition": ed(&t.edition), "doctest": t.doctest,
                "test": t.test, "doc": t.doc})).collect::<Vec<_>>(),
            "features": p.features, "manifest_path": p.manifest_path.as_str(), "categories": p.categories, "keywords": p.keywords,
            "readme": path(&p.readme), "repository": p.repository, "homepage": p.homepage, "documentation": p.documentation, "edition": ed(&p.edition),
            "metadata": p.metadata, "links": p.links, "publish": p.publish, "default_run": p.default_run,
            "rust_version": p.rust_version.as_ref().map(|v| v.to_string())})).collect::<Vec<_>>(),
        "workspace_members": ids(&m.workspace_members),
        "workspace_default_members": m.workspace_default_members.0.as_ref().map(|v| ids(v)),
        "resolve": m.resolve.as_ref().map(|r| json!({"root": r.root.as_ref().map(id), "nodes": r.nodes.iter().map(|n| json!({
            "id": id(&n.id), "dependencies": ids(&n.dependencies), "features": n.features,
            "deps": n.deps.iter().map(|d| json!({"name": d.name, "pkg": id(&d.pkg), "dep_kinds": d.dep_kinds.iter().map(|k| json!({
                "kind": kind(&k.kind), "target": k.target})).collect::<Vec<_>>()})).collect::<Vec<_>>()})).collect::<Vec<_>>()})),
        "workspace_root": m.workspace_root.as_str(), "target_directory": m.target_directory.as_str(), "metadata": m.workspace_metadata,
        "version": m.version,
    })
}
fn diff(got: &Value, want: &Value, path: &str) -> Option<String> {
    match (got, want) {
        (Value::Object(a), Value::Object(b)) => {
            for k in a.keys().chain(b.keys()) {
                let (x, y) = (a.get(k), b.get(k));
                match (x, y) {
                    (Some(x), Some(y)) => {
                        if let Some(d) = diff(x, y, &format!("{path}/{k}")) {
                            return Some(d);
                        }
                    }
                    _ => return Some(format!("{path}/{k} is {} instead of {}", show(x), show(y))),
                }
            }
            None
        }
        (Value::Array(a), Value::Array(b)) if a.len() == b.len() => a.iter().zip(b).enumerate().find_map(|(i, (x, y))| diff(x, y, &format!("{path}/{i}"))),
        _ => (got != want).then(|| format!("{path} is {got} instead of {want}")),
    }
}
fn show(v: Option<&Value>) -> String {
    v.map_or("absent".into(), |v| v.to_string())
}

pub fn gen_c21(r: &mut Rng) -> Value {
    let want = canonical(r);
    if r.chance(60) {
        let mut text = String::new();
        scramble(r, &want, Ty::Md, &mut text);
        return json!({"want": want, "text": text});
    }
    // a document that has to be rejected
    let mut bad = want.clone();
    let mut objs = vec![];
    objects(&want, Ty::Md, String::new(), &mut objs);
    let (path, t) = r.pick(&objs).clone();
    let o = bad.pointer_mut(&path).unwrap().as_object_mut().unwrap();
    let why;
    if t == Ty::Md && o["workspace_default_members"].is_null() {
        o.remove("workspace_default_members");
    }
    let required: Vec<String> = o.keys().filter(|k| !optional(t).iter().any(|(n, _)| n == k) && !(t == Ty::Resolve && *k == "root")).cloned().collect();
    let wrong: &[(&str, Value)] = &match t {
        Ty::Dep | Ty::DepKind => vec![("kind", json!("develop")), ("kind", json!("Normal")), ("kind", json!(""))],
        Ty::Target => vec![("edition", json!("2019")), ("kind", json!(["lib", "unknown"])), ("crate_types", json!(["Lib"])), ("crate_types", json!(["test"])), ("kind", json!(["proc_macro"]))],
        Ty::Package => vec![
            ("edition", json!("2027")), ("rust_version", json!("1.70.0-beta")), ("rust_version", json!("1.70.0+x")), ("rust_version", json!("1.70-beta.1")),
            ("rust_version", json!("1.70+1")), ("rust_version", json!("abc")), ("rust_version", json!("1.x")), ("version", json!("1.0")),
        ],
        _ => vec![],
    };
    if !wrong.is_empty() && r.chance(60) {
        let (k, v) = r.pick(wrong).clone();
        why = format!("{path}/{k} is {v}");
        o.insert(k.into(), v);
    } else if !required.is_empty() {
        let k = r.pick(&required).clone();
        o.remove(&k);
        why = format!("{path}/{k} is missing");
    } else {
        let mut text = String::new();
        scramble(r, &want, Ty::Md, &mut text);
        return json!({"want": want, "text": text});
    }
    if bad["workspace_default_members"].is_null() {
        bad.as_object_mut().unwrap().remove("workspace_default_members");
    }
    json!({"want": null, "text": bad.to_string(), "why": why})
}
pub fn c21(c: &Value) -> R {
    let text = c["text"].as_str().unwrap();
    // read it the way the library does, and from a value and a reader as well
    let a = catch(|| serde_json::from_str::<cm::Metadata>(text))?;
    let b = catch(|| cm::MetadataCommand::parse(text))?;
    let d = catch(|| serde_json::from_reader::<_, cm::Metadata>(text.as_bytes()))?;
    let e = catch(|| serde_json::from_value::<cm::Metadata>(serde_json::from_str(text).unwrap()))?;
    for (how, r) in [("from_str", a.map_err(|e| e.to_string())), ("MetadataCommand::parse", b.map_err(|e| e.to_string())), ("from_reader", d.map_err(|e| e.to_string())), ("from_value", e.map_err(|e| e.to_string()))] {
        match r {
            Ok(m) => {
                ensure!(!c["want"].is_null(), "{how} accepts the document although {}", c["why"]);
                if let Some(d) = diff(&view(&m), &c["want"], "") {
                    return Err(format!("{how}: {d}"));
                }
            }
            Err(e) => ensure!(c["want"].is_null(), "{how} rejects the document: {e}"),
        }
    }
    Ok(())
}

pub fn gen_c22(r: &mut Rng) -> Value {
    json!({"want": canonical(r)})
}
/// Every key of every object in a JSON text, as (path, key) in order.
fn keys(text: &str) -> Vec<(String, String)> {
    let b: Vec<char> = text.chars().collect();
    fn string(b: &[char], i: &mut usize) -> String {
        let st = *i;
        *i += 1;
        while b[*i] != '"' {
            if b[*i] == '\\' {
                *i += 1;
            }
            *i += 1;
        }
        *i += 1;
        serde_json::from_str(&b[st..*i].iter().collect::<String>()).unwrap()
    }
    fn val(b: &[char], i: &mut usize, path: &str, out: &mut Vec<(String, String)>) {
        match b[*i] {
            '{' => {
                *i += 1;
                while b[*i] != '}' {
                    if b[*i] == ',' {
                        *i += 1;
                    }
                    let k = string(b, i);
                    assert_eq!(b[*i], ':');
                    *i += 1;
                    out.push((path.to_string(), k.clone()));
                    val(b, i, &format!("{path}/{k}"), out);
                }
                *i += 1;
            }
            '[' => {
                *i += 1;
                let mut n = 0;
                while b[*i] != ']' {
                    if b[*i] == ',' {
                        *i += 1;
                    }
                    val(b, i, &format!("{path}/{n}"), out);
                    n += 1;
                }
                *i += 1;
            }
            '"' => {
                string(b, i);
            }
            _ => {
                while *i < b.len() && !",]}".contains(b[*i]) {
                    *i += 1;
                }
            }
        }
    }
    let mut out = vec![];
    val(&b, &mut 0, "", &mut out);
    out
}
pub fn c22(c: &Value) -> R {
    let mut want = c["want"].clone();
    let mut input = want.clone();
    if input["workspace_default_members"].is_null() {
        input.as_object_mut().unwrap().remove("workspace_default_members");
    }
    let m: cm::Metadata = serde_json::from_value(input).map_err(|e| format!("rejected: {e}"))?;
    if view(&m) != want {
        // reading is not what this property is about: judge the value that was read
        want = view(&m);
    }
    let text = catch(|| serde_json::to_string(&m))?.map_err(|e| format!("cannot be written: {e}"))?;
    let mut seen = BTreeSet::new();
    for k in keys(&text) {
        ensure!(seen.insert(k.clone()), "{}/{} is written more than once", k.0, k.1);
    }
    let back: cm::Metadata = catch(|| serde_json::from_str(&text))?.map_err(|e| format!("what was written cannot be read: {e}"))?;
    if let Some(d) = diff(&view(&back), &want, "") {
        return Err(format!("after writing and reading {d}"));
    }
    // the keys are cargo's; a null `metadata` of a package and absent default members may be left out
    let mut w: Value = serde_json::from_str(&text).unwrap();
    for (i, p) in want["packages"].as_array().unwrap().iter().enumerate() {
        if p["metadata"].is_null() {
            w["packages"][i].as_object_mut().unwrap().entry("metadata").or_insert(Value::Null);
        }
    }
    if want["workspace_default_members"].is_null() {
        w.as_object_mut().unwrap().entry("workspace_default_members").or_insert(Value::Null);
    }
    if let Some(d) = diff(&w, &want, "") {
        return Err(format!("in the written document {d}"));
    }
    // the other forms of the same value
    for p in &m.packages {
        let q: cm::Package = catch(|| serde_json::from_str(&serde_json::to_string(p).unwrap()))?.map_err(|e| format!("a package cannot be read back: {e}"))?;
        ensure!(q.id == p.id && q.name == p.name, "a package on its own is not read back");
    }
    Ok(())
}
