//! Generator of cargo-consistent `cargo metadata` documents.  A small workspace
//! is made up, its dependencies are resolved the way cargo's dependency
//! resolver does it (every target, weak features treated as strong, dev
//! dependencies of workspace members only), and the result is written as JSON.
use crate::rng::Rng;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub enum Src {
    Path(String),
    CratesIo,
    Git { base: String, reference: Option<(&'static str, String)>, commit: String },
}

#[derive(Clone, Debug)]
pub struct Decl {
    pub to: usize,
    pub rename: Option<String>,
    pub kind: &'static str, // "", "dev", "build"
    pub target: Option<String>,
    pub optional: bool,
    pub default_features: bool,
    pub features: Vec<String>,
    pub req: String,
}

#[derive(Clone, Debug)]
pub struct Pkg {
    pub name: String,
    pub version: String,
    pub src: Src,
    pub lib: Option<String>,
    pub member: bool,
    pub features: BTreeMap<String, Vec<String>>,
    pub decls: Vec<Decl>,
}

impl Pkg {
    pub fn toml_name<'a>(&'a self, d: &'a Decl, all: &'a [Pkg]) -> &'a str {
        d.rename.as_deref().unwrap_or(&all[d.to].name)
    }
}

pub const CRATES_IO: &str = "registry+https://github.com/rust-lang/crates.io-index";

fn enc(s: &str) -> String {
    // the characters `application/x-www-form-urlencoded` keeps, minus '+'
    let mut o = String::new();
    for c in s.chars() {
        if c.is_ascii_alphanumeric() || "*-._".contains(c) {
            o.push(c);
        } else {
            o.push_str(&format!("%{:02X}", c as u32));
        }
    }
    o
}

pub fn id(p: &Pkg, opaque: bool) -> String {
    let (n, v) = (&p.name, &p.version);
    if opaque {
        return match &p.src {
            Src::Path(d) => format!("{n} {v} (path+file://{d})"),
            Src::CratesIo => format!("{n} {v} ({CRATES_IO})"),
            Src::Git { base, reference, commit } => {
                let q = reference.as_ref().map_or(String::new(), |(k, r)| format!("?{k}={r}"));
                format!("{n} {v} (git+{base}{q}#{commit})")
            }
        };
    }
    match &p.src {
        Src::Path(d) => {
            if d.rsplit('/').next() == Some(n) {
                format!("path+file://{d}#{v}")
            } else {
                format!("path+file://{d}#{n}@{v}")
            }
        }
        Src::CratesIo => format!("{CRATES_IO}#{n}@{v}"),
        Src::Git { base, reference, .. } => {
            let q = reference.as_ref().map_or(String::new(), |(k, r)| format!("?{k}={}", enc(r)));
            if base.rsplit('/').next() == Some(n) {
                format!("git+{base}{q}#{v}")
            } else {
                format!("git+{base}{q}#{n}@{v}")
            }
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Config {
    pub ignore: Vec<(String, String)>,
    pub targets: Vec<(String, Vec<String>)>,
    pub exclude: Vec<String>,
    pub workspace: bool,
    pub include: Vec<String>,
    /// one builder call per setting instead of one call with all of them
    pub split: bool,
}

impl Config {
    pub fn to_json(&self) -> Value {
        json!({"ignore": self.ignore, "targets": self.targets, "exclude": self.exclude,
               "workspace": self.workspace, "include": self.include, "split": self.split})
    }
    pub fn from_json(v: &Value) -> Self {
        serde_json::from_value::<(Vec<(String, String)>, Vec<(String, Vec<String>)>, Vec<String>, bool, Vec<String>, bool)>(json!([
            v["ignore"], v["targets"], v["exclude"], v["workspace"], v["include"], v["split"]
        ]))
        .map(|(ignore, targets, exclude, workspace, include, split)| Config { ignore, targets, exclude, workspace, include, split })
        .expect("config")
    }
}

pub const CFGS: &[&str] = &[
    "cfg(unix)",
    "cfg(windows)",
    "cfg(not(unix))",
    "cfg(target_os = \"linux\")",
    "cfg(target_os = \"macos\")",
    "cfg(all(windows, target_env = \"musl\"))",
    "cfg(all(unix, not(target_arch = \"x86\")))",
    "cfg(any(windows, target_arch = \"wasm32\"))",
    "cfg(any())",
    "cfg(all())",
    "cfg(not(all()))",
    "cfg(not(any(unix, windows)))",
    "cfg(target_feature = \"atomics\")",
    "cfg(all(target_arch = \"wasm32\", target_feature = \"atomics\"))",
    "cfg(not(target_feature = \"atomics\"))",
    "cfg(target_pointer_width = \"32\")",
    "x86_64-pc-windows-msvc",
    "x86_64-unknown-linux-gnu",
    "my-custom-target",
    // a custom target whose name target-lexicon can read
    "mips",
];

const NAMES: &[&str] = &["a", "b", "ab", "a-b", "foo", "foo-bar", "qux_q", "mono", "x1", "winapi", "abc", "serde_derive", "Zed"];
const FEATS: &[&str] = &["f1", "f2", "f3", "default", "std", "winapi-x", "f10", "F1", "c++20"];
const VERS: &[&str] = &["0.1.0", "1.2.0", "2.0.1", "0.3.0-alpha.1", "1.10.0", "0.1.0+meta", "1.9.0", "0.0.3", "3.0.0-rc.2+b"];

/// a random target expression over the predicates cargo accepts
pub fn rand_cfg(r: &mut Rng, depth: usize) -> String {
    if depth == 0 || r.chance(35) {
        return (*r.pick(&[
            "unix", "windows", "target_os = \"linux\"", "target_os = \"macos\"", "target_os = \"windows\"", "target_env = \"musl\"", "target_env = \"gnu\"",
            "target_env = \"msvc\"", "target_arch = \"x86_64\"", "target_arch = \"wasm32\"", "target_arch = \"x86\"", "target_family = \"unix\"",
            "target_family = \"wasm\"", "target_family = \"windows\"", "target_vendor = \"apple\"", "target_vendor = \"pc\"", "target_pointer_width = \"32\"",
            "target_pointer_width = \"64\"", "target_endian = \"little\"", "target_endian = \"big\"", "target_feature = \"atomics\"", "target_feature = \"sse2\"",
        ]))
        .to_string();
    }
    match r.below(5) {
        0 => format!("not({})", rand_cfg(r, depth - 1)),
        k => {
            let n = [0, 1, 2, 2, 3][r.below(5)];
            let v: Vec<String> = (0..n).map(|_| rand_cfg(r, depth - 1)).collect();
            format!("{}({})", if k % 2 == 0 { "all" } else { "any" }, v.join(", "))
        }
    }
}
pub fn rand_target(r: &mut Rng) -> String {
    if r.chance(40) { format!("cfg({})", rand_cfg(r, 3)) } else { (*r.pick(CFGS)).to_string() }
}

/// What the generator is allowed to produce; precondition classes of the
/// properties are expressed by switching features off.
#[derive(Clone, Copy)]
pub struct Opts {
    pub max_pkgs: usize,
    pub same_toml_name: bool,
    pub target_pct: u64,
    pub optional_pct: u64,
    /// "" any, "dev"/"build"/"normal": more of that kind
    pub more_kind: &'static str,
    pub more_src: bool,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { max_pkgs: 8, same_toml_name: true, target_pct: 35, optional_pct: 45, more_kind: "", more_src: false }
    }
}

pub struct Doc {
    pub json: Value,
    pub pkgs: Vec<Pkg>,
}

pub fn generate(r: &mut Rng, o: Opts) -> Doc {
    let n = 1 + r.below(o.max_pkgs);
    let members = 1 + r.below(3.min(n));
    let opaque = r.chance(25);
    let mut pkgs: Vec<Pkg> = Vec::new();
    let mut used_dirs = BTreeSet::new();
    for i in 0..n {
        let member = i < members;
        loop {
            let name = (*r.pick(NAMES)).to_string();
            let src = if member || r.chance(if o.more_src { 5 } else { 15 }) {
                let d = if r.chance(60) { format!("/vxws/{name}") } else { format!("/vxws/crates/dir{}", r.below(6)) };
                Src::Path(d)
            } else if r.chance(if o.more_src { 40 } else { 60 }) {
                Src::CratesIo
            } else {
                let base = format!("https://git.example/{}", r.pick(&["mono", "foo", "a", "ab"]));
                let reference = match r.below(4) {
                    0 => None,
                    1 => Some(("branch", (*r.pick(&["main", "feat/x", "a@b", "v+1"])).to_string())),
                    2 => Some(("tag", (*r.pick(&["v1", "rel/1.0"])).to_string())),
                    _ => Some(("rev", "abc1234".to_string())),
                };
                Src::Git { base, reference, commit: format!("{:040x}", r.below(3)) }
            };
            let version = (*r.pick(VERS)).to_string();
            let vno = |v: &str| v.split('+').next().unwrap().to_string();
            // two packages of one source never share name and version
            if pkgs.iter().any(|p: &Pkg| {
                p.name == name && vno(&p.version) == vno(&version) && std::mem::discriminant(&p.src) == std::mem::discriminant(&src)
                    && match (&p.src, &src) {
                        (Src::Git { base: b1, reference: r1, .. }, Src::Git { base: b2, reference: r2, .. }) => b1 == b2 && r1 == r2,
                        _ => true,
                    }
            }) {
                continue;
            }
            if let Src::Path(d) = &src {
                if !used_dirs.insert(d.clone()) {
                    continue;
                }
            }
            let lib = r.chance(12).then(|| format!("lib_{}", name.replace('-', "_")));
            pkgs.push(Pkg { name, version, src, lib, member, features: BTreeMap::new(), decls: Vec::new() });
            break;
        }
    }
    // features that are declared first so dependents can refer to them; built from the back
    for i in (0..n).rev() {
        let nf = r.below(5);
        let mut fs: Vec<String> = Vec::new();
        for _ in 0..nf {
            let f = (*r.pick(FEATS)).to_string();
            if !fs.contains(&f) {
                fs.push(f);
            }
        }
        let nd = r.below(5);
        let mut decls: Vec<Decl> = Vec::new();
        for _ in 0..nd {
            let kind = match r.below(6) {
                0 | 1 => "dev",
                2 => "build",
                3 => match o.more_kind {
                    "normal" => "",
                    k => k,
                },
                _ => "",
            };
            let to = if kind == "dev" && pkgs[i].member && r.chance(40) {
                r.below(n)
            } else if i + 1 < n {
                i + 1 + r.below(n - i - 1)
            } else {
                continue;
            };
            // a package may only depend on itself for its tests
            if to == i && !(kind == "dev" && pkgs[i].member) {
                continue;
            }
            let mk = |p: &[Pkg], d: &Decl| d.rename.clone().unwrap_or_else(|| p[d.to].name.clone()).replace('-', "_");
            let prev = decls.iter().find(|d| d.to == to).cloned();
            let rename = match &prev {
                Some(p) => p.rename.clone(),
                None => r.chance(25).then(|| (*r.pick(&["ren-a", "ren_b", "foo", "winapi-x", "b"])).to_string()),
            };
            let rename = rename.filter(|x| *x != pkgs[to].name);
            let target = r.chance(o.target_pct).then(|| rand_target(r));
            let optional = kind != "dev" && r.chance(o.optional_pct);
            // `features` refer to declared features of the target, which are known only if to > i
            let avail: Vec<String> = if to > i { pkgs[to].features.keys().cloned().collect() } else { vec![] };
            let mut features = Vec::new();
            for f in &avail {
                if f != "default" && r.chance(20) {
                    features.push(f.clone());
                }
            }
            let v = &pkgs[to].version;
            let base_v = v.split('+').next().unwrap();
            let req = match (&pkgs[to].src, r.below(4)) {
                (Src::Path(_) | Src::Git { .. }, 0 | 1) => "*".to_string(),
                (_, 2) => format!("={base_v}"),
                (_, 3) if !base_v.contains('-') && matches!(pkgs[to].src, Src::CratesIo) => "*".to_string(),
                _ => format!("^{base_v}"),
            };
            let d = Decl { to, rename, kind, target, optional, default_features: r.chance(75), features, req };
            let tn = mk(&pkgs, &d);
            if decls.iter().any(|e| {
                let en = mk(&pkgs, e);
                // one manifest name for two packages: cargo wants them from one source
                (en == tn && e.to != d.to && !(o.same_toml_name && same_source(&pkgs[e.to], &pkgs[d.to]) && (e.kind, &e.target) != (d.kind, &d.target)))
                    || (e.to == d.to && en != tn)
                    || (e.to == d.to && e.kind == d.kind && e.target == d.target)
            }) {
                continue;
            }
            decls.push(d);
        }
        // extern names must not clash (rustc could not compile that package)
        let ext = |d: &Decl| d.rename.clone().unwrap_or_else(|| pkgs[d.to].lib.clone().unwrap_or_else(|| pkgs[d.to].name.clone())).replace('-', "_");
        let mk2 = |d: &Decl| d.rename.clone().unwrap_or_else(|| pkgs[d.to].name.clone());
        let mut keep: Vec<Decl> = Vec::new();
        for d in decls {
            if keep.iter().all(|k| k.to == d.to || ext(k) != ext(&d) || (o.same_toml_name && mk2(k) == mk2(&d))) {
                keep.push(d);
            }
        }
        let decls = keep;
        let optional_names: BTreeSet<String> = decls.iter().filter(|d| d.optional).map(|d| d.rename.clone().unwrap_or_else(|| pkgs[d.to].name.clone())).collect();
        let mut features: BTreeMap<String, Vec<String>> = BTreeMap::new();
        let mut explicit: BTreeSet<String> = BTreeSet::new();
        let use_dep: BTreeSet<String> = optional_names.iter().filter(|_| r.chance(40)).cloned().collect();
        fs.retain(|f| !optional_names.contains(f) || use_dep.contains(f));
        // every name in use_dep is referenced with dep: by some feature
        if fs.is_empty() && !use_dep.is_empty() {
            fs.push("f1".into());
            if optional_names.contains("f1") && !use_dep.contains("f1") {
                fs.clear();
            }
        }
        for f in &fs {
            features.insert(f.clone(), vec![]);
        }
        for d in &use_dep {
            if fs.is_empty() {
                break;
            }
            let f = r.pick(&fs).clone();
            features.get_mut(&f).unwrap().push(format!("dep:{d}"));
            explicit.insert(d.clone());
        }
        let implicit: Vec<String> = optional_names.iter().filter(|d| !explicit.contains(*d)).cloned().collect();
        let all_feats: Vec<String> = fs.iter().cloned().chain(implicit.iter().cloned()).collect();
        for f in &fs {
            for _ in 0..r.below(4) {
                let item = match r.below(4) {
                    0 if all_feats.len() > 1 => {
                        let g = r.pick(&all_feats).clone();
                        if g == *f {
                            continue;
                        }
                        g
                    }
                    1 | 2 if !decls.is_empty() => {
                        let d = r.pick(&decls);
                        let dn = d.rename.clone().unwrap_or_else(|| pkgs[d.to].name.clone());
                        // the feature must exist in every package this name can resolve to
                        let mut av: Vec<String> = pkgs[d.to].features.keys().cloned().collect();
                        for e in &decls {
                            let en = e.rename.clone().unwrap_or_else(|| pkgs[e.to].name.clone());
                            if en == dn {
                                av.retain(|x| pkgs[e.to].features.contains_key(x));
                            }
                        }
                        if d.to <= i || av.is_empty() {
                            continue;
                        }
                        let g = r.pick(&av).clone();
                        let any_req = decls.iter().any(|e| !e.optional && e.rename.clone().unwrap_or_else(|| pkgs[e.to].name.clone()) == dn);
                        if optional_names.contains(&dn) && r.chance(50) {
                            format!("{dn}?/{g}")
                        } else if optional_names.contains(&dn) || any_req {
                            format!("{dn}/{g}")
                        } else {
                            continue;
                        }
                    }
                    3 if !explicit.is_empty() => {
                        let v: Vec<_> = explicit.iter().cloned().collect();
                        format!("dep:{}", r.pick(&v))
                    }
                    _ => continue,
                };
                let l = features.get_mut(f).unwrap();
                if !l.contains(&item) {
                    l.push(item);
                }
            }
        }
        for d in implicit {
            features.insert(d.clone(), vec![format!("dep:{d}")]);
        }
        pkgs[i].features = features;
        pkgs[i].decls = decls;
    }
    // ---- resolve ------------------------------------------------------------
    let req_mode = r.below(4); // 0 all features, 1 default, 2 none, 3 random
    let mut on: BTreeSet<usize> = BTreeSet::new();
    let mut feats: Vec<BTreeSet<String>> = vec![BTreeSet::new(); n];
    let mut active: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); n];
    for (i, p) in pkgs.iter().enumerate() {
        if p.member {
            on.insert(i);
            for f in p.features.keys() {
                let take = match req_mode {
                    0 => true,
                    1 => f == "default",
                    2 => false,
                    _ => r.chance(50),
                };
                if take {
                    feats[i].insert(f.clone());
                }
            }
        }
    }
    loop {
        let mut changed = false;
        for i in on.clone() {
            let p = &pkgs[i];
            let mut act: BTreeSet<usize> = BTreeSet::new();
            let mut dep_feats: Vec<(usize, String)> = Vec::new();
            let mut own: Vec<String> = Vec::new();
            let by_name = |dn: &str| -> Vec<usize> {
                p.decls.iter().enumerate().filter(|(_, d)| p.toml_name(d, &pkgs) == dn && (d.kind != "dev" || p.member)).map(|(k, _)| k).collect()
            };
            for (k, d) in p.decls.iter().enumerate() {
                if !d.optional && (d.kind != "dev" || p.member) {
                    act.insert(k);
                }
            }
            for f in &feats[i] {
                for it in p.features.get(f).into_iter().flatten() {
                    if let Some(dn) = it.strip_prefix("dep:") {
                        act.extend(by_name(dn));
                    } else if let Some((dn, g)) = it.split_once('/') {
                        let dn = dn.strip_suffix('?').unwrap_or(dn);
                        let ks = by_name(dn);
                        if ks.iter().any(|&k| p.decls[k].optional) && p.features.contains_key(dn) {
                            own.push(dn.to_string());
                        }
                        for k in ks {
                            act.insert(k);
                            dep_feats.push((p.decls[k].to, g.to_string()));
                        }
                    } else {
                        own.push(it.clone());
                    }
                }
            }
            for k in &act {
                let d = &p.decls[*k];
                changed |= on.insert(d.to);
                for f in &d.features {
                    dep_feats.push((d.to, f.clone()));
                }
                if d.default_features && pkgs[d.to].features.contains_key("default") {
                    dep_feats.push((d.to, "default".into()));
                }
            }
            for o in own {
                changed |= feats[i].insert(o);
            }
            for (t, f) in dep_feats {
                changed |= feats[t].insert(f);
            }
            for k in act {
                changed |= active[i].insert(k);
            }
        }
        if !changed {
            break;
        }
    }
    let ids: Vec<String> = pkgs.iter().map(|p| id(p, opaque)).collect();
    let mut packages = Vec::new();
    let mut nodes = Vec::new();
    for &i in &on {
        let p = &pkgs[i];
        let psrc = |p: &Pkg, commit: bool| -> Value {
            match &p.src {
                Src::Path(_) => Value::Null,
                Src::CratesIo => json!(CRATES_IO),
                Src::Git { base, reference, commit: c } => {
                    let q = reference.as_ref().map_or(String::new(), |(k, r)| format!("?{k}={r}"));
                    if commit { json!(format!("git+{base}{q}#{c}")) } else { json!(format!("git+{base}{q}")) }
                }
            }
        };
        let dir = match &p.src {
            Src::Path(d) => d.clone(),
            _ => format!("/vxhome/{}-{}", p.name, p.version),
        };
        let deps: Vec<Value> = p
            .decls
            .iter()
            .map(|d| {
                let t = &pkgs[d.to];
                let mut o = json!({
                    "name": t.name, "source": psrc(t, false), "req": d.req,
                    "kind": if d.kind.is_empty() { Value::Null } else { json!(d.kind) },
                    "rename": d.rename, "optional": d.optional, "uses_default_features": d.default_features,
                    "features": d.features, "target": d.target, "registry": null, "vx_pkg": ids[d.to],
                });
                if let Src::Path(pp) = &t.src {
                    o["path"] = json!(pp);
                }
                o
            })
            .collect();
        let libname = p.lib.clone().unwrap_or_else(|| p.name.clone());
        packages.push(json!({
            "name": p.name, "version": p.version, "id": ids[i], "license": null, "license_file": null, "description": null,
            "source": psrc(p, true), "dependencies": deps,
            "targets": [{"kind": ["lib"], "crate_types": ["lib"], "name": libname.replace('-', "_"), "src_path": format!("{dir}/src/lib.rs"),
                         "edition": "2021", "doc": true, "doctest": true, "test": true}],
            "features": p.features, "manifest_path": format!("{dir}/Cargo.toml"), "metadata": null, "publish": null,
            "authors": [], "categories": [], "keywords": [], "readme": null, "repository": null, "homepage": null,
            "documentation": null, "edition": "2021", "links": null, "default_run": null, "rust_version": null,
        }));
        let mut by_pkg: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
        for &k in &active[i] {
            by_pkg.entry(p.decls[k].to).or_default().push(k);
        }
        let ndeps: Vec<Value> = by_pkg
            .iter()
            .map(|(t, ks)| {
                let tp = &pkgs[*t];
                let d0 = &p.decls[ks[0]];
                let nm = d0.rename.clone().unwrap_or_else(|| tp.lib.clone().unwrap_or_else(|| tp.name.clone())).replace('-', "_");
                json!({"name": nm, "pkg": ids[*t], "dep_kinds": ks.iter().map(|&k| {
                    let d = &p.decls[k];
                    json!({"kind": if d.kind.is_empty() { Value::Null } else { json!(d.kind) }, "target": d.target})
                }).collect::<Vec<_>>()})
            })
            .collect();
        nodes.push(json!({"id": ids[i], "dependencies": by_pkg.keys().map(|t| &ids[*t]).collect::<Vec<_>>(), "deps": ndeps,
                          "features": feats[i].iter().collect::<Vec<_>>()}));
    }
    shuffle(r, &mut packages);
    shuffle(r, &mut nodes);
    for n in &mut nodes {
        let a = n["deps"].as_array_mut().unwrap();
        let mut v = std::mem::take(a);
        shuffle(r, &mut v);
        n["deps"] = Value::Array(v);
    }
    let mut mem: Vec<Value> = (0..n).filter(|&i| pkgs[i].member).map(|i| json!(ids[i])).collect();
    shuffle(r, &mut mem);
    let root = if r.chance(45) { json!(ids[0]) } else { Value::Null };
    let json = json!({
        "packages": packages, "workspace_members": mem.clone(), "workspace_default_members": mem,
        "resolve": {"nodes": nodes, "root": root}, "target_directory": "/vxws/target", "version": 1,
        "workspace_root": "/vxws", "metadata": null,
    });
    Doc { json, pkgs }
}

fn same_source(a: &Pkg, b: &Pkg) -> bool {
    match (&a.src, &b.src) {
        (Src::CratesIo, Src::CratesIo) => true,
        (Src::Git { base: b1, reference: r1, .. }, Src::Git { base: b2, reference: r2, .. }) => b1 == b2 && r1 == r2,
        _ => false,
    }
}

fn shuffle<T>(r: &mut Rng, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = r.below(i + 1);
        v.swap(i, j);
    }
}

/// Which settings a random configuration may use, as percentages.
#[derive(Clone, Copy)]
pub struct Facets {
    pub ignore: u64,
    pub targets: u64,
    pub exclude: u64,
    pub select: u64,
}
pub const ALL: Facets = Facets { ignore: 60, targets: 45, exclude: 25, select: 30 };

pub fn gen_config(r: &mut Rng, doc: &Value, f: Facets) -> Config {
    let mut c = Config { split: r.chance(50), ..Default::default() };
    if r.chance(f.ignore) {
        for _ in 0..[1, 1, 1, 2, 2, 3, 4][r.below(7)] {
            c.ignore.push(((*r.pick(&["normal", "build", "build", "dev", "dev"])).into(), (*r.pick(&["ws", "nonws", "all"])).into()));
        }
    }
    if r.chance(f.targets) {
        for _ in 0..[1, 1, 1, 2, 2, 3][r.below(6)] {
            let t = match r.below(10) {
                8 => "my-custom-target".to_string(),
                9 => "mips".to_string(),
                k => crate::cfgeval::TARGETS[k % crate::cfgeval::TARGETS.len()].triple.to_string(),
            };
            let f = match r.below(8) {
                0 | 1 => vec!["atomics".to_string()],
                2 => vec!["sse2".to_string(), "atomics".to_string()],
                3 => vec!["unix".to_string()],
                _ => vec![],
            };
            c.targets.push((t, f));
        }
    }
    let pk = doc["packages"].as_array().unwrap();
    if r.chance(f.exclude) {
        for _ in 0..[1, 1, 2, 3][r.below(4)] {
            let p = r.pick(pk);
            let q = if r.chance(25) { r.pick(pk) } else { p };
            let name = p["name"].as_str().unwrap();
            let ver = q["version"].as_str().unwrap();
            let url = q["source"].as_str().map(|s| {
                let s = s.split_once('+').unwrap().1;
                s.split(['?', '#']).next().unwrap().to_string()
            });
            let sep = if r.chance(50) { ':' } else { '@' };
            let spec = match (r.below(6), url) {
                (0, _) => name.to_string(),
                (1, _) => format!("{name}{sep}{ver}"),
                (2 | 3, Some(u)) => {
                    let u = match r.below(6) {
                        0 => u[..u.len() - 1].to_string(),
                        1 => format!("{u}x"),
                        _ => u,
                    };
                    format!("{u}#{name}")
                }
                (4, Some(u)) => format!("{u}#{name}{sep}{ver}"),
                (5, Some(u)) if u.ends_with(&format!("/{name}")) => u,
                (_, None) if r.chance(50) => format!("https://git.example/none#{name}"),
                _ => format!("{name}:9.9.9"),
            };
            if spec.parse::<krates::PkgSpec>().is_ok() {
                c.exclude.push(spec);
            }
        }
    }
    c.workspace = r.chance(f.select);
    if r.chance(f.select) {
        let mem = doc["workspace_members"].as_array().unwrap();
        for _ in 0..[1, 1, 2, 3][r.below(4)] {
            match r.below(9) {
                0 => c.include.push("/vxws".into()),
                1 => c.include.push("/vxws/Cargo.toml".into()),
                2 => c.include.push("/vxws/nothing-here".into()),
                3 => {
                    // a package that may be no member
                    let mp = r.pick(pk)["manifest_path"].as_str().unwrap();
                    c.include.push(mp.to_string());
                }
                _ => {
                    let m = r.pick(mem).as_str().unwrap();
                    let p = pk.iter().find(|p| p["id"] == m).unwrap();
                    let mp = p["manifest_path"].as_str().unwrap();
                    c.include.push(if r.chance(50) { mp.to_string() } else { mp.trim_end_matches("/Cargo.toml").to_string() });
                }
            }
        }
    }
    c
}
