//! The executable form of the build contracts: what the graph has to be for a
//! metadata document and a configuration, computed as a least fixpoint straight
//! from the property statements.  Works on the JSON, shares no code with krates.
use crate::cfgeval;
use crate::model::Config;
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};

pub type KidT = (String, String, String);

/// (name, version, source) of a package id, written from cargo's two formats.
pub fn parse_id(id: &str) -> Option<KidT> {
    if id.contains(' ') {
        let (name, rest) = id.split_once(' ')?;
        let (ver, rest) = rest.split_once(' ')?;
        let src = rest.strip_prefix('(')?;
        let src = match src.rfind('#') {
            Some(h) => &src[..h],
            None => src.strip_suffix(')')?,
        };
        return Some((name.into(), ver.into(), src.into()));
    }
    let (url, frag) = id.rsplit_once('#')?;
    let source = if let (true, Some((base, q))) = (url.starts_with("git+"), url.rsplit_once('?')) {
        format!("{base}?{}", pct(q)?)
    } else {
        url.to_string()
    };
    match frag.split_once('@') {
        Some((n, v)) => Some((n.into(), v.into(), source)),
        None => {
            let base = if url.starts_with("git+") { url.rsplit_once('?').map_or(url, |(b, _)| b) } else { url };
            let n = base.rsplit_once('/')?.1;
            Some((n.into(), frag.into(), source))
        }
    }
}
fn pct(s: &str) -> Option<String> {
    let b = s.as_bytes();
    let mut o = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            let h = s.get(i + 1..i + 3)?;
            o.push(u8::from_str_radix(h, 16).ok()?);
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(o).ok()
}

#[derive(Clone, Debug)]
pub struct DeclO {
    pub name: String,
    pub toml: String,
    pub kind: &'static str,
    pub target: Option<String>,
    pub optional: bool,
    pub default_features: bool,
    pub features: Vec<String>,
    pub req: String,
    pub source: Option<String>,
    pub path: Option<String>,
    pub vx_pkg: Option<String>,
}
#[derive(Clone, Debug)]
pub struct PkgO {
    pub id: String,
    pub kid: KidT,
    pub name: String,
    pub version: String,
    pub source: Option<String>,
    pub manifest: String,
    pub features: BTreeMap<String, Vec<String>>,
    pub decls: Vec<DeclO>,
    pub lib: Option<String>,
}
#[derive(Clone, Debug)]
pub struct RDep {
    pub name: String,
    pub pkg: usize,
    pub kinds: Vec<(&'static str, Option<String>)>,
}
#[derive(Clone, Debug)]
pub struct Md {
    pub pkgs: Vec<PkgO>,
    pub rdeps: Vec<Vec<RDep>>,
    pub rfeats: Vec<BTreeSet<String>>,
    pub members: Vec<usize>,
    pub root: Option<usize>,
    pub ws_root: String,
}

fn kind(v: &Value) -> &'static str {
    match v.as_str() {
        None | Some("normal") => "normal",
        Some("dev") => "dev",
        Some("build") => "build",
        Some(x) => panic!("kind {x}"),
    }
}
fn strs(v: &Value) -> Vec<String> {
    v.as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default()
}
fn ostr(v: &Value) -> Option<String> {
    v.as_str().map(String::from)
}

pub fn parse(doc: &Value) -> Md {
    let mut pkgs: Vec<PkgO> = doc["packages"]
        .as_array()
        .unwrap()
        .iter()
        .map(|p| PkgO {
            id: p["id"].as_str().unwrap().into(),
            kid: parse_id(p["id"].as_str().unwrap()).unwrap(),
            name: p["name"].as_str().unwrap().into(),
            version: p["version"].as_str().unwrap().into(),
            source: ostr(&p["source"]),
            manifest: p["manifest_path"].as_str().unwrap().into(),
            features: p["features"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), strs(v))).collect(),
            lib: p["targets"].as_array().unwrap().iter().find(|t| strs(&t["kind"]).iter().any(|k| k == "lib")).map(|t| t["name"].as_str().unwrap().into()),
            decls: p["dependencies"]
                .as_array()
                .unwrap()
                .iter()
                .map(|d| DeclO {
                    name: d["name"].as_str().unwrap().into(),
                    toml: ostr(&d["rename"]).unwrap_or_else(|| d["name"].as_str().unwrap().into()),
                    kind: kind(&d["kind"]),
                    target: ostr(&d["target"]),
                    optional: d["optional"].as_bool().unwrap_or(false),
                    default_features: d["uses_default_features"].as_bool().unwrap_or(true),
                    features: strs(&d["features"]),
                    req: d["req"].as_str().unwrap().into(),
                    source: ostr(&d["source"]),
                    path: ostr(&d["path"]),
                    vx_pkg: ostr(&d["vx_pkg"]),
                })
                .collect(),
        })
        .collect();
    pkgs.sort_by(|a, b| a.kid.cmp(&b.kid));
    let ix: BTreeMap<String, usize> = pkgs.iter().enumerate().map(|(i, p)| (p.id.clone(), i)).collect();
    let mut rdeps = vec![vec![]; pkgs.len()];
    let mut rfeats = vec![BTreeSet::new(); pkgs.len()];
    for n in doc["resolve"]["nodes"].as_array().unwrap() {
        let i = ix[n["id"].as_str().unwrap()];
        rfeats[i] = strs(&n["features"]).into_iter().collect();
        rdeps[i] = n["deps"]
            .as_array()
            .unwrap()
            .iter()
            .map(|d| RDep {
                name: d["name"].as_str().unwrap().into(),
                pkg: ix[d["pkg"].as_str().unwrap()],
                kinds: d["dep_kinds"].as_array().unwrap().iter().map(|k| (kind(&k["kind"]), ostr(&k["target"]))).collect(),
            })
            .collect();
        rdeps[i].sort_by_key(|d: &RDep| d.pkg);
    }
    Md {
        members: doc["workspace_members"].as_array().unwrap().iter().map(|m| ix[m.as_str().unwrap()]).collect(),
        root: doc["resolve"]["root"].as_str().map(|r| ix[r]),
        ws_root: doc["workspace_root"].as_str().unwrap().into(),
        pkgs,
        rdeps,
        rfeats,
    }
}

/// Which declaration of `p` the resolved link (`rd`, kind, target) comes from.
pub fn decl_of(md: &Md, p: usize, rd: &RDep, k: &'static str, t: &Option<String>) -> Option<usize> {
    let pk = &md.pkgs[rd.pkg];
    let cands: Vec<usize> = md.pkgs[p]
        .decls
        .iter()
        .enumerate()
        .filter(|(_, d)| d.kind == k && d.target == *t && d.name == pk.name)
        .filter(|(_, d)| match &d.vx_pkg {
            Some(v) => *v == pk.id,
            None => true,
        })
        .map(|(i, _)| i)
        .collect();
    if cands.len() <= 1 {
        return cands.first().copied();
    }
    // several declarations of that package name: extern name, requirement and source decide
    let ver: krates::semver::Version = pk.version.parse().ok()?;
    let fits = |d: &DeclO| {
        let rq: krates::semver::VersionReq = match d.req.parse() {
            Ok(r) => r,
            Err(_) => return false,
        };
        let vok = rq.matches(&ver) || (d.req == "*" && !ver.pre.is_empty());
        let sok = match (&d.source, &pk.source) {
            (Some(a), Some(b)) => a.split('#').next() == b.split('#').next(),
            (None, None) => d.path.as_ref().is_none_or(|x| pk.kid.2.ends_with(x.as_str())),
            _ => false,
        };
        vok && sok
    };
    let m: Vec<usize> = cands.into_iter().filter(|&i| fits(&md.pkgs[p].decls[i])).collect();
    (m.len() == 1).then(|| m[0])
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Link {
    pub from: usize,
    pub to: usize,
    pub kind: &'static str,
    pub cfg: Option<String>,
    pub decl: usize,
}

#[derive(Debug, Default)]
pub struct Spec {
    pub roots: BTreeSet<usize>,
    pub included: BTreeSet<usize>,
    pub feats: Vec<BTreeSet<String>>,
    pub links: BTreeSet<Link>,
    /// (from, to, feature of `to`): enabled through a feature of `from`
    pub feat_links: BTreeSet<(usize, usize, String)>,
}

/// `PkgSpec::matches`, from its documentation: the name, and the version and url
/// when they are given.
pub fn spec_excludes(spec: &str, p: &PkgO) -> bool {
    let (url, rest) = if spec.contains("://") {
        match spec.split_once('#') {
            Some((u, r)) => (Some(u), r),
            None => (Some(spec), spec.rsplit('/').next().unwrap()),
        }
    } else {
        (None, spec)
    };
    let (name, ver) = match rest.split_once([':', '@']) {
        Some((n, v)) => (n, Some(v)),
        None => (rest, None),
    };
    if name != p.name || ver.is_some_and(|v| v != p.version) {
        return false;
    }
    match (url, &p.source) {
        (Some(u), Some(s)) => {
            let s = s.split_once('+').map_or(s.as_str(), |x| x.1);
            s.split(['?', '#']).next().unwrap() == u
        }
        _ => true,
    }
}

pub fn roots(md: &Md, c: &Config) -> BTreeSet<usize> {
    let all: BTreeSet<usize> = md.members.iter().copied().collect();
    if c.include.is_empty() {
        return match md.root {
            Some(r) if !c.workspace => [r].into(),
            _ => all,
        };
    }
    let inc: Vec<String> = c
        .include
        .iter()
        .map(|p| if p.ends_with("/Cargo.toml") || p == "Cargo.toml" { p.clone() } else { format!("{}/Cargo.toml", p.trim_end_matches('/')) })
        .collect();
    if inc.len() == 1 && inc[0] == format!("{}/Cargo.toml", md.ws_root) {
        return all;
    }
    all.into_iter().filter(|&m| inc.contains(&md.pkgs[m].manifest)).collect()
}

pub fn kind_ignored(md: &Md, c: &Config, p: usize, k: &str) -> bool {
    let member = md.members.contains(&p);
    c.ignore.iter().any(|(ik, sc)| {
        ik == k
            && match sc.as_str() {
                "ws" => member,
                "nonws" => !member,
                _ => true,
            }
    })
}

pub fn target_ok(c: &Config, t: &Option<String>) -> bool {
    let Some(t) = t else { return true };
    let e = if t.starts_with("cfg(") { cfgeval::parse(t) } else { None };
    if c.targets.is_empty() {
        return !e.is_some_and(|e| cfgeval::always_false(&e));
    }
    c.targets.iter().any(|(triple, feats)| match &e {
        Some(e) => cfgeval::eval(e, cfgeval::target(triple), feats),
        None => triple == t,
    })
}

fn resolve_names(md: &Md, p: usize, dn: &str) -> Vec<usize> {
    // rdeps that the manifest name `dn` of package p stands for
    let mut v = Vec::new();
    for (ri, rd) in md.rdeps[p].iter().enumerate() {
        if rd.kinds.iter().any(|(k, t)| decl_of(md, p, rd, k, t).is_some_and(|d| md.pkgs[p].decls[d].toml == dn)) {
            v.push(ri);
        }
    }
    v
}

pub fn solve(md: &Md, c: &Config) -> Spec {
    let n = md.pkgs.len();
    let mut s = Spec { roots: roots(md, c), feats: vec![BTreeSet::new(); n], ..Default::default() };
    let excluded: Vec<bool> = md.pkgs.iter().map(|p| c.exclude.iter().any(|e| spec_excludes(e, p))).collect();
    let mut on: BTreeSet<usize> = BTreeSet::new();
    for &r in &s.roots {
        if !excluded[r] {
            on.insert(r);
            s.feats[r] = md.rfeats[r].clone();
        }
    }
    loop {
        let before = (on.len(), s.links.len(), s.feat_links.len(), s.feats.iter().map(|f| f.len()).sum::<usize>());
        for p in on.clone() {
            // links kept: (rdep, dep_kind) that survive the filters
            let mut want: BTreeSet<(usize, usize)> = BTreeSet::new(); // (rdep, kind idx)
            let surviving = |ri: usize| -> Vec<usize> {
                let rd = &md.rdeps[p][ri];
                (0..rd.kinds.len()).filter(|&ki| !kind_ignored(md, c, p, rd.kinds[ki].0) && target_ok(c, &rd.kinds[ki].1)).collect()
            };
            for ri in 0..md.rdeps[p].len() {
                let rd = &md.rdeps[p][ri];
                for ki in surviving(ri) {
                    let (k, t) = &rd.kinds[ki];
                    let d = decl_of(md, p, rd, k, t).unwrap_or_else(|| panic!("no decl {} -> {}", md.pkgs[p].id, md.pkgs[rd.pkg].id));
                    if !md.pkgs[p].decls[d].optional {
                        want.insert((ri, ki));
                    }
                }
            }
            let mut strong: Vec<(usize, Option<String>)> = vec![];
            let mut weak: Vec<(usize, String)> = vec![];
            let mut own = vec![];
            for f in &s.feats[p] {
                for it in md.pkgs[p].features.get(f).into_iter().flatten() {
                    if let Some(dn) = it.strip_prefix("dep:") {
                        strong.extend(resolve_names(md, p, dn).into_iter().map(|r| (r, None)));
                    } else if let Some((dn, g)) = it.split_once('/') {
                        match dn.strip_suffix('?') {
                            Some(dn) => weak.extend(resolve_names(md, p, dn).into_iter().map(|r| (r, g.to_string()))),
                            None => strong.extend(resolve_names(md, p, dn).into_iter().map(|r| (r, Some(g.to_string())))),
                        }
                    } else {
                        own.push(it.clone());
                    }
                }
            }
            for (ri, g) in strong {
                let sv = surviving(ri);
                if sv.is_empty() {
                    continue;
                }
                for ki in sv {
                    want.insert((ri, ki));
                }
                if let Some(g) = g {
                    s.feat_links.insert((p, md.rdeps[p][ri].pkg, g));
                }
            }
            for o in own {
                s.feats[p].insert(o);
            }
            for (ri, ki) in want {
                let rd = &md.rdeps[p][ri];
                let (k, t) = &rd.kinds[ki];
                let d = decl_of(md, p, rd, k, t).unwrap();
                s.links.insert(Link { from: p, to: rd.pkg, kind: k, cfg: t.clone(), decl: d });
            }
            for (ri, g) in weak {
                let to = md.rdeps[p][ri].pkg;
                if s.links.iter().any(|l| l.from == p && l.to == to) {
                    s.feat_links.insert((p, to, g));
                }
            }
            for l in s.links.clone().iter().filter(|l| l.from == p) {
                if excluded[l.to] {
                    continue;
                }
                on.insert(l.to);
                let d = &md.pkgs[p].decls[l.decl];
                for f in &d.features {
                    s.feats[l.to].insert(f.clone());
                }
                if d.default_features && md.rfeats[l.to].contains("default") {
                    s.feats[l.to].insert("default".into());
                }
            }
            for (a, b, g) in s.feat_links.clone() {
                if a == p && !excluded[b] {
                    s.feats[b].insert(g);
                }
            }
        }
        let after = (on.len(), s.links.len(), s.feat_links.len(), s.feats.iter().map(|f| f.len()).sum::<usize>());
        if before == after {
            break;
        }
    }
    s.links.retain(|l| !excluded[l.to]);
    s.feat_links.retain(|l| !excluded[l.1]);
    s.included = on;
    s
}
