//! Bounded checks of the build properties (C03..C10, C19, C20): the real build
//! against the fixpoint oracle.
use crate::build::*;
use crate::model::*;
use crate::oracle::*;
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};

type R = Result<(), String>;
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}

pub struct Ctx {
    pub md: Md,
    pub spec: Spec,
    pub b: Built,
    pub g: G,
    /// node index -> package index
    pub pkg_of: Vec<usize>,
}

/// Builds; `Ok(None)` when there rightly is no graph.
pub fn ctx(doc: &Value, c: &Config) -> Result<Option<Ctx>, String> {
    let md = parse(doc);
    let spec = solve(&md, c);
    match build(&doc.to_string(), c)? {
        Err(e) => {
            ensure!(spec.included.is_empty(), "the build fails with `{e}` although {} crates are reachable", spec.included.len());
            Ok(None)
        }
        Ok(b) => with(md, spec, b).map(Some),
    }
}
pub fn with(md: Md, spec: Spec, b: Built) -> Result<Ctx, String> {
    let g = plain(&b.k);
    let ix: BTreeMap<KidT, usize> = md.pkgs.iter().enumerate().map(|(i, p)| (p.kid.clone(), i)).collect();
    let mut pkg_of = vec![];
    for n in &g.nodes {
        if let N::Krate { kid, id, .. } = n {
            let i = *ix.get(kid).ok_or_else(|| format!("the graph has a crate {id} = {kid:?} that is no package of the metadata"))?;
            pkg_of.push(i);
        } else {
            break;
        }
    }
    Ok(Ctx { md, spec, b, g, pkg_of })
}
fn names(md: &Md, it: impl Iterator<Item = usize>) -> Vec<String> {
    it.map(|i| md.pkgs[i].id.clone()).collect()
}

pub fn included(x: &Ctx) -> R {
    let got: BTreeSet<usize> = x.pkg_of.iter().copied().collect();
    ensure!(
        got == x.spec.included,
        "crates in the graph differ: unexpected {:?}, missing {:?}",
        names(&x.md, got.difference(&x.spec.included).copied()),
        names(&x.md, x.spec.included.difference(&got).copied())
    );
    Ok(())
}

pub fn links(x: &Ctx) -> R {
    let mut got: BTreeSet<(usize, usize, &str, Option<String>)> = BTreeSet::new();
    for e in &x.g.edges {
        if let Some((_, k, cfg)) = &e.dep {
            let (a, b) = (x.g.owner(e.from), x.g.owner(e.to));
            ensure!(a < x.pkg_of.len() && b < x.pkg_of.len(), "an edge ends at a node that belongs to no crate");
            got.insert((x.pkg_of[a], x.pkg_of[b], k, cfg.clone()));
        }
    }
    let want: BTreeSet<_> = x.spec.links.iter().map(|l| (l.from, l.to, l.kind, l.cfg.clone())).collect();
    let show = |l: &(usize, usize, &str, Option<String>)| format!("{} -> {} ({}, {:?})", x.md.pkgs[l.0].id, x.md.pkgs[l.1].id, l.2, l.3);
    ensure!(
        got == want,
        "dependency links differ: unexpected {:?}, missing {:?}",
        got.difference(&want).map(show).collect::<Vec<_>>(),
        want.difference(&got).map(show).collect::<Vec<_>>()
    );
    Ok(())
}

pub fn features(x: &Ctx) -> R {
    for (n, &i) in x.pkg_of.iter().enumerate() {
        let N::Krate { features, .. } = &x.g.nodes[n] else { unreachable!() };
        let got: BTreeSet<String> = features.iter().cloned().collect();
        let want = if x.spec.roots.contains(&i) { &x.md.rfeats[i] } else { &x.spec.feats[i] };
        let p = &x.md.pkgs[i];
        let missing: Vec<_> = want.difference(&got).collect();
        ensure!(missing.is_empty(), "{}: enabled features {missing:?} are not reported (reported {got:?})", p.id);
        // names taken over from dependency references of its own lists
        let mut allowed = want.clone();
        loop {
            let mut more = vec![];
            for f in &allowed {
                for it in p.features.get(f).into_iter().flatten() {
                    let nm = if let Some(d) = it.strip_prefix("dep:") {
                        d
                    } else if let Some((_, g)) = it.split_once('/') {
                        g
                    } else {
                        it
                    };
                    if !allowed.contains(nm) {
                        more.push(nm.to_string());
                    }
                }
            }
            if more.is_empty() {
                break;
            }
            allowed.extend(more);
        }
        let extra: Vec<_> = got.difference(&allowed).collect();
        ensure!(extra.is_empty(), "{}: features {extra:?} are reported but nothing enables them (enabled {want:?})", p.id);
        // the lookup by identifier reports the same set
    }
    Ok(())
}

/// C08: roots report everything the metadata enabled on them
pub fn root_features(x: &Ctx) -> R {
    for (n, &i) in x.pkg_of.iter().enumerate() {
        let N::Krate { features, .. } = &x.g.nodes[n] else { unreachable!() };
        if x.spec.roots.contains(&i) {
            let missing: Vec<_> = x.md.rfeats[i].iter().filter(|f| !features.contains(f)).collect();
            ensure!(missing.is_empty(), "root {}: the features {missing:?} the metadata enabled are not reported", x.md.pkgs[i].id);
        }
    }
    Ok(())
}

/// C03
pub fn partition(doc: &Value, x: &Ctx) -> R {
    let kids: Vec<_> = x.b.k.krates().map(|p| p.id.repr.clone()).collect();
    ensure!(kids.len() == x.b.k.len(), "len() is {} but krates() yields {}", x.b.k.len(), kids.len());
    ensure!(x.pkg_of.len() == x.b.k.len(), "len() is {} but the graph starts with {} crate nodes", x.b.k.len(), x.pkg_of.len());
    ensure!(x.g.nodes[x.pkg_of.len()..].iter().all(|n| matches!(n, N::Feat { .. })), "a crate node lies behind a feature node");
    let mut seen: BTreeMap<String, usize> = BTreeMap::new();
    for k in &kids {
        *seen.entry(k.clone()).or_default() += 1;
    }
    for p in &x.b.filtered {
        *seen.entry(p.id.repr.clone()).or_default() += 1;
    }
    for p in &x.md.pkgs {
        let n = seen.remove(&p.id).unwrap_or(0);
        ensure!(n == 1, "package {} is reported {n} times (as a crate of the graph or to the filter callback) instead of once", p.id);
    }
    ensure!(seen.is_empty(), "unknown packages reported: {seen:?}");
    for w in x.pkg_of.windows(2) {
        ensure!(x.md.pkgs[w[0]].kid < x.md.pkgs[w[1]].kid, "crates are not in increasing order: {:?} before {:?}", x.md.pkgs[w[0]].kid, x.md.pkgs[w[1]].kid);
    }
    // krates() yields them in node order, and each carries its own package's data
    let raw = doc["packages"].as_array().unwrap();
    for (n, p) in x.b.k.krates().enumerate() {
        let N::Krate { id: _, .. } = &x.g.nodes[n] else { unreachable!() };
        let want = &x.md.pkgs[x.pkg_of[n]];
        ensure!(p.id.repr == want.id, "crate {n} has identifier {} but carries the data of {}", want.id, p.id.repr);
        let rp = raw.iter().find(|q| q["id"] == want.id.as_str()).unwrap();
        ensure!(p.name == rp["name"] && p.version.to_string() == rp["version"] && p.manifest_path.as_str() == rp["manifest_path"], "crate {} carries other data", want.id);
    }
    Ok(())
}

/// C10
pub fn mapping(x: &Ctx) -> R {
    for (n, &i) in x.pkg_of.iter().enumerate() {
        let p = &x.md.pkgs[i];
        let nid = krates::NodeId::new(n);
        for d in 0..p.decls.len() + 3 {
            let want = x.spec.links.iter().find(|l| l.from == i && l.decl == d).map(|l| x.md.pkgs[l.to].id.clone());
            let got = x.b.k.resolved_dependency(nid, d).map(|k| k.id.repr.clone());
            ensure!(
                got == want,
                "{}: declaration {d} ({}) resolves to {got:?} instead of {want:?}",
                p.id,
                p.decls.get(d).map_or("out of range".to_string(), |d| format!("{} as {} kind {} target {:?}", d.name, d.toml, d.kind, d.target))
            );
        }
    }
    for n in [x.b.k.len(), x.g.nodes.len(), x.g.nodes.len() + 7] {
        for d in 0..2 {
            ensure!(x.b.k.resolved_dependency(krates::NodeId::new(n), d).is_none(), "a node that is no crate has a resolved dependency");
        }
    }
    Ok(())
}

/// C20
pub fn shape(x: &Ctx) -> R {
    let n = x.b.k.len();
    for (i, nd) in x.g.nodes.iter().enumerate() {
        match nd {
            N::Krate { id, .. } => ensure!(i < n, "crate node {id} lies at {i}, behind the {n} crates"),
            N::Feat { of, name } => {
                ensure!(i >= n, "feature node {name} lies at {i}, among the crates");
                ensure!(*of < n, "feature node {name} belongs to node {of}, which is no crate");
            }
        }
    }
    ensure!(x.g.nodes.iter().filter(|n| matches!(n, N::Krate { .. })).count() == n, "len() disagrees with the crate nodes");
    for e in &x.g.edges {
        match &e.dep {
            Some((false, ..)) => ensure!(e.from < n && e.to < n, "a dependency edge does not join two crates ({} -> {})", e.from, e.to),
            Some((true, ..)) => {
                ensure!(e.from < n && e.to >= n, "a dependency-feature edge does not join a crate to a feature node ({} -> {})", e.from, e.to);
                let to = x.g.owner(e.to);
                ensure!(x.md.rdeps[x.pkg_of[e.from]].iter().any(|d| d.pkg == x.pkg_of[to]), "a dependency-feature edge of {} leads to a feature of {}, which is none of its dependencies", x.md.pkgs[x.pkg_of[e.from]].id, x.md.pkgs[x.pkg_of[to]].id);
            }
            None => ensure!(e.from >= n || e.to >= n, "a feature edge joins two crates ({} -> {})", e.from, e.to),
        }
    }
    for (k, &i) in x.pkg_of.iter().enumerate() {
        let N::Krate { features, .. } = &x.g.nodes[k] else { unreachable!() };
        for f in features {
            if !x.md.pkgs[i].features.contains_key(f) || !x.md.rfeats[i].contains(f) {
                continue;
            }
            let ok = x.g.edges.iter().any(|e| e.to == k && e.dep.is_none() && matches!(&x.g.nodes[e.from], N::Feat { of, name } if *of == k && name == f));
            ensure!(ok, "{}: reported feature {f} has no node with an edge to its crate", x.md.pkgs[i].id);
        }
    }
    Ok(())
}

/// C19
pub fn outcome(doc: &Value, c: &Config) -> R {
    let r = build(&doc.to_string(), c)?;
    if doc["resolve"].is_null() {
        return match r {
            Err(krates::Error::NoResolveGraph) => Ok(()),
            Err(e) => Err(format!("metadata without a resolve graph gives the error `{e}`")),
            Ok(_) => Err("metadata without a resolve graph builds".into()),
        };
    }
    let md = parse(doc);
    let roots = roots(&md, c);
    let left = roots.iter().filter(|&&i| !c.exclude.iter().any(|e| spec_excludes(e, &md.pkgs[i]))).count();
    match r {
        Ok(_) if left > 0 => Ok(()),
        Ok(_) => Err("the build succeeds although no root is left".into()),
        Err(krates::Error::NoRootKrates) if left == 0 => Ok(()),
        Err(e) => Err(format!("the build fails with `{e}` although {left} roots are left")),
    }
}
