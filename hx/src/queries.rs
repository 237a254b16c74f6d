//! Bounded checks of the graph queries (C11, C12, C13): every answer is compared
//! with one computed by brute force over the raw nodes and edges.
use crate::build::*;
use crate::graphs::Ctx;
use crate::rng::Rng;
use krates::{DepKind, Kid, Node, NodeId, PackageId, semver};
use std::collections::{BTreeMap, BTreeSet};

type R = Result<(), String>;
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}
fn kid(id: &str) -> Kid {
    Kid::from(PackageId { repr: id.to_string() })
}

/// C11
pub fn lookups(x: &Ctx, seed: u64) -> R {
    let k = &x.b.k;
    let g = k.graph();
    let mut r = Rng::new(seed);
    let mut ids: Vec<String> = x.md.pkgs.iter().map(|p| p.id.clone()).collect();
    for p in &x.md.pkgs {
        // identifiers next to present ones
        let (n, v, s) = &p.kid;
        for (n, v, s) in [
            (format!("{n}a"), v.clone(), s.clone()),
            (n.clone(), format!("{v}0"), s.clone()),
            (n.clone(), v.clone(), format!("{s}x")),
            (n[..n.len() - 1].to_string(), v.clone(), s.clone()),
            (n.clone(), v[..v.len() - 1].to_string(), s.clone()),
        ] {
            if !n.is_empty() {
                ids.push(format!("{n} {v} ({s})"));
            }
        }
        // the same identifier written in the other form
        ids.push(format!("{n} {v} ({s})"));
    }
    ids.push("zzzz 9.9.9 (path+file:///z)".into());
    ids.push("A 0.0.0 (path+file:///z)".into());
    for id in &ids {
        let q = kid(id);
        let t = kt(&q);
        let want = x.g.nodes.iter().position(|n| matches!(n, N::Krate { kid, .. } if *kid == t));
        let got = k.nid_for_kid(&q).map(|n| n.index());
        ensure!(got == want, "nid_for_kid({id}) is {got:?} instead of {want:?}");
        let got = match k.node_for_kid(&q) {
            Some(Node::Krate { id, .. }) => Some(kt(id)),
            Some(_) => return Err(format!("node_for_kid({id}) is a feature node")),
            None => None,
        };
        ensure!(got == want.map(|_| t.clone()), "node_for_kid({id}) is {got:?}");
        let got = k.get_node(&q, None).map(|(n, nd)| (n.index(), matches!(nd, Node::Krate { id, .. } if kt(id) == t)));
        ensure!(got == want.map(|w| (w, true)), "get_node({id}, None) is {got:?} instead of node {want:?}");
        let got = k.get_enabled_features(&q).map(|f| f.iter().cloned().collect::<Vec<_>>());
        let wf = want.map(|w| match &x.g.nodes[w] {
            N::Krate { features, .. } => features.clone(),
            _ => unreachable!(),
        });
        ensure!(got == wf, "get_enabled_features({id}) is {got:?} instead of {wf:?}");
        let mut fs: BTreeSet<String> = ["default", "f1", "std", "nope", ""].iter().map(|s| s.to_string()).collect();
        if let Some(w) = &wf {
            fs.extend(w.iter().cloned());
        }
        for f in fs {
            // some node for that very feature with an edge to the crate
            let have: Vec<usize> = match want {
                None => vec![],
                Some(w) => x
                    .g
                    .edges
                    .iter()
                    .filter(|e| e.to == w && matches!(&x.g.nodes[e.from], N::Feat { of, name } if *of == w && *name == f))
                    .map(|e| e.from)
                    .collect(),
            };
            match k.get_node(&q, Some(&f)) {
                None => ensure!(have.is_empty(), "get_node({id}, {f:?}) finds nothing, but node {have:?} is that feature"),
                Some((n, nd)) => {
                    ensure!(have.contains(&n.index()), "get_node({id}, {f:?}) is node {} instead of one of {have:?}", n.index());
                    ensure!(matches!(nd, Node::Feature { name, .. } if *name == f), "get_node({id}, {f:?}) returns a node that does not belong to its index");
                }
            }
        }
    }
    // searches
    let all: Vec<(usize, &krates::cm::Package)> = g
        .node_indices()
        .filter_map(|n| match &g[n] {
            Node::Krate { krate, .. } => Some((n.index(), krate)),
            _ => None,
        })
        .collect();
    let mut nm: BTreeSet<String> = x.md.pkgs.iter().map(|p| p.name.clone()).collect();
    nm.extend(["", "zz", "fo", "foo_bar"].iter().map(|s| s.to_string()));
    for n in &nm {
        let want: Vec<usize> = all.iter().filter(|(_, p)| p.name == *n).map(|(i, _)| *i).collect();
        let mut got = vec![];
        for m in k.krates_by_name(n.clone()) {
            let ok = matches!(&g[m.node_id], Node::Krate { id, krate, .. } if id == m.kid && std::ptr::eq(krate, m.krate));
            ensure!(ok, "krates_by_name({n}) pairs node {} with another crate or identifier", m.node_id.index());
            got.push(m.node_id.index());
        }
        ensure!(got == want, "krates_by_name({n}) is {got:?} instead of {want:?}");
        for q in ["*", "^1", "=0.1.0", ">=0.1, <2", "~1.10", "^0.3.0-alpha", ">0.1.0", "=9.9.9"] {
            let req = semver::VersionReq::parse(q).unwrap();
            let want: Vec<usize> = all.iter().filter(|(_, p)| p.name == *n && req.matches(&p.version)).map(|(i, _)| *i).collect();
            let mut got = vec![];
            for m in k.search_matches(n.as_str(), req.clone()) {
                let ok = matches!(&g[m.node_id], Node::Krate { id, krate, .. } if id == m.kid && std::ptr::eq(krate, m.krate));
                ensure!(ok, "search_matches({n}, {q}) pairs node {} with another crate or identifier", m.node_id.index());
                got.push(m.node_id.index());
            }
            ensure!(got == want, "search_matches({n}, {q}) is {got:?} instead of {want:?}");
        }
    }
    // indexing
    for (i, p) in &all {
        ensure!(std::ptr::eq(&k[NodeId::new(*i)], *p), "indexing by node id {i} gives another crate");
        ensure!(std::ptr::eq(&k[*i], *p), "indexing by {i} gives another crate");
    }
    // workspace members
    let want: BTreeSet<String> = x.md.members.iter().filter(|m| x.pkg_of.contains(m)).map(|m| x.md.pkgs[*m].id.clone()).collect();
    let mut got = vec![];
    for n in k.workspace_members() {
        match n {
            Node::Krate { krate, .. } => got.push(krate.id.repr.clone()),
            _ => return Err("workspace_members yields a feature node".into()),
        }
    }
    ensure!(got.len() == want.len() && got.iter().cloned().collect::<BTreeSet<_>>() == want, "workspace_members yields {got:?} instead of {want:?}");
    let _ = r.next();
    Ok(())
}

/// C12
pub fn direct(x: &Ctx) -> R {
    let k = &x.b.k;
    let g = k.graph();
    let n = x.g.nodes.len();
    for s in 0..n {
        let nid = NodeId::new(s);
        // get_deps: every outgoing edge with its target
        let mut want: Vec<(usize, usize)> = x.g.edges.iter().enumerate().filter(|(_, e)| e.from == s).map(|(i, e)| (e.to, i)).collect();
        want.sort();
        let mut got: Vec<(usize, usize)> = vec![];
        for (nd, e) in k.get_deps(nid) {
            let t = g.node_indices().find(|i| std::ptr::eq(&g[*i], nd)).map(|i| i.index());
            let ei = g.edge_indices().find(|i| std::ptr::eq(&g[*i], e)).map(|i| i.index());
            match (t, ei) {
                (Some(t), Some(e)) => got.push((t, e)),
                _ => return Err("get_deps yields something outside the graph".into()),
            }
        }
        got.sort();
        ensure!(got == want, "get_deps({s}) yields {got:?} instead of {want:?} (node, edge)");
        // direct dependencies
        let mut want: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new(); // crate -> entering edges
        let mut stack = vec![s];
        let mut seen: BTreeSet<usize> = [s].into();
        while let Some(a) = stack.pop() {
            for (i, e) in x.g.edges.iter().enumerate().filter(|(_, e)| e.from == a) {
                if x.g.is_krate(e.to) {
                    want.entry(e.to).or_default().insert(i);
                } else if seen.insert(e.to) {
                    stack.push(e.to);
                }
            }
        }
        let mut got = BTreeSet::new();
        for d in k.direct_dependencies(nid) {
            let t = d.node_id.index();
            ensure!(got.insert(t), "direct_dependencies({s}) lists crate {t} twice");
            ensure!(matches!(&g[d.node_id], Node::Krate { krate, .. } if std::ptr::eq(krate, d.krate)), "direct_dependencies({s}) pairs node {t} with another crate");
            ensure!(want.get(&t).is_some_and(|w| w.contains(&d.edge_id.index())), "direct_dependencies({s}) gives edge {} for crate {t}, which does not enter it on such a path", d.edge_id.index());
        }
        ensure!(got.iter().eq(want.keys()), "direct_dependencies({s}) is {got:?} instead of {:?}", want.keys().collect::<Vec<_>>());
        // direct dependents
        if !x.g.is_krate(s) {
            continue;
        }
        let mut want: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
        let mut via: BTreeSet<usize> = [s].into();
        for e in &x.g.edges {
            if e.to == s && matches!(&x.g.nodes[e.from], N::Feat { of, .. } if *of == s) {
                via.insert(e.from);
            }
        }
        for (i, e) in x.g.edges.iter().enumerate() {
            if via.contains(&e.to) && x.g.is_krate(e.from) {
                want.entry(e.from).or_default().insert(i);
            }
        }
        let mut got = BTreeSet::new();
        for d in k.direct_dependents(nid) {
            let t = d.node_id.index();
            ensure!(got.insert(t), "direct_dependents({s}) lists crate {t} twice");
            ensure!(matches!(&g[d.node_id], Node::Krate { krate, .. } if std::ptr::eq(krate, d.krate)), "direct_dependents({s}) pairs node {t} with another crate");
            ensure!(want.get(&t).is_some_and(|w| w.contains(&d.edge_id.index())), "direct_dependents({s}) gives edge {} for crate {t}, which does not leave it towards the crate", d.edge_id.index());
        }
        ensure!(got.iter().eq(want.keys()), "direct_dependents({s}) is {got:?} instead of {:?}", want.keys().collect::<Vec<_>>());
    }
    Ok(())
}

/// C13
pub fn filtered(x: &Ctx) -> R {
    let k = &x.b.k;
    for kind in [DepKind::Normal, DepKind::Build, DepKind::Dev] {
        let ks = kind_str(kind);
        let mut want: BTreeSet<usize> = BTreeSet::new();
        let mut stack: Vec<usize> = (0..x.pkg_of.len()).filter(|n| x.md.members.contains(&x.pkg_of[*n])).collect();
        want.extend(stack.iter().copied());
        let mut seen = want.clone();
        while let Some(a) = stack.pop() {
            for e in x.g.edges.iter().filter(|e| e.from == a) {
                if e.dep.as_ref().is_some_and(|(_, k, _)| *k == ks) {
                    continue;
                }
                if seen.insert(e.to) {
                    stack.push(e.to);
                }
            }
        }
        want.extend(seen.into_iter().filter(|n| x.g.is_krate(*n)));
        let want: Vec<&str> = want.iter().map(|n| x.md.pkgs[x.pkg_of[*n]].id.as_str()).collect();
        let got: Vec<String> = k.krates_filtered(kind).iter().map(|p| p.id.repr.clone()).collect();
        ensure!(got.iter().map(|s| s.as_str()).eq(want.iter().copied()), "krates_filtered({ks}) is {got:?} instead of {want:?}");
    }
    Ok(())
}
