//! Runs the real crate on a document and a configuration.
use crate::model::Config;
use crate::oracle::KidT;
use krates::{Builder, DepKind, Edge, Kid, Krates, Node, Scope, cm};
use serde_json::Value;


pub fn dep_kind(k: &str) -> DepKind {
    match k {
        "normal" => DepKind::Normal,
        "dev" => DepKind::Dev,
        _ => DepKind::Build,
    }
}
pub fn kind_str(k: DepKind) -> &'static str {
    match k {
        DepKind::Normal => "normal",
        DepKind::Build => "build",
        DepKind::Dev => "dev",
    }
}
pub fn kt(k: &Kid) -> KidT {
    (k.name().into(), k.version().into(), k.source().into())
}

pub fn builder(c: &Config) -> Builder {
    let mut b = Builder::new();
    for (k, s) in &c.ignore {
        b.ignore_kind(
            dep_kind(k),
            match s.as_str() {
                "ws" => Scope::Workspace,
                "nonws" => Scope::NonWorkspace,
                _ => Scope::All,
            },
        );
    }
    if c.split {
        for (t, f) in &c.targets {
            b.include_targets([(t.clone(), f.clone())]);
        }
        for e in &c.exclude {
            b.exclude([e.parse().expect("spec")]);
        }
        for i in &c.include {
            b.include_workspace_crates([i]);
        }
    } else {
        b.include_targets(c.targets.iter().map(|(t, f)| (t.clone(), f.clone())));
        b.exclude(c.exclude.iter().map(|e| e.parse().expect("spec")));
        b.include_workspace_crates(c.include.iter());
    }
    if c.workspace {
        b.workspace(true);
    }
    b
}

pub struct Built {
    pub k: Krates,
    pub filtered: Vec<cm::Package>,
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    let s = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
    s.chars().take(300).collect::<String>()
}

pub fn run(doc: &str, b: Builder) -> Result<Result<Built, krates::Error>, String> {
    let md: cm::Metadata = serde_json::from_str(doc).map_err(|e| format!("the metadata document is rejected: {e}"))?;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
        let mut filtered = Vec::new();
        let k = b.build_with_metadata(md, |p: cm::Package| filtered.push(p));
        k.map(|k| Built { k, filtered })
    }));
    r.map_err(|e| format!("the build panics: {}", panic_text(e)))
}
pub fn build(doc: &str, c: &Config) -> Result<Result<Built, krates::Error>, String> {
    run(doc, builder(c))
}

/// The built graph as plain data.
pub enum N {
    Krate { kid: KidT, id: String, features: Vec<String>, map: Vec<Option<usize>> },
    Feat { of: usize, name: String },
}
pub struct E {
    pub from: usize,
    pub to: usize,
    /// None: feature edge; Some(is_feature_dep, kind, cfg)
    pub dep: Option<(bool, &'static str, Option<String>)>,
}
pub struct G {
    pub nodes: Vec<N>,
    pub edges: Vec<E>,
}
pub fn plain(k: &Krates) -> G {
    let g = k.graph();
    G {
        nodes: g
            .raw_nodes()
            .iter()
            .map(|n| match &n.weight {
                Node::Krate { id, krate: _, features, dep_mapping } => N::Krate {
                    kid: kt(id),
                    id: id.repr.clone(),
                    features: features.iter().cloned().collect(),
                    map: dep_mapping.iter().map(|m| m.map(|n| n.index())).collect(),
                },
                Node::Feature { krate_index, name } => N::Feat { of: krate_index.index(), name: name.clone() },
            })
            .collect(),
        edges: g
            .raw_edges()
            .iter()
            .map(|e| E {
                from: e.source().index(),
                to: e.target().index(),
                dep: match &e.weight {
                    Edge::Dep { kind, cfg } => Some((false, kind_str(*kind), cfg.clone())),
                    Edge::DepFeature { kind, cfg } => Some((true, kind_str(*kind), cfg.clone())),
                    Edge::Feature => None,
                },
            })
            .collect(),
    }
}
impl G {
    /// crate index that node belongs to
    pub fn owner(&self, n: usize) -> usize {
        match &self.nodes[n] {
            N::Krate { .. } => n,
            N::Feat { of, .. } => *of,
        }
    }
    pub fn is_krate(&self, n: usize) -> bool {
        matches!(self.nodes.get(n), Some(N::Krate { .. }))
    }
}
pub fn text(v: &Value) -> String {
    v.to_string()
}
