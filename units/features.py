from _common import *

F = "src/builder/features.rs"
SPEC = lit("dep:", "?/") + r"""
/// cargo's grammar: the classification of a feature-list entry, from the property text
pub open spec fn is_dep(b: Seq<u8>) -> bool { starts(b, seq![0x64u8, 0x65, 0x70, 0x3a]) }
pub open spec fn weak_at(b: Seq<u8>, i: int) -> bool { occ(b, seq![0x3fu8, 0x2f], i) && forall|j: int| 0 <= j < i ==> !occ(b, seq![0x3fu8, 0x2f], j) }
pub open spec fn has_weak(b: Seq<u8>) -> bool { exists|j: int| occ(b, seq![0x3fu8, 0x2f], j) }
pub open spec fn kind_ok(k: FeatureKind, b: Seq<u8>) -> bool {
    match k {
        FeatureKind::Krate => is_dep(b) && bdy(b, 4),
        FeatureKind::Weak(i) => !is_dep(b) && weak_at(b, i as int) && bdy(b, i as int) && bdy(b, i + 2),
        FeatureKind::Strong(i) => !is_dep(b) && !has_weak(b) && first_at(b, 0x2f, i as int) && bdy(b, i as int) && bdy(b, i + 1),
        FeatureKind::Simple => !is_dep(b) && !has_weak(b) && !hasb(b, 0x2f),
    }
}
/// the parts are exactly the text before and after the first separator
pub open spec fn classified(r: Feature<'_>, b: Seq<u8>) -> bool {
    match r {
        Feature::Krate(k) => is_dep(b) && k.b() == b.subrange(4, b.len() as int),
        Feature::Weak { krate, feature } => !is_dep(b) && exists|i: int| weak_at(b, i) && krate.b() == b.subrange(0, i) && feature.b() == b.subrange(i + 2, b.len() as int),
        Feature::Strong { krate, feature } => !is_dep(b) && !has_weak(b) && exists|i: int| first_at(b, 0x2f, i) && krate.b() == b.subrange(0, i) && feature.b() == b.subrange(i + 1, b.len() as int),
        Feature::Simple(s) => !is_dep(b) && !has_weak(b) && !hasb(b, 0x2f) && s.b() == b,
    }
}
pub open spec fn unparse(r: Feature<'_>) -> Seq<u8> {
    match r {
        Feature::Krate(k) => seq![0x64u8, 0x65, 0x70, 0x3a] + k.b(),
        Feature::Weak { krate, feature } => krate.b() + seq![0x3fu8, 0x2f] + feature.b(),
        Feature::Strong { krate, feature } => krate.b() + seq![0x2fu8] + feature.b(),
        Feature::Simple(s) => s.b(),
    }
}
"""
LEMMAS = r"""
/// writing the parts back gives the original entry
proof fn roundtrip(r: Feature<'_>, b: Seq<u8>)
    requires classified(r, b),
    ensures unparse(r) == b,
{
    match r {
        Feature::Krate(k) => { assert(unparse(r) =~= b.subrange(0, 4) + b.subrange(4, b.len() as int)); assert(unparse(r) =~= b); }
        Feature::Weak { krate, feature } => {
            let i = choose|i: int| weak_at(b, i) && krate.b() == b.subrange(0, i) && feature.b() == b.subrange(i + 2, b.len() as int);
            assert(b.subrange(i, i + 2) == seq![0x3fu8, 0x2f]);
            assert(unparse(r) =~= b.subrange(0, i) + b.subrange(i, i + 2) + b.subrange(i + 2, b.len() as int));
            assert(unparse(r) =~= b);
        }
        Feature::Strong { krate, feature } => {
            let i = choose|i: int| first_at(b, 0x2f, i) && krate.b() == b.subrange(0, i) && feature.b() == b.subrange(i + 1, b.len() as int);
            assert(unparse(r) =~= b);
        }
        Feature::Simple(s) => {}
    }
}
/// an entry has one classification: the enum variant and its parts are determined by the bytes
proof fn unique(r: Feature<'_>, q: Feature<'_>, b: Seq<u8>)
    requires classified(r, b), classified(q, b),
    ensures
        match (r, q) {
            (Feature::Krate(x), Feature::Krate(y)) => x.b() == y.b(),
            (Feature::Weak { krate: a, feature: f }, Feature::Weak { krate: c, feature: g }) => a.b() == c.b() && f.b() == g.b(),
            (Feature::Strong { krate: a, feature: f }, Feature::Strong { krate: c, feature: g }) => a.b() == c.b() && f.b() == g.b(),
            (Feature::Simple(x), Feature::Simple(y)) => x.b() == y.b(),
            _ => false,
        },
{
    match (r, q) {
        (Feature::Weak { krate: a, feature: f }, Feature::Weak { krate: c, feature: g }) => {
            let i = choose|i: int| weak_at(b, i) && a.b() == b.subrange(0, i) && f.b() == b.subrange(i + 2, b.len() as int);
            let j = choose|i: int| weak_at(b, i) && c.b() == b.subrange(0, i) && g.b() == b.subrange(i + 2, b.len() as int);
            assert(i == j) by { if i < j { assert(occ(b, seq![0x3fu8, 0x2f], i)); } if j < i { assert(occ(b, seq![0x3fu8, 0x2f], j)); } }
        }
        _ => {}
    }
}
"""
UNITS = [Unit(
    "features", ["C15"],
    prelude=["str"],
    types=[Ty(F, "Feature"), Ty(F, "FeatureKind"), Ty(F, "ParsedFeature")],
    spec=SPEC,
    fns=[
        Fn("ParsedFeature::from", F, "From for ParsedFeature::from",
           "fn from($p0: &'feat str) -> (r: Self) ensures r.inner.b() == $p0.b(), kind_ok(r.kind, $p0.b())",
           impl="impl<'feat> ParsedFeature<'feat>", methods=STR,
           at={"start": "proof { lits(); }"}),
        Fn("ParsedFeature::feat", F, "ParsedFeature::feat",
           "fn feat(&self) -> (r: Feature<'feat>) requires kind_ok(self.kind, self.inner.b()), ensures classified(r, self.inner.b())",
           impl="impl<'feat> ParsedFeature<'feat>", methods=STR,
           at={"start": "proof { lits(); axiom_len(self.inner); }"}),
    ],
    lemmas=LEMMAS,
)]
