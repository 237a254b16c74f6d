from _common import *
import kid
L = "src/lib.rs"
ITER = [("enumerate", "0", "vx_enumerate"), ("filter_map", "*", "vx_filter_map"), ("find_map", "*", "vx_find_map"), ("iter", "0", "vx_iter"), ("binary_search_by", "*", "vx_bsearch"), ("collect", "0", "vx_collect"), ("any", "*", "vx_any")]
GIX = [("graph", "vx_index")]
TYPES = [
    Ty(L, "Kid"), Ty(L, "DepKind", attrs="#[derive(Clone, Copy, PartialEq, Eq)]"),
    Ty(L, "Node", subst=[("EnabledFeatures", "SetX<String>")]),
    Ty(L, "Edge"),
    Ty(L, "Krates", subst=[(r"<N = cm::Package, E = Edge>", "<N, E>"), (r"petgraph::Graph<Node<N>, E, petgraph::Directed, u32>", "Graph<Node<N>, E>"), ("Utf8PathBuf", "String")]),
    Ty(L, "DirectDependency"), Ty(L, "DirectDependent"), Ty(L, "KrateMatch"),
]
SPEC = kid.KID_SPEC + kid.KID_LAWS + r"""
impl<N> Node<N> {
    pub open spec fn is_krate(&self) -> bool { self is Krate }
    pub open spec fn kid(&self) -> Kid { self->id }
}
impl<N, E> Krates<N, E> {
    pub open spec fn nd(&self, i: int) -> Node<N> { self.graph.raw()[i].weight }
    pub open spec fn n(&self) -> int { self.graph.raw().len() as int }
    /// the shape every built graph has (C20, C03): crates first and in strictly increasing order, then features of these crates
    pub open spec fn wf(&self) -> bool {
        &&& self.graph.gwf()
        &&& self.krates_end <= self.n()
        &&& forall|i: int| #![trigger self.graph.raw()[i]] 0 <= i < self.krates_end ==> self.nd(i) is Krate && self.nd(i).kid().wf()
        &&& forall|i: int| #![trigger self.graph.raw()[i]] self.krates_end <= i < self.n() ==> self.nd(i) is Feature && self.nd(i)->krate_index.ix < self.krates_end
        &&& forall|i: int, j: int| #![trigger self.graph.raw()[i], self.graph.raw()[j]] 0 <= i < j < self.krates_end ==> kid_cmp(&self.nd(i).kid(), &self.nd(j).kid()) == Ordering::Less
        &&& forall|i: int| #![trigger self.workspace_members@[i]] 0 <= i < self.workspace_members@.len() ==> self.workspace_members@[i].wf()
        &&& forall|i: int, j: int| #![trigger self.nd(i)->dep_mapping@[j]] 0 <= i < self.krates_end && 0 <= j < self.nd(i)->dep_mapping@.len() && self.nd(i)->dep_mapping@[j] is Some ==> self.nd(i)->dep_mapping@[j]->0.ix < self.krates_end
    }
    /// kid is the identifier of crate node i
    pub open spec fn at(&self, kid: &Kid, i: int) -> bool { 0 <= i < self.krates_end && kid_cmp(&self.nd(i).kid(), kid) == Ordering::Equal }
    pub open spec fn present(&self, kid: &Kid) -> bool { exists|i: int| self.at(kid, i) }
    pub open spec fn edge(&self, a: NodeId, z: NodeId) -> bool { exists|k: int| 0 <= k < self.graph.edges().len() && (#[trigger] self.graph.edges()[k]).a == a && self.graph.edges()[k].z == z }
    pub open spec fn feat(&self, n: NodeId) -> bool { n.ix < self.n() && self.nd(n.ix as int) is Feature }
    pub open spec fn crate_(&self, n: NodeId) -> bool { n.ix < self.n() && self.nd(n.ix as int) is Krate }
    /// p is a path from s to n whose intermediate nodes are all feature nodes
    pub open spec fn path(&self, p: Seq<NodeId>, s: NodeId, n: NodeId) -> bool {
        &&& p.len() >= 2 && p[0] == s && p.last() == n
        &&& forall|i: int| 0 <= i < p.len() - 1 ==> #[trigger] self.edge(p[i], p[i + 1])
        &&& forall|i: int| 0 < i < p.len() - 1 ==> self.feat(#[trigger] p[i])
    }
    /// a reported dependency: the crate's own node and data, and an edge that enters it
    pub open spec fn dd_ok(&self, s: NodeId, d: DirectDependency<'_, N>) -> bool {
        &&& self.crate_(d.node_id) &&& *d.krate == self.nd(d.node_id.ix as int)->krate
        &&& d.edge_id.ix < self.graph.edges().len() &&& self.graph.edges()[d.edge_id.ix as int].z == d.node_id
        &&& self.reached(s, d.node_id)
    }
    /// f is a feature node of crate s with an edge to s
    pub open spec fn own(&self, s: NodeId, f: NodeId) -> bool { self.feat(f) && self.nd(f.ix as int)->krate_index == s && self.edge(f, s) }
    pub open spec fn dep_of(&self, s: NodeId, n: NodeId) -> bool { self.crate_(n) && (self.edge(n, s) || exists|f: NodeId| #[trigger] self.own(s, f) && self.edge(n, f)) }
    pub open spec fn dn_ok(&self, s: NodeId, d: DirectDependent<'_, N>) -> bool {
        &&& self.crate_(d.node_id) &&& *d.krate == self.nd(d.node_id.ix as int)->krate
        &&& d.edge_id.ix < self.graph.edges().len() &&& self.graph.edges()[d.edge_id.ix as int].a == d.node_id
        &&& self.dep_of(s, d.node_id)
    }
    pub open spec fn reached(&self, s: NodeId, n: NodeId) -> bool { exists|p: Seq<NodeId>| self.path(p, s, n) }
}
"""
def dd(r, extra=""):
    return f"""forall|x: NodeId| #[trigger] visited@.contains(x) ==> x.ix < self.n() && self.reached(s0, x),
    forall|j: int| 0 <= j < stack@.len() ==> #[trigger] stack@[j] == s0 || (self.feat(stack@[j]) && visited@.contains(stack@[j])),
    forall|j: int| 0 <= j < {r}@.len() ==> self.dd_ok(s0, #[trigger] {r}@[j]) && visited@.contains({r}@[j].node_id),
    forall|i: int, j: int| 0 <= i < j < {r}@.len() ==> (#[trigger] {r}@[i]).node_id != (#[trigger] {r}@[j]).node_id,
    forall|x: NodeId| visited@.contains(x) && self.crate_(x) ==> exists|j: int| 0 <= j < {r}@.len() && (#[trigger] {r}@[j]).node_id == x,
    forall|a: NodeId, z: NodeId| done.contains(a) && #[trigger] self.edge(a, z) ==> visited@.contains(z),
"""


def dn(r):
    return f"""forall|x: NodeId| #[trigger] visited@.contains(x) ==> x.ix < self.n() && (self.own(s0, x) || self.dep_of(s0, x)),
    forall|j: int| 0 <= j < stack@.len() ==> #[trigger] stack@[j] == s0 || (self.own(s0, stack@[j]) && visited@.contains(stack@[j])),
    forall|j: int| 0 <= j < {r}@.len() ==> self.dn_ok(s0, #[trigger] {r}@[j]) && visited@.contains({r}@[j].node_id),
    forall|i: int, j: int| 0 <= i < j < {r}@.len() ==> (#[trigger] {r}@[i]).node_id != (#[trigger] {r}@[j]).node_id,
    forall|x: NodeId| visited@.contains(x) && self.crate_(x) ==> exists|j: int| 0 <= j < {r}@.len() && (#[trigger] {r}@[j]).node_id == x,
    forall|a: NodeId, z: NodeId| done.contains(a) && #[trigger] self.edge(z, a) && (self.crate_(z) || (a == s0 && self.own(s0, z))) ==> visited@.contains(z),
"""


SPEC += r"""
impl<N, E> Krates<N, E> {
    /// the node of the crate with this identifier
    pub open spec fn find(&self, kid: &Kid) -> Option<NodeId> { if exists|i: int| self.at(kid, i) { Some(NodeId { ix: (choose|i: int| self.at(kid, i)) as usize }) } else { None } }
    pub open spec fn node(&self, n: NodeId) -> Node<N> { self.nd(n.ix as int) }
    pub open spec fn member(&self) -> spec_fn(&Kid) -> Option<&Node<N>> { |k: &Kid| match self.find(k) { Some(n) => Some(&self.graph.raw()[n.ix as int].weight), None => None } }
}
/// what a node type that supports KrateDetails reports
pub trait KrateDetails {
    spec fn name_s(&self) -> Seq<char>;
    spec fn version_s(&self) -> Version;
    fn name(&self) -> (r: &str) ensures r@ == self.name_s();
    fn version(&self) -> (r: &Version) ensures *r == self.version_s();
}
#[verifier::external_body] pub struct Version { x: u64 }
#[verifier::external_body] pub struct VersionReq { x: u64 }
impl VersionReq {
    /// semver's own answer
    pub uninterp spec fn accepts(&self, v: Version) -> bool;
    #[verifier::external_body] pub fn matches(&self, v: &Version) -> (r: bool) ensures r == self.accepts(*v) { unimplemented!() }
}
impl<N: KrateDetails, E> Krates<N, E> {
    /// the match reported for node i, if its name is `name` and the requirement (when there is one) accepts its version
    pub open spec fn hit<'a>(name: Seq<char>, req: Option<VersionReq>) -> spec_fn((usize, &'a GNode<Node<N>>)) -> Option<KrateMatch<'a, N>> {
        |p: (usize, &'a GNode<Node<N>>)| if p.1.weight->krate.name_s() == name && (req is None || req->0.accepts(p.1.weight->krate.version_s())) { Some(KrateMatch { krate: &p.1.weight->krate, kid: &p.1.weight->id, node_id: NodeId { ix: p.0 } }) } else { None }
    }
    pub open spec fn crates(&self) -> Seq<&GNode<Node<N>>> { refs(self.graph.raw().subrange(0, self.krates_end as int)) }
}
// ---- BTreeMap<&Kid, &N>: keys are the same when their identifiers are equal, values come out in identifier order
pub type KKey = (Seq<u8>, Seq<u8>, Seq<u8>);
pub open spec fn kkey(k: &Kid) -> KKey { (k.part(0), k.part(1), k.part(2)) }
pub open spec fn kkey_lt(a: KKey, b: KKey) -> bool { lex(a.0, b.0) == Ordering::Less || (a.0 == b.0 && (lex(a.1, b.1) == Ordering::Less || (a.1 == b.1 && lex(a.2, b.2) == Ordering::Less))) }
#[verifier::external_body]
#[verifier::accept_recursive_types(N)]
pub struct KMap<'a, N> { x: Vec<&'a N> }
impl<'a, N> View for KMap<'a, N> { type V = Map<KKey, &'a N>; uninterp spec fn view(&self) -> Map<KKey, &'a N>; }
#[verifier::opaque]
pub open spec fn kmap<'a, N>(s: Seq<(&'a Kid, &'a N)>) -> Map<KKey, &'a N> decreases s.len() { if s.len() == 0 { Map::empty() } else { kmap(s.drop_last()).insert(kkey(s.last().0), s.last().1) } }
impl<'a, N> FromIt<(&'a Kid, &'a N)> for KMap<'a, N> { open spec fn from_it(s: Seq<(&'a Kid, &'a N)>, r: Self) -> bool { r@ == kmap(s) } }
/// every value once, keys ascending
pub open spec fn in_order<'a, N>(m: Map<KKey, &'a N>, ks: Seq<KKey>, v: Seq<&'a N>) -> bool {
    &&& ks.len() == v.len() &&& forall|i: int| 0 <= i < v.len() ==> m.dom().contains(#[trigger] ks[i]) && m[ks[i]] == v[i]
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> kkey_lt(#[trigger] ks[i], #[trigger] ks[j])
    &&& forall|k: KKey| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < v.len() && ks[i] == k
}
impl<'a, N> KMap<'a, N> {
    #[verifier::external_body] pub fn insert(&mut self, k: &'a Kid, v: &'a N) ensures final(self)@ == old(self)@.insert(kkey(k), v) { unimplemented!() }
    #[verifier::external_body] pub fn into_values(self) -> (r: It<&'a N>) ensures r.i() == 0, r.wf(), exists|ks: Seq<KKey>| in_order(self@, ks, r.s()) { unimplemented!() }
}
"""
SPEC += r"""
impl VxEq<DepKind> for DepKind { open spec fn eqs(&self, o: &DepKind) -> bool { *self == *o } fn vx_eq_(&self, o: &DepKind) -> bool { match (self, o) { (DepKind::Normal, DepKind::Normal) => true, (DepKind::Build, DepKind::Build) => true, (DepKind::Dev, DepKind::Dev) => true, _ => false } } }
impl<N> Krates<N, Edge> {
    pub open spec fn kept(&self, f: DepKind, k: int) -> bool { match self.graph.edges()[k].w { Edge::Dep { kind, .. } => kind != f, Edge::DepFeature { kind, .. } => kind != f, Edge::Feature => true } }
    pub open spec fn kedge(&self, f: DepKind, a: NodeId, z: NodeId) -> bool { exists|k: int| 0 <= k < self.graph.edges().len() && (#[trigger] self.graph.edges()[k]).a == a && self.graph.edges()[k].z == z && self.kept(f, k) }
    /// n is the node of a workspace member
    #[verifier::opaque]
    pub open spec fn start(&self, n: NodeId) -> bool { exists|j: int| 0 <= j < self.workspace_members@.len() && self.find(#[trigger] &self.workspace_members@[j]) == Some(n) }
    pub open spec fn fpath(&self, f: DepKind, p: Seq<NodeId>, n: NodeId) -> bool {
        &&& p.len() >= 1 && self.start(p[0]) && p.last() == n
        &&& forall|i: int| 0 <= i < p.len() - 1 ==> #[trigger] self.kedge(f, p[i], p[i + 1])
    }
    #[verifier::opaque]
    pub open spec fn freach(&self, f: DepKind, n: NodeId) -> bool { exists|p: Seq<NodeId>| self.fpath(f, p, n) }
    /// the workspace members in the graph
    pub open spec fn members(&self) -> Seq<&Node<N>> { fmap(refs(self.workspace_members@), self.member()) }
    pub open spec fn pairs(&self) -> spec_fn(&Node<N>) -> Option<(&Kid, &N)> { |n: &Node<N>| if n is Krate { Some((&n->id, &n->krate)) } else { None } }
    pub open spec fn key(&self, n: NodeId) -> KKey { kkey(&self.node(n).kid()) }
    pub open spec fn from_map(&self, f: DepKind, m: Map<KKey, &N>, k: KKey, n: NodeId) -> bool { self.crate_(n) && self.freach(f, n) && self.key(n) == k && *m[k] == self.node(n)->krate }
    /// the result, by the nodes it comes from
    pub open spec fn filtered_is(&self, f: DepKind, ids: Seq<NodeId>, r: Seq<&N>) -> bool {
        &&& ids.len() == r.len()
        &&& forall|i: int| 0 <= i < r.len() ==> self.crate_(#[trigger] ids[i]) && self.freach(f, ids[i]) && *r[i] == self.node(ids[i])->krate
        &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] ids[i]).ix < (#[trigger] ids[j]).ix
        &&& forall|n: NodeId| self.crate_(n) && #[trigger] self.freach(f, n) ==> exists|i: int| 0 <= i < r.len() && #[trigger] ids[i] == n
    }
}
"""
LEM = r"""
proof fn kmap_is<'a, N>(s: Seq<(&'a Kid, &'a N)>)
    ensures
        forall|k: KKey| #[trigger] kmap(s).dom().contains(k) ==> exists|j: int| 0 <= j < s.len() && kkey((#[trigger] s[j]).0) == k && kmap(s)[k] == s[j].1,
        forall|j: int| 0 <= j < s.len() ==> kmap(s).dom().contains(kkey((#[trigger] s[j]).0)),
    decreases s.len(),
{
    reveal(kmap);
    if s.len() > 0 {
        let p = s.drop_last();
        kmap_is(p);
        assert forall|k: KKey| #[trigger] kmap(s).dom().contains(k) implies exists|j: int| 0 <= j < s.len() && kkey((#[trigger] s[j]).0) == k && kmap(s)[k] == s[j].1 by {
            if k == kkey(s.last().0) { assert(kkey(s[s.len() - 1].0) == k); }
            else { assert(kmap(p).dom().contains(k)); let j = choose|j: int| 0 <= j < p.len() && kkey((#[trigger] p[j]).0) == k && kmap(p)[k] == p[j].1; assert(kkey(s[j].0) == k); }
        }
        assert forall|j: int| 0 <= j < s.len() implies kmap(s).dom().contains(kkey((#[trigger] s[j]).0)) by { if j < p.len() { assert(kmap(p).dom().contains(kkey(p[j].0))); } }
    }
}
proof fn kkey_cmp(a: &Kid, b: &Kid)
    ensures kkey_lt(kkey(a), kkey(b)) <==> kid_cmp(a, b) == Ordering::Less, kkey(a) == kkey(b) <==> kid_cmp(a, b) == Ordering::Equal,
{ reveal(kid_cmp); lex_eq(a.part(0), b.part(0)); lex_eq(a.part(1), b.part(1)); lex_eq(a.part(2), b.part(2)); }
impl<N> Krates<N, Edge> {
    proof fn fclosed(&self, f: DepKind, v: spec_fn(NodeId) -> bool, p: Seq<NodeId>, n: NodeId, i: int)
        requires
            forall|a: NodeId| #[trigger] self.start(a) ==> v(a),
            forall|a: NodeId, z: NodeId| v(a) && #[trigger] self.kedge(f, a, z) ==> v(z),
            self.fpath(f, p, n), 0 <= i < p.len(),
        ensures v(p[i]),
        decreases i,
    {
        reveal(Krates::start);
        if i > 0 { self.fclosed(f, v, p, n, i - 1); assert(self.kedge(f, p[i - 1], p[i - 1 + 1])); }
    }
    proof fn fall(&self, f: DepKind, v: spec_fn(NodeId) -> bool, n: NodeId)
        requires
            forall|a: NodeId| #[trigger] self.start(a) ==> v(a),
            forall|a: NodeId, z: NodeId| v(a) && #[trigger] self.kedge(f, a, z) ==> v(z),
            self.freach(f, n),
        ensures v(n),
    { reveal(Krates::freach); let p = choose|p: Seq<NodeId>| self.fpath(f, p, n); self.fclosed(f, v, p, n, p.len() - 1); }
    proof fn fextend(&self, f: DepKind, m: NodeId, n: NodeId)
        requires self.freach(f, m), self.kedge(f, m, n),
        ensures self.freach(f, n),
    {
        reveal(Krates::freach);
        let q = choose|p: Seq<NodeId>| self.fpath(f, p, m);
        let p = q.push(n);
        assert forall|i: int| 0 <= i < p.len() - 1 implies #[trigger] self.kedge(f, p[i], p[i + 1]) by { if i < q.len() - 1 { assert(self.kedge(f, q[i], q[i + 1])); } }
        assert(self.fpath(f, p, n));
    }
    proof fn fstart(&self, f: DepKind, n: NodeId)
        requires self.start(n),
        ensures self.freach(f, n),
    { reveal(Krates::freach); assert(self.fpath(f, seq![n], n)); }
    proof fn same_key(&self, a: NodeId, b: NodeId)
        requires self.wf(), self.crate_(a), self.crate_(b), self.key(a) == self.key(b),
        ensures a == b,
    {
        let (i, j) = (a.ix as int, b.ix as int);
        assert(i < self.krates_end && j < self.krates_end) by { assert(self.graph.raw()[i].weight is Krate); assert(self.graph.raw()[j].weight is Krate); }
        kkey_cmp(&self.nd(i).kid(), &self.nd(j).kid());
        kid_laws(&self.nd(i).kid(), &self.nd(j).kid(), &self.nd(j).kid());
        if i < j { assert(kid_cmp(&self.nd(i).kid(), &self.nd(j).kid()) == Ordering::Less); }
        if j < i { assert(kid_cmp(&self.nd(j).kid(), &self.nd(i).kid()) == Ordering::Less); }
    }
    proof fn ordered(&self, a: NodeId, b: NodeId)
        requires self.wf(), self.crate_(a), self.crate_(b), kkey_lt(self.key(a), self.key(b)),
        ensures a.ix < b.ix,
    {
        let (i, j) = (a.ix as int, b.ix as int);
        assert(i < self.krates_end && j < self.krates_end) by { assert(self.graph.raw()[i].weight is Krate); assert(self.graph.raw()[j].weight is Krate); }
        kkey_cmp(&self.nd(i).kid(), &self.nd(j).kid());
        kid_laws(&self.nd(i).kid(), &self.nd(j).kid(), &self.nd(j).kid());
        if j < i { assert(kid_cmp(&self.nd(j).kid(), &self.nd(i).kid()) == Ordering::Less); }
        if i == j { kid_laws(&self.nd(i).kid(), &self.nd(i).kid(), &self.nd(i).kid()); }
    }
    proof fn starts_map(&self, f: DepKind, m: Map<KKey, &N>)
        requires self.wf(), m == kmap(fmap(self.members(), self.pairs())),
        ensures
            forall|k: KKey| #[trigger] m.dom().contains(k) ==> exists|n: NodeId| #[trigger] self.from_map(f, m, k, n),
            forall|x: NodeId| #[trigger] self.start(x) ==> self.crate_(x) && m.dom().contains(self.key(x)),
    {
        hide(Krates::wf); hide(fmap); hide(Krates::find); hide(Krates::freach);
        let ms = refs(self.workspace_members@);
        let ws = self.members();
        let s = fmap(ws, self.pairs());
        fmap_elem(ms, self.member());
        fmap_elem(ws, self.pairs());
        kmap_is(s);
        assert forall|i: int| 0 <= i < ws.len() implies exists|n: NodeId| #[trigger] self.start(n) && self.crate_(n) && *#[trigger] ws[i] == self.node(n) by {
            let q = choose|q: int| 0 <= q < ms.len() && (self.member())(#[trigger] ms[q]) == Some(ws[i]);
            self.member_at(q);
        }
        assert forall|k: KKey| #[trigger] m.dom().contains(k) implies exists|n: NodeId| #[trigger] self.from_map(f, m, k, n) by {
            let j = choose|j: int| 0 <= j < s.len() && kkey((#[trigger] s[j]).0) == k && kmap(s)[k] == s[j].1;
            let i = choose|i: int| 0 <= i < ws.len() && (self.pairs())(#[trigger] ws[i]) == Some(s[j]);
            let n = choose|n: NodeId| #[trigger] self.start(n) && self.crate_(n) && *ws[i] == self.node(n);
            self.fstart(f, n);
            assert(self.from_map(f, m, k, n));
        }
        assert forall|x: NodeId| #[trigger] self.start(x) implies self.crate_(x) && m.dom().contains(self.key(x)) by {
            let q = self.start_at(x);
            self.member_at(q);
            assert((self.member())(ms[q]) is Some);
            let i = choose|i: int| 0 <= i < ws.len() && #[trigger] ws[i] == (self.member())(ms[q])->0;
            assert((self.pairs())(ws[i]) is Some);
            let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] == (self.pairs())(ws[i])->0;
            assert(m.dom().contains(kkey(s[j].0)));
        }
    }
    proof fn start_at(&self, x: NodeId) -> (q: int)
        requires self.start(x),
        ensures 0 <= q < self.workspace_members@.len(), self.find(&self.workspace_members@[q]) == Some(x),
    { reveal(Krates::start); choose|q: int| 0 <= q < self.workspace_members@.len() && self.find(#[trigger] &self.workspace_members@[q]) == Some(x) }
    proof fn member_at(&self, q: int)
        requires self.wf(), 0 <= q < self.workspace_members@.len(),
        ensures
            match self.find(&self.workspace_members@[q]) {
                Some(n) => self.start(n) && self.crate_(n) && (self.member())(&self.workspace_members@[q]) == Some(&self.graph.raw()[n.ix as int].weight),
                None => (self.member())(&self.workspace_members@[q]) is None,
            },
    {
        reveal(Krates::start);
        let k = &self.workspace_members@[q];
        if self.find(k) is Some { let i = choose|i: int| self.at(k, i); assert(self.graph.raw()[i].weight is Krate); }
    }
    proof fn starts_stack(&self, f: DepKind, st: Seq<NodeId>)
        requires
            self.wf(),
            exists|o: Seq<Option<NodeId>>| #[trigger] flat(o) == st && o.len() == self.workspace_members@.len() && forall|i: int| #![trigger o[i]] 0 <= i < o.len() ==> o[i] == self.find(&self.workspace_members@[i]),
        ensures
            forall|j: int| 0 <= j < st.len() ==> (#[trigger] st[j]).ix < self.n() && self.freach(f, st[j]) && self.start(st[j]),
            forall|a: NodeId| #[trigger] self.start(a) ==> st.contains(a),
    {
        reveal(Krates::start);
        let o = choose|o: Seq<Option<NodeId>>| #[trigger] flat(o) == st && o.len() == self.workspace_members@.len() && forall|i: int| #![trigger o[i]] 0 <= i < o.len() ==> o[i] == self.find(&self.workspace_members@[i]);
        flat_elem(o);
        assert forall|j: int| 0 <= j < st.len() implies (#[trigger] st[j]).ix < self.n() && self.freach(f, st[j]) && self.start(st[j]) by {
            let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i] == Some(flat(o)[j]);
            assert(self.find(&self.workspace_members@[i]) == Some(st[j]));
            assert(self.at(&self.workspace_members@[i], st[j].ix as int));
            assert(self.start(st[j]));
            self.fstart(f, st[j]);
        }
        assert forall|a: NodeId| #[trigger] self.start(a) implies st.contains(a) by {
            let q = choose|q: int| 0 <= q < self.workspace_members@.len() && self.find(#[trigger] &self.workspace_members@[q]) == Some(a);
            assert(o[q] is Some);
        }
    }
    /// from the final worklist state to the result
    proof fn collect(&self, f: DepKind, m: Map<KKey, &N>, r: Seq<&N>)
        requires
            self.wf(),
            forall|k: KKey| #[trigger] m.dom().contains(k) ==> exists|n: NodeId| #[trigger] self.from_map(f, m, k, n),
            forall|n: NodeId| self.crate_(n) && #[trigger] self.freach(f, n) ==> m.dom().contains(self.key(n)),
            exists|ks: Seq<KKey>| in_order(m, ks, r),
        ensures exists|ids: Seq<NodeId>| self.filtered_is(f, ids, r),
    {
        let ks = choose|ks: Seq<KKey>| in_order(m, ks, r);
        let ids = Seq::new(r.len(), |i: int| choose|n: NodeId| #[trigger] self.from_map(f, m, ks[i], n));
        assert forall|i: int| 0 <= i < r.len() implies self.from_map(f, m, ks[i], #[trigger] ids[i]) by { assert(m.dom().contains(ks[i])); }
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] ids[i]).ix < (#[trigger] ids[j]).ix by { assert(kkey_lt(ks[i], ks[j])); self.ordered(ids[i], ids[j]); }
        assert forall|n: NodeId| self.crate_(n) && #[trigger] self.freach(f, n) implies exists|i: int| 0 <= i < r.len() && #[trigger] ids[i] == n by {
            assert(m.dom().contains(self.key(n)));
            let i = choose|i: int| 0 <= i < r.len() && ks[i] == self.key(n);
            self.same_key(ids[i], n);
        }
        assert(self.filtered_is(f, ids, r));
    }
}
"""
LEM += r"""
impl<N, E> Krates<N, E> {
    /// the crates are sorted by identifier, so comparing them to one identifier is monotone
    proof fn monotone(&self, kid: &Kid)
        requires self.wf(),
        ensures
            forall|i: int, j: int| #![trigger self.graph.raw()[i], self.graph.raw()[j]] 0 <= i < j < self.krates_end ==> ord_le(kid_cmp(&self.nd(i).kid(), kid), kid_cmp(&self.nd(j).kid(), kid)),
    {
        assert forall|i: int, j: int| #![trigger self.graph.raw()[i], self.graph.raw()[j]] 0 <= i < j < self.krates_end implies ord_le(kid_cmp(&self.nd(i).kid(), kid), kid_cmp(&self.nd(j).kid(), kid)) by {
            kid_laws(&self.nd(i).kid(), &self.nd(j).kid(), kid);
        }
    }
    proof fn unique(&self, kid: &Kid, i: int, j: int)
        requires self.wf(), self.at(kid, i), self.at(kid, j),
        ensures i == j,
    {
        kid_laws(&self.nd(i).kid(), &self.nd(j).kid(), kid);
        kid_laws(&self.nd(j).kid(), &self.nd(i).kid(), kid);
        kid_laws(&self.nd(i).kid(), kid, &self.nd(j).kid());
        kid_laws(&self.nd(j).kid(), kid, &self.nd(i).kid());
    }
    proof fn closed(&self, s: NodeId, v: Set<NodeId>, p: Seq<NodeId>, n: NodeId, i: int)
        requires
            forall|a: NodeId, z: NodeId| (a == s || (self.feat(a) && v.contains(a))) && #[trigger] self.edge(a, z) ==> v.contains(z),
            self.path(p, s, n), 1 <= i < p.len(),
        ensures v.contains(p[i]),
        decreases i,
    {
        if i > 1 { self.closed(s, v, p, n, i - 1); }
        assert(self.edge(p[i - 1], p[i - 1 + 1]));
    }
    proof fn extend(&self, s: NodeId, m: NodeId, n: NodeId)
        requires m == s || (self.feat(m) && self.reached(s, m)), self.edge(m, n),
        ensures self.reached(s, n),
    {
        if m == s { let p = seq![s, n]; assert(self.path(p, s, n)); }
        else {
            let q = choose|p: Seq<NodeId>| self.path(p, s, m);
            let p = q.push(n);
            assert forall|i: int| 0 <= i < p.len() - 1 implies #[trigger] self.edge(p[i], p[i + 1]) by { if i < q.len() - 1 { assert(self.edge(q[i], q[i + 1])); } }
            assert forall|i: int| 0 < i < p.len() - 1 implies self.feat(#[trigger] p[i]) by { if i < q.len() - 1 { assert(self.feat(q[i])); } }
            assert(self.path(p, s, n));
        }
    }
}
"""
IMPL = "impl<N, E> Krates<N, E>"
FINV = """forall|x: NodeId| #[trigger] visited@.contains(x) ==> x.ix < self.n() && self.freach($p0, x),
    forall|j: int| 0 <= j < stack@.len() ==> (#[trigger] stack@[j]).ix < self.n() && self.freach($p0, stack@[j]) && (self.start(stack@[j]) || visited@.contains(stack@[j])),
    forall|k: KKey| #[trigger] filtered@.dom().contains(k) ==> exists|n: NodeId| #[trigger] self.from_map($p0, filtered@, k, n),
    forall|x: NodeId| #[trigger] mk(x) && self.crate_(x) && (self.start(x) || visited@.contains(x)) ==> filtered@.dom().contains(self.key(x)),
    forall|a: NodeId, z: NodeId| done.contains(a) && #[trigger] self.kedge($p0, a, z) ==> visited@.contains(z),
"""
FNS = kid.ACC + [f for f in kid.UNITS[0].fns if f.name == "Kid::cmp"] + [
    Fn("Krates::len", L, "Krates::len", "fn len(&self) -> (r: usize) ensures r == self.krates_end", impl=IMPL, props=["C03"]),
    Fn("Krates::graph", L, "Krates::graph", "fn graph(&self) -> (r: &Graph<Node<N>, E>) ensures r == &self.graph", impl=IMPL),
    Fn("Krates::krates", L, "Krates::krates",
       "fn krates(&self) -> (r: It<&N>) requires self.wf(), ensures r.s().len() == self.krates_end, r.i() == 0, forall|i: int| 0 <= i < r.s().len() ==> *(#[trigger] r.s()[i]) == self.nd(i)->krate",
       impl=IMPL, methods=ITER, props=["C03"],
       closures={0: "|vxp0: &GNode<Node<N>>| -> (o: Option<&N>) ensures o == (if vxp0.weight is Krate { Some(&vxp0.weight->krate) } else { None })"},
       at={"start": "broadcast use flat_all;"}),
    Fn("Krates::nid_for_kid", L, "Krates::nid_for_kid",
       "fn nid_for_kid(&self, $p0: &Kid) -> (r: Option<NodeId>) requires self.wf(), $p0.wf(), ensures match r { Some(n) => self.at($p0, n.ix as int), None => !self.present($p0) }, r == self.find($p0)",
       impl=IMPL, methods=ITER, props=["C11"],
       closures={0: "|vxp0: &GNode<Node<N>>| -> (o: Ordering) requires vxp0.weight is Krate, vxp0.weight.kid().wf(), ensures o == kid_cmp(&vxp0.weight.kid(), $p0)"},
       at={"start": "proof { self.monotone($p0); }"},
       final="""proof {
            let s = self.graph.raw().subrange(0, self.krates_end as int);
            if vx_r is Some { assert(self.at($p0, vx_r->0.ix as int)); let c = choose|i: int| self.at($p0, i); self.unique($p0, c, vx_r->0.ix as int); }
            assert forall|j: int| vx_r is None implies !self.at($p0, j) by { if 0 <= j < self.krates_end { assert(s[j] == self.graph.raw()[j]); } }
        }"""),
    Fn("Krates::direct_dependencies", L, "Krates::direct_dependencies",
       """fn direct_dependencies(&self, $p0: NodeId) -> (r: Vec<DirectDependency<'_, N>>) requires self.wf(), $p0.ix < self.n(),
        ensures
            forall|j: int| 0 <= j < r@.len() ==> self.dd_ok($p0, #[trigger] r@[j]),
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).node_id != (#[trigger] r@[j]).node_id,
            forall|x: NodeId| self.crate_(x) && #[trigger] self.reached($p0, x) ==> exists|j: int| 0 <= j < r@.len() && (#[trigger] r@[j]).node_id == x""",
       impl=IMPL, index=[("graph", "vx_index")], calls=[("std::collections::BTreeSet::new", "SetX::new")], props=["C12"],
       loops={0: "invariant " + dd("direct_dependencies") + """    forall|a: NodeId| #[trigger] mk(a) && (a == s0 || (self.feat(a) && visited@.contains(a))) ==> done.contains(a) || stack@.contains(a),
    decreases 2 * (self.n() - visited@.len()) + stack@.len()""",
              1: forinv(1, None, dd("direct_dependencies") + """forall|a: NodeId| #[trigger] mk(a) && (a == s0 || (self.feat(a) && visited@.contains(a))) ==> done.contains(a) || a == cur || stack@.contains(a),
    forall|j: int| 0 <= j < vx_it1.i() ==> visited@.contains((#[trigger] vx_s1[j]).tgt),
    visited@.finite(), 2 * (self.n() - visited@.len()) + stack@.len() < m0""")},
       at={"start": "broadcast use stacks; let ghost s0 = $p0; let ghost mut done = Set::<NodeId>::empty();",
           "let_visited": "proof { assert(stack@.contains(s0)) by { assert(stack@[0] == s0); } }",
           "l0_start": "let ghost cur = nid; let ghost m0 = 2 * (self.n() - visited@.len()) + stack@.len() + 1; proof { bounded(visited@, self.n() as nat); }",
           "l1_start": "let ghost V0 = visited@; let ghost D0 = direct_dependencies@; proof { let j = vx_it1.i() - 1; assert(edge == vx_s1[j]); assert(self.edge(cur, edge.tgt)); self.extend(s0, cur, edge.tgt); bounded(visited@.insert(edge.tgt), self.n() as nat); }",
           "l1_end": "proof { assert forall|x: NodeId| visited@.contains(x) && self.crate_(x) implies exists|j: int| 0 <= j < direct_dependencies@.len() && (#[trigger] direct_dependencies@[j]).node_id == x by { if V0.contains(x) { let j = choose|j: int| 0 <= j < D0.len() && (#[trigger] D0[j]).node_id == x; assert(direct_dependencies@[j].node_id == x); } else { assert(direct_dependencies@.last().node_id == x); } } }",
           "l1_after": """proof {
                assert forall|z: NodeId| #[trigger] self.edge(cur, z) implies visited@.contains(z) by {
                    let k = choose|k: int| 0 <= k < self.graph.edges().len() && (#[trigger] self.graph.edges()[k]).a == cur && self.graph.edges()[k].z == z;
                    assert(at_end(self.graph.edges()[k], cur, Direction::Outgoing));
                }
                done = done.insert(cur); bounded(visited@, self.n() as nat);
            }""",
           "l0_after": """proof {
                assert forall|a: NodeId, z: NodeId| (a == s0 || (self.feat(a) && visited@.contains(a))) && #[trigger] self.edge(a, z) implies visited@.contains(z) by { assert(mk(a)); }
                assert forall|x: NodeId| self.crate_(x) && #[trigger] self.reached(s0, x) implies visited@.contains(x) by {
                    let p = choose|p: Seq<NodeId>| self.path(p, s0, x);
                    self.closed(s0, visited@, p, x, p.len() - 1);
                }
            }"""}),
    Fn("Krates::direct_dependents", L, "Krates::direct_dependents",
       """fn direct_dependents(&self, $p0: NodeId) -> (r: Vec<DirectDependent<'_, N>>) requires self.wf(), $p0.ix < self.n(),
        ensures
            forall|j: int| 0 <= j < r@.len() ==> self.dn_ok($p0, #[trigger] r@[j]),
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).node_id != (#[trigger] r@[j]).node_id,
            forall|x: NodeId| #[trigger] self.dep_of($p0, x) ==> exists|j: int| 0 <= j < r@.len() && (#[trigger] r@[j]).node_id == x""",
       impl=IMPL, index=[("graph", "vx_index")], calls=[("std::collections::BTreeSet::new", "SetX::new")], props=["C12"],
       loops={0: "invariant " + dn("direct_dependents") + """    forall|a: NodeId| #[trigger] mk(a) && (a == s0 || (self.feat(a) && visited@.contains(a))) ==> done.contains(a) || stack@.contains(a),
    decreases 2 * (self.n() - visited@.len()) + stack@.len()""",
              1: forinv(1, None, dn("direct_dependents") + """forall|a: NodeId| #[trigger] mk(a) && (a == s0 || (self.feat(a) && visited@.contains(a))) ==> done.contains(a) || a == cur || stack@.contains(a),
    forall|j: int| 0 <= j < vx_it1.i() && (self.crate_((#[trigger] vx_s1[j]).src) || (cur == s0 && self.own(s0, vx_s1[j].src))) ==> visited@.contains(vx_s1[j].src),
    visited@.finite(), 2 * (self.n() - visited@.len()) + stack@.len() < m0""")},
       at={"start": "broadcast use stacks; let ghost s0 = $p0; let ghost mut done = Set::<NodeId>::empty();",
           "let_visited": "proof { assert(stack@.contains(s0)) by { assert(stack@[0] == s0); } }",
           "l0_start": "let ghost cur = nid; let ghost m0 = 2 * (self.n() - visited@.len()) + stack@.len() + 1; proof { bounded(visited@, self.n() as nat); }",
           "l1_start": "let ghost V0 = visited@; let ghost D0 = direct_dependents@; proof { let j = vx_it1.i() - 1; assert(edge == vx_s1[j]); assert(self.edge(edge.src, cur)); bounded(visited@.insert(edge.src), self.n() as nat); }",
           "l1_end": "proof { assert forall|x: NodeId| visited@.contains(x) && self.crate_(x) implies exists|j: int| 0 <= j < direct_dependents@.len() && (#[trigger] direct_dependents@[j]).node_id == x by { if V0.contains(x) { let j = choose|j: int| 0 <= j < D0.len() && (#[trigger] D0[j]).node_id == x; assert(direct_dependents@[j].node_id == x); } else { assert(direct_dependents@.last().node_id == x); } } }",
           "l1_after": """proof {
                assert forall|z: NodeId| #[trigger] self.edge(z, cur) && (self.crate_(z) || (cur == s0 && self.own(s0, z))) implies visited@.contains(z) by {
                    let k = choose|k: int| 0 <= k < self.graph.edges().len() && (#[trigger] self.graph.edges()[k]).a == z && self.graph.edges()[k].z == cur;
                    assert(at_end(self.graph.edges()[k], cur, Direction::Incoming));
                }
                done = done.insert(cur); bounded(visited@, self.n() as nat);
            }""",
           "l0_after": """proof {
                assert forall|x: NodeId| #[trigger] self.dep_of(s0, x) implies visited@.contains(x) by {
                    assert(mk(s0));
                    if !self.edge(x, s0) { let f = choose|f: NodeId| #[trigger] self.own(s0, f) && self.edge(x, f); assert(mk(f)); assert(self.edge(f, s0)); }
                }
            }"""}),
    Fn("Krates::node_for_kid", L, "Krates::node_for_kid",
       "fn node_for_kid(&self, $p0: &Kid) -> (r: Option<&Node<N>>) requires self.wf(), $p0.wf(), ensures match self.find($p0) { Some(n) => r is Some && *r->0 == self.node(n), None => r is None }",
       impl=IMPL, index=GIX, props=["C11"],
       closures={0: "|vxp0: NodeId| -> (o: &Node<N>) requires vxp0.ix < self.n(), ensures *o == self.node(vxp0)"}),
    Fn("Krates::get_node", L, "Krates::get_node",
       """fn get_node(&self, $p0: &Kid, $p1: Option<&str>) -> (r: Option<(NodeId, &Node<N>)>) requires self.wf(), $p0.wf(),
        ensures
            r is Some ==> self.find($p0) is Some && r->Some_0.0.ix < self.n() && *r->Some_0.1 == self.node(r->Some_0.0),
            $p1 is None ==> (match self.find($p0) { Some(n) => r is Some && r->Some_0.0 == n, None => r is None }),
            $p1 is Some && r is Some ==> self.own(self.find($p0)->0, r->Some_0.0) && self.node(r->Some_0.0)->name@ == $p1->0@,
            $p1 is Some && r is None && self.find($p0) is Some ==> forall|f: NodeId| #[trigger] self.own(self.find($p0)->0, f) ==> self.node(f)->name@ != $p1->0@""",
       impl=IMPL, index=GIX, props=["C11"], eqs=True, methods=ITER,
       closures={0: """|vxp0: NodeId| -> (o: Option<(NodeId, &Node<N>)>) requires self.crate_(vxp0), ensures
            o is Some ==> o->Some_0.0.ix < self.n() && *o->Some_0.1 == self.node(o->Some_0.0),
            $p1 is None ==> o is Some && o->Some_0.0 == vxp0,
            $p1 is Some && o is Some ==> self.own(vxp0, o->Some_0.0) && self.node(o->Some_0.0)->name@ == $p1->0@,
            $p1 is Some && o is None ==> forall|f: NodeId| #[trigger] self.own(vxp0, f) ==> self.node(f)->name@ != $p1->0@""",
                 1: """|vxp0: EdgeRefX<'_, E>| -> (o: Option<(NodeId, &Node<N>)>) requires vxp0.src.ix < self.n(), ensures
            o is Some <==> self.feat(vxp0.src) && self.node(vxp0.src)->krate_index == nid && self.node(vxp0.src)->name@ == feat@,
            o is Some ==> o->Some_0.0 == vxp0.src && *o->Some_0.1 == self.node(vxp0.src)"""}),
    Fn("Krates::get_enabled_features", L, "Krates::get_enabled_features",
       "fn get_enabled_features(&self, $p0: &Kid) -> (r: Option<&SetX<String>>) requires self.wf(), $p0.wf(), ensures match self.find($p0) { Some(n) => r is Some && *r->0 == self.node(n)->features, None => r is None }",
       impl=IMPL, props=["C11", "C09"],
       closures={0: "|vxp0: &Node<N>| -> (o: &SetX<String>) requires vxp0 is Krate, ensures *o == vxp0->features"}),
    Fn("Krates::workspace_members", L, "Krates::workspace_members",
       "fn workspace_members(&self) -> (r: It<&Node<N>>) requires self.wf(), ensures r.i() == 0, r.wf(), r.s() == fmap(refs(self.workspace_members@), self.member())",
       impl=IMPL, index=GIX, methods=ITER, props=["C11", "C13"],
       closures={0: "|vxp0: &Kid| -> (o: Option<&Node<N>>) requires vxp0.wf(), ensures o == (self.member())(vxp0)",
                 1: "|vxp0: NodeId| -> (o: &Node<N>) requires vxp0.ix < self.n(), ensures *o == self.node(vxp0)"},
       final="proof { let ms = refs(self.workspace_members@); let o = choose|o: Seq<Option<&Node<N>>>| o.len() == ms.len() && vx_r.s() == flat(o) && forall|i: int| #![trigger o[i]] 0 <= i < o.len() ==> o[i] == (self.member())(ms[i]); flat_is(ms, o, self.member()); }"),
    Fn("Krates::resolved_dependency", L, "Krates::resolved_dependency",
       """fn resolved_dependency(&self, $p0: NodeId, $p1: usize) -> (r: Option<&N>) requires self.wf(),
        ensures match r {
            Some(k) => $p0.ix < self.krates_end && $p1 < self.node($p0)->dep_mapping@.len() && self.node($p0)->dep_mapping@[$p1 as int] is Some && *k == self.node(self.node($p0)->dep_mapping@[$p1 as int]->0)->krate,
            None => $p0.ix >= self.krates_end || $p1 >= self.node($p0)->dep_mapping@.len() || self.node($p0)->dep_mapping@[$p1 as int] is None,
        }""",
       impl=IMPL, index=GIX, props=["C10"], methods=[("copied", "0", "fn:vx_copied"), ("flatten", "0", "fn:vx_flatten")],
       closures={0: "|vxp0: NodeId| -> (o: Option<&N>) requires self.crate_(vxp0), ensures o is Some, *o->0 == self.node(vxp0)->krate"},
       at={"start": "proof { if $p0.ix < self.krates_end { assert(self.graph.raw()[$p0.ix as int].weight is Krate); if $p1 < self.node($p0)->dep_mapping@.len() { assert(self.nd($p0.ix as int)->dep_mapping@[$p1 as int] is Some ==> self.nd($p0.ix as int)->dep_mapping@[$p1 as int]->0.ix < self.krates_end); } } }"}),
    Fn("Krates::index(NodeId)", L, "Index<NodeId> for Krates::index", "fn index_nid(&self, $p0: NodeId) -> (r: &N) requires self.crate_($p0), ensures *r == self.node($p0)->krate", impl=IMPL, index=GIX, props=["C11"]),
    Fn("Krates::index(usize)", L, "Index<usize> for Krates::index", "fn index_usize(&self, $p0: usize) -> (r: &N) requires $p0 < self.n(), self.nd($p0 as int) is Krate, ensures *r == self.nd($p0 as int)->krate", impl=IMPL, props=["C11"]),
    Fn("Krates::get_deps", L, "Krates::get_deps",
       """fn get_deps(&self, $p0: NodeId) -> (r: It<(&Node<N>, &E)>) requires self.wf(),
        ensures r.i() == 0, r.wf(), exists|s: Seq<EdgeRefX<'_, E>>| lists_edges(&self.graph, $p0, Direction::Outgoing, s) && r.s().len() == s.len() && forall|j: int| 0 <= j < s.len() ==> *(#[trigger] r.s()[j]).0 == self.node(s[j].tgt) && *r.s()[j].1 == *s[j].w""",
       impl=IMPL, index=GIX, props=["C12"], methods=[("map", "*", "vx_map")],
       closures={0: "|vxp0: EdgeRefX<'_, E>| -> (o: (&Node<N>, &E)) requires vxp0.tgt.ix < self.n(), ensures *o.0 == self.node(vxp0.tgt), *o.1 == *vxp0.w"}),
    Fn("Krates::search_matches", L, "Krates::search_matches",
       "fn search_matches(&self, $p0: String, $p1: VersionReq) -> (r: It<KrateMatch<'_, N>>) requires self.wf(), ensures r.i() == 0, r.wf(), r.s() == fmap(enumd(self.crates()), Self::hit($p0@, Some($p1)))",
       impl=IMPL.replace("<N, E> K", "<N: KrateDetails, E> K"), props=["C11"], eqs=True, methods=ITER + [("into", "0", "fn:vx_id")],
       closures={0: "|vxp0: (usize, &GNode<Node<N>>)| -> (o: Option<KrateMatch<'_, N>>) requires vxp0.0 <= u32::MAX, vxp0.1.weight is Krate, ensures o == (Self::hit($p0@, Some($p1)))(vxp0)"},
       final="proof { let ms = enumd(self.crates()); let o = choose|o: Seq<Option<KrateMatch<'_, N>>>| o.len() == ms.len() && vx_r.s() == flat(o) && forall|i: int| #![trigger o[i]] 0 <= i < o.len() ==> o[i] == (Self::hit($p0@, Some($p1)))(ms[i]); flat_is(ms, o, Self::hit($p0@, Some($p1))); }"),
    Fn("Krates::krates_by_name", L, "Krates::krates_by_name",
       "fn krates_by_name(&self, $p0: String) -> (r: It<KrateMatch<'_, N>>) requires self.wf(), ensures r.i() == 0, r.wf(), r.s() == fmap(enumd(self.crates()), Self::hit($p0@, None))",
       impl=IMPL.replace("<N, E> K", "<N: KrateDetails, E> K"), props=["C11"], eqs=True, methods=ITER + [("into", "0", "fn:vx_id")],
       closures={0: "|vxp0: (usize, &GNode<Node<N>>)| -> (o: Option<KrateMatch<'_, N>>) requires vxp0.0 <= u32::MAX, vxp0.1.weight is Krate, ensures o == (Self::hit($p0@, None))(vxp0)"},
       final="proof { let ms = enumd(self.crates()); let o = choose|o: Seq<Option<KrateMatch<'_, N>>>| o.len() == ms.len() && vx_r.s() == flat(o) && forall|i: int| #![trigger o[i]] 0 <= i < o.len() ==> o[i] == (Self::hit($p0@, None))(ms[i]); flat_is(ms, o, Self::hit($p0@, None)); }"),
    Fn("Krates::krates_filtered", L, "Krates::krates_filtered",
       "fn krates_filtered(&self, $p0: DepKind) -> (r: Vec<&N>) requires self.wf(), ensures exists|ids: Seq<NodeId>| self.filtered_is($p0, ids, r@)",
       impl="impl<N> Krates<N, Edge>", index=GIX, props=["C13"], methods=ITER, eqs=True, calls=[("std::collections::BTreeSet::new", "SetX::new")],
       subst=[(r"std\s*::\s*collections\s*::\s*BTreeMap\s*<\s*_\s*,\s*_\s*>", "KMap<'_, N>")],
       closures={0: "|vxp0: &Node<N>| -> (o: Option<(&Kid, &N)>) ensures o == (self.pairs())(vxp0)",
                 1: "|vxp0: &Kid| -> (o: Option<NodeId>) requires vxp0.wf(), ensures o == self.find(vxp0)"},
       loops={0: "invariant " + FINV + """    forall|a: NodeId| #[trigger] mk(a) && (self.start(a) || visited@.contains(a)) ==> done.contains(a) || stack@.contains(a),
    decreases 2 * (self.n() - visited@.len()) + stack@.len()""",
              1: forinv(1, None, FINV + """    forall|a: NodeId| #[trigger] mk(a) && (self.start(a) || visited@.contains(a)) ==> done.contains(a) || a == cur || stack@.contains(a),
    forall|j: int| 0 <= j < vx_it1.i() && self.kept($p0, (#[trigger] vx_s1[j]).eid.ix as int) ==> visited@.contains(vx_s1[j].tgt),
    self.start(cur) || visited@.contains(cur),
    visited@.finite(), 2 * (self.n() - visited@.len()) + stack@.len() < m0""")},
       pre="let ghost mut gm = Map::<KKey, &N>::empty();",
       at={"start": "broadcast use stacks; let ghost mut done = Set::<NodeId>::empty();",
           "let_visited": """proof {
                let ws = self.members();
                let o = choose|o: Seq<Option<(&Kid, &N)>>| o.len() == ws.len() && filtered@ == kmap(flat(o)) && forall|i: int| #![trigger o[i]] 0 <= i < o.len() ==> o[i] == (self.pairs())(ws[i]);
                flat_is(ws, o, self.pairs());
                self.starts_map($p0, filtered@); self.starts_stack($p0, stack@); }""",
           "l0_start": "let ghost cur = nid; let ghost m0 = 2 * (self.n() - visited@.len()) + stack@.len() + 1; proof { bounded(visited@, self.n() as nat); }",
           "l1_start": "let ghost V0 = visited@; let ghost M0 = filtered@; proof { let j = vx_it1.i() - 1; assert(edge == vx_s1[j]); if self.kept($p0, edge.eid.ix as int) { assert(self.kedge($p0, cur, edge.tgt)); self.fextend($p0, cur, edge.tgt); } bounded(visited@.insert(edge.tgt), self.n() as nat); }",
           "l1_end": """proof {
                assert forall|k: KKey| #[trigger] filtered@.dom().contains(k) implies exists|n: NodeId| #[trigger] self.from_map($p0, filtered@, k, n) by {
                    if self.crate_(edge.tgt) && k == self.key(edge.tgt) && !V0.contains(edge.tgt) { assert(self.from_map($p0, filtered@, k, edge.tgt)); }
                    else { assert(M0.dom().contains(k)); let n = choose|n: NodeId| #[trigger] self.from_map($p0, M0, k, n); assert(self.from_map($p0, filtered@, k, n)); }
                }
            }""",
           "l1_after": """proof {
                assert forall|z: NodeId| #[trigger] self.kedge($p0, cur, z) implies visited@.contains(z) by {
                    let k = choose|k: int| 0 <= k < self.graph.edges().len() && (#[trigger] self.graph.edges()[k]).a == cur && self.graph.edges()[k].z == z && self.kept($p0, k);
                    assert(at_end(self.graph.edges()[k], cur, Direction::Outgoing));
                }
                assert(mk(cur));
                done = done.insert(cur);
            }""",
           "l0_end": "proof { bounded(visited@, self.n() as nat); }",
           "tail": """proof {
                gm = filtered@;
                let v = |a: NodeId| self.start(a) || visited@.contains(a);
                assert forall|a: NodeId, z: NodeId| v(a) && #[trigger] self.kedge($p0, a, z) implies v(z) by { assert(mk(a)); }
                assert forall|n: NodeId| self.crate_(n) && #[trigger] self.freach($p0, n) implies gm.dom().contains(self.key(n)) by {
                    self.fall($p0, v, n);
                    assert(mk(n));
                }
            }"""},
       final="proof { self.collect($p0, gm, vx_r@); }"),
]
UNITS = [Unit("krates", ["C03", "C11", "C12"], prelude=["str", "iter", "order", "streq", "opt", "graph", "coll"], types=TYPES, spec=SPEC, lemmas=LEM, fns=FNS)]
