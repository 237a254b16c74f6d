// ---- prelude: petgraph::Graph as node and edge sequences
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct NodeId { pub ix: usize }
impl NodeId {
    pub fn new(x: usize) -> (r: NodeId) requires x <= u32::MAX, ensures r.ix == x { NodeId { ix: x } }
    pub fn index(&self) -> (r: usize) ensures r == self.ix { self.ix }
}
impl VxEq<NodeId> for NodeId { open spec fn eqs(&self, o: &NodeId) -> bool { *self == *o } fn vx_eq_(&self, o: &NodeId) -> bool { self.ix == o.ix } }
pub type EdgeId = NodeId;
pub enum Direction { Outgoing, Incoming }
pub struct GNode<W> { pub weight: W }
pub struct GEdge<E> { pub a: NodeId, pub z: NodeId, pub w: E }
#[verifier::external_body]
#[verifier::accept_recursive_types(W)]
#[verifier::accept_recursive_types(E)]
pub struct Graph<W, E> { x: Vec<(W, E)> }
pub struct EdgeRefX<'a, E> { pub src: NodeId, pub tgt: NodeId, pub eid: EdgeId, pub w: &'a E }
impl<'a, E> EdgeRefX<'a, E> {
    pub fn source(&self) -> (r: NodeId) ensures r == self.src { self.src }
    pub fn target(&self) -> (r: NodeId) ensures r == self.tgt { self.tgt }
    pub fn id(&self) -> (r: EdgeId) ensures r == self.eid { self.eid }
    pub fn weight(&self) -> (r: &'a E) ensures r == self.w { self.w }
}
impl<W, E> Graph<W, E> {
    pub uninterp spec fn raw(&self) -> Seq<GNode<W>>;
    pub uninterp spec fn edges(&self) -> Seq<GEdge<E>>;
    /// petgraph's own invariant: edges join existing nodes, indices fit u32
    pub open spec fn gwf(&self) -> bool {
        &&& self.raw().len() <= u32::MAX
        &&& self.edges().len() <= u32::MAX
        &&& forall|k: int| 0 <= k < self.edges().len() ==> (#[trigger] self.edges()[k]).a.ix < self.raw().len() && self.edges()[k].z.ix < self.raw().len()
    }
    #[verifier::external_body]
    pub fn vx_index(&self, n: NodeId) -> (r: &W) requires n.ix < self.raw().len(), ensures *r == self.raw()[n.ix as int].weight, { unimplemented!() }
    #[verifier::external_body]
    pub fn raw_nodes(&self) -> (r: &[GNode<W>])
        ensures r@ == self.raw(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn node_count(&self) -> (r: usize) ensures r == self.raw().len(), { unimplemented!() }
    #[verifier::external_body]
    pub fn edges_directed(&self, n: NodeId, d: Direction) -> (r: It<EdgeRefX<'_, E>>)
        ensures r.i() == 0, r.wf(), lists_edges(self, n, d, r.s()),
    { unimplemented!() }
}
pub open spec fn at_end<E>(e: GEdge<E>, n: NodeId, d: Direction) -> bool { match d { Direction::Outgoing => e.a == n, Direction::Incoming => e.z == n } }
/// every edge of n in direction d, once each, in some order
pub open spec fn lists_edges<W, E>(g: &Graph<W, E>, n: NodeId, d: Direction, s: Seq<EdgeRefX<'_, E>>) -> bool {
    &&& forall|j: int| #![trigger s[j]] 0 <= j < s.len() ==> s[j].eid.ix < g.edges().len() && at_end(g.edges()[s[j].eid.ix as int], n, d)
            && s[j].src == g.edges()[s[j].eid.ix as int].a && s[j].tgt == g.edges()[s[j].eid.ix as int].z && *s[j].w == g.edges()[s[j].eid.ix as int].w
    &&& forall|k: int| 0 <= k < g.edges().len() && at_end(#[trigger] g.edges()[k], n, d) ==> exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]).eid.ix == k
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).eid != (#[trigger] s[j]).eid
}
/// nodes 0 .. n as a set
pub open spec fn ids(n: nat) -> Set<NodeId> decreases n { if n == 0 { Set::empty() } else { ids((n - 1) as nat).insert(NodeId { ix: (n - 1) as usize }) } }
pub proof fn ids_ok(n: nat)
    requires n <= usize::MAX,
    ensures ids(n).finite(), ids(n).len() == n, forall|x: NodeId| ids(n).contains(x) <==> x.ix < n,
    decreases n,
{ if n > 0 { ids_ok((n - 1) as nat); assert(!ids((n - 1) as nat).contains(NodeId { ix: (n - 1) as usize })); } }
pub proof fn bounded(v: Set<NodeId>, n: nat)
    requires n <= usize::MAX, forall|x: NodeId| v.contains(x) ==> x.ix < n,
    ensures v.finite(), v.len() <= n,
{ ids_ok(n); assert(v.subset_of(ids(n))); vstd::set_lib::lemma_len_subset(v, ids(n)); }
