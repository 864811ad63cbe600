//@ struct tree/node_id.rs InnerNodeId
//@ attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ struct tree/node_id.rs LeafNodeId
//@ attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ struct tree/node_id.rs NodeId
//@ attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ raw
pub trait VInto<T>: Sized { spec fn into_s(self) -> T; fn vinto(self) -> (r: T) ensures r == self.into_s(); }
impl VInto<NodeId> for InnerNodeId { open spec fn into_s(self) -> NodeId { NodeId::Inner(self) } fn vinto(self) -> (r: NodeId) { NodeId::Inner(self) } }
impl VInto<NodeId> for LeafNodeId { open spec fn into_s(self) -> NodeId { NodeId::Leaf(self) } fn vinto(self) -> (r: NodeId) { NodeId::Leaf(self) } }
impl VInto<NodeId> for NodeId { open spec fn into_s(self) -> NodeId { self } fn vinto(self) -> (r: NodeId) { self } }
impl<I: VInto<NodeId>, const M: usize> VMapInto for [I; M] {
    type T = I; type O = [NodeId; M];
    open spec fn mi(self, o: [NodeId; M]) -> bool { o@ == self@.map_values(|i: I| i.into_s()) }
    #[verifier::external_body]
    fn vmap_into(self) -> (r: [NodeId; M]) { unimplemented!() }
}
impl InnerNodeId {
    /// a placeholder no proof depends on
    pub const INVALID: InnerNodeId = InnerNodeId(usize::MAX);
//@ fn tree/node_id.rs InnerNodeId::from_usize
//@ params id
//@ ret r
//@ spec
    ensures r.0 == id,
//@ fn tree/node_id.rs InnerNodeId::as_usize
//@ params self
//@ ret r
//@ spec
    ensures r == self.0,
//@ raw
}
impl LeafNodeId {
//@ fn tree/node_id.rs LeafNodeId::from_usize
//@ params id
//@ ret r
//@ spec
    ensures r.0 == id,
//@ fn tree/node_id.rs LeafNodeId::as_usize
//@ params self
//@ ret r
//@ spec
    ensures r == self.0,
//@ raw
}
impl NodeId {
//@ fn tree/node_id.rs NodeId::leaf_id
//@ params self
//@ ret r
//@ spec
    ensures match *self { NodeId::Leaf(id) => r == Some(id), _ => r is None },
//@ fn tree/node_id.rs NodeId::inner_id
//@ params self
//@ ret r
//@ spec
    ensures match *self { NodeId::Inner(id) => r == Some(id), _ => r is None },
//@ fn tree/node_id.rs NodeId::leaf_id_unchecked
//@ params self
//@ ret r
//@ spec
    requires self is Leaf,
    ensures r == self->Leaf_0,
//@ fn tree/node_id.rs NodeId::inner_id_unchecked
//@ params self
//@ ret r
//@ spec
    requires self is Inner,
    ensures r == self->Inner_0,
//@ raw
}
