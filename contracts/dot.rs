// The data structures and macros of graphviz_rust (dot_structures, dot_generator), as they are there; printing is left out.
#[macro_use]
pub mod dot {
use vstd::prelude::*;
use crate::fmt::*;
verus!{
pub enum Id { Html(String), Plain(String), Escaped(String), Anonymous(String) }
pub struct Port(pub Option<Id>, pub Option<String>);
pub struct NodeId(pub Id, pub Option<Port>);
pub struct Attribute(pub Id, pub Id);
pub struct Node { pub id: NodeId, pub attributes: Vec<Attribute> }
impl Node { pub fn new(id: NodeId, attributes: Vec<Attribute>) -> (r: Node) ensures r.id == id, r.attributes == attributes { Node { id, attributes } } }
pub struct Subgraph { pub id: Id, pub stmts: Vec<Stmt> }
pub enum Vertex { N(NodeId), S(Subgraph) }
pub enum EdgeTy { Pair(Vertex, Vertex), Chain(Vec<Vertex>) }
pub struct Edge { pub ty: EdgeTy, pub attributes: Vec<Attribute> }
pub enum Stmt { Node(Node), Subgraph(Subgraph), Attribute(Attribute), Edge(Edge) }
pub enum Graph { Graph { id: Id, strict: bool, stmts: Vec<Stmt> }, DiGraph { id: Id, strict: bool, stmts: Vec<Stmt> } }
/// a graph written in the DOT language
pub uninterp spec fn printed(g: Graph) -> Seq<char>;
#[verifier::external_body] pub struct PrinterContext { _p: () }
impl PrinterContext { #[verifier::external_body] pub fn default() -> PrinterContext { unimplemented!() } }
impl Graph { #[verifier::external_body] pub fn print(&self, ctx: &mut PrinterContext) -> (r: String) ensures r@ == printed(*self) { unimplemented!() } }
#[verifier::external_body] pub fn id<T: Disp>(e: T) -> (r: Id) ensures r is Plain, r->Plain_0@ == e.shown() { unimplemented!() }
pub open spec fn plain(i: Id, t: Seq<char>) -> bool { i is Plain && i->Plain_0@ == t }
pub open spec fn attr_is(a: Attribute, k: Seq<char>, v: Seq<char>) -> bool { plain(a.0, k) && plain(a.1, v) }
}
#[allow(unused_macros)]
macro_rules! id { ($e:expr) => { crate::dot::id($e) } }
macro_rules! attr { ($k:expr, $v:expr) => { crate::dot::Attribute(crate::dot::id($k), crate::dot::id($v)) } }
}
