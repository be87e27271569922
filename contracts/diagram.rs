// The graph of a configuration.
pub mod graph {
use vstd::prelude::*;
use crate::connectable::*;
use crate::config::*;
use crate::coll::*;
use crate::std_shim as std;
use crate::fmt::{Disp, Dbg};
use crate::dot::*;
verus!{
//@item src/graph.rs :: struct GraphConnection
pub struct GraphConnection<'a> {
    src: (&'a ComponentType, &'a str, &'a Option<String>),
    via: &'a OutputPort,
    dst: (&'a ComponentType, &'a str, &'a Option<String>),
}
//@end
// ---- what a configuration's lists say
pub open spec fn name_of(c: Connection) -> Seq<char> { match c { Connection::MiddleConnection { component_name, .. } => component_name@, Connection::StartConnection { component_name, .. } => component_name@, Connection::EndConnection { component_name, .. } => component_name@ } }
pub open spec fn set_of(c: Connection) -> Option<String> { match c { Connection::MiddleConnection { connection_set, .. } => connection_set, Connection::StartConnection { connection_set, .. } => connection_set, Connection::EndConnection { connection_set, .. } => connection_set } }
pub open spec fn port_of(c: Connection) -> Option<OutputPort> { match c { Connection::MiddleConnection { output_port, .. } => Some(output_port), Connection::StartConnection { output_port, .. } => Some(output_port), Connection::EndConnection { .. } => None } }
pub ghost struct End { pub ct: ComponentType, pub name: Seq<char>, pub set: Option<String> }
pub ghost struct Line { pub src: End, pub via: OutputPort, pub dst: End }
pub open spec fn end_of(c: Connection) -> End { End { ct: type_of(c), name: name_of(c), set: set_of(c) } }
pub closed spec fn line_of(g: GraphConnection) -> Line { Line { src: End { ct: *g.src.0, name: g.src.1@, set: *g.src.2 }, via: *g.via, dst: End { ct: *g.dst.0, name: g.dst.1@, set: *g.dst.2 } } }
pub open spec fn lines_of(g: Seq<GraphConnection>) -> Seq<Line> { Seq::new(g.len(), |i: int| line_of(g[i])) }
/// the edges of the first n elements of a list: each element with an output leads to the one after it
pub open spec fn edges(cs: Seq<Connection>, n: int) -> Seq<Line> decreases n {
    if n < 2 { Seq::empty() } else {
        match port_of(cs[n - 2]) { Some(p) => edges(cs, n - 1).push(Line { src: end_of(cs[n - 2]), via: p, dst: end_of(cs[n - 1]) }), None => edges(cs, n - 1) }
    }
}
/// of a list all of whose elements but the last have an output, the edges are the pairs of consecutive elements
pub proof fn lemma_pairs(cs: Seq<Connection>, n: int)
    requires 0 <= n <= cs.len(), forall|i: int| 0 <= i < n - 1 ==> port_of(#[trigger] cs[i]) is Some
    ensures edges(cs, n).len() == (if n == 0 { 0 } else { n - 1 }),
        forall|i: int| 0 <= i < n - 1 ==> #[trigger] edges(cs, n)[i] == (Line { src: end_of(cs[i]), via: port_of(cs[i])->0, dst: end_of(cs[i + 1]) })
    decreases n
{ if n >= 2 { lemma_pairs(cs, n - 1); assert(port_of(cs[n - 2]) is Some); } }
/// the names of the elements of one type among the first n elements of a list
pub open spec fn mentions(cs: Seq<Connection>, n: int, ct: ComponentType) -> Seq<Seq<char>> decreases n {
    if n <= 0 { Seq::empty() } else if type_of(cs[n - 1]) == ct { mentions(cs, n - 1, ct).push(name_of(cs[n - 1])) } else { mentions(cs, n - 1, ct) }
}
pub open spec fn texts(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn names(m: Map<ComponentType, Vec<&str>>, ct: ComponentType) -> Seq<Seq<char>> { if m.contains_key(ct) { texts(m[ct]@) } else { Seq::empty() } }

//@item src/graph.rs :: fn convert_connection_to_graph_connection
pub fn convert_connection_to_graph_connection<'a>(mut acc: Vec<GraphConnection<'a>>, connections: Vec<&'a Connection>) -> /*@ (o: @*/ Vec<GraphConnection<'a>> /*@ )
    ensures lines_of(o@) =~= lines_of(acc@) + edges(derefs(connections@), connections@.len() as int) @*/ {
    let mut src: Option<(&ComponentType, &str, Option<&OutputPort>, &Option<String>)> = None;
    let mut dst: Option<(&ComponentType, &str, Option<&OutputPort>, &Option<String>)>;
    let mut r: Vec<GraphConnection> = vec![];
    /*@ let ghost cs = connections@; let ghost acc0 = acc@; @*/
    for connection in /*@ it: @*/ connections /*@
        invariant it.seq() == cs, lines_of(r@) =~= edges(derefs(cs), it.index() as int),
            it.index() == 0 ==> src is None,
            it.index() > 0 ==> ({ let c = *cs[it.index() - 1]; if port_of(c) is Some { src is Some && *(src->0).0 == type_of(c) && (src->0).1@ == name_of(c) && (src->0).2 is Some && *((src->0).2->0) == port_of(c)->0 && *(src->0).3 == set_of(c) } else { src is None } }) @*/ {
        /*@ let ghost i = it.index() as int; let ghost r0 = r@; @*/
        dst = match connection {
            Connection::MiddleConnection { component_type, component_name, output_port, connection_set, .. } => Some((component_type, component_name, Some(output_port), connection_set)),
            Connection::StartConnection { component_type, component_name, output_port, connection_set } => Some((component_type, component_name, Some(output_port), connection_set)),
            Connection::EndConnection { component_type, component_name, connection_set, .. } => Some((component_type, component_name, None, connection_set)),
        };
        if let (Some((src_0, src_1, Some(src_2), connection_set)), Some(dst)) = (src, dst) {
            r.push(GraphConnection {
                src: (src_0, src_1, connection_set),
                via: src_2,
                dst: (dst.0, dst.1, dst.3),
            });
        }
        src = match dst {
            Some((dst_type, dst_name, Some(output_port), connection_set)) => Some((dst_type, dst_name, Some(output_port), connection_set)),
            _ => None,
        };
        /*@ proof {
            assert(lines_of(r0) == edges(derefs(cs), i));
            if r@.len() > r0.len() { assert(lines_of(r@) =~= lines_of(r0).push(line_of(r@[i_last(r@)]))); }
        } @*/
    }
    acc.append(&mut r);
    acc
}
//@end
pub open spec fn i_last<T>(s: Seq<T>) -> int { s.len() - 1 }
//@item src/graph.rs :: fn convert_connection_components_fold [seq]
pub fn convert_connection_components_fold<'a>(mut acc: HashMap<&'a ComponentType, Vec<&'a str>>, connections: Vec<&'a Connection>) -> /*@ (o: @*/ HashMap<&'a ComponentType, Vec<&'a str>> /*@ )
    ensures
        forall|ct: ComponentType| #[trigger] names(o.m(), ct) == names(acc.m(), ct) + mentions(derefs(connections@), connections@.len() as int, ct) @*/ {
    /*@ let ghost cs = connections@; let ghost m0 = acc.m(); @*/
    for connection in /*@ it: @*/ connections /*@
        invariant it.seq() == cs, forall|ct: ComponentType| #[trigger] names(acc.m(), ct) =~= names(m0, ct) + mentions(derefs(cs), it.index() as int, ct) @*/ {
        /*@ let ghost i = it.index() as int; let ghost m1 = acc.m(); @*/
        let comp: (&ComponentType, &str) = match connection {
            Connection::MiddleConnection { component_type, component_name, .. } => (component_type, component_name),
            Connection::StartConnection { component_type, component_name, .. } => (component_type, component_name),
            Connection::EndConnection { component_type, component_name, .. } => (component_type, component_name),
        };
        acc.entry(comp.0)
            .and_modify(|x| {
                x.push(comp.1);
            })
            .or_insert_with(|| vec![comp.1]);
        /*@ proof {
            assert forall|ct: ComponentType| #[trigger] names(acc.m(), ct) =~= names(m0, ct) + mentions(derefs(cs), i + 1, ct) by {
                assert(names(m1, ct) == names(m0, ct) + mentions(derefs(cs), i, ct));
                if ct == type_of(*cs[i]) { assert(names(acc.m(), ct) =~= names(m1, ct).push(name_of(*cs[i]))); }
            }
        } @*/
    }
    acc
}
//@end

// ---- the drawing
impl Dbg for OutputPort { open spec fn shown_dbg(&self) -> Seq<char> { match *self { OutputPort::Out => "Out"@, OutputPort::Err => "Err"@, OutputPort::Exit => "Exit"@ } } }
//@item src/graph.rs :: const BUFFER_COLOR
const BUFFER_COLOR: & /*! 'static !*/ str = "lightgray";
//@end
//@item src/graph.rs :: const REGULATOR_COLOR
const REGULATOR_COLOR: & /*! 'static !*/ str = "lightgray";
//@end
//@item src/graph.rs :: const DRAIN_COLOR
const DRAIN_COLOR: & /*! 'static !*/ str = "lightpink";
//@end
//@item src/graph.rs :: const FAUCET_COLOR
const FAUCET_COLOR: & /*! 'static !*/ str = "darkseagreen1";
//@end
//@item src/graph.rs :: const JUNCTION_COLOR
const JUNCTION_COLOR: & /*! 'static !*/ str = "papayawhip";
//@end
//@item src/graph.rs :: const LAUNCH_COLOR
const LAUNCH_COLOR: & /*! 'static !*/ str = "lightblue";
//@end

pub open spec fn letter(ct: ComponentType) -> Seq<char> { match ct { ComponentType::Buffer => "b"@, ComponentType::Drain => "d"@, ComponentType::Faucet => "f"@, ComponentType::Junction => "j"@, ComponentType::Launch => "l"@, ComponentType::Regulator => "r"@ } }
pub open spec fn shape(ct: ComponentType) -> Seq<char> { match ct { ComponentType::Buffer => "invhouse"@, ComponentType::Drain => "invtrapezium"@, ComponentType::Faucet => "trapezium"@, ComponentType::Junction => "oval"@, ComponentType::Launch => "box"@, ComponentType::Regulator => "house"@ } }
pub closed spec fn color(ct: ComponentType) -> Seq<char> { match ct { ComponentType::Buffer => BUFFER_COLOR@, ComponentType::Drain => DRAIN_COLOR@, ComponentType::Faucet => FAUCET_COLOR@, ComponentType::Junction => JUNCTION_COLOR@, ComponentType::Launch => LAUNCH_COLOR@, ComponentType::Regulator => REGULATOR_COLOR@ } }
pub open spec fn is_id(n: NodeId, ct: ComponentType, name: Seq<char>) -> bool { n.1 is None && plain(n.0, letter(ct) + "_"@ + name) }
/// a node of its type, under its name
pub open spec fn is_node(n: Node, ct: ComponentType, name: Seq<char>) -> bool {
    is_id(n.id, ct, name) && n.attributes@.len() == 4 && attr_is(n.attributes@[0], "label"@, name) && attr_is(n.attributes@[1], "style"@, "filled"@)
        && attr_is(n.attributes@[2], "shape"@, shape(ct)) && attr_is(n.attributes@[3], "fillcolor"@, color(ct))
}
pub open spec fn is_edge(s: Stmt, l: Line) -> bool {
    &&& s is Edge && s->Edge_0.ty is Pair
    &&& ({ let t = s->Edge_0.ty; t->Pair_0 is N && t->Pair_1 is N && is_id(t->Pair_0->N_0, l.src.ct, l.src.name) && is_id(t->Pair_1->N_0, l.dst.ct, l.dst.name) })
    &&& s->Edge_0.attributes@.len() == 1 && attr_is(s->Edge_0.attributes@[0], "label"@, if l.via is Out { "\"\""@ } else { l.via.shown_dbg() })
}
/// a node of something that is mentioned
pub open spec fn known(m: Map<ComponentType, Vec<&str>>, n: Node) -> bool { exists|ct: ComponentType, i: int| m.contains_key(ct) && 0 <= i < m[ct]@.len() && #[trigger] is_node(n, ct, m[ct]@[i]@) }
/// an attribute, or a node of something that is mentioned
pub open spec fn plainly(m: Map<ComponentType, Vec<&str>>, s: Stmt) -> bool { s is Attribute || (s is Node && known(m, s->Node_0)) }
/// ... or a group of such
pub open spec fn sound(m: Map<ComponentType, Vec<&str>>, s: Stmt) -> bool { plainly(m, s) || (s is Subgraph && forall|j: int| 0 <= j < s->Subgraph_0.stmts@.len() ==> plainly(m, #[trigger] s->Subgraph_0.stmts@[j])) }
pub open spec fn all_sound(m: Map<ComponentType, Vec<&str>>, s: Seq<Stmt>) -> bool { forall|i: int| 0 <= i < s.len() ==> sound(m, #[trigger] s[i]) }
pub open spec fn holds(s: Stmt, n: Node) -> bool { s == Stmt::Node(n) || (s is Subgraph && exists|j: int| 0 <= j < s->Subgraph_0.stmts@.len() && #[trigger] s->Subgraph_0.stmts@[j] == Stmt::Node(n)) }
/// the node is among the statements or in one of their groups
pub open spec fn has(s: Seq<Stmt>, n: Node) -> bool { exists|i: int| 0 <= i < s.len() && holds(#[trigger] s[i], n) }
pub open spec fn has_for(s: Seq<Stmt>, ct: ComponentType, name: Seq<char>) -> bool { exists|n: Node| #[trigger] has(s, n) && is_node(n, ct, name) }
proof fn lemma_known(cm: Map<ComponentType, Vec<&str>>, ct: ComponentType, j: int, n: Node) requires cm.contains_key(ct), 0 <= j < cm[ct]@.len(), is_node(n, ct, cm[ct]@[j]@) ensures known(cm, n) {}
/// every node filed under some set is one of what is mentioned
pub open spec fn nodes_known(cm: Map<ComponentType, Vec<&str>>, m: Map<Seq<char>, Vec<Node>>) -> bool { forall|k: Seq<char>, i: int| #![trigger m[k]@[i]] m.contains_key(k) && 0 <= i < m[k]@.len() ==> known(cm, m[k]@[i]) }
pub open spec fn filed(m: Map<Seq<char>, Vec<Node>>, ct: ComponentType, name: Seq<char>) -> bool { exists|k: Seq<char>, i: int| #![trigger m[k]@[i]] m.contains_key(k) && 0 <= i < m[k]@.len() && is_node(m[k]@[i], ct, name) }
pub proof fn lemma_filed(cm: Map<ComponentType, Vec<&str>>, m0: Map<Seq<char>, Vec<Node>>, m1: Map<Seq<char>, Vec<Node>>, k: Seq<char>, n: Node)
    requires nodes_known(cm, m0), known(cm, n), m1 == m0.insert(k, m1[k]), m1[k]@ == (if m0.contains_key(k) { m0[k]@.push(n) } else { seq![n] })
    ensures nodes_known(cm, m1), forall|ct: ComponentType, name: Seq<char>| #[trigger] filed(m0, ct, name) ==> filed(m1, ct, name), forall|ct: ComponentType, name: Seq<char>| is_node(n, ct, name) ==> #[trigger] filed(m1, ct, name)
{
    assert forall|ct: ComponentType, name: Seq<char>| #[trigger] filed(m0, ct, name) implies filed(m1, ct, name) by {
        let (j, i) = choose|j: Seq<char>, i: int| #![trigger m0[j]@[i]] m0.contains_key(j) && 0 <= i < m0[j]@.len() && is_node(m0[j]@[i], ct, name);
        assert(m1[j]@[i] == m0[j]@[i]);
    }
    assert forall|ct: ComponentType, name: Seq<char>| is_node(n, ct, name) implies #[trigger] filed(m1, ct, name) by { assert(m1[k]@[m1[k]@.len() - 1] == n); }
    assert forall|j: Seq<char>, i: int| #![trigger m1[j]@[i]] m1.contains_key(j) && 0 <= i < m1[j]@.len() implies known(cm, m1[j]@[i]) by { if m0.contains_key(j) && i < m0[j]@.len() { assert(m0[j]@[i] == m1[j]@[i]); } }
}
pub closed spec fn parts_sound(cm: Map<ComponentType, Vec<&str>>, p: FrontAndBack<Stmt>) -> bool { all_sound(cm, p.front@) && all_sound(cm, p.middle@) && all_sound(cm, p.back@) }
pub closed spec fn parts_have(p: FrontAndBack<Stmt>, n: Node) -> bool { has(p.front@, n) || has(p.middle@, n) || has(p.back@, n) }
pub proof fn lemma_has_left(s: Seq<Stmt>, t: Seq<Stmt>, n: Node) requires has(s, n) ensures has(s + t, n)
{ let i = choose|i: int| 0 <= i < s.len() && holds(#[trigger] s[i], n); assert((s + t)[i] == s[i]); }
pub proof fn lemma_has_right(s: Seq<Stmt>, t: Seq<Stmt>, n: Node) requires has(t, n) ensures has(s + t, n)
{ let i = choose|i: int| 0 <= i < t.len() && holds(#[trigger] t[i], n); assert((s + t)[s.len() + i] == t[i]); }
pub proof fn lemma_sound_join(cm: Map<ComponentType, Vec<&str>>, s: Seq<Stmt>, t: Seq<Stmt>) requires all_sound(cm, s), all_sound(cm, t) ensures all_sound(cm, s + t)
{ assert forall|i: int| 0 <= i < (s + t).len() implies sound(cm, #[trigger] (s + t)[i]) by { if i < s.len() { assert((s + t)[i] == s[i]); } else { assert((s + t)[i] == t[i - s.len()]); } } }
proof fn lemma_parts_have(a0: FrontAndBack<Stmt>, a1: FrontAndBack<Stmt>, f: Seq<Stmt>, m: Seq<Stmt>, b: Seq<Stmt>, n: Node)
    requires a1.front@ == a0.front@ + f, a1.middle@ == a0.middle@ + m, a1.back@ == a0.back@ + b, parts_have(a0, n) || has(f, n) || has(m, n) || has(b, n)
    ensures parts_have(a1, n)
{
    if has(a0.front@, n) { lemma_has_left(a0.front@, f, n); }
    if has(a0.middle@, n) { lemma_has_left(a0.middle@, m, n); }
    if has(a0.back@, n) { lemma_has_left(a0.back@, b, n); }
    if has(f, n) { lemma_has_right(a0.front@, f, n); }
    if has(m, n) { lemma_has_right(a0.middle@, m, n); }
    if has(b, n) { lemma_has_right(a0.back@, b, n); }
}
/// one more set of nodes is drawn: f, m or b are added to the parts, and hold its nodes
proof fn lemma_parts(cm: Map<ComponentType, Vec<&str>>, a0: FrontAndBack<Stmt>, a1: FrontAndBack<Stmt>, f: Seq<Stmt>, m: Seq<Stmt>, b: Seq<Stmt>, gr: Seq<(String, Vec<Node>)>, e0: int)
    requires 0 <= e0 < gr.len(), parts_sound(cm, a0), all_sound(cm, f), all_sound(cm, m), all_sound(cm, b),
        a1.front@ == a0.front@ + f, a1.middle@ == a0.middle@ + m, a1.back@ == a0.back@ + b,
        forall|e: int, i: int| #![trigger gr[e].1@[i]] 0 <= e < e0 && 0 <= i < gr[e].1@.len() ==> parts_have(a0, gr[e].1@[i]),
        forall|i: int| 0 <= i < gr[e0].1@.len() ==> has(f, #[trigger] gr[e0].1@[i]) || has(m, gr[e0].1@[i]) || has(b, gr[e0].1@[i])
    ensures parts_sound(cm, a1), forall|e: int, i: int| #![trigger gr[e].1@[i]] 0 <= e < e0 + 1 && 0 <= i < gr[e].1@.len() ==> parts_have(a1, gr[e].1@[i])
{
    lemma_sound_join(cm, a0.front@, f); lemma_sound_join(cm, a0.middle@, m); lemma_sound_join(cm, a0.back@, b);
    assert forall|e: int, i: int| #![trigger gr[e].1@[i]] 0 <= e < e0 + 1 && 0 <= i < gr[e].1@.len() implies parts_have(a1, gr[e].1@[i]) by { lemma_parts_have(a0, a1, f, m, b, gr[e].1@[i]); }
}
proof fn lemma_parts_append(cm: Map<ComponentType, Vec<&str>>, a0: FrontAndBack<Stmt>, a1: FrontAndBack<Stmt>, sts: Seq<Stmt>, gr: Seq<(String, Vec<Node>)>, e0: int)
    requires 0 <= e0 < gr.len(), parts_sound(cm, a0), a1.front@ == a0.front@, a1.middle@ == a0.middle@ + sts, a1.back@ == a0.back@,
        forall|e: int, i: int| #![trigger gr[e].1@[i]] 0 <= e < e0 && 0 <= i < gr[e].1@.len() ==> parts_have(a0, gr[e].1@[i]),
        sts.len() == gr[e0].1@.len(), forall|i: int| 0 <= i < sts.len() ==> #[trigger] sts[i] == Stmt::Node(gr[e0].1@[i]),
        forall|i: int| 0 <= i < gr[e0].1@.len() ==> known(cm, #[trigger] gr[e0].1@[i])
    ensures parts_sound(cm, a1), forall|e: int, i: int| #![trigger gr[e].1@[i]] 0 <= e < e0 + 1 && 0 <= i < gr[e].1@.len() ==> parts_have(a1, gr[e].1@[i])
{
    let z = Seq::<Stmt>::empty();
    assert(a0.front@ + z =~= a0.front@); assert(a0.back@ + z =~= a0.back@);
    assert forall|i: int| 0 <= i < sts.len() implies sound(cm, #[trigger] sts[i]) by { assert(known(cm, gr[e0].1@[i])); }
    assert forall|i: int| 0 <= i < gr[e0].1@.len() implies has(sts, #[trigger] gr[e0].1@[i]) by { assert(holds(sts[i], gr[e0].1@[i])); }
    lemma_parts(cm, a0, a1, z, sts, z, gr, e0);
}
proof fn lemma_parts_push(cm: Map<ComponentType, Vec<&str>>, a0: FrontAndBack<Stmt>, a1: FrontAndBack<Stmt>, sub: Stmt, gr: Seq<(String, Vec<Node>)>, e0: int)
    requires 0 <= e0 < gr.len(), parts_sound(cm, a0),
        (a1.front@ == a0.front@.push(sub) && a1.middle@ == a0.middle@ && a1.back@ == a0.back@) || (a1.front@ == a0.front@ && a1.middle@ == a0.middle@.push(sub) && a1.back@ == a0.back@) || (a1.front@ == a0.front@ && a1.middle@ == a0.middle@ && a1.back@ == a0.back@.push(sub)),
        forall|e: int, i: int| #![trigger gr[e].1@[i]] 0 <= e < e0 && 0 <= i < gr[e].1@.len() ==> parts_have(a0, gr[e].1@[i]),
        sub is Subgraph, sub->Subgraph_0.stmts@.len() == gr[e0].1@.len() + 2, sub->Subgraph_0.stmts@[0] is Attribute, sub->Subgraph_0.stmts@[1] is Attribute,
        forall|i: int| 0 <= i < gr[e0].1@.len() ==> sub->Subgraph_0.stmts@[i + 2] == Stmt::Node(#[trigger] gr[e0].1@[i]),
        forall|i: int| 0 <= i < gr[e0].1@.len() ==> known(cm, #[trigger] gr[e0].1@[i])
    ensures parts_sound(cm, a1), forall|e: int, i: int| #![trigger gr[e].1@[i]] 0 <= e < e0 + 1 && 0 <= i < gr[e].1@.len() ==> parts_have(a1, gr[e].1@[i])
{
    let z = Seq::<Stmt>::empty();
    let o = seq![sub];
    let st = sub->Subgraph_0.stmts@;
    assert(a0.front@ + z =~= a0.front@); assert(a0.back@ + z =~= a0.back@); assert(a0.middle@ + z =~= a0.middle@);
    assert(a0.front@ + o =~= a0.front@.push(sub)); assert(a0.back@ + o =~= a0.back@.push(sub)); assert(a0.middle@ + o =~= a0.middle@.push(sub));
    assert forall|j: int| 0 <= j < st.len() implies plainly(cm, #[trigger] st[j]) by { if j >= 2 { assert(st[j - 2 + 2] == Stmt::Node(gr[e0].1@[j - 2])); assert(known(cm, gr[e0].1@[j - 2])); } }
    assert(sound(cm, sub)); assert(all_sound(cm, o));
    assert forall|i: int| 0 <= i < gr[e0].1@.len() implies has(o, #[trigger] gr[e0].1@[i]) by { assert(st[i + 2] == Stmt::Node(gr[e0].1@[i])); assert(holds(o[0], gr[e0].1@[i])); }
    if a1.front@ == a0.front@.push(sub) && a1.middle@ == a0.middle@ && a1.back@ == a0.back@ { lemma_parts(cm, a0, a1, o, z, z, gr, e0); }
    else if a1.middle@ == a0.middle@.push(sub) && a1.front@ == a0.front@ { lemma_parts(cm, a0, a1, z, o, z, gr, e0); }
    else { lemma_parts(cm, a0, a1, z, z, o, gr, e0); }
}
pub open spec fn at<K: View, V>(es: Seq<(&K, &V)>, e: int, k: K::V, v: V) -> bool { 0 <= e < es.len() && es[e].0@ == k && *es[e].1 == v }
proof fn lemma_entries<K: View, V>(es: Seq<(&K, &V)>, m: Map<K::V, V>)
    requires entries::<K, V>(Seq::new(es.len(), |i: int| es[i].0@), m), forall|i: int| 0 <= i < es.len() ==> *((#[trigger] es[i]).1) == m[es[i].0@]
    ensures forall|e: int| 0 <= e < es.len() ==> m.contains_key(es[e].0@) && *(#[trigger] es[e]).1 == m[es[e].0@], forall|k: K::V| #[trigger] m.contains_key(k) ==> exists|e: int| #[trigger] at(es, e, k, m[k])
{
    let ks = Seq::new(es.len(), |i: int| es[i].0@);
    assert forall|e: int| 0 <= e < es.len() implies m.contains_key(es[e].0@) && *(#[trigger] es[e]).1 == m[es[e].0@] by { assert(m.contains_key(ks[e])); }
    assert forall|k: K::V| #[trigger] m.contains_key(k) implies exists|e: int| #[trigger] at(es, e, k, m[k]) by { let e = choose|e: int| 0 <= e < ks.len() && #[trigger] ks[e] == k; assert(at(es, e, k, m[k])); }
}
pub open spec fn filed_at(gr: Seq<(String, Vec<Node>)>, e: int, i: int, n: Node) -> bool { 0 <= e < gr.len() && 0 <= i < gr[e].1@.len() && gr[e].1@[i] == n }
proof fn lemma_groups(cm: Map<ComponentType, Vec<&str>>, gr: Seq<(String, Vec<Node>)>, m: Map<Seq<char>, Vec<Node>>)
    requires entries::<String, Vec<Node>>(Seq::new(gr.len(), |i: int| gr[i].0@), m), forall|i: int| 0 <= i < gr.len() ==> (#[trigger] gr[i]).1 == m[gr[i].0@], nodes_known(cm, m)
    ensures forall|e: int, i: int| 0 <= e < gr.len() && 0 <= i < gr[e].1@.len() ==> known(cm, #[trigger] gr[e].1@[i]),
        forall|ct: ComponentType, name: Seq<char>| #[trigger] filed(m, ct, name) ==> exists|e: int, i: int, n: Node| #[trigger] filed_at(gr, e, i, n) && is_node(n, ct, name)
{
    let ks = Seq::new(gr.len(), |i: int| gr[i].0@);
    assert forall|e: int, i: int| 0 <= e < gr.len() && 0 <= i < gr[e].1@.len() implies known(cm, #[trigger] gr[e].1@[i]) by { assert(m.contains_key(ks[e])); assert(gr[e].1 == m[gr[e].0@]); assert(m[gr[e].0@]@[i] == gr[e].1@[i]); }
    assert forall|ct: ComponentType, name: Seq<char>| #[trigger] filed(m, ct, name) implies exists|e: int, i: int, n: Node| #[trigger] filed_at(gr, e, i, n) && is_node(n, ct, name) by {
        let (k, i) = choose|k: Seq<char>, i: int| #![trigger m[k]@[i]] m.contains_key(k) && 0 <= i < m[k]@.len() && is_node(m[k]@[i], ct, name);
        let e = choose|e: int| 0 <= e < ks.len() && #[trigger] ks[e] == k;
        assert(gr[e].1 == m[gr[e].0@]); assert(filed_at(gr, e, i, m[k]@[i]));
    }
}
/// all that is filed is drawn
proof fn lemma_top(cm: Map<ComponentType, Vec<&str>>, gr: Seq<(String, Vec<Node>)>, m: Map<Seq<char>, Vec<Node>>, p: FrontAndBack<Stmt>, top: Seq<Stmt>)
    requires top == p.front@ + p.middle@ + p.back@, parts_sound(cm, p), forall|e: int, i: int| #![trigger gr[e].1@[i]] 0 <= e < gr.len() && 0 <= i < gr[e].1@.len() ==> parts_have(p, gr[e].1@[i]),
        forall|ct: ComponentType, name: Seq<char>| #[trigger] filed(m, ct, name) ==> exists|e: int, i: int, n: Node| #[trigger] filed_at(gr, e, i, n) && is_node(n, ct, name),
        forall|ct: ComponentType, i: int| #![trigger cm[ct]@[i]] cm.contains_key(ct) && 0 <= i < cm[ct]@.len() ==> filed(m, ct, cm[ct]@[i]@)
    ensures all_sound(cm, top), forall|ct: ComponentType, i: int| #![trigger cm[ct]@[i]] cm.contains_key(ct) && 0 <= i < cm[ct]@.len() ==> has_for(top, ct, cm[ct]@[i]@)
{
    lemma_sound_join(cm, p.front@, p.middle@); lemma_sound_join(cm, p.front@ + p.middle@, p.back@);
    assert forall|ct: ComponentType, i: int| #![trigger cm[ct]@[i]] cm.contains_key(ct) && 0 <= i < cm[ct]@.len() implies has_for(top, ct, cm[ct]@[i]@) by {
        assert(filed(m, ct, cm[ct]@[i]@));
        let (e, j, n) = choose|e: int, j: int, n: Node| #[trigger] filed_at(gr, e, j, n) && is_node(n, ct, cm[ct]@[i]@);
        assert(parts_have(p, gr[e].1@[j]));
        if has(p.front@, n) { lemma_has_left(p.front@, p.middle@, n); lemma_has_left(p.front@ + p.middle@, p.back@, n); }
        else if has(p.middle@, n) { lemma_has_right(p.front@, p.middle@, n); lemma_has_left(p.front@ + p.middle@, p.back@, n); }
        else { lemma_has_right(p.front@ + p.middle@, p.back@, n); }
        assert(has(top, n));
    }
}
/// what is drawn: nodes of what is mentioned, all of them, and then one edge per connection
pub open spec fn drawn(m: Map<ComponentType, Vec<&str>>, ls: Seq<Line>, s: Seq<Stmt>) -> bool {
    let k = s.len() - ls.len();
    &&& k >= 0 && all_sound(m, s.take(k))
    &&& forall|ct: ComponentType, i: int| #![trigger m[ct]@[i]] m.contains_key(ct) && 0 <= i < m[ct]@.len() ==> has_for(s.take(k), ct, m[ct]@[i]@)
    &&& forall|i: int| 0 <= i < ls.len() ==> is_edge(s[k + i], #[trigger] ls[i])
}
//@item src/graph.rs :: fn get_diagram > fn component_type_to_letter
fn component_type_to_letter(ct: &ComponentType) -> /*@ (r: @*/ &str /*@ ) ensures r@ == letter(*ct) @*/ {
        match ct {
            ComponentType::Buffer => "b",
            ComponentType::Drain => "d",
            ComponentType::Faucet => "f",
            ComponentType::Junction => "j",
            ComponentType::Launch => "l",
            ComponentType::Regulator => "r",
        }
    }
//@end
//@item src/graph.rs :: fn get_diagram > fn get_node_shape
fn get_node_shape(component_type: &ComponentType) -> /*@ (r: @*/ Attribute /*@ ) ensures attr_is(r, "shape"@, shape(*component_type)) @*/ {
        match component_type {
            ComponentType::Faucet => attr!("shape","trapezium"),
            ComponentType::Drain => attr!("shape","invtrapezium"),
            ComponentType::Junction => attr!("shape","oval"),
            ComponentType::Buffer => attr!("shape","invhouse"),
            ComponentType::Launch => attr!("shape","box"),
            ComponentType::Regulator => attr!("shape","house"),
        }
    }
//@end
//@item src/graph.rs :: fn get_diagram > fn get_node_color
fn get_node_color(component_type: &ComponentType) -> /*@ (r: @*/ Attribute /*@ ) ensures attr_is(r, "fillcolor"@, color(*component_type)) @*/ {
        match component_type {
            ComponentType::Faucet => attr!("fillcolor",FAUCET_COLOR),
            ComponentType::Drain => attr!("fillcolor",DRAIN_COLOR),
            ComponentType::Junction => attr!("fillcolor",JUNCTION_COLOR),
            ComponentType::Buffer => attr!("fillcolor",BUFFER_COLOR),
            ComponentType::Regulator => attr!("fillcolor",REGULATOR_COLOR),
            ComponentType::Launch => attr!("fillcolor",LAUNCH_COLOR),
        }
    }
//@end
//@item src/graph.rs :: fn get_diagram > fn node_id
fn node_id(component_type: &ComponentType, name: &str) -> /*@ (r: @*/ NodeId /*@ ) ensures is_id(r, *component_type, name@) @*/ {
        /*! let res0 = !*/ NodeId(Id::Plain(format!("{}_{}", component_type_to_letter(component_type), name)), None) /*! ; !*/
        /*@ proof { assert(res0.0->Plain_0@ =~= letter(*component_type) + "_"@ + name@); } @*/ /*! res0 !*/
    }
//@end
//@item src/graph.rs :: fn get_diagram > fn get_connection_set_name > fn taker [seq]
fn taker(to_take: &Option<String>) -> String {
            match to_take {
                None => "".to_string(),
                Some(ref_str) => {
                    ref_str.to_owned()
                },
            }
        }
//@end
//@item src/graph.rs :: fn get_diagram > fn get_connection_set_name [seq,nofn]
    fn get_connection_set_name(possible_graph_connection_for_connection_set: Option<&GraphConnection>, component_type: &ComponentType, component_name: &str) -> String {
        fn taker(to_take: &Option<String>) -> String {
            match to_take {
                None => "".to_string(),
                Some(ref_str) => {
                    ref_str.to_owned()
                },
            }
        }
        if let Some(gc) = possible_graph_connection_for_connection_set {
            if (gc.src.1 == component_name) && (gc.src.0 == component_type) {
                return taker(gc.src.2)
            }
            return taker(gc.dst.2)
        }
        "".to_string()
    }
//@end
//@item src/graph.rs :: fn get_diagram [seq,nofn,hoist]
pub fn get_diagram(components: HashMap<&ComponentType, Vec<&str>>, connections: Vec<GraphConnection>) -> /*@ (r: @*/ Subgraph /*@ ) ensures plain(r.id, "diagram"@), drawn(components.m(), lines_of(connections@), r.stmts@) @*/ {
    /*@ hide(parts_sound); hide(parts_have); hide(filed); hide(nodes_known); hide(all_sound); hide(has_for); hide(known); hide(at); let ghost cm = components.m(); let ghost gs = connections@; @*/
    fn component_type_to_letter(ct: &ComponentType) -> &str {
        match ct {
            ComponentType::Buffer => "b",
            ComponentType::Drain => "d",
            ComponentType::Faucet => "f",
            ComponentType::Junction => "j",
            ComponentType::Launch => "l",
            ComponentType::Regulator => "r",
        }
    }
    fn get_node_shape(component_type: &ComponentType) -> Attribute {
        match component_type {
            ComponentType::Faucet => attr!("shape","trapezium"),
            ComponentType::Drain => attr!("shape","invtrapezium"),
            ComponentType::Junction => attr!("shape","oval"),
            ComponentType::Buffer => attr!("shape","invhouse"),
            ComponentType::Launch => attr!("shape","box"),
            ComponentType::Regulator => attr!("shape","house"),
        }
    }
    fn get_node_color(component_type: &ComponentType) -> Attribute {
        match component_type {
            ComponentType::Faucet => attr!("fillcolor",FAUCET_COLOR),
            ComponentType::Drain => attr!("fillcolor",DRAIN_COLOR),
            ComponentType::Junction => attr!("fillcolor",JUNCTION_COLOR),
            ComponentType::Buffer => attr!("fillcolor",BUFFER_COLOR),
            ComponentType::Regulator => attr!("fillcolor",REGULATOR_COLOR),
            ComponentType::Launch => attr!("fillcolor",LAUNCH_COLOR),
        }
    }
    fn node_id(component_type: &ComponentType, name: &str) -> NodeId {
        NodeId(Id::Plain(format!("{}_{}", component_type_to_letter(component_type), name)), None)
    }
    fn get_connection_set_name(possible_graph_connection_for_connection_set: Option<&GraphConnection>, component_type: &ComponentType, component_name: &str) -> String {
        fn taker(to_take: &Option<String>) -> String {
            match to_take {
                None => "".to_string(),
                Some(ref_str) => {
                    ref_str.to_owned()
                },
            }
        }
        if let Some(gc) = possible_graph_connection_for_connection_set {
            if (gc.src.1 == component_name) && (gc.src.0 == component_type) {
                return taker(gc.src.2)
            }
            return taker(gc.dst.2)
        }
        "".to_string()
    }
    let (connection_set_with_faucet, connection_set_with_drain) = connections.iter().fold(
        (HashSet /*! ::<String> !*/ ::new(), HashSet /*! ::<String> !*/ ::new()),
        |(mut acc_faucet, mut acc_drain), connection| {
            match connection {
                GraphConnection { src: (ComponentType::Faucet, _, Some(connection_set)), .. } => {
                    acc_faucet.insert(connection_set.clone());
                    (acc_faucet, acc_drain)
                },
                GraphConnection { dst: (ComponentType::Drain, _, Some(connection_set)), .. } => {
                    acc_drain.insert(connection_set.clone());
                    (acc_faucet, acc_drain)
                },
                _ => (acc_faucet, acc_drain)
            }
        }
    );
    let graph_components: BTreeMap<String, Vec<Node>> = components.iter().fold(
        BTreeMap /*! ::<String, Vec<Node>> !*/ ::new() /*@ let ghost es = src1__@; proof { reveal(nodes_known); lemma_entries::<&ComponentType, Vec<&str>>(es, cm); assert forall|e: int| 0 <= e < es.len() implies #[trigger] es[e].0@ == **es[e].0 by {} } @*/,
        |mut acc, (component_type, component_names)| /*@ invariant it1__.seq() == es, nodes_known(cm, acc1__.m()),
            forall|e: int, i: int| #![trigger es[e].1@[i]] 0 <= e < it1__.index() && 0 <= i < es[e].1@.len() ==> filed(acc1__.m(), **es[e].0, es[e].1@[i]@) @*/ {
            /*@ let ghost e0 = it1__.index() as int; let ghost ct = **component_type; let ghost ns = component_names@; @*/
            for component_name in /*@ jt: @*/ component_names /*@
                invariant jt.seq().len() == ns.len(), forall|i: int| 0 <= i < ns.len() ==> *(#[trigger] jt.seq()[i]) == ns[i], nodes_known(cm, acc.m()),
                    forall|e: int, i: int| #![trigger es[e].1@[i]] 0 <= e < e0 && 0 <= i < es[e].1@.len() ==> filed(acc.m(), **es[e].0, es[e].1@[i]@),
                    forall|i: int| 0 <= i < jt.index() ==> filed(acc.m(), ct, #[trigger] ns[i]@) @*/ {
                /*@ let ghost j = jt.index() as int; let ghost m0 = acc.m(); @*/
                let label = component_name;
                let connection_set_graph_connection: Option<&GraphConnection> = connections.iter().find(|connection| {
                    (
                        (connection.src.1 == *component_name) && (connection.src.0 == *component_type)
                    ) || (
                        (connection.dst.1 == *component_name) && (connection.dst.0 == *component_type)
                    )
                });
                acc.entry(get_connection_set_name(connection_set_graph_connection, component_type, component_name)).or_insert_with(Vec::new).push(
                    Node::new(
                        node_id(component_type, component_name),
                        vec![attr!("label", label), attr!("style", "filled"), get_node_shape(component_type), get_node_color(component_type)]
                    )
                );
                /*@ proof {
                    let n = gk0__.1;
                    assert(is_node(n, ct, ns[j]@)); assert(cm.contains_key(ct) && cm[ct]@[j] == ns[j]); lemma_known(cm, ct, j, n);
                    lemma_filed(cm, m0, acc.m(), gk0__.0@, n);
                    assert(filed(acc.m(), ct, ns[j]@));
                } @*/
            }
            acc
        } /*@ proof { assert forall|ct: ComponentType, i: int| #![trigger cm[ct]@[i]] cm.contains_key(ct) && 0 <= i < cm[ct]@.len() implies filed(acc1__.m(), ct, cm[ct]@[i]@) by {
            reveal(at); let e = choose|e: int| #[trigger] at(es, e, ct, cm[ct]); assert(es[e].1@[i] == cm[ct]@[i]); } } @*/
    );
    /*@ let ghost gm = graph_components.m(); let ghost mut gr: Seq<(String, Vec<Node>)> = Seq::empty(); let ghost mut gp: FrontAndBack<Stmt> = arbitrary(); @*/
    struct FrontAndBack<T> {
        front: Vec<T>,
        middle: Vec<T>,
        back: Vec<T>,
    }
    impl<T> FrontAndBack<T> {
        fn append(&mut self, mut a: Vec<T>) /*@ ensures final(self).front@ == old(self).front@, final(self).middle@ == old(self).middle@ + a@, final(self).back@ == old(self).back@ @*/ {
            self.middle.append(&mut a);
        }
        fn push_back(&mut self, a: T) /*@ ensures final(self).front@ == old(self).front@, final(self).middle@ == old(self).middle@, final(self).back@ == old(self).back@.push(a) @*/ {
            self.back.push(a);
        }
        fn push_front(&mut self, a: T) /*@ ensures final(self).front@ == old(self).front@.push(a), final(self).middle@ == old(self).middle@, final(self).back@ == old(self).back@ @*/ {
            self.front.push(a);
        }
        fn push_middle(&mut self, a: T) /*@ ensures final(self).front@ == old(self).front@, final(self).middle@ == old(self).middle@.push(a), final(self).back@ == old(self).back@ @*/ {
            self.middle.push(a);
        }
        fn ret(&mut self) -> /*@ (r: @*/ Vec<T> /*@ ) ensures r@ == old(self).front@ + old(self).middle@ + old(self).back@ @*/ {
            let mut v = vec![];
            std::mem::swap(&mut v, &mut self.front);
            v.append(&mut self.middle);
            v.append(&mut self.back);
            v
        }
        fn new() -> /*@ (r: @*/ FrontAndBack<T> /*@ ) ensures r.front@.len() == 0, r.middle@.len() == 0, r.back@.len() == 0 @*/ {
            FrontAndBack { front: vec![], middle: vec![], back: vec![] }
        }
    }
    let mut stmts: Vec<Stmt> = graph_components.into_iter().fold(FrontAndBack::new() /*@ proof { gr = src2__@; lemma_groups(cm, gr, gm); reveal(parts_sound); reveal(all_sound); } @*/, |mut acc, (connection_set, nodes)| /*@ invariant it2__.seq() == gr, parts_sound(cm, acc2__),
            forall|e: int, i: int| #![trigger gr[e].1@[i]] 0 <= e < it2__.index() && 0 <= i < gr[e].1@.len() ==> parts_have(acc2__, gr[e].1@[i]) @*/ {
        /*@ let ghost a0 = acc; let ghost e0 = it2__.index() as int; let ghost ns = nodes@; @*/
        let title = format!("\"{}:\"", connection_set);
        let rank = if connection_set_with_faucet.contains(&connection_set) { "min" }
            else if connection_set_with_drain.contains(&connection_set) { "max" }
            else { "same" };
        let mut stmts = vec![Stmt::Attribute(attr!("label", title)),Stmt::Attribute(attr!("rank", rank))];
        let stmts_to_add: Vec<Stmt> = nodes.into_iter().map( /*! |n: Node| -> (o: Stmt) ensures o == Stmt::Node(n) { !*/ Stmt::Node /*! (n) } !*/ ).collect();
        /*@ let ghost sts = stmts_to_add@; proof { assert forall|i: int| 0 <= i < ns.len() implies known(cm, #[trigger] ns[i]) by { assert(gr[e0].1@[i] == ns[i]); } } @*/
        if connection_set.is_empty() {
            acc.append(stmts_to_add);
            /*@ proof { lemma_parts_append(cm, a0, acc, sts, gr, e0); } @*/
            return acc
        }
        stmts.append(&mut stmts_to_add.into_iter().collect::<Vec<Stmt>>());
        let subgraph = Stmt::Subgraph(Subgraph {
            id: id!(format!("cluster_nodes_{}", connection_set)),
            stmts
        });
        /*@ let ghost sub = subgraph; proof { assert forall|i: int| 0 <= i < ns.len() implies sub->Subgraph_0.stmts@[i + 2] == Stmt::Node(#[trigger] gr[e0].1@[i]) by { assert(sts[i] == Stmt::Node(ns[i])); } } @*/
        if connection_set_with_faucet.contains(&connection_set) {
            acc.push_front(subgraph);
        } else if connection_set_with_drain.contains(&connection_set) {
            acc.push_back(subgraph);
        } else {
            acc.push_middle(subgraph);
        }
        /*@ proof { lemma_parts_push(cm, a0, acc, sub, gr, e0); } @*/
        acc
    } /*@ proof { gp = acc2__; } @*/ ).ret();
    /*@ let ghost top = stmts@; proof { lemma_top(cm, gr, gm, gp, top); } @*/
    /*@ let ghost mut gv: Seq<&GraphConnection> = Seq::empty(); @*/
    let mut edgs /*! : Vec<Stmt> !*/ = /*! ({ let v0 = !*/ connections.iter() /*! ; !*/ /*@ proof { gv = v0@; } @*/ /*! v0 }) !*/ .map(|gc /*@ : &GraphConnection @*/ | /*@ -> (o: Stmt) ensures is_edge(o, line_of(*gc)) @*/ {
        let mut lbl = format!("{:?}", gc.via);
        if gc.via == &OutputPort::Out {
            lbl = "\"\"".to_string()
        }
        Stmt::Edge(Edge {
            ty: EdgeTy::Pair(Vertex::N(node_id(gc.src.0, gc.src.1)), Vertex::N(node_id(gc.dst.0, gc.dst.1))),
            attributes: vec![attr!("label", lbl)]
        })
    }).collect();
    /*@ let ghost es = edgs@; let ghost ls = lines_of(gs); @*/
    stmts.append(&mut edgs);
    /*@ proof {
        assert(stmts@.take(stmts@.len() - ls.len()) =~= top);
        assert forall|i: int| 0 <= i < ls.len() implies is_edge(stmts@[top.len() + i], #[trigger] ls[i]) by { assert(stmts@[top.len() + i] == es[i]); assert(*gv[i] == gs[i]); assert(line_of(gs[i]) == ls[i]); assert(is_edge(es[i], line_of(gs[i]))); }
    } @*/
    Subgraph {
        id: id!("diagram"),
        stmts: stmts.into_iter().collect::<Vec<Stmt>>()
    }
}
//@end
/// a directed graph of these parts
pub open spec fn is_graph(g: Graph, parts: Seq<Subgraph>) -> bool {
    g is DiGraph && g->DiGraph_stmts@.len() == parts.len() + 2 && g->DiGraph_stmts@[0] is Attribute && g->DiGraph_stmts@[1] is Attribute
        && forall|i: int| 0 <= i < parts.len() ==> g->DiGraph_stmts@[i + 2] == Stmt::Subgraph(#[trigger] parts[i])
}
/// ASSUMED: the legend is always the same drawing
pub uninterp spec fn legend(border: bool) -> Subgraph;
#[verifier::external_body] pub fn get_legend(border: bool) -> (r: Subgraph) ensures r == legend(border) { unimplemented!() }
//@item src/graph.rs :: fn get_graph [seq]
pub fn get_graph(subgraph: Vec<Subgraph>) -> /*@ (r: @*/ String /*@ ) ensures exists|g: Graph| r@ == #[trigger] printed(g) && is_graph(g, subgraph@) @*/ {
    let mut stmts: Vec<Stmt> = vec![Stmt::Attribute(attr!("labeljust","l")),Stmt::Attribute(attr!("newrank","true"))];
    let mut more_stmts /*! : Vec<Stmt> !*/ = subgraph.into_iter().map(|sg /*@ : Subgraph @*/ | /*@ -> (o: Stmt) ensures o == Stmt::Subgraph(sg) @*/ { Stmt::Subgraph(sg) }).collect();
    /*@ let ghost ms = more_stmts@; @*/
    stmts.append(&mut more_stmts);

    let graph = Graph::DiGraph {
        id: Id::Plain("g_get_graph".to_string()),
        strict: true,
        stmts
    };

    let mut ctx = PrinterContext::default();
    /*@ proof { assert forall|i: int| 0 <= i < subgraph@.len() implies graph->DiGraph_stmts@[i + 2] == Stmt::Subgraph(#[trigger] subgraph@[i]) by { assert(graph->DiGraph_stmts@[i + 2] == ms[i]); } assert(is_graph(graph, subgraph@)); } @*/
    graph.print(&mut ctx)
}
//@end
}
}
