// Rewriting the connections for running: pairs, junctions, exit spies.
pub mod config_manip {
use vstd::prelude::*;
use crate::connectable::*;
use crate::coll::*;
use crate::config::*;
use crate::fmt::*;
use crate::std_shim as std;
verus!{
pub open spec fn numbered(o: Seq<char>, i: int) -> Seq<char> { o + "_"@ + decimal(i) }
proof fn lemma_digit_inj(a: int, b: int) requires 0 <= a < 10, 0 <= b < 10, digit(a) == digit(b) ensures a == b { }
proof fn lemma_digits_inj(a: nat, b: nat) requires digits(a) == digits(b) ensures a == b decreases a {
    assert(digits(a).len() == digits(b).len());
    if a >= 10 { assert(digits(a).last() == digit((a % 10) as int)); assert(digits(a).drop_last() == digits(a / 10)); lemma_digits_some(a / 10); assert(digits(a).len() >= 2); }
    if b >= 10 { assert(digits(b).last() == digit((b % 10) as int)); assert(digits(b).drop_last() == digits(b / 10)); lemma_digits_some(b / 10); assert(digits(b).len() >= 2); }
    if a >= 10 && b >= 10 { lemma_digits_inj(a / 10, b / 10); lemma_digit_inj((a % 10) as int, (b % 10) as int); assert(a == 10 * (a / 10) + a % 10); assert(b == 10 * (b / 10) + b % 10); }
    else if a < 10 && b < 10 { assert(digits(a) == seq![digit(a as int)]); assert(digits(b) == seq![digit(b as int)]); assert(digits(a)[0] == digit(a as int)); assert(digits(b)[0] == digit(b as int)); lemma_digit_inj(a as int, b as int); }
    else if a >= 10 { assert(digits(b).len() == 1); } else { assert(digits(a).len() == 1); }
}
proof fn lemma_digits_some(a: nat) ensures digits(a).len() > 0 decreases a { if a >= 10 { lemma_digits_some(a / 10); } }
proof fn lemma_numbered_inj(o: Seq<char>, i: int, j: int) requires i >= 0, j >= 0, numbered(o, i) == numbered(o, j) ensures i == j {
    let p = o + "_"@;
    assert(numbered(o, i).skip(p.len() as int) == decimal(i));
    assert(numbered(o, j).skip(p.len() as int) == decimal(j));
    lemma_digits_inj(i as nat, j as nat);
}
pub open spec fn fresh(o: Seq<char>, s: Set<Seq<char>>, r: Seq<char>) -> bool { !s.contains(r) && exists|i: int| i >= 1 && r == #[trigger] numbered(o, i) }
//@item src/config_manip.rs :: fn generate_new_key [seq]
fn generate_new_key(original_key: &str, existing_keys: &HashSet<String>) -> /*@ (r: @*/ String /*@ ) ensures fresh(original_key@, existing_keys.s(), r@) @*/ {
    let mut i /*@: i32@*/ = 1;
    /*@ let ghost mut tried: Set<Seq<char>> = Set::empty(); proof { axiom_few(existing_keys); } @*/
    loop /*@ invariant 1 <= i, tried.len() == i - 1, existing_keys.s().len() < 0x7fff_fff0, tried.subset_of(existing_keys.s()), forall|x: Seq<char>| #[trigger] tried.contains(x) ==> exists|j: int| 1 <= j < i && x == #[trigger] numbered(original_key@, j) @*/ {
        let new_key = format!("{}_{}", original_key, i);
        /*@ proof { assert(new_key@ == numbered(original_key@, i as int)); } @*/
        if !existing_keys.contains(&new_key) {
            return new_key;
        }
        /*@ proof {
            if tried.contains(new_key@) { let j = choose|j: int| 1 <= j < i && new_key@ == #[trigger] numbered(original_key@, j); lemma_numbered_inj(original_key@, i as int, j); }
            tried = tried.insert(new_key@);
            vstd::set_lib::lemma_len_subset(tried, existing_keys.s());
        } @*/
        i = i + 1;
    }
}
//@end
//@item src/config_manip.rs :: enum ApartIterator
enum ApartIterator {
    Single(Connection),
    Double(Connection, Connection)
}
//@end
pub open spec fn as_start(c: Connection) -> Connection {
    match c { Connection::MiddleConnection { component_type, component_name, output_port, connection_set, .. } => Connection::StartConnection { component_type, component_name, output_port, connection_set }, _ => c }
}
pub open spec fn as_end(c: Connection) -> Connection {
    match c { Connection::MiddleConnection { component_type, component_name, input_port, connection_set, .. } => Connection::EndConnection { component_type, component_name, input_port, connection_set }, _ => c }
}
/// a list that starts and ends nowhere in between (what the parser makes: C15)
pub open spec fn shaped(s: Seq<Connection>) -> bool {
    s.len() != 1 && (forall|i: int| 0 <= i < s.len() - 1 ==> !((#[trigger] s[i]) is EndConnection)) && (forall|i: int| 1 <= i < s.len() ==> !((#[trigger] s[i]) is StartConnection))
}
pub open spec fn npairs(s: Seq<Connection>) -> int { if s.len() == 0 { 0 } else { s.len() - 1 } }
/// the i-th pair of a list
pub open spec fn pair_of(s: Seq<Connection>, i: int, d: DeserializedConnection) -> bool { d is Connections && list_of(d) == seq![as_start(s[i]), as_end(s[i + 1])] }
spec fn chunked(s: Seq<Connection>, a: Seq<ApartIterator>) -> bool {
    if s.len() == 0 { a.len() == 0 } else if s.len() == 1 { a.len() == 1 && a[0] == ApartIterator::Single(s[0]) }
    else { a.len() == s.len() - 1 && forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] == ApartIterator::Double(s[i], s[i + 1]) }
}
//@item src/config_manip.rs :: fn break_apart_chunker [seq]
fn break_apart_chunker(mut acc: Vec<ApartIterator>, item: Connection) -> /*@ (r: @*/ Vec<ApartIterator> /*@ )
    ensures
        acc@.len() == 0 ==> r@ == seq![ApartIterator::Single(item)],
        acc@.len() > 0 ==> match acc@.last() { ApartIterator::Single(f) => r@ == acc@.drop_last().push(ApartIterator::Double(f, item)), ApartIterator::Double(_, s) => r@ == acc@.push(ApartIterator::Double(s, item)) },
    @*/ {
    /*@ let ghost a0 = acc@; @*/

    let mut to_add = match acc.pop() {
        None => vec![ApartIterator::Single(item)],
        Some(ApartIterator::Single(first_item)) => {
            vec![ApartIterator::Double(first_item, item)]
        },
        Some(ApartIterator::Double(first_item, second_item)) => {

            let new_start = second_item.clone();

            vec![
                ApartIterator::Double(first_item, second_item),
                ApartIterator::Double(new_start, item),
            ]
        }
    };
    acc.append(&mut to_add);
    /*@ proof {
        if a0.len() > 0 { assert(a0 == a0.drop_last().push(a0.last())); match a0.last() { ApartIterator::Single(f) => { assert(acc@ =~= a0.drop_last().push(ApartIterator::Double(f, item))); } ApartIterator::Double(f, s) => { assert(acc@ =~= a0.push(ApartIterator::Double(s, item))); } } }
        else { assert(acc@ =~= seq![ApartIterator::Single(item)]); }
    } @*/
    acc

}
//@end
//@item src/config_manip.rs :: fn break_apart_mapper [seq]
fn break_apart_mapper(item: ApartIterator) -> /*@ (r: @*/ ApartIterator /*@ )
    requires item is Double, !(item->Double_0 is EndConnection), !(item->Double_1 is StartConnection),
    ensures r == ApartIterator::Double(as_start(item->Double_0), as_end(item->Double_1)) @*/ {

    match item {
        ApartIterator::Single(_) => { panic!("break_apart_mapper encountered None"); },
        ApartIterator::Double(start, end) => {
            let new_end = match end {
                Connection::EndConnection { component_type, component_name, input_port, connection_set } => {
                    Connection::EndConnection { component_type, component_name, input_port, connection_set }
                },
                Connection::MiddleConnection { component_type, component_name, input_port, connection_set, ..  } => {
                    Connection::EndConnection { component_type, component_name, input_port, connection_set }
                },
                Connection::StartConnection { .. } => {
                    panic!("Last item in ApartIterator::Double is a StartConnection");
                }
            };

            let new_start = match start {
                Connection::EndConnection {..} => {
                    panic!("Last item in ApartIterator::Double is a EndConnection");
                },
                Connection::MiddleConnection { component_type, component_name , output_port, connection_set, .. } => {
                    Connection::StartConnection { component_type, component_name, output_port, connection_set }
                },
                Connection::StartConnection { component_type, component_name, output_port, connection_set } => {
                    Connection::StartConnection { component_type, component_name, output_port, connection_set }
                }
            };

            ApartIterator::Double(new_start, new_end)

        },
    }

}
//@end
//@item src/config_manip.rs :: fn apart_iterator_to_double_connection [seq]
fn apart_iterator_to_double_connection(ai: ApartIterator) -> /*@ (r: @*/ DeserializedConnection /*@ ) requires ai is Double ensures r is Connections, list_of(r) == seq![ai->Double_0, ai->Double_1] @*/ {
    match ai {
        ApartIterator::Single(_) => {
            panic!("apart_iterator_to_double_connection encountered ApartIterator::Single");
        },
        ApartIterator::Double(first_item, second_item) => {
            DeserializedConnection::Connections(vec![first_item, second_item])
        }
    }
}
//@end
//@item src/config_manip.rs :: fn break_apart [seq]
fn break_apart(input: Vec<Connection>) -> /*@ (r: @*/ Vec<DeserializedConnection> /*@ )
    requires shaped(input@)
    ensures r@.len() == npairs(input@), forall|i: int| 0 <= i < r@.len() ==> pair_of(input@, i, #[trigger] r@[i]) @*/ {
    /*@ let ghost g = input@; proof { assert(g.take(0) =~= Seq::empty()); } @*/
    /*! let f0 = !*/ input
        .into_iter()
        .fold(vec![], /*@ invariant it0__.seq() == g, chunked(g.take(it0__.index() as int), acc0__@) @*/ break_apart_chunker /*@ @*/ ) /*! ; !*/
        /*@ proof { assert(g.take(g.len() as int) == g); } let ghost c0 = f0@; @*/
        /*! let m0 = f0 !*/ .into_iter() /*! ; !*/ /*@ proof { assert(m0.all_v() == c0); } @*/ /*! let m1 = m0 !*/
        .map(break_apart_mapper) /*! ; !*/ /*@ let ghost c1 = m1@; proof { assert(m1.all_v() == c1); assert forall|i: int| 0 <= i < c1.len() implies #[trigger] c1[i] == ApartIterator::Double(as_start(input@[i]), as_end(input@[i + 1])) by { assert(call_ensures(break_apart_mapper, (c0[i],), c1[i])); } } @*/ /*! let m2 = m1 !*/
        .map(apart_iterator_to_double_connection) /*! ; !*/ /*@ let ghost c2 = m2@; proof { assert(m2.all_v() == c2); assert forall|i: int| 0 <= i < c2.len() implies pair_of(g, i, #[trigger] c2[i]) by { assert(call_ensures(apart_iterator_to_double_connection, (c1[i],), c2[i])); } } @*/ /*! let r: Vec<DeserializedConnection> = m2 !*/ .collect() /*! ; r !*/
}
//@end
/// the pairs of list v, upto the n-th, are entered under the new keys ks
pub open spec fn placed(m0: Map<Seq<char>, DeserializedConnection>, m1: Map<Seq<char>, DeserializedConnection>, v: Seq<Connection>, o: Seq<char>, ks: Seq<Seq<char>>, n: int) -> bool {
    &&& ks.len() == n
    &&& forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] ks[i] != #[trigger] ks[j]
    &&& forall|i: int| 0 <= i < n ==> !m0.contains_key(#[trigger] ks[i]) && m1.contains_key(ks[i]) && pair_of(v, i, m1[ks[i]])
    &&& forall|i: int| 0 <= i < n ==> exists|j: int| j >= 1 && #[trigger] ks[i] == #[trigger] numbered(o, j)
    &&& forall|x: Seq<char>| #[trigger] m1.contains_key(x) ==> m0.contains_key(x) || ks.contains(x)
    &&& forall|x: Seq<char>| #[trigger] m0.contains_key(x) ==> m1.contains_key(x) && m1[x] == m0[x]
}
//@item src/config_manip.rs :: fn rebuild_pair_up_connections_folder [seq]
pub fn rebuild_pair_up_connections_folder(mut acc: BTreeMap<String, DeserializedConnection>, (item_k, item_v): (String, DeserializedConnection)) -> /*@ (r: @*/ BTreeMap<String, DeserializedConnection> /*@ )
    requires a0__.1 is Connections, shaped(list_of(a0__.1))
    ensures exists|ks: Seq<Seq<char>>| #[trigger] placed(acc.m(), r.m(), list_of(a0__.1), a0__.0@, ks, npairs(list_of(a0__.1))) @*/ {
    /*@ let ghost m0 = acc.m(); @*/
    let mut existing_keys = /*! { let u0 = !*/ acc.keys() /*! ; !*/ /*@ let ghost g = u0@; proof { assert(u0.all_v() == g); } @*/ /*! let u1 = u0 !*/ .map(|x /*@: &String@*/| /*@ -> (o: String) ensures o@ == x@ { @*/ x.clone() /*@ } @*/) /*! ; let u: HashSet<String> = u1 !*/ .collect() /*! ; !*/ /*@ proof { lemma_key_set(g, u1@, m0, u.s()); } @*/ /*! u } !*/ ;
    match item_v {
        DeserializedConnection::JoinString(_) => { panic!("rebuild_joiner_folder encountered DeserializedConnection::JoinString"); }
        DeserializedConnection::Connections(v) => {
            /*@ let ghost s = v@; let ghost mut ks: Seq<Seq<char>> = Seq::empty(); @*/
            let pairs = break_apart(v);
            /*@ let ghost ps = pairs@; @*/
            for p in /*@ it: @*/ pairs /*@ invariant it.seq() == ps, s == list_of(a0__.1), placed(m0, acc.m(), s, item_k@, ks, it.index() as int), forall|x: Seq<char>| #[trigger] existing_keys.s().contains(x) <==> acc.m().contains_key(x) @*/ {
                /*@ let ghost m1 = acc.m(); let ghost ks0 = ks; let ghost n = it.index() as int; @*/
                let new_key = generate_new_key(&item_k, &existing_keys);
                existing_keys.insert(new_key.clone());
                /*@ let ghost k = new_key@; @*/
                acc.insert(new_key, p);
                /*@ proof {
                    ks = ks.push(k);
                    assert forall|x: Seq<char>| #[trigger] acc.m().contains_key(x) implies m0.contains_key(x) || ks.contains(x) by { if x == k { assert(ks[n] == x); } else { assert(m1.contains_key(x)); if !m0.contains_key(x) { let i = ks0.index_of(x); assert(ks0[i] == x); assert(ks[i] == x); } } }
                    assert forall|i: int| 0 <= i < n + 1 implies !m0.contains_key(#[trigger] ks[i]) && acc.m().contains_key(ks[i]) && pair_of(s, i, acc.m()[ks[i]]) by { if i < n { assert(ks[i] == ks0[i]); assert(m1.contains_key(ks0[i])); } }
                    assert forall|i: int| 0 <= i < n + 1 implies exists|j: int| j >= 1 && #[trigger] ks[i] == #[trigger] numbered(item_k@, j) by { if i < n { assert(ks[i] == ks0[i]); } }
                    assert forall|i: int, j: int| 0 <= i < j < n + 1 implies #[trigger] ks[i] != #[trigger] ks[j] by { assert(ks[i] == ks0[i]); assert(m1.contains_key(ks0[i])); if j < n { assert(ks[j] == ks0[j]); } }
                } @*/
            }
        }
    };
    acc
}
//@end
pub proof fn lemma_key_set<V>(g: Seq<&String>, u: Seq<String>, m: Map<Seq<char>, V>, s: Set<Seq<char>>)
    requires entries::<String, V>(Seq::new(g.len(), |i: int| g[i]@), m), u.len() == g.len(), forall|i: int| 0 <= i < u.len() ==> (#[trigger] u[i])@ == g[i]@, forall|x: Seq<char>| #[trigger] s.contains(x) <==> seen(u, x)
    ensures forall|x: Seq<char>| #[trigger] s.contains(x) <==> m.contains_key(x)
{
    let ks = Seq::new(g.len(), |i: int| g[i]@);
    assert forall|x: Seq<char>| #[trigger] s.contains(x) <==> m.contains_key(x) by {
        if seen(u, x) { let i = choose|i: int| 0 <= i < u.len() && (#[trigger] u[i])@ == x; assert(m.contains_key(ks[i])); }
        if m.contains_key(x) { let i = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == x; assert(u[i]@ == x); }
    }
}
// ---- edges: connections of one start and one end
pub ghost struct Node { pub ct: ComponentType, pub name: Seq<char> }
pub ghost struct Out { pub n: Node, pub port: OutputPort }
pub ghost struct Edge { pub from: Out, pub sset: Option<String>, pub to: Node, pub inp: InputPort, pub dset: Option<String> }
pub open spec fn is_pair(d: DeserializedConnection) -> bool { d is Connections && list_of(d).len() == 2 && list_of(d)[0] is StartConnection && list_of(d)[1] is EndConnection }
pub open spec fn edge(d: DeserializedConnection) -> Edge {
    match (list_of(d)[0], list_of(d)[1]) {
        (Connection::StartConnection { component_type: sct, component_name: sn, output_port, connection_set: sset }, Connection::EndConnection { component_type: dct, component_name: dn, input_port, connection_set: dset }) =>
            Edge { from: Out { n: Node { ct: sct, name: sn@ }, port: output_port }, sset, to: Node { ct: dct, name: dn@ }, inp: input_port, dset },
        _ => arbitrary(),
    }
}
pub open spec fn tabled(m: Map<Seq<char>, DeserializedConnection>) -> bool { forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> is_pair(m[k]) }
pub open spec fn leaves(m: Map<Seq<char>, DeserializedConnection>, k: Seq<char>, p: Out) -> bool { m.contains_key(k) && edge(m[k]).from == p }
pub open spec fn arrives(m: Map<Seq<char>, DeserializedConnection>, k: Seq<char>, q: Node) -> bool { m.contains_key(k) && edge(m[k]).to == q }
/// more than one edge leaves an output, or arrives at a component
pub open spec fn many_from(m: Map<Seq<char>, DeserializedConnection>, p: Out) -> bool { exists|a: Seq<char>, b: Seq<char>| a != b && #[trigger] leaves(m, a, p) && #[trigger] leaves(m, b, p) }
pub open spec fn many_to(m: Map<Seq<char>, DeserializedConnection>, q: Node) -> bool { exists|a: Seq<char>, b: Seq<char>| a != b && #[trigger] arrives(m, a, q) && #[trigger] arrives(m, b, q) }
pub open spec fn out_of(p: (ComponentType, Seq<char>, OutputPort)) -> Out { Out { n: Node { ct: p.0, name: p.1 }, port: p.2 } }
pub open spec fn node_of(p: (ComponentType, Seq<char>)) -> Node { Node { ct: p.0, name: p.1 } }
spec fn p_from<'a>(p: (ComponentType, Seq<char>, OutputPort)) -> spec_fn((&'a String, &'a DeserializedConnection)) -> bool { |e: (&'a String, &'a DeserializedConnection)| edge(*e.1).from == out_of(p) }
spec fn p_to<'a>(p: (ComponentType, Seq<char>)) -> spec_fn((&'a String, &'a DeserializedConnection)) -> bool { |e: (&'a String, &'a DeserializedConnection)| edge(*e.1).to == node_of(p) }
/// how many of the first n elements
spec fn tally<T>(s: Seq<T>, n: int, p: spec_fn(T) -> bool) -> int decreases n { if n <= 0 { 0 } else { tally(s, n - 1, p) + (if p(s[n - 1]) { 1int } else { 0 }) } }
proof fn lemma_tally<T>(s: Seq<T>, n: int, p: spec_fn(T) -> bool) requires 0 <= n <= s.len()
    ensures 0 <= tally(s, n, p) <= n, tally(s, n, p) >= 1 <==> upto(s, n, p), tally(s, n, p) >= 2 <==> exists|i: int, j: int| 0 <= i < j < n && p(#[trigger] s[i]) && p(#[trigger] s[j]) decreases n {
    if n > 0 {
        lemma_tally(s, n - 1, p);
        if upto(s, n - 1, p) { let i = choose|i: int| 0 <= i < n - 1 && p(#[trigger] s[i]); assert(p(s[i])); if p(s[n - 1]) { assert(p(s[i]) && p(s[n - 1])); } }
        if p(s[n - 1]) { assert(upto(s, n, p)); }
        if exists|i: int, j: int| 0 <= i < j < n && p(#[trigger] s[i]) && p(#[trigger] s[j]) { let (i, j) = choose|i: int, j: int| 0 <= i < j < n && p(#[trigger] s[i]) && p(#[trigger] s[j]); if j < n - 1 { assert(p(s[i]) && p(s[j])); } assert(upto(s, n - 1, p)); }
    }
}
spec fn counted<K>(m: Map<K, usize>, k: K, n: int) -> bool { (m.contains_key(k) <==> n > 0) && (m.contains_key(k) ==> m[k] == n) }
proof fn lemma_many(g: Seq<(&String, &DeserializedConnection)>, m: Map<Seq<char>, DeserializedConnection>)
    requires entries::<String, DeserializedConnection>(Seq::new(g.len(), |i: int| g[i].0@), m), forall|i: int| 0 <= i < g.len() ==> *((#[trigger] g[i]).1) == m[g[i].0@]
    ensures
        forall|p: (ComponentType, Seq<char>, OutputPort)| tally(g, g.len() as int, #[trigger] p_from(p)) >= 2 <==> many_from(m, out_of(p)),
        forall|q: (ComponentType, Seq<char>)| tally(g, g.len() as int, #[trigger] p_to(q)) >= 2 <==> many_to(m, node_of(q)),
{
    let ks = Seq::new(g.len(), |i: int| g[i].0@);
    let n = g.len() as int;
    assert forall|p: (ComponentType, Seq<char>, OutputPort)| tally(g, n, #[trigger] p_from(p)) >= 2 <==> many_from(m, out_of(p)) by {
        lemma_tally(g, n, p_from(p));
        if tally(g, n, p_from(p)) >= 2 { let (i, j) = choose|i: int, j: int| 0 <= i < j < n && p_from(p)(#[trigger] g[i]) && p_from(p)(#[trigger] g[j]); assert(ks[i] != ks[j]); assert(m.contains_key(ks[i]) && m.contains_key(ks[j])); assert(leaves(m, ks[i], out_of(p)) && leaves(m, ks[j], out_of(p))); }
        if many_from(m, out_of(p)) {
            let (a, b) = choose|a: Seq<char>, b: Seq<char>| a != b && #[trigger] leaves(m, a, out_of(p)) && #[trigger] leaves(m, b, out_of(p));
            let i = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == a; let j = choose|j: int| 0 <= j < ks.len() && #[trigger] ks[j] == b;
            assert(p_from(p)(g[i]) && p_from(p)(g[j]));
            if i < j { assert(p_from(p)(g[i]) && p_from(p)(g[j])); } else { assert(p_from(p)(g[j]) && p_from(p)(g[i])); }
        }
    }
    assert forall|q: (ComponentType, Seq<char>)| tally(g, n, #[trigger] p_to(q)) >= 2 <==> many_to(m, node_of(q)) by {
        lemma_tally(g, n, p_to(q));
        if tally(g, n, p_to(q)) >= 2 { let (i, j) = choose|i: int, j: int| 0 <= i < j < n && p_to(q)(#[trigger] g[i]) && p_to(q)(#[trigger] g[j]); assert(ks[i] != ks[j]); assert(m.contains_key(ks[i]) && m.contains_key(ks[j])); assert(arrives(m, ks[i], node_of(q)) && arrives(m, ks[j], node_of(q))); }
        if many_to(m, node_of(q)) {
            let (a, b) = choose|a: Seq<char>, b: Seq<char>| a != b && #[trigger] arrives(m, a, node_of(q)) && #[trigger] arrives(m, b, node_of(q));
            let i = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == a; let j = choose|j: int| 0 <= j < ks.len() && #[trigger] ks[j] == b;
            if i < j { assert(p_to(q)(g[i]) && p_to(q)(g[j])); } else { assert(p_to(q)(g[j]) && p_to(q)(g[i])); }
        }
    }
}
pub open spec fn two<K: View>(h: HashMap<K, usize>, k: K::V) -> bool { h.m().contains_key(k) && h.m()[k] >= 2 }
pub open spec fn starts_counted(h: HashMap<(ComponentType, String, OutputPort), usize>, t: Map<Seq<char>, DeserializedConnection>) -> bool { forall|p: (ComponentType, Seq<char>, OutputPort)| two(h, p) <==> #[trigger] many_from(t, out_of(p)) }
pub open spec fn ends_counted(h: HashMap<(ComponentType, String), usize>, t: Map<Seq<char>, DeserializedConnection>) -> bool { forall|q: (ComponentType, Seq<char>)| two(h, q) <==> #[trigger] many_to(t, node_of(q)) }
//@item src/config_manip.rs :: fn count_start_ends [seq]
fn count_start_ends(in_config: &BTreeMap::<String, DeserializedConnection>) -> /*@ (r: @*/ (HashMap<(ComponentType, String, OutputPort), usize>, HashMap<(ComponentType, String), usize>) /*@ )
    requires tabled(in_config.m())
    ensures
        starts_counted(r.0, in_config.m()), ends_counted(r.1, in_config.m()),
    @*/ {
    /*@ let ghost t = in_config.m(); @*/
    in_config.iter().fold(
        (HashMap::new(), HashMap::new()) /*@ let ghost g = src0__@; let ghost ks = Seq::new(g.len(), |i: int| g[i].0@); proof { assert(g.len() == src0__.len()); } @*/,
        | (mut outcount, mut incount) , (_, item) | /*@ invariant it0__.seq() == g, g.len() <= usize::MAX,
            forall|p: (ComponentType, Seq<char>, OutputPort)| counted(#[trigger] acc0__.0.m(), p, tally(g, it0__.index() as int, #[trigger] p_from(p))),
            forall|q: (ComponentType, Seq<char>)| counted(#[trigger] acc0__.1.m(), q, tally(g, it0__.index() as int, #[trigger] p_to(q))) @*/ {
            /*@ let ghost n = it0__.index() as int; let ghost (o0, i0) = (outcount.m(), incount.m()); proof { assert(t.contains_key(ks[n])); } @*/
            let vec = match &item {
                DeserializedConnection::Connections(v) => v,
                DeserializedConnection::JoinString(_) => {
                    panic!("add_junctions::in_counts - Has JoinString");
                }
            };
            let (start, end) = match vec.as_slice() {
                [Connection::StartConnection { component_type: ctstart, component_name: start, output_port, .. }, Connection::EndConnection { component_type: ctend, component_name: end, .. }] => {
                    ((*ctstart, start.to_string(), output_port.clone()), (*ctend, end.to_string()))
                }
                _ => { panic!("add_junctions::in_counts - Not start end pair"); }
            };
            /*@ let ghost (p0, q0) = (start@, end@);
            proof { lemma_tally(g, n, p_from(p0)); lemma_tally(g, n, p_to(q0)); assert(counted(o0, p0, tally(g, n, p_from(p0)))); assert(counted(i0, q0, tally(g, n, p_to(q0)))); } @*/
            *outcount.entry(start).or_insert(0) += 1;
            *incount.entry(end).or_insert(0) += 1;
            /*@ proof {
                assert forall|p: (ComponentType, Seq<char>, OutputPort)| counted(outcount.m(), p, tally(g, n + 1, #[trigger] p_from(p))) by { lemma_tally(g, n, p_from(p)); assert(counted(o0, p, tally(g, n, p_from(p)))); }
                assert forall|q: (ComponentType, Seq<char>)| counted(incount.m(), q, tally(g, n + 1, #[trigger] p_to(q))) by { lemma_tally(g, n, p_to(q)); assert(counted(i0, q, tally(g, n, p_to(q)))); }
            } @*/
            (outcount, incount)
        } /*@ proof {
            lemma_many(g, t);
            assert forall|p: (ComponentType, Seq<char>, OutputPort)| two(acc0__.0, p) <==> #[trigger] many_from(t, out_of(p)) by { assert(counted(acc0__.0.m(), p, tally(g, g.len() as int, p_from(p)))); }
            assert forall|q: (ComponentType, Seq<char>)| two(acc0__.1, q) <==> #[trigger] many_to(t, node_of(q)) by { assert(counted(acc0__.1.m(), q, tally(g, g.len() as int, p_to(q)))); }
        } @*/
    )
}
//@end
// ---- junctions
spec fn junction_name(c: Connection) -> Option<Seq<char>> {
    match c {
        Connection::EndConnection { component_type, component_name, .. } => if component_type is Junction { Some(component_name@) } else { None },
        Connection::StartConnection { component_type, component_name, .. } => if component_type is Junction { Some(component_name@) } else { None },
        _ => None,
    }
}
/// an edge leaves or arrives at the junction
pub open spec fn touches(d: DeserializedConnection, n: Seq<char>) -> bool { edge(d).from.n == (Node { ct: ComponentType::Junction, name: n }) || edge(d).to == (Node { ct: ComponentType::Junction, name: n }) }
pub open spec fn junction_used(m: Map<Seq<char>, DeserializedConnection>, n: Seq<char>) -> bool { exists|k: Seq<char>| #[trigger] m.contains_key(k) && touches(m[k], n) }
spec fn p_touches<'a>(n: Seq<char>) -> spec_fn(&'a DeserializedConnection) -> bool { |d: &'a DeserializedConnection| touches(*d, n) }
proof fn lemma_touching(ks: Seq<Seq<char>>, g: Seq<&DeserializedConnection>, m: Map<Seq<char>, DeserializedConnection>)
    requires entries::<String, DeserializedConnection>(ks, m), ks.len() == g.len(), forall|i: int| 0 <= i < ks.len() ==> *(#[trigger] g[i]) == m[ks[i]]
    ensures forall|n: Seq<char>| upto(g, g.len() as int, #[trigger] p_touches(n)) <==> junction_used(m, n)
{
    assert forall|n: Seq<char>| upto(g, g.len() as int, #[trigger] p_touches(n)) <==> junction_used(m, n) by {
        if upto(g, g.len() as int, p_touches(n)) { let i = choose|i: int| 0 <= i < g.len() && p_touches(n)(#[trigger] g[i]); assert(m.contains_key(ks[i])); }
        if junction_used(m, n) { let k = choose|k: Seq<char>| #[trigger] m.contains_key(k) && touches(m[k], n); let i = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == k; assert(p_touches(n)(g[i])); }
    }
}
//@item src/config_manip.rs :: fn extract_junction_names > fn junction_names_filter_map [seq]
            fn junction_names_filter_map(c: &Connection) -> /*@ (r: @*/ Option<String> /*@ )
                requires !(*c is MiddleConnection) ensures r is Some <==> junction_name(*c) is Some, r is Some ==> r->0@ == junction_name(*c)->0 @*/ {
                match c {
                    Connection::EndConnection { component_type, component_name, .. } => {
                        if *component_type == ComponentType::Junction {
                            return Some(component_name.clone());
                        }
                        None
                    },
                    Connection::MiddleConnection { .. } => {
                        panic!("junction_names - Has Middle");
                    },
                    Connection::StartConnection { component_type, component_name, .. } => {
                        if *component_type == ComponentType::Junction {
                            return Some(component_name.clone());
                        }
                        None
                    }
                }
            }
//@end
proof fn lemma_names_of(d: DeserializedConnection, o: Seq<Option<String>>, n: Seq<char>)
    requires is_pair(d), o.len() == 2, forall|i: int| 0 <= i < 2 ==> ((#[trigger] o[i]) is Some <==> junction_name(list_of(d)[i]) is Some) && (o[i] is Some ==> o[i]->0@ == junction_name(list_of(d)[i])->0)
    ensures seen(picked(o), n) <==> touches(d, n)
{
    lemma_picked(o, n);
    if seen_some(o, n) { let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]) is Some && o[i]->0@ == n; }
    if touches(d, n) { assert(junction_name(list_of(d)[0]) == Some(n) || junction_name(list_of(d)[1]) == Some(n)); if junction_name(list_of(d)[0]) == Some(n) { assert(o[0] is Some); } else { assert(o[1] is Some); } }
}
//@item src/config_manip.rs :: fn extract_junction_names [seq, nofn]
fn extract_junction_names(connections: &BTreeMap<String, DeserializedConnection>) -> /*@ (r: @*/ HashSet<String> /*@ )
    requires tabled(connections.m()) ensures forall|n: Seq<char>| #[trigger] r.s().contains(n) <==> junction_used(connections.m(), n) @*/ {
    /*@ let ghost t = connections.m(); @*/

    connections.values().fold(
        HashSet::new() /*@ let ghost g = src0__@; let ghost ks = choose|ks: Seq<Seq<char>>| entries::<String, DeserializedConnection>(ks, t) && ks.len() == g.len() && forall|i: int| 0 <= i < ks.len() ==> *(#[trigger] g[i]) == t[ks[i]]; @*/,
        |mut acc, item| /*@ invariant it0__.seq() == g, forall|n: Seq<char>| #[trigger] acc0__.s().contains(n) <==> upto(g, it0__.index() as int, p_touches(n)) @*/ {
            /*@ let ghost a0 = acc.s(); let ghost i0 = it0__.index() as int; proof { assert(t.contains_key(ks[i0])); } @*/

            fn junction_names_filter_map(c: &Connection) -> Option<String> {
                match c {
                    Connection::EndConnection { component_type, component_name, .. } => {
                        if *component_type == ComponentType::Junction {
                            return Some(component_name.clone());
                        }
                        None
                    },
                    Connection::MiddleConnection { .. } => {
                        panic!("junction_names - Has Middle");
                    },
                    Connection::StartConnection { component_type, component_name, .. } => {
                        if *component_type == ComponentType::Junction {
                            return Some(component_name.clone());
                        }
                        None
                    }
                }
            }

            let vec = match &item {
                DeserializedConnection::Connections(v) => {
                    /*! let iv = !*/ v.iter() /*! ; !*/ /*@ let ghost gv = iv@; proof { assert(iv.all_v() == gv); } @*/ /*! let fv = iv !*/ .filter_map(junction_names_filter_map) /*! ; !*/
                    /*@ proof {
                        let o = choose|o: Seq<Option<String>>| fv@ == picked(o) && o.len() == gv.len() && forall|i: int| 0 <= i < o.len() ==> call_ensures(junction_names_filter_map, (#[trigger] gv[i],), o[i]);
                        assert forall|n: Seq<char>| #[trigger] seen(fv@, n) <==> touches(*item, n) by { assert(call_ensures(junction_names_filter_map, (gv[0],), o[0])); assert(call_ensures(junction_names_filter_map, (gv[1],), o[1])); lemma_names_of(*item, o, n); }
                    } @*/ /*! fv !*/
                },
                DeserializedConnection::JoinString(_) => {
                    panic!("junction_names - Has JoinString");
                }
            };

            acc.extend(vec);
            /*@ proof { assert forall|n: Seq<char>| #[trigger] acc.s().contains(n) <==> upto(g, i0 + 1, p_touches(n)) by { lemma_upto(g, i0, p_touches(n)); assert(a0.contains(n) || !a0.contains(n)); } } @*/
            acc
        } /*@ proof { lemma_touching(ks, g, t); } @*/
    )

}
//@end
//@item src/config_manip.rs :: fn get_multis [seq]
fn get_multis(mut acc: Vec<(ComponentType, String)>, (k, v): ((ComponentType, String), usize)) -> /*@ (r: @*/ Vec<(ComponentType, String)> /*@ ) ensures r@ == (if a0__.1 < 2 { acc@ } else { acc@.push(a0__.0) }) @*/ {
    if v < 2 { return acc; }
    acc.push(k);
    acc
}
//@end
//@item src/config_manip.rs :: fn get_multi_starts [seq]
fn get_multi_starts(mut acc: Vec<(ComponentType, String, OutputPort)>, (k, v): ((ComponentType, String, OutputPort), usize)) -> /*@ (r: @*/ Vec<(ComponentType, String, OutputPort)> /*@ ) ensures r@ == (if a0__.1 < 2 { acc@ } else { acc@.push(a0__.0) }) @*/ {
    if v < 2 { return acc; }
    acc.push(k);
    acc
}
//@end
pub open spec fn junction(n: Seq<char>) -> Node { Node { ct: ComponentType::Junction, name: n } }
pub open spec fn out_from(n: Seq<char>) -> Out { Out { n: junction(n), port: OutputPort::Out } }
/// the edges of output p go out from junction j, which p feeds
pub open spec fn routed(e: Edge, p: Out, j: Seq<char>) -> Edge { if e.from == p { Edge { from: out_from(j), sset: None, to: e.to, inp: e.inp, dset: None } } else { e } }
pub open spec fn feed(p: Out, j: Seq<char>, priority: isize) -> Edge { Edge { from: p, sset: None, to: junction(j), inp: InputPort { breakable: Breakable::Finish, priority }, dset: None } }
/// the edges to q arrive at junction j, from which q draws
pub open spec fn gathered(e: Edge, q: Node, j: Seq<char>) -> Edge { if e.to == q { Edge { from: e.from, sset: None, to: junction(j), inp: e.inp, dset: None } } else { e } }
pub open spec fn drawn(q: Node, j: Seq<char>, priority: isize) -> Edge { Edge { from: out_from(j), sset: None, to: q, inp: InputPort { breakable: Breakable::Finish, priority }, dset: None } }
pub open spec fn split_start(t: Map<Seq<char>, DeserializedConnection>, t1: Map<Seq<char>, DeserializedConnection>, p: Out, j: Seq<char>, l: Seq<char>) -> bool {
    &&& tabled(t1)
    &&& forall|k: Seq<char>| #[trigger] t.contains_key(k) ==> t1.contains_key(k) && edge(t1[k]) == routed(edge(t[k]), p, j)
    &&& forall|k: Seq<char>| #[trigger] t1.contains_key(k) ==> t.contains_key(k) || k == l
    &&& t1.contains_key(l) && exists|k0: Seq<char>| #[trigger] leaves(t, k0, p) && edge(t1[l]) == feed(p, j, edge(t[k0]).inp.priority)
}
pub open spec fn split_end(t: Map<Seq<char>, DeserializedConnection>, t1: Map<Seq<char>, DeserializedConnection>, q: Node, j: Seq<char>, l: Seq<char>) -> bool {
    &&& tabled(t1)
    &&& forall|k: Seq<char>| #[trigger] t.contains_key(k) ==> t1.contains_key(k) && edge(t1[k]) == gathered(edge(t[k]), q, j)
    &&& forall|k: Seq<char>| #[trigger] t1.contains_key(k) ==> t.contains_key(k) || k == l
    &&& t1.contains_key(l) && exists|k0: Seq<char>| #[trigger] arrives(t, k0, q) && edge(t1[l]) == drawn(q, j, edge(t[k0]).inp.priority)
}
//@item src/config_manip.rs :: fn add_junctions > fn add_start_junctions_for [seq]
    fn add_start_junctions_for(existing_keys: &mut HashSet<String>, multi_start: (ComponentType, String, OutputPort), in_config: BTreeMap::<String, DeserializedConnection>) -> /*@ (r: @*/ BTreeMap::<String, DeserializedConnection> /*@ )
        requires tabled(in_config.m()), exists|k: Seq<char>| #[trigger] leaves(in_config.m(), k, out_of(multi_start@)), forall|k: Seq<char>| #[trigger] in_config.m().contains_key(k) ==> old(existing_keys).s().contains(k)
        ensures exists|j: Seq<char>, l: Seq<char>| #[trigger] split_start(in_config.m(), r.m(), out_of(multi_start@), j, l) && !junction_used(in_config.m(), j) && !old(existing_keys).s().contains(l) && final(existing_keys).s() == old(existing_keys).s().insert(l)
        @*/ {
        /*@ let ghost t = in_config.m(); let ghost p = out_of(multi_start@); let ghost e0 = existing_keys.s(); let ghost mut l: Seq<char> = Seq::empty(); let ghost mut k0: Seq<char> = Seq::empty(); @*/

        let junction_name = generate_new_key(&"junction", &extract_junction_names(&in_config));
        let mut added_to_junction = false;
        /*@ let ghost j = junction_name@; @*/
        in_config.into_iter().fold(BTreeMap::new() /*@ let ghost g = src0__@; let ghost ks = Seq::new(g.len(), |i: int| g[i].0@); @*/, |mut acc, (k, dsc)| /*@ invariant it0__.seq() == g, tabled(acc0__.m()), !junction_used(t, j),
                forall|i: int| 0 <= i < it0__.index() ==> acc0__.m().contains_key(#[trigger] ks[i]) && edge(acc0__.m()[ks[i]]) == routed(edge(t[ks[i]]), p, j),
                forall|x: Seq<char>| #[trigger] acc0__.m().contains_key(x) ==> (t.contains_key(x) || (added_to_junction && x == l)),
                added_to_junction ==> leaves(t, k0, p) && acc0__.m().contains_key(l) && edge(acc0__.m()[l]) == feed(p, j, edge(t[k0]).inp.priority) && !e0.contains(l),
                existing_keys.s() == (if added_to_junction { e0.insert(l) } else { e0 }), forall|i: int| 0 <= i < it0__.index() && leaves(t, #[trigger] ks[i], p) ==> added_to_junction
            @*/ {
            /*@ let ghost n = it0__.index() as int; let ghost k1 = k@; let ghost d1 = dsc; let ghost a0 = acc.m(); proof { assert(t.contains_key(ks[n])); assert(is_pair(d1)); } @*/
            let mut dsc_vec = match dsc {
                DeserializedConnection::Connections(v) => v,
                DeserializedConnection::JoinString(_) => {
                    panic!("add_start_junctions_for - Has JoinString");
                }
            };
            if dsc_vec.len() != 2 {
                panic!("add_start_junctions_for - does not have 2 elements");
            }
            let end = dsc_vec.pop();
            let start = dsc_vec.pop();
            match (start, end) {
                (Some(Connection::StartConnection { component_type, component_name, output_port, .. }), Some(Connection::EndConnection { component_type: end_component_type, component_name: end_component_name, input_port: end_input_port, .. })) if (component_type == multi_start.0) && (component_name == multi_start.1) && (output_port == multi_start.2) => {

                    if !added_to_junction {
                        let left_start = Connection::StartConnection { component_type, component_name, output_port, connection_set: None };
                        let left_end = Connection::EndConnection { component_type: ComponentType::Junction, component_name: junction_name.clone(), input_port: InputPort { breakable: Breakable::Finish, priority: end_input_port.priority }, connection_set: None };
                        let new_key = generate_new_key(&"dyn_connection", existing_keys);
                        existing_keys.insert(new_key.clone());
                        /*@ proof { l = new_key@; k0 = k1; } @*/
                        acc.insert(
                            new_key,
                            DeserializedConnection::Connections(vec![left_start, left_end])
                        );
                        added_to_junction = true;
                    }

                    let right_start = Connection::StartConnection { component_type: ComponentType::Junction, component_name: junction_name.clone(), output_port: OutputPort::Out, connection_set: None };
                    let right_end = Connection::EndConnection { component_type: end_component_type, component_name: end_component_name, input_port: end_input_port, connection_set: None };

                    acc.insert(k, DeserializedConnection::Connections(vec![right_start, right_end]));
                    acc
                }
                (Some(start), Some(end)) => {
                    acc.insert(k, DeserializedConnection::Connections(vec![start, end]));
                    acc
                }
                _ => { panic!("add_start_junctions_for - unexpected"); }
            }
        } /*@ proof { assert forall|k: Seq<char>| #[trigger] t.contains_key(k) implies acc0__.m().contains_key(k) && edge(acc0__.m()[k]) == routed(edge(t[k]), p, j) by { let i = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == k; } assert(split_start(t, acc0__.m(), p, j, l)); } @*/ )
    }
//@end
//@item src/config_manip.rs :: fn add_junctions > fn add_end_junctions_for [seq]
    fn add_end_junctions_for(existing_keys: &mut HashSet<String>, multi_end: (ComponentType, String), in_config: BTreeMap::<String, DeserializedConnection>) -> /*@ (r: @*/ BTreeMap::<String, DeserializedConnection> /*@ )
        requires tabled(in_config.m()), exists|k: Seq<char>| #[trigger] arrives(in_config.m(), k, node_of(multi_end@)), forall|k: Seq<char>| #[trigger] in_config.m().contains_key(k) ==> old(existing_keys).s().contains(k)
        ensures exists|j: Seq<char>, l: Seq<char>| #[trigger] split_end(in_config.m(), r.m(), node_of(multi_end@), j, l) && !junction_used(in_config.m(), j) && !old(existing_keys).s().contains(l) && final(existing_keys).s() == old(existing_keys).s().insert(l)
        @*/ {
        /*@ let ghost t = in_config.m(); let ghost p = node_of(multi_end@); let ghost e0 = existing_keys.s(); let ghost mut l: Seq<char> = Seq::empty(); let ghost mut k0: Seq<char> = Seq::empty(); @*/

        let junction_name = generate_new_key(&"junction", &extract_junction_names(&in_config));
        let mut added_to_junction = false;
        /*@ let ghost j = junction_name@; @*/
        in_config.into_iter().fold(BTreeMap::new() /*@ let ghost g = src0__@; let ghost ks = Seq::new(g.len(), |i: int| g[i].0@); @*/, |mut acc, (k, dsc)| /*@ invariant it0__.seq() == g, tabled(acc0__.m()), !junction_used(t, j),
                forall|i: int| 0 <= i < it0__.index() ==> acc0__.m().contains_key(#[trigger] ks[i]) && edge(acc0__.m()[ks[i]]) == gathered(edge(t[ks[i]]), p, j),
                forall|x: Seq<char>| #[trigger] acc0__.m().contains_key(x) ==> (t.contains_key(x) || (added_to_junction && x == l)),
                added_to_junction ==> arrives(t, k0, p) && acc0__.m().contains_key(l) && edge(acc0__.m()[l]) == drawn(p, j, edge(t[k0]).inp.priority) && !e0.contains(l),
                existing_keys.s() == (if added_to_junction { e0.insert(l) } else { e0 }), forall|i: int| 0 <= i < it0__.index() && arrives(t, #[trigger] ks[i], p) ==> added_to_junction
            @*/ {
            /*@ let ghost n = it0__.index() as int; let ghost k1 = k@; let ghost d1 = dsc; let ghost a0 = acc.m(); proof { assert(t.contains_key(ks[n])); assert(is_pair(d1)); } @*/
            let mut dsc_vec = match dsc {
                DeserializedConnection::Connections(v) => v,
                DeserializedConnection::JoinString(_) => {
                    panic!("add_start_junctions_for - Has JoinString");
                }
            };
            if dsc_vec.len() != 2 {
                panic!("add_start_junctions_for - does not have 2 elements");
            }
            let end = dsc_vec.pop();
            let start = dsc_vec.pop();
            match (start, end) {
                (Some(Connection::StartConnection { component_type, component_name, output_port, .. }), Some(Connection::EndConnection { component_type: end_component_type, component_name: end_component_name, input_port: end_input_port, .. })) if (end_component_type == multi_end.0) && (end_component_name == multi_end.1) => {

                    let left_start = Connection::StartConnection { component_type, component_name, output_port, connection_set: None };
                    let left_end = Connection::EndConnection { component_type: ComponentType::Junction, input_port: end_input_port.clone(), component_name: junction_name.clone(), connection_set: None };

                    acc.insert(k, DeserializedConnection::Connections(vec![left_start, left_end]));

                    if !added_to_junction {
                        let right_start = Connection::StartConnection { component_type: ComponentType::Junction, component_name: junction_name.clone(), output_port: OutputPort::Out, connection_set: None };
                        let right_end = Connection::EndConnection { component_type: end_component_type, component_name: end_component_name, input_port: InputPort { breakable: Breakable::Finish, priority: end_input_port.priority }, connection_set: None };
                        let new_key = generate_new_key(&"dyn_connection", existing_keys);
                        existing_keys.insert(new_key.clone());
                        /*@ proof { l = new_key@; k0 = k1; } @*/
                        acc.insert(
                            new_key,
                            DeserializedConnection::Connections(vec![right_start, right_end])
                        );
                        added_to_junction = true;
                    }

                    acc
                }
                (Some(start), Some(end)) => {
                    acc.insert(k, DeserializedConnection::Connections(vec![start, end]));
                    acc
                }
                _ => { panic!("add_start_junctions_for - unexpected"); }
            }
        } /*@ proof { assert forall|k: Seq<char>| #[trigger] t.contains_key(k) implies acc0__.m().contains_key(k) && edge(acc0__.m()[k]) == gathered(edge(t[k]), p, j) by { let i = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == k; } assert(split_end(t, acc0__.m(), p, j, l)); } @*/ )
    }
//@end
// ---- what inserting junctions comes to
/// the junctions inserted after outputs (jn) and in front of components (je), and the keys of their own connections
pub ghost struct Rewiring { pub jn: Map<Out, Seq<char>>, pub lk: Map<Out, Seq<char>>, pub je: Map<Node, Seq<char>>, pub rk: Map<Node, Seq<char>> }
pub open spec fn rewire(e: Edge, w: Rewiring) -> Edge {
    if w.jn.contains_key(e.from) || w.je.contains_key(e.to) {
        Edge { from: if w.jn.contains_key(e.from) { out_from(w.jn[e.from]) } else { e.from }, sset: None, to: if w.je.contains_key(e.to) { junction(w.je[e.to]) } else { e.to }, inp: e.inp, dset: None }
    } else { e }
}
pub open spec fn fed(t: Map<Seq<char>, DeserializedConnection>, e: Edge, p: Out, j: Seq<char>) -> bool { exists|k0: Seq<char>| #[trigger] leaves(t, k0, p) && e == feed(p, j, edge(t[k0]).inp.priority) }
pub open spec fn drains(t: Map<Seq<char>, DeserializedConnection>, e: Edge, q: Node, j: Seq<char>) -> bool { exists|k0: Seq<char>| #[trigger] arrives(t, k0, q) && e == drawn(q, j, edge(t[k0]).inp.priority) }
pub open spec fn rewired(t: Map<Seq<char>, DeserializedConnection>, f: Map<Seq<char>, DeserializedConnection>, w: Rewiring) -> bool {
    &&& tabled(f)
    &&& w.lk.dom() == w.jn.dom() && w.rk.dom() == w.je.dom()
    &&& forall|k: Seq<char>| #[trigger] t.contains_key(k) ==> f.contains_key(k) && edge(f[k]) == rewire(edge(t[k]), w)
    &&& forall|p: Out| #[trigger] w.jn.contains_key(p) ==> !t.contains_key(w.lk[p]) && f.contains_key(w.lk[p]) && fed(t, edge(f[w.lk[p]]), p, w.jn[p]) && !junction_used(t, w.jn[p])
    &&& forall|q: Node| #[trigger] w.je.contains_key(q) ==> !t.contains_key(w.rk[q]) && f.contains_key(w.rk[q]) && drains(t, edge(f[w.rk[q]]), q, w.je[q]) && !junction_used(t, w.je[q])
    &&& forall|k: Seq<char>| #[trigger] f.contains_key(k) ==> t.contains_key(k) || (exists|p: Out| #[trigger] w.jn.contains_key(p) && w.lk[p] == k) || (exists|q: Node| #[trigger] w.je.contains_key(q) && w.rk[q] == k)
    &&& forall|p: Out, q: Out| p != q && #[trigger] w.jn.contains_key(p) && #[trigger] w.jn.contains_key(q) ==> w.jn[p] != w.jn[q] && w.lk[p] != w.lk[q]
    &&& forall|p: Out, q: Node| #[trigger] w.jn.contains_key(p) && #[trigger] w.je.contains_key(q) ==> w.jn[p] != w.je[q] && w.lk[p] != w.rk[q]
    &&& forall|p: Node, q: Node| p != q && #[trigger] w.je.contains_key(p) && #[trigger] w.je.contains_key(q) ==> w.je[p] != w.je[q] && w.rk[p] != w.rk[q]
}
/// junctions are inserted exactly where outputs or inputs are shared
pub open spec fn junctioned(t: Map<Seq<char>, DeserializedConnection>, f: Map<Seq<char>, DeserializedConnection>, w: Rewiring) -> bool {
    rewired(t, f, w) && (forall|p: Out| #[trigger] w.jn.contains_key(p) <==> many_from(t, p)) && (forall|q: Node| #[trigger] w.je.contains_key(q) <==> many_to(t, q))
}
proof fn lemma_used(t: Map<Seq<char>, DeserializedConnection>, f: Map<Seq<char>, DeserializedConnection>, w: Rewiring, n: Seq<char>) requires rewired(t, f, w)
    ensures junction_used(t, n) ==> junction_used(f, n), forall|p: Out| #[trigger] w.jn.contains_key(p) ==> junction_used(f, w.jn[p]), forall|q: Node| #[trigger] w.je.contains_key(q) ==> junction_used(f, w.je[q])
{
    if junction_used(t, n) {
        let k = choose|k: Seq<char>| #[trigger] t.contains_key(k) && touches(t[k], n);
        let e = edge(t[k]);
        if e.from.n == junction(n) { if w.jn.contains_key(e.from) { assert(touches(f[w.lk[e.from]], n)); } else { assert(touches(f[k], n)); } }
        if e.to == junction(n) { if w.je.contains_key(e.to) { assert(touches(f[w.rk[e.to]], n)); } else { assert(touches(f[k], n)); } }
    }
    assert forall|p: Out| #[trigger] w.jn.contains_key(p) implies junction_used(f, w.jn[p]) by { assert(touches(f[w.lk[p]], w.jn[p])); }
    assert forall|q: Node| #[trigger] w.je.contains_key(q) implies junction_used(f, w.je[q]) by { assert(touches(f[w.rk[q]], w.je[q])); }
}
proof fn lemma_leaver(t: Map<Seq<char>, DeserializedConnection>, f: Map<Seq<char>, DeserializedConnection>, w: Rewiring, p: Out, k: Seq<char>)
    requires rewired(t, f, w), !w.jn.contains_key(p), exists|a: Seq<char>| #[trigger] leaves(t, a, p)
    ensures leaves(f, k, p) <==> leaves(t, k, p), leaves(f, k, p) ==> edge(f[k]).inp == edge(t[k]).inp, leaves(f, k, p) ==> edge(f[k]).to == rewire(edge(t[k]), w).to
{
    let a = choose|a: Seq<char>| #[trigger] leaves(t, a, p);
    assert forall|n: Seq<char>| p.n == junction(n) implies junction_used(t, n) by { assert(touches(t[a], n)); }
    if leaves(f, k, p) && !t.contains_key(k) { if exists|x: Out| #[trigger] w.jn.contains_key(x) && w.lk[x] == k { } else { let q = choose|q: Node| #[trigger] w.je.contains_key(q) && w.rk[q] == k; assert(p.n == junction(w.je[q])); } }
    if t.contains_key(k) && w.jn.contains_key(edge(t[k]).from) { assert(out_from(w.jn[edge(t[k]).from]) != p); }
}
proof fn lemma_arriver(t: Map<Seq<char>, DeserializedConnection>, f: Map<Seq<char>, DeserializedConnection>, w: Rewiring, q: Node, k: Seq<char>)
    requires rewired(t, f, w), !w.je.contains_key(q), exists|a: Seq<char>| #[trigger] arrives(t, a, q)
    ensures arrives(f, k, q) <==> arrives(t, k, q), arrives(f, k, q) ==> edge(f[k]).inp == edge(t[k]).inp
{
    let a = choose|a: Seq<char>| #[trigger] arrives(t, a, q);
    assert forall|n: Seq<char>| q == junction(n) implies junction_used(t, n) by { assert(touches(t[a], n)); }
    if arrives(f, k, q) && !t.contains_key(k) { if exists|x: Node| #[trigger] w.je.contains_key(x) && w.rk[x] == k { } else { let p = choose|p: Out| #[trigger] w.jn.contains_key(p) && w.lk[p] == k; assert(q == junction(w.jn[p])); } }
    if t.contains_key(k) && w.je.contains_key(edge(t[k]).to) { assert(junction(w.je[edge(t[k]).to]) != q); }
}
proof fn lemma_still_leaves(t: Map<Seq<char>, DeserializedConnection>, f: Map<Seq<char>, DeserializedConnection>, w: Rewiring, p: Out) requires rewired(t, f, w), !w.jn.contains_key(p), many_from(t, p) ensures exists|k: Seq<char>| #[trigger] leaves(f, k, p) {
    let (a, b) = choose|a: Seq<char>, b: Seq<char>| a != b && #[trigger] leaves(t, a, p) && #[trigger] leaves(t, b, p);
    lemma_leaver(t, f, w, p, a);
}
proof fn lemma_still_arrives(t: Map<Seq<char>, DeserializedConnection>, f: Map<Seq<char>, DeserializedConnection>, w: Rewiring, q: Node) requires rewired(t, f, w), !w.je.contains_key(q), many_to(t, q) ensures exists|k: Seq<char>| #[trigger] arrives(f, k, q) {
    let (a, b) = choose|a: Seq<char>, b: Seq<char>| a != b && #[trigger] arrives(t, a, q) && #[trigger] arrives(t, b, q);
    lemma_arriver(t, f, w, q, a);
}
#[verifier::spinoff_prover]
proof fn lemma_start_step(t: Map<Seq<char>, DeserializedConnection>, f: Map<Seq<char>, DeserializedConnection>, f1: Map<Seq<char>, DeserializedConnection>, w: Rewiring, p: Out, j: Seq<char>, l: Seq<char>)
    requires rewired(t, f, w), split_start(f, f1, p, j, l), !w.jn.contains_key(p), many_from(t, p), !junction_used(f, j), !f.contains_key(l)
    ensures rewired(t, f1, Rewiring { jn: w.jn.insert(p, j), lk: w.lk.insert(p, l), ..w })
{
    let w1 = Rewiring { jn: w.jn.insert(p, j), lk: w.lk.insert(p, l), ..w };
    lemma_used(t, f, w, j);
    lemma_still_leaves(t, f, w, p);
    let (a, b) = choose|a: Seq<char>, b: Seq<char>| a != b && #[trigger] leaves(t, a, p) && #[trigger] leaves(t, b, p);
    assert(w1.lk.dom() =~= w1.jn.dom());
    assert forall|k: Seq<char>| #[trigger] t.contains_key(k) implies f1.contains_key(k) && edge(f1[k]) == rewire(edge(t[k]), w1) by { lemma_leaver(t, f, w, p, k); assert(f.contains_key(k)); }
    assert forall|x: Out| #[trigger] w1.jn.contains_key(x) implies !t.contains_key(w1.lk[x]) && f1.contains_key(w1.lk[x]) && fed(t, edge(f1[w1.lk[x]]), x, w1.jn[x]) && !junction_used(t, w1.jn[x]) by {
        if x == p { let k0 = choose|k0: Seq<char>| #[trigger] leaves(f, k0, p) && edge(f1[l]) == feed(p, j, edge(f[k0]).inp.priority); lemma_leaver(t, f, w, p, k0); assert(leaves(t, k0, p)); }
        else { assert(w.jn.contains_key(x)); lemma_leaver(t, f, w, p, w.lk[x]); assert(f.contains_key(w.lk[x])); }
    }
    assert forall|q: Node| #[trigger] w1.je.contains_key(q) implies !t.contains_key(w1.rk[q]) && f1.contains_key(w1.rk[q]) && drains(t, edge(f1[w1.rk[q]]), q, w1.je[q]) && !junction_used(t, w1.je[q]) by { lemma_leaver(t, f, w, p, w.rk[q]); assert(f.contains_key(w.rk[q])); }
    assert forall|k: Seq<char>| #[trigger] f1.contains_key(k) implies t.contains_key(k) || (exists|x: Out| #[trigger] w1.jn.contains_key(x) && w1.lk[x] == k) || (exists|q: Node| #[trigger] w1.je.contains_key(q) && w1.rk[q] == k) by {
        if k == l { assert(w1.jn.contains_key(p) && w1.lk[p] == k); }
        else if !t.contains_key(k) {
            assert(f.contains_key(k));
            if exists|x: Out| #[trigger] w.jn.contains_key(x) && w.lk[x] == k { let x = choose|x: Out| #[trigger] w.jn.contains_key(x) && w.lk[x] == k; assert(w1.jn.contains_key(x) && w1.lk[x] == k); }
            else { let q = choose|q: Node| #[trigger] w.je.contains_key(q) && w.rk[q] == k; assert(w1.je.contains_key(q) && w1.rk[q] == k); }
        }
    }
    assert forall|x: Out, y: Out| x != y && #[trigger] w1.jn.contains_key(x) && #[trigger] w1.jn.contains_key(y) implies w1.jn[x] != w1.jn[y] && w1.lk[x] != w1.lk[y] by { if x != p { assert(w.jn.contains_key(x)); } if y != p { assert(w.jn.contains_key(y)); } }
    assert forall|x: Out, y: Node| #[trigger] w1.jn.contains_key(x) && #[trigger] w1.je.contains_key(y) implies w1.jn[x] != w1.je[y] && w1.lk[x] != w1.rk[y] by { if x != p { assert(w.jn.contains_key(x)); } assert(w.je.contains_key(y)); }
}
#[verifier::spinoff_prover]
proof fn lemma_end_step(t: Map<Seq<char>, DeserializedConnection>, f: Map<Seq<char>, DeserializedConnection>, f1: Map<Seq<char>, DeserializedConnection>, w: Rewiring, q: Node, j: Seq<char>, l: Seq<char>)
    requires rewired(t, f, w), split_end(f, f1, q, j, l), !w.je.contains_key(q), many_to(t, q), !junction_used(f, j), !f.contains_key(l)
    ensures rewired(t, f1, Rewiring { je: w.je.insert(q, j), rk: w.rk.insert(q, l), ..w })
{
    let w1 = Rewiring { je: w.je.insert(q, j), rk: w.rk.insert(q, l), ..w };
    lemma_used(t, f, w, j);
    lemma_still_arrives(t, f, w, q);
    let (a, b) = choose|a: Seq<char>, b: Seq<char>| a != b && #[trigger] arrives(t, a, q) && #[trigger] arrives(t, b, q);
    assert(w1.rk.dom() =~= w1.je.dom());
    assert forall|k: Seq<char>| #[trigger] t.contains_key(k) implies f1.contains_key(k) && edge(f1[k]) == rewire(edge(t[k]), w1) by { lemma_arriver(t, f, w, q, k); assert(f.contains_key(k)); }
    assert forall|x: Node| #[trigger] w1.je.contains_key(x) implies !t.contains_key(w1.rk[x]) && f1.contains_key(w1.rk[x]) && drains(t, edge(f1[w1.rk[x]]), x, w1.je[x]) && !junction_used(t, w1.je[x]) by {
        if x == q { let k0 = choose|k0: Seq<char>| #[trigger] arrives(f, k0, q) && edge(f1[l]) == drawn(q, j, edge(f[k0]).inp.priority); lemma_arriver(t, f, w, q, k0); assert(arrives(t, k0, q)); }
        else { assert(w.je.contains_key(x)); lemma_arriver(t, f, w, q, w.rk[x]); assert(f.contains_key(w.rk[x])); }
    }
    assert forall|p: Out| #[trigger] w1.jn.contains_key(p) implies !t.contains_key(w1.lk[p]) && f1.contains_key(w1.lk[p]) && fed(t, edge(f1[w1.lk[p]]), p, w1.jn[p]) && !junction_used(t, w1.jn[p]) by { lemma_arriver(t, f, w, q, w.lk[p]); assert(f.contains_key(w.lk[p])); }
    assert forall|k: Seq<char>| #[trigger] f1.contains_key(k) implies t.contains_key(k) || (exists|x: Out| #[trigger] w1.jn.contains_key(x) && w1.lk[x] == k) || (exists|x: Node| #[trigger] w1.je.contains_key(x) && w1.rk[x] == k) by {
        if k == l { assert(w1.je.contains_key(q) && w1.rk[q] == k); }
        else if !t.contains_key(k) {
            assert(f.contains_key(k));
            if exists|x: Out| #[trigger] w.jn.contains_key(x) && w.lk[x] == k { let x = choose|x: Out| #[trigger] w.jn.contains_key(x) && w.lk[x] == k; assert(w1.jn.contains_key(x) && w1.lk[x] == k); }
            else { let x = choose|x: Node| #[trigger] w.je.contains_key(x) && w.rk[x] == k; assert(w1.je.contains_key(x) && w1.rk[x] == k); }
        }
    }
    assert forall|x: Node, y: Node| x != y && #[trigger] w1.je.contains_key(x) && #[trigger] w1.je.contains_key(y) implies w1.je[x] != w1.je[y] && w1.rk[x] != w1.rk[y] by { if x != q { assert(w.je.contains_key(x)); } if y != q { assert(w.je.contains_key(y)); } }
    assert forall|x: Out, y: Node| #[trigger] w1.jn.contains_key(x) && #[trigger] w1.je.contains_key(y) implies w1.jn[x] != w1.je[y] && w1.lk[x] != w1.rk[y] by { if y != q { assert(w.je.contains_key(y)); } assert(w.jn.contains_key(x)); }
}
spec fn multis<K>(g: Seq<(K, usize)>, n: int) -> Seq<K> decreases n { if n <= 0 { Seq::empty() } else if g[n - 1].1 < 2 { multis(g, n - 1) } else { multis(g, n - 1).push(g[n - 1].0) } }
proof fn lemma_multis<K: View>(g: Seq<(K, usize)>, n: int, x: K::V) requires 0 <= n <= g.len() ensures seen(multis(g, n), x) <==> exists|i: int| 0 <= i < n && (#[trigger] g[i]).0@ == x && g[i].1 >= 2, multis(g, n).len() <= n decreases n {
    if n > 0 {
        lemma_multis(g, n - 1, x);
        let a = multis(g, n - 1); let b = multis(g, n);
        if seen(a, x) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i])@ == x; assert(b[i] == a[i]); }
        if seen(b, x) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i])@ == x; if i < a.len() { assert(a[i] == b[i]); } else { assert(g[n - 1].0@ == x); } }
        if g[n - 1].1 >= 2 && g[n - 1].0@ == x { assert(b[a.len() as int]@ == x); }
        if exists|i: int| 0 <= i < n && (#[trigger] g[i]).0@ == x && g[i].1 >= 2 { let i = choose|i: int| 0 <= i < n && (#[trigger] g[i]).0@ == x && g[i].1 >= 2; if i < n - 1 { assert(seen(a, x)); } }
    }
}
proof fn lemma_multis_map<K: View>(g: Seq<(K, usize)>, h: HashMap<K, usize>, x: K::V)
    requires entries::<K, usize>(Seq::new(g.len(), |i: int| g[i].0@), h.m()), forall|i: int| 0 <= i < g.len() ==> (#[trigger] g[i]).1 == h.m()[g[i].0@]
    ensures seen(multis(g, g.len() as int), x) <==> two(h, x)
{
    let m = h.m();
    lemma_multis(g, g.len() as int, x);
    let ks = Seq::new(g.len(), |i: int| g[i].0@);
    if m.contains_key(x) { let i = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == x; assert(g[i].0@ == x); }
    if seen(multis(g, g.len() as int), x) { let i = choose|i: int| 0 <= i < g.len() && (#[trigger] g[i]).0@ == x && g[i].1 >= 2; assert(m.contains_key(ks[i])); }
}
proof fn lemma_multis_differ<K: View>(g: Seq<(K, usize)>, h: HashMap<K, usize>, i: int, j: int)
    requires entries::<K, usize>(Seq::new(g.len(), |i: int| g[i].0@), h.m()), 0 <= i < j < multis(g, g.len() as int).len()
    ensures multis(g, g.len() as int)[i]@ != multis(g, g.len() as int)[j]@
{
    let ks = Seq::new(g.len(), |i: int| g[i].0@);
    assert forall|i: int, j: int| 0 <= i < j < g.len() implies (#[trigger] g[i]).0@ != (#[trigger] g[j]).0@ by { assert(ks[i] != ks[j]); }
    lemma_multis_distinct(g, g.len() as int, i, j);
}
proof fn lemma_multis_distinct<K: View>(g: Seq<(K, usize)>, n: int, i: int, j: int)
    requires 0 <= n <= g.len(), forall|i: int, j: int| 0 <= i < j < g.len() ==> (#[trigger] g[i]).0@ != (#[trigger] g[j]).0@, 0 <= i < j < multis(g, n).len()
    ensures multis(g, n)[i]@ != multis(g, n)[j]@ decreases n
{
    if n > 0 {
        let a = multis(g, n - 1);
        if j < a.len() { lemma_multis_distinct(g, n - 1, i, j); }
        else { lemma_multis(g, n - 1, multis(g, n)[i]@); assert(a[i] == multis(g, n)[i]); assert(seen(a, a[i]@)); }
    }
}
pub open spec fn outs(v: Seq<(ComponentType, String, OutputPort)>) -> Seq<Out> { Seq::new(v.len(), |i: int| out_of(v[i]@)) }
pub open spec fn nodes(v: Seq<(ComponentType, String)>) -> Seq<Node> { Seq::new(v.len(), |i: int| node_of(v[i]@)) }
proof fn lemma_next<T>(s: Seq<T>, n: int) requires 0 <= n < s.len(), s.no_duplicates() ensures !s.take(n).contains(s[n]), forall|x: T| #[trigger] s.take(n + 1).contains(x) <==> s.take(n).contains(x) || x == s[n] {
    if s.take(n).contains(s[n]) { let i = s.take(n).index_of(s[n]); assert(s[i] == s[n]); }
    assert forall|x: T| #[trigger] s.take(n + 1).contains(x) <==> s.take(n).contains(x) || x == s[n] by {
        if s.take(n + 1).contains(x) { let i = s.take(n + 1).index_of(x); if i < n { assert(s.take(n)[i] == x); } }
        if s.take(n).contains(x) { let i = s.take(n).index_of(x); assert(s.take(n + 1)[i] == x); }
        assert(s.take(n + 1)[n] == s[n]);
    }
}
proof fn lemma_multi_starts(g: Seq<((ComponentType, String, OutputPort), usize)>, h: HashMap<(ComponentType, String, OutputPort), usize>, t: Map<Seq<char>, DeserializedConnection>)
    requires entries::<(ComponentType, String, OutputPort), usize>(Seq::new(g.len(), |i: int| g[i].0@), h.m()), forall|i: int| 0 <= i < g.len() ==> (#[trigger] g[i]).1 == h.m()[g[i].0@], starts_counted(h, t)
    ensures outs(multis(g, g.len() as int)).no_duplicates(), forall|p: Out| #[trigger] outs(multis(g, g.len() as int)).contains(p) <==> many_from(t, p)
{
    let v = multis(g, g.len() as int); let o = outs(v);
    assert forall|i: int, j: int| 0 <= i < j < o.len() implies #[trigger] o[i] != #[trigger] o[j] by { lemma_multis_differ(g, h, i, j); assert(v[i]@ != v[j]@); }
    assert forall|p: Out| #[trigger] o.contains(p) <==> many_from(t, p) by {
        let x = (p.n.ct, p.n.name, p.port);
        assert(out_of(x) == p);
        lemma_multis_map(g, h, x);
        if o.contains(p) { let i = o.index_of(p); assert(v[i]@ == x); assert(seen(v, x)); }
        if many_from(t, p) { assert(many_from(t, out_of(x))); let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == x; assert(o[i] == p); }
    }
}
proof fn lemma_multi_ends(g: Seq<((ComponentType, String), usize)>, h: HashMap<(ComponentType, String), usize>, t: Map<Seq<char>, DeserializedConnection>)
    requires entries::<(ComponentType, String), usize>(Seq::new(g.len(), |i: int| g[i].0@), h.m()), forall|i: int| 0 <= i < g.len() ==> (#[trigger] g[i]).1 == h.m()[g[i].0@], ends_counted(h, t)
    ensures nodes(multis(g, g.len() as int)).no_duplicates(), forall|p: Node| #[trigger] nodes(multis(g, g.len() as int)).contains(p) <==> many_to(t, p)
{
    let v = multis(g, g.len() as int); let o = nodes(v);
    assert forall|i: int, j: int| 0 <= i < j < o.len() implies #[trigger] o[i] != #[trigger] o[j] by { lemma_multis_differ(g, h, i, j); assert(v[i]@ != v[j]@); }
    assert forall|p: Node| #[trigger] o.contains(p) <==> many_to(t, p) by {
        let x = (p.ct, p.name);
        assert(node_of(x) == p);
        lemma_multis_map(g, h, x);
        if o.contains(p) { let i = o.index_of(p); assert(v[i]@ == x); assert(seen(v, x)); }
        if many_to(t, p) { assert(many_to(t, node_of(x))); let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == x; assert(o[i] == p); }
    }
}
//@item src/config_manip.rs :: fn add_junctions [seq, nofn]
pub fn add_junctions(connections: BTreeMap<String, DeserializedConnection>) -> /*@ (r: @*/ BTreeMap<String, DeserializedConnection> /*@ )
    requires tabled(connections.m()) ensures exists|w: Rewiring| #[trigger] junctioned(connections.m(), r.m(), w) @*/ {
    /*@ let ghost t = connections.m(); let ghost mut w = Rewiring { jn: Map::empty(), lk: Map::empty(), je: Map::empty(), rk: Map::empty() }; @*/

    let (start_counts, end_counts) = count_start_ends(&connections);
    let mut existing_keys: HashSet<String> = /*! { let u0 = !*/ connections.keys() /*! ; !*/ /*@ let ghost g = u0@; proof { assert(u0.all_v() == g); } @*/ /*! let u1 = u0 !*/ .map(|x /*@: &String@*/| /*@ -> (o: String) ensures o@ == x@ { @*/ x.clone() /*@ } @*/) /*! ; let u: HashSet<String> = u1 !*/ .collect() /*! ; !*/ /*@ proof { lemma_key_set(g, u1@, t, u.s()); } @*/ /*! u } !*/ ;

    fn add_start_junctions_for(existing_keys: &mut HashSet<String>, multi_start: (ComponentType, String, OutputPort), in_config: BTreeMap::<String, DeserializedConnection>) -> BTreeMap::<String, DeserializedConnection> {

        let junction_name = generate_new_key(&"junction", &extract_junction_names(&in_config));
        let mut added_to_junction = false;
        in_config.into_iter().fold(BTreeMap::new(), |mut acc, (k, dsc)| {
            let mut dsc_vec = match dsc {
                DeserializedConnection::Connections(v) => v,
                DeserializedConnection::JoinString(_) => {
                    panic!("add_start_junctions_for - Has JoinString");
                }
            };
            if dsc_vec.len() != 2 {
                panic!("add_start_junctions_for - does not have 2 elements");
            }
            let end = dsc_vec.pop();
            let start = dsc_vec.pop();
            match (start, end) {
                (Some(Connection::StartConnection { component_type, component_name, output_port, .. }), Some(Connection::EndConnection { component_type: end_component_type, component_name: end_component_name, input_port: end_input_port, .. })) if (component_type == multi_start.0) && (component_name == multi_start.1) && (output_port == multi_start.2) => {

                    if !added_to_junction {
                        let left_start = Connection::StartConnection { component_type, component_name, output_port, connection_set: None };
                        let left_end = Connection::EndConnection { component_type: ComponentType::Junction, component_name: junction_name.clone(), input_port: InputPort { breakable: Breakable::Finish, priority: end_input_port.priority }, connection_set: None };
                        let new_key = generate_new_key(&"dyn_connection", existing_keys);
                        existing_keys.insert(new_key.clone());
                        acc.insert(
                            new_key,
                            DeserializedConnection::Connections(vec![left_start, left_end])
                        );
                        added_to_junction = true;
                    }

                    let right_start = Connection::StartConnection { component_type: ComponentType::Junction, component_name: junction_name.clone(), output_port: OutputPort::Out, connection_set: None };
                    let right_end = Connection::EndConnection { component_type: end_component_type, component_name: end_component_name, input_port: end_input_port, connection_set: None };

                    acc.insert(k, DeserializedConnection::Connections(vec![right_start, right_end]));
                    acc
                }
                (Some(start), Some(end)) => {
                    acc.insert(k, DeserializedConnection::Connections(vec![start, end]));
                    acc
                }
                _ => { panic!("add_start_junctions_for - unexpected"); }
            }
        })
    }

    fn add_end_junctions_for(existing_keys: &mut HashSet<String>, multi_end: (ComponentType, String), in_config: BTreeMap::<String, DeserializedConnection>) -> BTreeMap::<String, DeserializedConnection> {

        let junction_name = generate_new_key(&"junction", &extract_junction_names(&in_config));
        let mut added_to_junction = false;
        in_config.into_iter().fold(BTreeMap::new(), |mut acc, (k, dsc)| {
            let mut dsc_vec = match dsc {
                DeserializedConnection::Connections(v) => v,
                DeserializedConnection::JoinString(_) => {
                    panic!("add_start_junctions_for - Has JoinString");
                }
            };
            if dsc_vec.len() != 2 {
                panic!("add_start_junctions_for - does not have 2 elements");
            }
            let end = dsc_vec.pop();
            let start = dsc_vec.pop();
            match (start, end) {
                (Some(Connection::StartConnection { component_type, component_name, output_port, .. }), Some(Connection::EndConnection { component_type: end_component_type, component_name: end_component_name, input_port: end_input_port, .. })) if (end_component_type == multi_end.0) && (end_component_name == multi_end.1) => {

                    let left_start = Connection::StartConnection { component_type, component_name, output_port, connection_set: None };
                    let left_end = Connection::EndConnection { component_type: ComponentType::Junction, input_port: end_input_port.clone(), component_name: junction_name.clone(), connection_set: None };

                    acc.insert(k, DeserializedConnection::Connections(vec![left_start, left_end]));

                    if !added_to_junction {
                        let right_start = Connection::StartConnection { component_type: ComponentType::Junction, component_name: junction_name.clone(), output_port: OutputPort::Out, connection_set: None };
                        let right_end = Connection::EndConnection { component_type: end_component_type, component_name: end_component_name, input_port: InputPort { breakable: Breakable::Finish, priority: end_input_port.priority }, connection_set: None };
                        let new_key = generate_new_key(&"dyn_connection", existing_keys);
                        existing_keys.insert(new_key.clone());
                        acc.insert(
                            new_key,
                            DeserializedConnection::Connections(vec![right_start, right_end])
                        );
                        added_to_junction = true;
                    }

                    acc
                }
                (Some(start), Some(end)) => {
                    acc.insert(k, DeserializedConnection::Connections(vec![start, end]));
                    acc
                }
                _ => { panic!("add_start_junctions_for - unexpected"); }
            }
        })
    }

    let multi_starts: Vec<(ComponentType, String, OutputPort)> = start_counts.into_iter().fold(Vec::new() /*@ let ghost gs = src0__@; @*/, /*@ invariant it0__.seq() == gs, acc0__@ == multis(gs, it0__.index() as int) @*/ get_multi_starts /*@ proof { lemma_multi_starts(gs, start_counts, t); } @*/ );
    /*@ let ghost ms = multi_starts@; @*/
    let multi_ends: Vec<(ComponentType, String)> = end_counts.into_iter().fold(Vec::new() /*@ let ghost gs = src1__@; @*/, /*@ invariant it1__.seq() == gs, acc1__@ == multis(gs, it1__.index() as int) @*/ get_multis /*@ proof { lemma_multi_ends(gs, end_counts, t); } @*/ );
    /*@ let ghost me = multi_ends@; @*/

    let start_done = multi_starts.into_iter().fold(
        connections /*@ proof { assert(rewired(t, t, w)); } @*/,
        |acc, multi_start| /*@ invariant it2__.seq() == ms, rewired(t, acc2__.m(), w), w.je.dom() == Set::<Node>::empty(), forall|p: Out| #[trigger] w.jn.contains_key(p) <==> outs(ms).take(it2__.index() as int).contains(p),
            forall|k: Seq<char>| #[trigger] acc2__.m().contains_key(k) ==> existing_keys.s().contains(k) @*/ {
            /*@ let ghost n = it2__.index() as int; let ghost f0 = acc.m(); let ghost e0 = existing_keys.s(); let ghost p = out_of(multi_start@); proof { assert(outs(ms)[n] == p); assert(outs(ms).contains(p)); lemma_next(outs(ms), n); lemma_still_leaves(t, f0, w, p); } @*/
            /*! let r0 = !*/ add_start_junctions_for(&mut existing_keys, multi_start, acc ) /*! ; !*/
            /*@ proof {
                let (j, l) = choose|j: Seq<char>, l: Seq<char>| #[trigger] split_start(f0, r0.m(), p, j, l) && !junction_used(f0, j) && !e0.contains(l) && existing_keys.s() == e0.insert(l);
                lemma_start_step(t, f0, r0.m(), w, p, j, l);
                w = Rewiring { jn: w.jn.insert(p, j), lk: w.lk.insert(p, l), ..w };
            } @*/
            /*! r0 !*/ }
    );

    /*@ proof { assert(outs(ms).take(ms.len() as int) == outs(ms)); } @*/
    multi_ends.into_iter().fold(
        start_done,
        |acc, multi_end| /*@ invariant it3__.seq() == me, rewired(t, acc3__.m(), w), forall|p: Out| #[trigger] w.jn.contains_key(p) <==> many_from(t, p), forall|q: Node| #[trigger] w.je.contains_key(q) <==> nodes(me).take(it3__.index() as int).contains(q),
            forall|k: Seq<char>| #[trigger] acc3__.m().contains_key(k) ==> existing_keys.s().contains(k) @*/ {
            /*@ let ghost n = it3__.index() as int; let ghost f0 = acc.m(); let ghost e0 = existing_keys.s(); let ghost q = node_of(multi_end@); proof { assert(nodes(me)[n] == q); assert(nodes(me).contains(q)); lemma_next(nodes(me), n); lemma_still_arrives(t, f0, w, q); } @*/
            /*! let r0 = !*/ add_end_junctions_for(&mut existing_keys, multi_end, acc ) /*! ; !*/
            /*@ proof {
                let (j, l) = choose|j: Seq<char>, l: Seq<char>| #[trigger] split_end(f0, r0.m(), q, j, l) && !junction_used(f0, j) && !e0.contains(l) && existing_keys.s() == e0.insert(l);
                lemma_end_step(t, f0, r0.m(), w, q, j, l);
                w = Rewiring { je: w.je.insert(q, j), rk: w.rk.insert(q, l), ..w };
            } @*/
            /*! r0 !*/ } /*@ proof { assert(nodes(me).take(me.len() as int) == nodes(me)); assert(junctioned(t, acc3__.m(), w)); } @*/
    )

}
//@end
// ---- C11, from the contract of add_junctions
/// components other than junctions have at most one edge on each output and at most one incoming edge
pub proof fn theorem_unshared(t: Map<Seq<char>, DeserializedConnection>, f: Map<Seq<char>, DeserializedConnection>, w: Rewiring)
    requires tabled(t), junctioned(t, f, w)
    ensures forall|p: Out| !(p.n.ct is Junction) ==> !#[trigger] many_from(f, p), forall|q: Node| !(q.ct is Junction) ==> !#[trigger] many_to(f, q)
{
    assert forall|p: Out| !(p.n.ct is Junction) implies !#[trigger] many_from(f, p) by {
        if many_from(f, p) {
            let (a, b) = choose|a: Seq<char>, b: Seq<char>| a != b && #[trigger] leaves(f, a, p) && #[trigger] leaves(f, b, p);
            lemma_only_leaver(t, f, w, p, a); lemma_only_leaver(t, f, w, p, b);
            if !w.jn.contains_key(p) { assert(leaves(t, a, p) && leaves(t, b, p)); assert(many_from(t, p)); }
        }
    }
    assert forall|q: Node| !(q.ct is Junction) implies !#[trigger] many_to(f, q) by {
        if many_to(f, q) {
            let (a, b) = choose|a: Seq<char>, b: Seq<char>| a != b && #[trigger] arrives(f, a, q) && #[trigger] arrives(f, b, q);
            lemma_only_arriver(t, f, w, q, a); lemma_only_arriver(t, f, w, q, b);
            if !w.je.contains_key(q) { assert(arrives(t, a, q) && arrives(t, b, q)); assert(many_to(t, q)); }
        }
    }
}
proof fn lemma_only_leaver(t: Map<Seq<char>, DeserializedConnection>, f: Map<Seq<char>, DeserializedConnection>, w: Rewiring, p: Out, a: Seq<char>)
    requires rewired(t, f, w), !(p.n.ct is Junction), leaves(f, a, p) ensures if w.jn.contains_key(p) { a == w.lk[p] } else { leaves(t, a, p) } {
    if !t.contains_key(a) { if exists|x: Out| #[trigger] w.jn.contains_key(x) && w.lk[x] == a { } else { let q = choose|q: Node| #[trigger] w.je.contains_key(q) && w.rk[q] == a; } }
}
proof fn lemma_only_arriver(t: Map<Seq<char>, DeserializedConnection>, f: Map<Seq<char>, DeserializedConnection>, w: Rewiring, q: Node, a: Seq<char>)
    requires rewired(t, f, w), !(q.ct is Junction), arrives(f, a, q) ensures if w.je.contains_key(q) { a == w.rk[q] } else { arrives(t, a, q) } {
    if !t.contains_key(a) { if exists|x: Node| #[trigger] w.je.contains_key(x) && w.rk[x] == a { } else { let p = choose|p: Out| #[trigger] w.jn.contains_key(p) && w.lk[p] == a; } }
}
pub open spec fn inserted_after(w: Rewiring, n: Node) -> bool { exists|p: Out| #[trigger] w.jn.contains_key(p) && n == junction(w.jn[p]) }
pub open spec fn inserted_before(w: Rewiring, n: Node) -> bool { exists|q: Node| #[trigger] w.je.contains_key(q) && n == junction(w.je[q]) }
pub open spec fn inserted(w: Rewiring, n: Node) -> bool { inserted_after(w, n) || inserted_before(w, n) }
pub open spec fn hop(f: Map<Seq<char>, DeserializedConnection>, w: Rewiring, path: Seq<Seq<char>>, i: int) -> bool { inserted(w, edge(f[path[i]]).to) && edge(f[path[i + 1]]).from.n == edge(f[path[i]]).to }
/// connections that lead from an output to a component through inserted junctions
pub open spec fn route(f: Map<Seq<char>, DeserializedConnection>, w: Rewiring, path: Seq<Seq<char>>, p: Out, q: Node) -> bool {
    &&& path.len() >= 1
    &&& forall|i: int| 0 <= i < path.len() ==> f.contains_key(#[trigger] path[i])
    &&& edge(f[path[0]]).from == p && edge(f[path.last()]).to == q
    &&& forall|i: int| 0 <= i < path.len() - 1 ==> #[trigger] hop(f, w, path, i)
}
/// from every original output exactly the original destinations are reached through the inserted junctions
pub proof fn theorem_routes(t: Map<Seq<char>, DeserializedConnection>, f: Map<Seq<char>, DeserializedConnection>, w: Rewiring, p: Out, q: Node)
    requires tabled(t), junctioned(t, f, w), !inserted(w, p.n), !inserted(w, q)
    ensures (exists|path: Seq<Seq<char>>| #[trigger] route(f, w, path, p, q)) <==> (exists|k: Seq<char>| #[trigger] leaves(t, k, p) && arrives(t, k, q))
{
    if exists|k: Seq<char>| #[trigger] leaves(t, k, p) && arrives(t, k, q) {
        let k = choose|k: Seq<char>| #[trigger] leaves(t, k, p) && arrives(t, k, q);
        lemma_there(t, f, w, p, q, k);
    }
    if exists|path: Seq<Seq<char>>| #[trigger] route(f, w, path, p, q) {
        let path = choose|path: Seq<Seq<char>>| #[trigger] route(f, w, path, p, q);
        lemma_back(t, f, w, p, q, path);
    }
}
proof fn lemma_there(t: Map<Seq<char>, DeserializedConnection>, f: Map<Seq<char>, DeserializedConnection>, w: Rewiring, p: Out, q: Node, k: Seq<char>)
    requires rewired(t, f, w), leaves(t, k, p), arrives(t, k, q), ensures exists|path: Seq<Seq<char>>| #[trigger] route(f, w, path, p, q)
{
    let a = if w.jn.contains_key(p) { seq![w.lk[p], k] } else { seq![k] };
    let path = if w.je.contains_key(q) { a.push(w.rk[q]) } else { a };
    assert(edge(f[k]) == rewire(edge(t[k]), w));
    if w.jn.contains_key(p) { assert(path[0] == w.lk[p]); assert(path[1] == k); assert(inserted(w, edge(f[path[0]]).to)); } else { assert(path[0] == k); }
    if w.je.contains_key(q) { assert(path.last() == w.rk[q]); assert(inserted(w, edge(f[k]).to)); }
    assert forall|i: int| 0 <= i < path.len() - 1 implies #[trigger] hop(f, w, path, i) by { }
    assert forall|i: int| 0 <= i < path.len() implies f.contains_key(#[trigger] path[i]) by { }
    assert(route(f, w, path, p, q));
}
proof fn lemma_back(t: Map<Seq<char>, DeserializedConnection>, f: Map<Seq<char>, DeserializedConnection>, w: Rewiring, p: Out, q: Node, path: Seq<Seq<char>>)
    requires rewired(t, f, w), !inserted(w, p.n), !inserted(w, q), route(f, w, path, p, q), ensures exists|k: Seq<char>| #[trigger] leaves(t, k, p) && arrives(t, k, q)
{
    let a = path[0];
    assert(f.contains_key(a));
    // the edge that stands for an original one comes first, or second after the junction p feeds
    let i = if t.contains_key(a) { 0int } else { 1int };
    if !t.contains_key(a) {
        if exists|x: Out| #[trigger] w.jn.contains_key(x) && w.lk[x] == a { assert(w.lk[p] == a); }
        else { let x = choose|x: Node| #[trigger] w.je.contains_key(x) && w.rk[x] == a; assert(p.n == junction(w.je[x])); assert(inserted_before(w, p.n)); }
        assert(w.jn.contains_key(p));
        assert(edge(f[a]).to == junction(w.jn[p]));
        assert(inserted_after(w, edge(f[a]).to));
        assert(path.len() >= 2);
        assert(hop(f, w, path, 0));
        lemma_from_after(t, f, w, p, path[1]);
    } else if w.jn.contains_key(edge(t[a]).from) {
        assert(inserted_after(w, edge(f[a]).from.n));
    }
    let k = path[i];
    assert(t.contains_key(k) && edge(t[k]).from == p);
    assert(edge(f[k]) == rewire(edge(t[k]), w));
    assert(leaves(t, k, p));
    if w.je.contains_key(edge(t[k]).to) {
        let z = edge(t[k]).to;
        assert(edge(f[k]).to == junction(w.je[z]));
        assert(inserted_before(w, edge(f[k]).to));
        assert(i < path.len() - 1);
        assert(hop(f, w, path, i));
        assert(f.contains_key(path[i + 1]));
        lemma_from_before(t, f, w, z, path[i + 1]);
        assert(edge(f[path[i + 1]]).to == z);
        // z was a destination before, so it is no inserted junction, and the route ends here
        if inserted(w, z) { lemma_not_inserted(t, w, f, k); }
        if i + 1 < path.len() - 1 { assert(hop(f, w, path, i + 1)); }
        assert(path.last() == path[i + 1]);
    } else {
        lemma_not_inserted(t, w, f, k);
        assert(edge(f[k]).to == edge(t[k]).to);
        if i < path.len() - 1 { assert(hop(f, w, path, i)); }
        assert(path.last() == path[i]);
    }
    assert(arrives(t, k, q));
}
proof fn lemma_not_inserted(t: Map<Seq<char>, DeserializedConnection>, w: Rewiring, f: Map<Seq<char>, DeserializedConnection>, k: Seq<char>)
    requires rewired(t, f, w), t.contains_key(k) ensures !inserted(w, edge(t[k]).to), !inserted(w, edge(t[k]).from.n) {
    let e = edge(t[k]);
    assert forall|n: Seq<char>| e.to == junction(n) || e.from.n == junction(n) implies junction_used(t, n) by { assert(touches(t[k], n)); }
}
/// only edges of p leave the junction after p
proof fn lemma_from_after(t: Map<Seq<char>, DeserializedConnection>, f: Map<Seq<char>, DeserializedConnection>, w: Rewiring, p: Out, b: Seq<char>)
    requires rewired(t, f, w), w.jn.contains_key(p), f.contains_key(b), edge(f[b]).from.n == junction(w.jn[p]) ensures t.contains_key(b), edge(t[b]).from == p {
    if !t.contains_key(b) {
        if exists|x: Out| #[trigger] w.jn.contains_key(x) && w.lk[x] == b {
            let x = choose|x: Out| #[trigger] w.jn.contains_key(x) && w.lk[x] == b;
            let k0 = choose|k0: Seq<char>| #[trigger] leaves(t, k0, x) && edge(f[b]) == feed(x, w.jn[x], edge(t[k0]).inp.priority);
            assert(touches(t[k0], w.jn[p])); assert(junction_used(t, w.jn[p]));
        } else { let x = choose|x: Node| #[trigger] w.je.contains_key(x) && w.rk[x] == b; assert(w.jn[p] == w.je[x]); }
    } else if !w.jn.contains_key(edge(t[b]).from) {
        assert(touches(t[b], w.jn[p])); assert(junction_used(t, w.jn[p]));
    } else { assert(w.jn[edge(t[b]).from] == w.jn[p]); }
}
/// the junction in front of z feeds only z
proof fn lemma_from_before(t: Map<Seq<char>, DeserializedConnection>, f: Map<Seq<char>, DeserializedConnection>, w: Rewiring, z: Node, b: Seq<char>)
    requires rewired(t, f, w), w.je.contains_key(z), f.contains_key(b), edge(f[b]).from.n == junction(w.je[z]) ensures b == w.rk[z], edge(f[b]).to == z {
    if !t.contains_key(b) {
        if exists|x: Out| #[trigger] w.jn.contains_key(x) && w.lk[x] == b {
            let x = choose|x: Out| #[trigger] w.jn.contains_key(x) && w.lk[x] == b;
            let k0 = choose|k0: Seq<char>| #[trigger] leaves(t, k0, x) && edge(f[b]) == feed(x, w.jn[x], edge(t[k0]).inp.priority);
            assert(touches(t[k0], w.je[z])); assert(junction_used(t, w.je[z]));
        } else { let x = choose|x: Node| #[trigger] w.je.contains_key(x) && w.rk[x] == b; assert(w.je[x] == w.je[z]); }
    } else if !w.jn.contains_key(edge(t[b]).from) {
        assert(touches(t[b], w.je[z])); assert(junction_used(t, w.je[z]));
    } else { assert(w.jn[edge(t[b]).from] == w.je[z]); }
}
/// each original edge keeps its priority and policy; one that shares neither its output nor its destination stays as it was
pub proof fn theorem_legs(t: Map<Seq<char>, DeserializedConnection>, f: Map<Seq<char>, DeserializedConnection>, w: Rewiring, k: Seq<char>)
    requires tabled(t), junctioned(t, f, w), t.contains_key(k)
    ensures f.contains_key(k), edge(f[k]).inp == edge(t[k]).inp, !many_from(t, edge(t[k]).from) && !many_to(t, edge(t[k]).to) ==> edge(f[k]) == edge(t[k]) { }
// ---- C12: exit spies
spec fn launch_start(c: Connection, n: Seq<char>) -> bool { match c { Connection::StartConnection { component_type, component_name, .. } => component_type is Launch && component_name@ == n, _ => false } }
spec fn launch_exit(c: Connection) -> Option<Seq<char>> { match c { Connection::StartConnection { component_type, component_name, output_port, .. } => if component_type is Launch && output_port is Exit { Some(component_name@) } else { None }, _ => None } }
spec fn feeds(d: DeserializedConnection, n: Seq<char>) -> bool { d is Connections && list_of(d).len() == 2 && launch_start(list_of(d)[0], n) }
spec fn exits(d: DeserializedConnection, n: Seq<char>) -> bool { d is Connections && list_of(d).len() == 2 && launch_exit(list_of(d)[0]) == Some(n) }
/// the launch feeds a connection
pub closed spec fn launched(m: Map<Seq<char>, DeserializedConnection>, n: Seq<char>) -> bool { exists|k: Seq<char>| #[trigger] m.contains_key(k) && feeds(m[k], n) }
/// the launch's exit status goes somewhere
pub closed spec fn exited(m: Map<Seq<char>, DeserializedConnection>, n: Seq<char>) -> bool { exists|k: Seq<char>| #[trigger] m.contains_key(k) && exits(m[k], n) }
/// in terms of edges
pub proof fn theorem_spies(m: Map<Seq<char>, DeserializedConnection>, n: Seq<char>)
    requires tabled(m)
    ensures launched(m, n) <==> exists|k: Seq<char>| #[trigger] m.contains_key(k) && edge(m[k]).from.n == (Node { ct: ComponentType::Launch, name: n }),
        exited(m, n) <==> exists|k: Seq<char>| #[trigger] leaves(m, k, Out { n: Node { ct: ComponentType::Launch, name: n }, port: OutputPort::Exit })
{
    let p = Out { n: Node { ct: ComponentType::Launch, name: n }, port: OutputPort::Exit };
    if exited(m, n) { let k = choose|k: Seq<char>| #[trigger] m.contains_key(k) && exits(m[k], n); assert(leaves(m, k, p)); }
    if exists|k: Seq<char>| #[trigger] leaves(m, k, p) { let k = choose|k: Seq<char>| #[trigger] leaves(m, k, p); assert(m.contains_key(k) && exits(m[k], n)); }
    if launched(m, n) { let k = choose|k: Seq<char>| #[trigger] m.contains_key(k) && feeds(m[k], n); assert(edge(m[k]).from.n.name == n); }
    if exists|k: Seq<char>| #[trigger] m.contains_key(k) && edge(m[k]).from.n == (Node { ct: ComponentType::Launch, name: n }) { let k = choose|k: Seq<char>| #[trigger] m.contains_key(k) && edge(m[k]).from.n == (Node { ct: ComponentType::Launch, name: n }); assert(feeds(m[k], n)); }
}
spec fn p_launch(n: Seq<char>) -> spec_fn((Connection, Connection)) -> bool { |x: (Connection, Connection)| launch_start(x.0, n) }
spec fn p_exit(n: Seq<char>) -> spec_fn((Connection, Connection)) -> bool { |x: (Connection, Connection)| launch_exit(x.0) == Some(n) }
spec fn two_of(d: &DeserializedConnection, o: Option<(Connection, Connection)>) -> bool { (o is Some <==> (*d is Connections && list_of(*d).len() == 2)) && (o is Some ==> (o->0).0 == list_of(*d)[0] && (o->0).1 == list_of(*d)[1]) }
spec fn exit_of(x: &(Connection, Connection), o: Option<String>) -> bool { (o is Some <==> launch_exit(x.0) is Some) && (o is Some ==> o->0@ == launch_exit(x.0)->0) }
spec fn unless(s: Set<Seq<char>>, name: String, o: Option<String>) -> bool { o == (if s.contains(name@) { None } else { Some(name) }) }
proof fn lemma_picked_upto<T, U>(g: Seq<T>, o: Seq<Option<U>>, q: spec_fn(T) -> bool, p: spec_fn(U) -> bool)
    requires o.len() == g.len(), forall|i: int| 0 <= i < g.len() ==> (q(#[trigger] g[i]) <==> (o[i] is Some && p(o[i]->0)))
    ensures upto(g, g.len() as int, q) <==> upto(picked(o), picked(o).len() as int, p) decreases g.len()
{
    if g.len() > 0 {
        let n = g.len() - 1; let a = g.drop_last(); let b = o.drop_last();
        assert forall|i: int| 0 <= i < a.len() implies (q(#[trigger] a[i]) <==> (b[i] is Some && p(b[i]->0))) by { assert(a[i] == g[i]); }
        lemma_picked_upto(a, b, q, p);
        lemma_upto_prefix(a, g, n, q);
        lemma_upto(g, n, q);
        if o[n] is Some { let c = picked(b); lemma_upto_prefix(c, picked(o), c.len() as int, p); lemma_upto(picked(o), c.len() as int, p); assert(picked(o)[c.len() as int] == o[n]->0); }
    }
}
spec fn q_launch<'a>(n: Seq<char>) -> spec_fn(&'a DeserializedConnection) -> bool { |d: &'a DeserializedConnection| feeds(*d, n) }
spec fn q_exit<'a>(n: Seq<char>) -> spec_fn(&'a DeserializedConnection) -> bool { |d: &'a DeserializedConnection| exits(*d, n) }
proof fn lemma_launches(g: Seq<&DeserializedConnection>, o: Seq<Option<(Connection, Connection)>>, m: Map<Seq<char>, DeserializedConnection>)
    requires exists|ks: Seq<Seq<char>>| entries::<String, DeserializedConnection>(ks, m) && ks.len() == g.len() && forall|i: int| 0 <= i < ks.len() ==> *(#[trigger] g[i]) == m[ks[i]],
        o.len() == g.len(), forall|i: int| 0 <= i < o.len() ==> two_of(#[trigger] g[i], o[i])
    ensures forall|n: Seq<char>| upto(picked(o), picked(o).len() as int, #[trigger] p_launch(n)) <==> launched(m, n), forall|n: Seq<char>| upto(picked(o), picked(o).len() as int, #[trigger] p_exit(n)) <==> exited(m, n)
{
    let ks = choose|ks: Seq<Seq<char>>| entries::<String, DeserializedConnection>(ks, m) && ks.len() == g.len() && forall|i: int| 0 <= i < ks.len() ==> *(#[trigger] g[i]) == m[ks[i]];
    assert forall|n: Seq<char>| upto(picked(o), picked(o).len() as int, #[trigger] p_launch(n)) <==> launched(m, n) by {
        assert forall|i: int| 0 <= i < g.len() implies (q_launch(n)(#[trigger] g[i]) <==> (o[i] is Some && p_launch(n)(o[i]->0))) by { assert(two_of(g[i], o[i])); }
        lemma_picked_upto(g, o, q_launch(n), p_launch(n));
        if upto(g, g.len() as int, q_launch(n)) { let i = choose|i: int| 0 <= i < g.len() && q_launch(n)(#[trigger] g[i]); assert(m.contains_key(ks[i])); }
        if launched(m, n) { let k = choose|k: Seq<char>| #[trigger] m.contains_key(k) && feeds(m[k], n); let i = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == k; assert(q_launch(n)(g[i])); }
    }
    assert forall|n: Seq<char>| upto(picked(o), picked(o).len() as int, #[trigger] p_exit(n)) <==> exited(m, n) by {
        assert forall|i: int| 0 <= i < g.len() implies (q_exit(n)(#[trigger] g[i]) <==> (o[i] is Some && p_exit(n)(o[i]->0))) by { assert(two_of(g[i], o[i])); }
        lemma_picked_upto(g, o, q_exit(n), p_exit(n));
        if upto(g, g.len() as int, q_exit(n)) { let i = choose|i: int| 0 <= i < g.len() && q_exit(n)(#[trigger] g[i]); assert(m.contains_key(ks[i])); }
        if exited(m, n) { let k = choose|k: Seq<char>| #[trigger] m.contains_key(k) && exits(m[k], n); let i = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == k; assert(q_exit(n)(g[i])); }
    }
}
proof fn lemma_exits(cp: Seq<(Connection, Connection)>, g: Seq<&(Connection, Connection)>, o: Seq<Option<String>>, n: Seq<char>)
    requires g.len() == cp.len(), forall|i: int| 0 <= i < g.len() ==> *(#[trigger] g[i]) == cp[i], o.len() == g.len(), forall|i: int| 0 <= i < o.len() ==> exit_of(#[trigger] g[i], o[i])
    ensures seen(picked(o), n) <==> upto(cp, cp.len() as int, p_exit(n))
{
    lemma_picked(o, n);
    if seen_some(o, n) { let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]) is Some && o[i]->0@ == n; assert(exit_of(g[i], o[i])); assert(p_exit(n)(cp[i])); }
    if upto(cp, cp.len() as int, p_exit(n)) { let i = choose|i: int| 0 <= i < cp.len() && p_exit(n)(#[trigger] cp[i]); assert(exit_of(g[i], o[i])); }
}
proof fn lemma_unless(s: Set<Seq<char>>, e: Set<Seq<char>>, g: Seq<String>, o: Seq<Option<String>>, n: Seq<char>)
    requires members(g, s), o.len() == g.len(), forall|i: int| 0 <= i < o.len() ==> unless(e, #[trigger] g[i], o[i])
    ensures seen(picked(o), n) <==> s.contains(n) && !e.contains(n)
{
    lemma_picked(o, n);
    if seen_some(o, n) { let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]) is Some && o[i]->0@ == n; assert(unless(e, g[i], o[i])); assert(s.contains(g[i]@)); }
    if s.contains(n) && !e.contains(n) { let i = member_at(g, s, n); assert(unless(e, g[i], o[i])); }
}
//@item src/config_manip.rs :: fn identify_required_spies_for_launch_exits [seq]
fn identify_required_spies_for_launch_exits(connections: &BTreeMap<String, DeserializedConnection>) -> /*@ (r: @*/ HashSet<String> /*@ ) ensures forall|n: Seq<char>| #[trigger] r.s().contains(n) <==> launched(connections.m(), n) && !exited(connections.m(), n) @*/ {
    /*@ let ghost m = connections.m(); @*/

    let connection_pairs: Vec<(Connection, Connection)> = /*! ({ let v0 = !*/ connections.values() /*! ; !*/ /*@ let ghost g = v0@; proof { assert(v0.all_v() == g); } @*/ /*! let v1 = v0 !*/ .filter_map(|dsc /*@: &DeserializedConnection@*/| /*@ -> (o: Option<(Connection, Connection)>) ensures o is Some <==> (*dsc is Connections && list_of(*dsc).len() == 2), o is Some ==> (o->0).0 == list_of(*dsc)[0] && (o->0).1 == list_of(*dsc)[1] @*/ {
        match dsc {
            DeserializedConnection::Connections(v) if v.len() != 2 => {
                None
            },
            DeserializedConnection::Connections(v) => {
                Some((v[0].clone(), v[1].clone()))
            },
            _ => None,
        }
    }) /*! ; !*/
        /*@ proof {
            let o = choose|o: Seq<Option<(Connection, Connection)>>| v1@ == picked(o) && o.len() == g.len() && forall|i: int| 0 <= i < o.len() ==> two_of(#[trigger] g[i], o[i]);
            lemma_launches(g, o, m);
        } @*/
        /*! let v2: Vec<(Connection, Connection)> = v1 !*/ .collect() /*! ; v2 }) !*/ ;
    /*@ let ghost cp = connection_pairs@; let ghost cn = cp.len() as int; @*/

    let launch_has_exit_already: HashSet<String> = /*! ({ let v0 = !*/ connection_pairs.iter() /*! ; !*/ /*@ let ghost g = v0@; proof { assert(v0.all_v() == g); } @*/ /*! let v1 = v0 !*/ .filter_map(|(first, _) /*@: &(Connection, Connection)@*/| /*@ -> (o: Option<String>) ensures o is Some <==> launch_exit(p0__.0) is Some, o is Some ==> o->0@ == launch_exit(p0__.0)->0 @*/ {
        match first {
            Connection::StartConnection { component_type, component_name, output_port, .. }
                if (component_type == &ComponentType::Launch) && (output_port == &OutputPort::Exit) => {
                    Some(component_name.clone())
                },
            _ => None,
        }
    }) /*! ; !*/
        /*@ let ghost o = choose|o: Seq<Option<String>>| v1@ == picked(o) && o.len() == g.len() && forall|i: int| 0 <= i < o.len() ==> exit_of(#[trigger] g[i], o[i]); @*/
        /*! let v2: HashSet<String> = v1 !*/ .collect() /*! ; !*/
        /*@ proof { assert forall|n: Seq<char>| #[trigger] v2.s().contains(n) <==> exited(m, n) by { lemma_exits(cp, g, o, n); } } @*/ /*! v2 }) !*/ ;

    let all_launch = connection_pairs.into_iter().fold(HashSet::new(), |mut acc, (first, _last)| /*@ invariant it0__.seq() == cp, forall|n: Seq<char>| #[trigger] acc0__.s().contains(n) <==> upto(cp, it0__.index() as int, p_launch(n)) @*/ {
        /*@ let ghost i0 = it0__.index() as int; let ghost a0 = acc.s(); proof { assert forall|n: Seq<char>| upto(cp, i0 + 1, #[trigger] p_launch(n)) <==> upto(cp, i0, p_launch(n)) || p_launch(n)(cp[i0]) by { lemma_upto(cp, i0, p_launch(n)); } } @*/
        match first {
            Connection::StartConnection { component_type, component_name, .. }
                if component_type == ComponentType::Launch => {
                    acc.insert(component_name.clone());
                    acc
                },
            _ => acc,
        }
    } /*@ proof { assert forall|n: Seq<char>| #[trigger] acc0__.s().contains(n) <==> launched(m, n) by { assert(upto(cp, cn, p_launch(n)) <==> launched(m, n)); } } @*/ );

    /*! let v0 = !*/ all_launch.into_iter() /*! ; !*/ /*@ let ghost g = v0@; proof { assert(v0.all_v() == g); } @*/ /*! let v1 = v0 !*/ .filter_map(|name /*@: String@*/| /*@ -> (o: Option<String>) ensures o == (if launch_has_exit_already.s().contains(name@) { None } else { Some(name) }) @*/ {
        match launch_has_exit_already.contains(&name) {
            true => None,
            false => Some(name)
        }
    }) /*! ; !*/
        /*@ let ghost o = choose|o: Seq<Option<String>>| v1@ == picked(o) && o.len() == g.len() && forall|i: int| 0 <= i < o.len() ==> unless(launch_has_exit_already.s(), #[trigger] g[i], o[i]); @*/
        /*! let r: HashSet<String> = v1 !*/ .collect() /*! ; !*/
        /*@ proof { assert forall|n: Seq<char>| #[trigger] r.s().contains(n) <==> launched(m, n) && !exited(m, n) by { lemma_unless(all_launch.s(), launch_has_exit_already.s(), g, o, n); } } @*/ /*! r !*/

}
//@end
/// the i-th launch's exit status goes to a new drain that discards it
pub open spec fn spy(d: DeserializedConnection, launch: Seq<char>, drain: Seq<char>) -> bool {
    is_pair(d) && edge(d) == (Edge { from: Out { n: Node { ct: ComponentType::Launch, name: launch }, port: OutputPort::Exit }, sset: None, to: Node { ct: ComponentType::Drain, name: drain }, inp: InputPort { breakable: Breakable::Terminate, priority: 0 }, dset: None })
}
pub open spec fn spied(c0: Config, c1: Config, names: Seq<String>, ds: Seq<Seq<char>>, cs: Seq<Seq<char>>, n: int) -> bool {
    &&& c1 == (Config { drain: c1.drain, connection: c1.connection, ..c0 })
    &&& ds.len() == n && cs.len() == n
    &&& forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] ds[i] != #[trigger] ds[j]
    &&& forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] cs[i] != #[trigger] cs[j]
    &&& forall|i: int| 0 <= i < n ==> !c0.drain.m().contains_key(#[trigger] ds[i]) && c1.drain.m().contains_key(ds[i]) && c1.drain.m()[ds[i]].destination@ == "/dev/null"@
    &&& forall|i: int| 0 <= i < n ==> !c0.connection.m().contains_key(#[trigger] cs[i]) && c1.connection.m().contains_key(cs[i]) && spy(c1.connection.m()[cs[i]], names[i]@, ds[i])
    &&& forall|x: Seq<char>| #[trigger] c1.drain.m().contains_key(x) ==> c0.drain.m().contains_key(x) || ds.contains(x)
    &&& forall|x: Seq<char>| #[trigger] c0.drain.m().contains_key(x) ==> c1.drain.m().contains_key(x) && c1.drain.m()[x] == c0.drain.m()[x]
    &&& forall|x: Seq<char>| #[trigger] c1.connection.m().contains_key(x) ==> c0.connection.m().contains_key(x) || cs.contains(x)
    &&& forall|x: Seq<char>| #[trigger] c0.connection.m().contains_key(x) ==> c1.connection.m().contains_key(x) && c1.connection.m()[x] == c0.connection.m()[x]
}
proof fn lemma_spied(c0: Config, c1: Config, c2: Config, names: Seq<String>, ds: Seq<Seq<char>>, cs: Seq<Seq<char>>, n: int, d: Seq<char>, k: Seq<char>)
    requires spied(c0, c1, names, ds, cs, n), !c1.drain.m().contains_key(d), !c1.connection.m().contains_key(k), c2 == (Config { drain: c2.drain, connection: c2.connection, ..c1 }),
        c2.drain.m() == c1.drain.m().insert(d, c2.drain.m()[d]), c2.connection.m() == c1.connection.m().insert(k, c2.connection.m()[k]), c2.drain.m()[d].destination@ == "/dev/null"@, spy(c2.connection.m()[k], names[n]@, d)
    ensures spied(c0, c2, names, ds.push(d), cs.push(k), n + 1)
{
    let ds2 = ds.push(d); let cs2 = cs.push(k);
    assert forall|i: int, j: int| 0 <= i < j < n + 1 implies #[trigger] ds2[i] != #[trigger] ds2[j] by { assert(ds2[i] == ds[i]); if j < n { assert(ds2[j] == ds[j]); } }
    assert forall|i: int, j: int| 0 <= i < j < n + 1 implies #[trigger] cs2[i] != #[trigger] cs2[j] by { assert(cs2[i] == cs[i]); if j < n { assert(cs2[j] == cs[j]); } }
    assert forall|i: int| 0 <= i < n + 1 implies !c0.drain.m().contains_key(#[trigger] ds2[i]) && c2.drain.m().contains_key(ds2[i]) && c2.drain.m()[ds2[i]].destination@ == "/dev/null"@ by { if i < n { assert(ds2[i] == ds[i]); } }
    assert forall|i: int| 0 <= i < n + 1 implies !c0.connection.m().contains_key(#[trigger] cs2[i]) && c2.connection.m().contains_key(cs2[i]) && spy(c2.connection.m()[cs2[i]], names[i]@, ds2[i]) by { if i < n { assert(cs2[i] == cs[i]); assert(ds2[i] == ds[i]); } }
    assert forall|x: Seq<char>| #[trigger] c2.drain.m().contains_key(x) implies c0.drain.m().contains_key(x) || ds2.contains(x) by { if x == d { assert(ds2[n] == x); } else { assert(c1.drain.m().contains_key(x)); if ds.contains(x) { let i = ds.index_of(x); assert(ds2[i] == x); } } }
    assert forall|x: Seq<char>| #[trigger] c2.connection.m().contains_key(x) implies c0.connection.m().contains_key(x) || cs2.contains(x) by { if x == k { assert(cs2[n] == x); } else { assert(c1.connection.m().contains_key(x)); if cs.contains(x) { let i = cs.index_of(x); assert(cs2[i] == x); } } }
}
//@item src/config_manip.rs :: fn add_launch_exit_spies [seq]
fn add_launch_exit_spies(config: &mut Config, to_add: Vec<String>)
    /*@ ensures exists|ds: Seq<Seq<char>>, cs: Seq<Seq<char>>| #[trigger] spied(*old(config), *final(config), to_add@, ds, cs, to_add@.len() as int) @*/ {
    /*@ let ghost c0 = *config; let ghost names = to_add@; let ghost mut ds: Seq<Seq<char>> = Seq::empty(); let ghost mut cs: Seq<Seq<char>> = Seq::empty(); @*/

    let mut existing_connection_keys = /*! { let u0 = !*/ config.connection.keys() /*! ; !*/ /*@ let ghost g = u0@; proof { assert(u0.all_v() == g); } @*/ /*! let u1 = u0 !*/ .map(|x /*@: &String@*/| /*@ -> (o: String) ensures o@ == x@ { @*/ x.clone() /*@ } @*/) /*! ; let u: HashSet<String> = u1 !*/ .collect() /*! ; !*/ /*@ proof { lemma_key_set(g, u1@, c0.connection.m(), u.s()); } @*/ /*! u } !*/ ;
    let mut existing_drains = /*! { let u0 = !*/ config.drain.keys() /*! ; !*/ /*@ let ghost g = u0@; proof { assert(u0.all_v() == g); } @*/ /*! let u1 = u0 !*/ .map(|x /*@: &String@*/| /*@ -> (o: String) ensures o@ == x@ { @*/ x.clone() /*@ } @*/) /*! ; let u: HashSet<String> = u1 !*/ .collect() /*! ; !*/ /*@ proof { lemma_key_set(g, u1@, c0.drain.m(), u.s()); } @*/ /*! u } !*/ ;

    for launch_name in /*@ it: @*/ to_add /*@ invariant it.seq() == names, spied(c0, *config, names, ds, cs, it.index() as int),
        forall|x: Seq<char>| #[trigger] existing_connection_keys.s().contains(x) <==> config.connection.m().contains_key(x), forall|x: Seq<char>| #[trigger] existing_drains.s().contains(x) <==> config.drain.m().contains_key(x) @*/ {
        /*@ let ghost n = it.index() as int; let ghost c1 = *config; @*/
        let new_drain_key = generate_new_key("dyn_drain", &existing_drains);
        existing_drains.insert(new_drain_key.clone());
        let new_connection_key = generate_new_key("dyn_connection", &existing_connection_keys);
        existing_connection_keys.insert(new_connection_key.clone());
        /*@ let ghost d1 = new_drain_key@; let ghost k1 = new_connection_key@; @*/
        config.drain.insert(new_drain_key.clone(), crate::config::DrainConfig { destination: "/dev/null".to_owned() });
        config.connection.insert(new_connection_key, DeserializedConnection::Connections(vec![
            Connection::StartConnection { component_type: ComponentType::Launch, component_name: launch_name.to_owned(), output_port: OutputPort::Exit, connection_set: None },

            Connection::EndConnection { component_type: ComponentType::Drain, component_name: new_drain_key, input_port: InputPort { breakable: Breakable::Terminate, priority: 0 }, connection_set: None }
        ]));
        /*@ proof { lemma_spied(c0, c1, *config, names, ds, cs, n, d1, k1); ds = ds.push(d1); cs = cs.push(k1); } @*/
    }
}
//@end
// ---- preparing a configuration for running
/// every list is well formed once join strings are parsed
pub open spec fn runnable(m: Map<Seq<char>, DeserializedConnection>) -> bool {
    forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> match m[k] { DeserializedConnection::Connections(v) => shaped(v@), DeserializedConnection::JoinString(s) => parsed(s@) is Some && shaped(parsed(s@)->0) }
}
proof fn lemma_runnable(m0: Map<Seq<char>, DeserializedConnection>, m: Map<Seq<char>, DeserializedConnection>) requires runnable(m0), converted(m0, m) ensures forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> m[k] is Connections && shaped(list_of(m[k])) {
    assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies m[k] is Connections && shaped(list_of(m[k])) by { assert(m0.contains_key(k)); assert(converted1(m0[k], m[k])); }
}
/// f gives the keys of the pairs of each list, one by one
pub open spec fn paired_by(m: Map<Seq<char>, DeserializedConnection>, t: Map<Seq<char>, DeserializedConnection>, f: Map<Seq<char>, Seq<Seq<char>>>) -> bool {
    &&& forall|k: Seq<char>| #[trigger] f.contains_key(k) ==> m.contains_key(k) && f[k].len() == npairs(list_of(m[k]))
    &&& forall|k: Seq<char>, i: int| f.contains_key(k) && 0 <= i < f[k].len() ==> t.contains_key(#[trigger] f[k][i]) && pair_of(list_of(m[k]), i, t[f[k][i]])
    &&& forall|k: Seq<char>, i: int, k2: Seq<char>, i2: int| f.contains_key(k) && 0 <= i < f[k].len() && f.contains_key(k2) && 0 <= i2 < f[k2].len() && #[trigger] f[k][i] == #[trigger] f[k2][i2] ==> k == k2 && i == i2
    &&& forall|x: Seq<char>| #[trigger] t.contains_key(x) ==> exists|k: Seq<char>| #[trigger] f.contains_key(k) && f[k].contains(x)
}
proof fn lemma_paired(m: Map<Seq<char>, DeserializedConnection>, t: Map<Seq<char>, DeserializedConnection>, t1: Map<Seq<char>, DeserializedConnection>, f: Map<Seq<char>, Seq<Seq<char>>>, k: Seq<char>, ks: Seq<Seq<char>>)
    requires paired_by(m, t, f), m.contains_key(k), !f.contains_key(k), placed(t, t1, list_of(m[k]), k, ks, npairs(list_of(m[k])))
    ensures paired_by(m, t1, f.insert(k, ks))
{
    let f1 = f.insert(k, ks);
    assert forall|a: Seq<char>, i: int| f1.contains_key(a) && 0 <= i < f1[a].len() implies t1.contains_key(#[trigger] f1[a][i]) && pair_of(list_of(m[a]), i, t1[f1[a][i]]) by { if a != k { assert(f.contains_key(a)); assert(t.contains_key(f[a][i])); } }
    assert forall|a: Seq<char>, i: int, b: Seq<char>, j: int| f1.contains_key(a) && 0 <= i < f1[a].len() && f1.contains_key(b) && 0 <= j < f1[b].len() && #[trigger] f1[a][i] == #[trigger] f1[b][j] implies a == b && i == j by {
        if a != k { assert(f.contains_key(a)); assert(t.contains_key(f[a][i])); }
        if b != k { assert(f.contains_key(b)); assert(t.contains_key(f[b][j])); }
        if a == k && b == k { if i < j { assert(ks[i] != ks[j]); } if j < i { assert(ks[j] != ks[i]); } }
    }
    assert forall|x: Seq<char>| #[trigger] t1.contains_key(x) implies exists|a: Seq<char>| #[trigger] f1.contains_key(a) && f1[a].contains(x) by {
        if t.contains_key(x) { let a = choose|a: Seq<char>| #[trigger] f.contains_key(a) && f[a].contains(x); assert(f1.contains_key(a) && f1[a].contains(x)); }
        else { assert(f1.contains_key(k) && f1[k].contains(x)); }
    }
}
proof fn lemma_tabled(m: Map<Seq<char>, DeserializedConnection>, t: Map<Seq<char>, DeserializedConnection>, f: Map<Seq<char>, Seq<Seq<char>>>)
    requires paired_by(m, t, f), forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> m[k] is Connections && shaped(list_of(m[k]))
    ensures tabled(t)
{
    assert forall|x: Seq<char>| #[trigger] t.contains_key(x) implies is_pair(t[x]) by {
        let k = choose|k: Seq<char>| #[trigger] f.contains_key(k) && f[k].contains(x);
        let i = f[k].index_of(x);
        assert(f[k][i] == x);
        let s = list_of(m[k]);
        assert(pair_of(s, i, t[x]));
        assert(!(s[i] is EndConnection) && !(s[i + 1] is StartConnection));
    }
}
/// the stages of preparing a configuration: m its lists, t their pairs (f), wired the configuration with junctions (w), names the launches that get exit spies
pub ghost struct Prepared { pub m: Map<Seq<char>, DeserializedConnection>, pub f: Map<Seq<char>, Seq<Seq<char>>>, pub t: Map<Seq<char>, DeserializedConnection>, pub w: Rewiring, pub wired: Config, pub names: Seq<String>, pub ds: Seq<Seq<char>>, pub cs: Seq<Seq<char>> }
pub open spec fn prepared(c: Config, r: Config, p: Prepared) -> bool {
    &&& converted(c.connection.m(), p.m)
    &&& p.f.dom() == p.m.dom() && paired_by(p.m, p.t, p.f)
    &&& tabled(p.t) && junctioned(p.t, p.wired.connection.m(), p.w)
    &&& p.wired == (Config { connection: p.wired.connection, ..c })
    &&& spied(p.wired, r, p.names, p.ds, p.cs, p.names.len() as int)
    &&& forall|i: int, j: int| 0 <= i < j < p.names.len() ==> (#[trigger] p.names[i])@ != (#[trigger] p.names[j])@
    &&& forall|n: Seq<char>| seen(p.names, n) <==> #[trigger] launched(p.wired.connection.m(), n) && !exited(p.wired.connection.m(), n)
}
//@item src/config_manip.rs :: fn connection_manipulation [seq]
pub fn connection_manipulation(mut config: Config) -> /*@ (r: @*/ Config /*@ )
    requires runnable(config.connection.m())
    ensures exists|p: Prepared| #[trigger] prepared(config, r, p) @*/ {
    /*@ let ghost c0 = config; @*/
    let mut read_config_connections = std::mem::take(&mut config.connection);
    Config::convert_connections(&mut read_config_connections);
    /*@ let ghost m = read_config_connections.m(); proof { lemma_runnable(c0.connection.m(), m); } let ghost mut f: Map<Seq<char>, Seq<Seq<char>>> = Map::empty(); @*/
    let paired_config_connections = read_config_connections.into_iter().fold(BTreeMap::new() /*@ let ghost g = src0__@; let ghost ks = Seq::new(g.len(), |i: int| g[i].0@); @*/, /*@ invariant it0__.seq() == g, paired_by(m, acc0__.m(), f), forall|k: Seq<char>| #[trigger] f.contains_key(k) <==> ks.take(it0__.index() as int).contains(k) @*/
        /*@ let ghost n = it0__.index() as int; let ghost t0 = acc0__.m(); let ghost k1 = x0__.0@; proof { assert(ks[n] == k1); assert(m.contains_key(ks[n])); lemma_next(ks, n); } @*/
        /*@ proof {
            let kk = choose|kk: Seq<Seq<char>>| #[trigger] placed(t0, acc0__.m(), list_of(m[k1]), k1, kk, npairs(list_of(m[k1])));
            lemma_paired(m, t0, acc0__.m(), f, k1, kk);
            f = f.insert(k1, kk);
        } @*/ rebuild_pair_up_connections_folder
        /*@ proof { assert(ks.take(ks.len() as int) == ks); assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies f.contains_key(k) by { let i = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == k; } } @*/ );
    /*@ let ghost t = paired_config_connections.m(); proof { lemma_tabled(m, t, f); } @*/
    let mut manipulated_connections = add_junctions(paired_config_connections);
    /*@ let ghost w = choose|w: Rewiring| #[trigger] junctioned(t, manipulated_connections.m(), w); let ghost fm = manipulated_connections.m(); @*/
    /*@ let ghost mut ls: Set<Seq<char>> = Set::empty(); @*/
    let launch_missing_exit_spies = /*! { let s0 = !*/ identify_required_spies_for_launch_exits(&manipulated_connections) /*! ; !*/ /*@ proof { ls = s0.s(); } @*/ /*! let v0 = s0 !*/ .into_iter() /*! ; !*/ /*@ let ghost g = v0@; proof { assert(v0.all_v() == g); } @*/ /*! let v: Vec<String> = v0 !*/ .collect() /*! ; !*/ /*@ proof { assert(v@ == g); assert(members(v@, ls)); } @*/ /*! v } !*/ ;
    /*@ let ghost names = launch_missing_exit_spies@; @*/
    std::mem::swap(&mut config.connection, &mut manipulated_connections);
    /*@ let ghost c1 = config; @*/
    add_launch_exit_spies(&mut config, launch_missing_exit_spies);
    /*@ proof { let (ds, cs) = choose|ds: Seq<Seq<char>>, cs: Seq<Seq<char>>| #[trigger] spied(c1, config, names, ds, cs, names.len() as int);
        assert(f.dom() =~= m.dom()); assert(c1 == (Config { connection: c1.connection, ..c0 })); assert(c1.connection.m() == fm);
        assert forall|n: Seq<char>| seen(names, n) <==> #[trigger] launched(c1.connection.m(), n) && !exited(c1.connection.m(), n) by { if ls.contains(n) { let i = member_at(names, ls, n); } if seen(names, n) { let i = choose|i: int| 0 <= i < names.len() && #[trigger] names[i]@ == n; assert(ls.contains(names[i]@)); } }
        assert(prepared(c0, config, Prepared { m, f, t, w, wired: c1, names, ds, cs })); } @*/
    config
}
//@end
//@item src/config_manip.rs :: fn connection_manipulation_light [seq]
pub fn connection_manipulation_light(mut config: Config) -> /*@ (r: @*/ Config /*@ )
    requires runnable(config.connection.m())
    ensures r == (Config { connection: r.connection, ..config }), exists|m: Map<Seq<char>, DeserializedConnection>, f: Map<Seq<char>, Seq<Seq<char>>>| converted(config.connection.m(), m) && f.dom() == m.dom() && #[trigger] paired_by(m, r.connection.m(), f) @*/ {
    /*@ let ghost c0 = config; @*/
    let mut read_config_connections = std::mem::take(&mut config.connection);
    Config::convert_connections(&mut read_config_connections);
    /*@ let ghost m = read_config_connections.m(); proof { lemma_runnable(c0.connection.m(), m); } let ghost mut f: Map<Seq<char>, Seq<Seq<char>>> = Map::empty(); @*/
    let mut paired_config_connections = read_config_connections.into_iter().fold(BTreeMap::new() /*@ let ghost g = src0__@; let ghost ks = Seq::new(g.len(), |i: int| g[i].0@); @*/, /*@ invariant it0__.seq() == g, paired_by(m, acc0__.m(), f), forall|k: Seq<char>| #[trigger] f.contains_key(k) <==> ks.take(it0__.index() as int).contains(k) @*/
        /*@ let ghost n = it0__.index() as int; let ghost t0 = acc0__.m(); let ghost k1 = x0__.0@; proof { assert(ks[n] == k1); assert(m.contains_key(ks[n])); lemma_next(ks, n); } @*/
        /*@ proof {
            let kk = choose|kk: Seq<Seq<char>>| #[trigger] placed(t0, acc0__.m(), list_of(m[k1]), k1, kk, npairs(list_of(m[k1])));
            lemma_paired(m, t0, acc0__.m(), f, k1, kk);
            f = f.insert(k1, kk);
        } @*/ rebuild_pair_up_connections_folder
        /*@ proof { assert(ks.take(ks.len() as int) == ks); assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies f.contains_key(k) by { let i = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == k; } } @*/ );
    std::mem::swap(&mut config.connection, &mut paired_config_connections);
    /*@ proof { assert(f.dom() =~= m.dom()); assert(paired_by(m, config.connection.m(), f)); } @*/
    config
}
//@end
}
}
