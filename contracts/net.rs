// The waiter: the graph it builds, and how a run ends.
pub mod net {
use super::*;
use crate::async_std;
use crate::std_maps as std;
use vstd::prelude::*;
use crate::coll::*;
use crate::os::{AsRef, OsStr, Path, os_pairs, os_items};
use crate::launch::{Launch, LV};
use crate::faucet::{Faucet, FV};
use crate::drain::{Drain, DV};
use crate::buffer::{Buffer, BV};
use crate::junction::{Junction, pkey};
use crate::regulator::RV;
use crate::fmt::*;
use ::std::time::Instant;
verus!{

/// ASSUMED: a String denotes one operating system string, and one path
pub uninterp spec fn os_text(s: Seq<char>) -> OsStr;
pub uninterp spec fn path_text(s: Seq<char>) -> Path;
impl AsRef<OsStr> for String { open spec fn aref(&self) -> OsStr { os_text(self@) } #[verifier::external_body] fn as_ref(&self) -> (r: &OsStr) { unimplemented!() } }
impl AsRef<Path> for String { open spec fn aref(&self) -> Path { path_text(self@) } #[verifier::external_body] fn as_ref(&self) -> (r: &Path) { unimplemented!() } }
pub uninterp spec fn listed<K, V>(h: HashMap<K, V>) -> Seq<(K, V)>;
impl<K: View, V> crate::os::IntoIterator for HashMap<K, V> { type Item = (K, V); open spec fn items(&self) -> Seq<(K, V)> { listed(*self) } #[verifier::external_body] fn into_iter(self) -> (r: crate::os::Iter<(K, V)>) { unimplemented!() } }
impl<T> crate::os::IntoIterator for Vec<T> { type Item = T; open spec fn items(&self) -> Seq<T> { self@ } #[verifier::external_body] fn into_iter(self) -> (r: crate::os::Iter<T>) { unimplemented!() } }
//@item src/waiter.rs :: type LaunchString
type LaunchString = Launch<HashMap<String, String>, String, String, Vec<String>, String, String, String>;
//@end
//@item src/waiter.rs :: struct FaucetSettings
struct FaucetSettings {
    low_watermark: usize,
    high_watermark: usize,
    buffer_names: Vec<String>,
}
//@end
//@item src/waiter.rs :: struct Waiter
pub struct Waiter {
    faucet: HashMap<String, Faucet>,
    launch: HashMap<String, LaunchString>,
    junction: HashMap<String, Junction>,
    buffer: HashMap<String, Buffer>,
    drain: HashMap<String, Drain>,
    regulator: HashMap<String, Regulator>,
    regulator_settings: HashMap<String, FaucetSettings>,
    id: usize,
    component_type_name_to_id: HashMap<ComponentType, HashMap<String, usize>>,
    component_type_name_to_id_reverse: Option<HashMap<usize, (ComponentType, String)>>,
}
//@end

/// the messages name components and reasons (as derived Debug prints them)
impl Dbg for ConnectableAddInputError { uninterp spec fn shown_dbg(&self) -> Seq<char>; }
impl Dbg for ConnectableAddOutputError { uninterp spec fn shown_dbg(&self) -> Seq<char>; }
/// ASSUMED: a component type is shown by its name (its Display prints its derived Debug)
impl Disp for ComponentType { open spec fn shown(&self) -> Seq<char> { match self { ComponentType::Faucet => "Faucet"@, ComponentType::Launch => "Launch"@, ComponentType::Junction => "Junction"@, ComponentType::Buffer => "Buffer"@, ComponentType::Drain => "Drain"@, ComponentType::Regulator => "Regulator"@ } } }
/// nothing has happened but that channels have been made
pub open spec fn quiet(v0: WV, v1: WV) -> bool { v1 == (WV { chans: v1.chans, ..v0 }) && v0.chans.subset_of(v1.chans) }
/// what a component is called
pub ghost struct Node { pub ct: ComponentType, pub name: Seq<char> }
/// a connection from a component's output port to another's input
pub ghost struct Wire { pub from: Node, pub port: OutputPort, pub to: Node, pub way: InputPort }
/// a connection and the channel it was made with
pub ghost struct Lk { pub w: Wire, pub key: Key, pub src: usize, pub dst: usize }
pub ghost struct JV { pub outs: Seq<Push>, pub groups: Seq<Vec<Pull>>, pub ins: Seq<(Pull, isize)>, pub running: bool, pub size: usize }
pub ghost enum Comp { F(FV), L(LV), J(JV), B(BV), D(DV), R(RV) }
pub open spec fn jv(j: Junction) -> JV { JV { outs: j.outs(), groups: j.groups(), ins: j.ins(), running: j.running(), size: j.size() } }
pub open spec fn at<V>(m: Map<Seq<char>, V>, k: Seq<char>) -> Option<V> { if m.contains_key(k) { Some(m[k]) } else { None } }
/// the component of a name
pub closed spec fn comp(w: Waiter, n: Node) -> Option<Comp> {
    match n.ct {
        ComponentType::Faucet => match at(w.faucet.m(), n.name) { Some(c) => Some(Comp::F(c.v())), None => None },
        ComponentType::Launch => match at(w.launch.m(), n.name) { Some(c) => Some(Comp::L(c.v())), None => None },
        ComponentType::Junction => match at(w.junction.m(), n.name) { Some(c) => Some(Comp::J(jv(c))), None => None },
        ComponentType::Buffer => match at(w.buffer.m(), n.name) { Some(c) => Some(Comp::B(c.v())), None => None },
        ComponentType::Drain => match at(w.drain.m(), n.name) { Some(c) => Some(Comp::D(c.v())), None => None },
        ComponentType::Regulator => match at(w.regulator.m(), n.name) { Some(c) => Some(Comp::R(c.v())), None => None },
    }
}
pub open spec fn kind(c: Comp) -> ComponentType {
    match c { Comp::F(_) => ComponentType::Faucet, Comp::L(_) => ComponentType::Launch, Comp::J(_) => ComponentType::Junction, Comp::B(_) => ComponentType::Buffer, Comp::D(_) => ComponentType::Drain, Comp::R(_) => ComponentType::Regulator }
}
pub open spec fn node(p: (ComponentType, String)) -> Node { Node { ct: p.0, name: p.1@ } }
/// the component an identifier stands for
pub closed spec fn called(w: Waiter, id: usize) -> Option<Node> {
    match w.component_type_name_to_id_reverse { Some(h) => if h.m().contains_key(id) { Some(node(h.m()[id])) } else { None }, None => None }
}
/// the identifier of a component
pub closed spec fn id_of(w: Waiter, n: Node) -> Option<usize> {
    if w.component_type_name_to_id.m().contains_key(n.ct) { at(w.component_type_name_to_id.m()[n.ct].m(), n.name) } else { None }
}
/// the components' names are ns, and each is identified by its place there
pub closed spec fn named(w: Waiter, ns: Seq<Node>) -> bool {
    &&& w.id == ns.len() && w.component_type_name_to_id_reverse is Some
    &&& forall|ct: ComponentType| #[trigger] w.component_type_name_to_id.m().contains_key(ct)
    &&& forall|id: usize| #[trigger] called(w, id) == (if (id as int) < ns.len() { Some(ns[id as int]) } else { None })
    &&& forall|n: Node| (#[trigger] id_of(w, n)) is Some <==> ns.contains(n)
    &&& forall|n: Node| (#[trigger] id_of(w, n)) is Some ==> (id_of(w, n)->0 as int) < ns.len() && ns[id_of(w, n)->0 as int] == n
    &&& forall|i: int, j: int| 0 <= i < j < ns.len() ==> (#[trigger] ns[i]) != (#[trigger] ns[j])
}
/// w1 differs from w0 in nothing but the component n
pub closed spec fn same_but(w0: Waiter, w1: Waiter, n: Node) -> bool {
    &&& forall|m: Node| m != n ==> #[trigger] comp(w1, m) == comp(w0, m)
    &&& w1.id == w0.id && w1.component_type_name_to_id == w0.component_type_name_to_id && w1.component_type_name_to_id_reverse == w0.component_type_name_to_id_reverse && w1.regulator_settings == w0.regulator_settings
}
pub open spec fn opt<T>(o: Option<T>) -> Seq<T> { match o { Some(x) => seq![x], None => Seq::empty() } }
/// the connections of a component
pub open spec fn outs(c: Comp, s: OutputPort) -> Seq<Push> {
    match c {
        Comp::L(v) => match s { OutputPort::Out => opt(v.out), OutputPort::Err => opt(v.err), OutputPort::Exit => match v.exit { Some(x) => seq![Push::IoSender(x.0, x.1)], None => Seq::empty() } },
        Comp::J(v) => if s is Out { v.outs } else { Seq::empty() },
        Comp::F(v) => if s is Out { opt(v.out) } else { Seq::empty() },
        Comp::B(v) => if s is Out { opt(v.out) } else { Seq::empty() },
        Comp::R(v) => if s is Out { opt(v.out) } else { Seq::empty() },
        Comp::D(v) => Seq::empty(),
    }
}
pub open spec fn first_rank(o: Option<Pull>) -> Seq<(Pull, isize)> { match o { Some(x) => seq![(x, 0isize)], None => Seq::empty() } }
pub open spec fn ins(c: Comp) -> Seq<(Pull, isize)> {
    match c { Comp::F(v) => first_rank(v.inp), Comp::L(v) => first_rank(v.inp), Comp::J(v) => v.ins, Comp::B(v) => first_rank(v.inp), Comp::D(v) => first_rank(v.inp), Comp::R(v) => first_rank(v.inp) }
}
/// a component with one more output or input
pub open spec fn with_out(c: Comp, port: OutputPort, p: Push) -> Comp {
    match c {
        Comp::F(v) => Comp::F(FV { out: Some(p), pj: Some(PullJourney { src: p->IoSender_0.src, dst: p->IoSender_0.dst }), ..v }),
        Comp::L(v) => Comp::L(match port { OutputPort::Out => LV { out: Some(p), ..v }, OutputPort::Err => LV { err: Some(p), ..v }, OutputPort::Exit => LV { exit: Some((p->IoSender_0, p->IoSender_1)), ..v } }),
        Comp::J(v) => Comp::J(JV { outs: v.outs.push(p), ..v }),
        Comp::B(v) => Comp::B(BV { out: Some(p), ..v }),
        Comp::D(v) => c,
        Comp::R(v) => Comp::R(RV { out: Some(p), ..v }),
    }
}
pub open spec fn with_in(c: Comp, pull: Pull, prio: isize) -> Comp {
    match c {
        Comp::F(v) => c,
        Comp::L(v) => Comp::L(LV { inp: Some(pull), ..v }),
        Comp::J(v) => Comp::J(JV { ins: v.ins.push((pull, prio)), ..v }),
        Comp::B(v) => Comp::B(BV { inp: Some(pull), ..v }),
        Comp::D(v) => Comp::D(DV { inp: Some(pull), ..v }),
        Comp::R(v) => Comp::R(RV { inp: Some(pull), ..v }),
    }
}
/// why a component refuses another output or input, if it does
pub open spec fn out_refusal(c: Comp, port: OutputPort) -> Option<ConnectableAddOutputError> {
    let taken = Some(ConnectableAddOutputError::AlreadyAllocated(port)); let never = Some(ConnectableAddOutputError::UnsupportedPort(port));
    match c {
        Comp::F(v) => if port != OutputPort::Out { never } else if v.out is Some { taken } else { None },
        Comp::L(v) => if match port { OutputPort::Out => v.out is Some, OutputPort::Err => v.err is Some, OutputPort::Exit => v.exit is Some } { taken } else { None },
        Comp::J(v) => None,
        Comp::B(v) => if v.out is Some { taken } else { None },
        Comp::D(v) => never,
        Comp::R(v) => if port != OutputPort::Out { never } else if v.out is Some { taken } else { None },
    }
}
pub open spec fn in_refusal(c: Comp, prio: isize) -> Option<ConnectableAddInputError> {
    match c {
        Comp::F(v) => Some(ConnectableAddInputError::UnsupportedForControl),
        Comp::J(v) => None,
        _ => if prio != 0 { Some(ConnectableAddInputError::UnsupportedPriority(prio)) } else if ins(c).len() > 0 { Some(ConnectableAddInputError::AlreadyAllocated) } else { None },
    }
}
pub open spec fn sized(c: Comp) -> bool { match c { Comp::F(v) => v.size > 0, Comp::J(v) => v.size > 0, Comp::B(v) => v.size > 0, Comp::R(v) => v.size > 0, _ => true } }
pub open spec fn all_sized(w: Waiter) -> bool { forall|n: Node| (#[trigger] comp(w, n)) is Some ==> sized(comp(w, n)->0) }
/// the port an output names itself: a junction's outputs are all `Out`
pub open spec fn said(ct: ComponentType, port: OutputPort) -> OutputPort { if ct is Junction { OutputPort::Out } else { port } }
/// a new channel from an output (kept by its component) to the input that is to read it
pub open spec fn made(ct: ComponentType, port: OutputPort, breakable: Breakable, src: usize, dst: usize, pull: Pull, p: Push, v0: WV, v1: WV) -> bool {
    &&& pull is Receiver && pull->Receiver_0 == (PullJourney { src, dst })
    &&& p is IoSender && p->IoSender_1.key() == pkey(pull) && p->IoSender_0 == (Journey { src, src_port: Some(said(ct, port)), dst, breakable })
    &&& !v0.chans.contains(pkey(pull)) && v1 == v0.new_chan(pkey(pull))
}
pub open spec fn gave(w0: Waiter, n: Node, port: OutputPort, breakable: Breakable, src: usize, dst: usize, pull: Pull, p: Push, w1: Waiter, v0: WV, v1: WV) -> bool {
    &&& same_but(w0, w1, n) && comp(w0, n) is Some && out_refusal(comp(w0, n)->0, port) is None
    &&& comp(w1, n) == Some(with_out(comp(w0, n)->0, port, p)) && made(n.ct, port, breakable, src, dst, pull, p, v0, v1)
}
pub open spec fn took(w0: Waiter, n: Node, pull: Pull, prio: isize, w1: Waiter) -> bool {
    &&& same_but(w0, w1, n) && comp(w0, n) is Some && in_refusal(comp(w0, n)->0, prio) is None
    &&& comp(w1, n) == Some(with_in(comp(w0, n)->0, pull, prio))
}
pub open spec fn halves(pull: Pull, p: Push, wm: Waiter) -> bool { pull is Receiver && p is IoSender }
/// the regulator settings of a name
pub ghost struct Tuned { pub low: usize, pub high: usize, pub names: Seq<Seq<char>> }
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
pub closed spec fn tuned(w: Waiter, n: Seq<char>) -> Option<Tuned> {
    match at(w.regulator_settings.m(), n) { Some(s) => Some(Tuned { low: s.low_watermark, high: s.high_watermark, names: texts(s.buffer_names@) }), None => None }
}
pub assume_specification<T>[ Option::<Option<T>>::flatten ](o: Option<Option<T>>) -> (r: Option<T>) ensures r == (match o { Some(x) => x, None => None });
pub assume_specification<'a, T: Copy>[ Option::<&'a T>::copied ](o: Option<&'a T>) -> (r: Option<T>) ensures r == (match o { Some(x) => Some(*x), None => None });
/// nothing changed but the regulators' settings
pub closed spec fn only_settings(w0: Waiter, w1: Waiter) -> bool { w1 == (Waiter { regulator_settings: w1.regulator_settings, ..w0 }) }
/// nothing changed but the names
pub closed spec fn same_comps(w0: Waiter, w1: Waiter) -> bool {
    w1 == (Waiter { id: w1.id, component_type_name_to_id: w1.component_type_name_to_id, component_type_name_to_id_reverse: w1.component_type_name_to_id_reverse, ..w0 })
}
//@item src/waiter.rs :: impl Waiter > fn new [seq]
    pub fn new() -> /*@ (r: @*/ Waiter /*@ ) ensures named(r, Seq::empty()), forall|n: Node| (#[trigger] comp(r, n)) is None, forall|n: Seq<char>| (#[trigger] tuned(r, n)) is None @*/ {
        let mut hm: HashMap<ComponentType, HashMap<String, usize>> = HashMap::new();
        hm.insert(ComponentType::Buffer, HashMap::new());
        hm.insert(ComponentType::Drain, HashMap::new());
        hm.insert(ComponentType::Regulator, HashMap::new());
        hm.insert(ComponentType::Faucet, HashMap::new());
        hm.insert(ComponentType::Junction, HashMap::new());
        hm.insert(ComponentType::Launch, HashMap::new());
        Waiter {
            faucet: HashMap::new(),
            launch: HashMap::new(),
            junction: HashMap::new(),
            buffer: HashMap::new(),
            drain: HashMap::new(),
            regulator: HashMap::new(),
            regulator_settings: HashMap::new(),
            id: 0,
            component_type_name_to_id: hm,
            component_type_name_to_id_reverse: Some(HashMap::new()),
        }
    }
//@end
//@item src/waiter.rs :: impl Waiter > fn incr_id [seq]
    fn incr_id(&mut self, component_type: ComponentType, name: String) -> /*@ (r: @*/ usize /*@ )
        requires exists|ns: Seq<Node>| #[trigger] named(*old(self), ns) && ns.len() < usize::MAX && !ns.contains(Node { ct: component_type, name: name@ }),
        ensures same_comps(*old(self), *final(self)),
            forall|ns: Seq<Node>| #[trigger] named(*old(self), ns) && !ns.contains(Node { ct: component_type, name: name@ }) ==> r == ns.len() && named(*final(self), ns.push(Node { ct: component_type, name: name@ })), @*/ {
        /*@ let ghost w0 = *self; let ghost n = Node { ct: component_type, name: name@ }; @*/
        match self.component_type_name_to_id_reverse.as_mut() {
            Some(hm) => { hm.insert(self.id, (component_type, name.clone())); },
            _ => {}
        }
        let hm = self.component_type_name_to_id.get_mut(&component_type).unwrap();
        let inner_entry = hm.entry(name);
        inner_entry.or_insert(self.id);
        self.id += 1;
        /*@ proof {
            let i = w0.id;
            assert(!w0.component_type_name_to_id.m()[component_type].m().contains_key(n.name)) by { let ns = choose|ns: Seq<Node>| #[trigger] named(w0, ns) && ns.len() < usize::MAX && !ns.contains(n); assert(id_of(w0, n) is None); }
            assert(forall|k: usize| #[trigger] called(*self, k) == (if k == i { Some(n) } else { called(w0, k) }));
            assert(forall|m: Node| #[trigger] id_of(*self, m) == (if m == n { Some(i) } else { id_of(w0, m) }));
            assert forall|ns: Seq<Node>| #[trigger] named(w0, ns) && !ns.contains(n) implies named(*self, ns.push(n)) by {
                let ms = ns.push(n);
                assert forall|m: Node| (#[trigger] id_of(*self, m)) is Some <==> ms.contains(m) by {
                    if ns.contains(m) { let k = choose|k: int| 0 <= k < ns.len() && ns[k] == m; assert(ms[k] == m); }
                    assert(ms[ns.len() as int] == n);
                    if ms.contains(m) { let k = choose|k: int| 0 <= k < ms.len() && ms[k] == m; if k < ns.len() { assert(ns[k] == m); } }
                }
                assert forall|a: int, b: int| 0 <= a < b < ms.len() implies (#[trigger] ms[a]) != (#[trigger] ms[b]) by { if b == ns.len() { assert(ns[a] == ms[a]); } }
            }
        } @*/
        self.id - 1
    }
//@end
//@item src/waiter.rs :: impl Waiter > fn get_id [seq]
    fn get_id(&self, component_type: &ComponentType, component_name: &str) -> /*@ (r: @*/ Option<usize> /*@ )
        ensures r == id_of(*self, Node { ct: *component_type, name: component_name@ }) @*/ {
        self.component_type_name_to_id.get(component_type).map(|hm| hm.get(component_name).copied()).flatten()
    }
//@end
//@item src/waiter.rs :: impl Waiter > fn get_src_pull [eff, seq]
    fn get_src_pull(&mut self, src_id: usize, dst_id: usize, output_port: OutputPort, breakable: Breakable) -> /*@ (res: @*/ Result<Pull, ConnectableError> /*@ )
        requires all_sized(*old(self)),
        ensures quiet(old(w).v(), final(w).v()), match called(*old(self), src_id) {
            Some(n) => match comp(*old(self), n) {
                Some(c) => match out_refusal(c, output_port) {
                    Some(e) => res == Err::<Pull, ConnectableError>(ConnectableError::AddOutput(src_id, e)),
                    None => res is Ok && exists|p: Push| #[trigger] halves(res->Ok_0, p, *final(self)) && gave(*old(self), n, output_port, breakable, src_id, dst_id, res->Ok_0, p, *final(self), old(w).v(), final(w).v()),
                },
                None => res == Err::<Pull, ConnectableError>(ConnectableError::CouldNotFindSourceComponent(src_id)),
            },
            None => res == Err::<Pull, ConnectableError>(ConnectableError::CouldNotFindSourceComponent(src_id)),
        }, @*/ {
        /*@ let ghost w0 = *self; @*/
        let r = match self.component_type_name_to_id_reverse.as_ref().map(|x| x.get(&src_id)).flatten() {
            Some((ComponentType::Faucet, component_name)) => {
                self.faucet.get_mut(component_name).map(|x| x.add_output(output_port, breakable, src_id, dst_id))
            },
            Some((ComponentType::Launch, component_name)) => {
                self.launch.get_mut(component_name).map(|x| x.add_output(output_port, breakable, src_id, dst_id))
            },
            Some((ComponentType::Junction, component_name)) => {
                self.junction.get_mut(component_name).map(|x| x.add_output(output_port, breakable, src_id, dst_id))
            },
            Some((ComponentType::Buffer, component_name)) => {
                self.buffer.get_mut(component_name).map(|x| x.add_output(output_port, breakable, src_id, dst_id))
            },
            Some((ComponentType::Drain, component_name,)) => {
                self.drain.get_mut(component_name).map(|x| x.add_output(output_port, breakable, src_id, dst_id))
            },
            Some((ComponentType::Regulator, component_name,)) => {
                self.regulator.get_mut(component_name).map(|x| x.add_output(output_port, breakable, src_id, dst_id))
            },
            None => None,
        };
        /*@ proof {
            if called(w0, src_id) is Some && comp(w0, called(w0, src_id)->0) is Some {
                let n = called(w0, src_id)->0; let c = comp(w0, n)->0;
                assert(sized(c));
                assert(r is Some);
                if out_refusal(c, output_port) is None {
                    assert(r->0 is Ok);
                    assert(same_but(w0, *self, n));
                    let p = match comp(*self, n)->0 {
                        Comp::F(v) => v.out->0, Comp::B(v) => v.out->0, Comp::R(v) => v.out->0, Comp::J(v) => v.outs.last(), Comp::D(v) => arbitrary(),
                        Comp::L(v) => match output_port { OutputPort::Out => v.out->0, OutputPort::Err => v.err->0, OutputPort::Exit => Push::IoSender((v.exit->0).0, (v.exit->0).1) },
                    };
                    let pull = r->0->Ok_0;
                    if c is J { assert(c->J_0.outs.push(p).last() == p); }
                    assert(made(n.ct, output_port, breakable, src_id, dst_id, pull, p, old(w).v(), w.v()));
                    assert(comp(*self, n) == Some(with_out(c, output_port, p)));
                    assert(gave(w0, n, output_port, breakable, src_id, dst_id, pull, p, *self, old(w).v(), w.v()));
                    assert(halves(pull, p, *self));
                } else {
                    assert(r->0 is Err);
                    assert(r->0->Err_0 == out_refusal(c, output_port)->0);
                }
            } else { assert(r is None);
            }
        } @*/
        /*@ let ghost r1 = r; @*/
        /*! { let res0 = !*/ match r {
            None => Err(ConnectableError::CouldNotFindSourceComponent(src_id)),
            Some(Err(x)) => Err(ConnectableError::AddOutput(src_id, x)),
            Some(Ok(x)) => Ok(x),
        } /*! ; !*/
        /*@ proof {
            if called(w0, src_id) is Some && comp(w0, called(w0, src_id)->0) is Some {
                let n = called(w0, src_id)->0; let c = comp(w0, n)->0;
                if out_refusal(c, output_port) is None {
                    assert(res0 is Ok);
                    assert(res0->Ok_0 == r1->0->Ok_0);
                    let p = match comp(*self, n)->0 {
                        Comp::F(v) => v.out->0, Comp::B(v) => v.out->0, Comp::R(v) => v.out->0, Comp::J(v) => v.outs.last(), Comp::D(v) => arbitrary(),
                        Comp::L(v) => match output_port { OutputPort::Out => v.out->0, OutputPort::Err => v.err->0, OutputPort::Exit => Push::IoSender((v.exit->0).0, (v.exit->0).1) },
                    };
                    assert(gave(w0, n, output_port, breakable, src_id, dst_id, r1->0->Ok_0, p, *self, old(w).v(), w.v()));
                    assert(halves(r1->0->Ok_0, p, *self));
                    assert(exists|p: Push| #[trigger] halves(res0->Ok_0, p, *self) && gave(w0, n, output_port, breakable, src_id, dst_id, res0->Ok_0, p, *self, old(w).v(), w.v()));
                } else {
                    assert(res0 == Err::<Pull, ConnectableError>(ConnectableError::AddOutput(src_id, out_refusal(c, output_port)->0)));
                }
            } else { assert(res0 == Err::<Pull, ConnectableError>(ConnectableError::CouldNotFindSourceComponent(src_id))); }
        } @*/ /*! res0 } !*/
    }
//@end
/// an output more does not change what inputs a component takes
proof fn lemma_given(w0: Waiter, wm: Waiter, n: Node, d: Node, port: OutputPort, b: Breakable, src: usize, dst: usize, pull: Pull, p: Push, v0: WV, v1: WV)
    requires gave(w0, n, port, b, src, dst, pull, p, wm, v0, v1)
    ensures comp(wm, d) is Some == comp(w0, d) is Some, comp(w0, d) is Some ==> forall|x: isize| #[trigger] in_refusal(comp(wm, d)->0, x) == in_refusal(comp(w0, d)->0, x)
{ }
/// an output's component and an input's have been connected
pub closed spec fn does_join(w0: Waiter, src: usize, port: OutputPort, dst: usize, way: InputPort, w1: Waiter, v0: WV, v1: WV) -> bool {
    exists|pull: Pull, p: Push, wm: Waiter| #[trigger] halves(pull, p, wm) && called(w0, src) is Some && called(w0, dst) is Some
        && gave(w0, called(w0, src)->0, port, way.breakable, src, dst, pull, p, wm, v0, v1) && took(wm, called(w0, dst)->0, pull, way.priority, w1)
}
/// why they could not be
pub closed spec fn no_join(w0: Waiter, src: usize, port: OutputPort, dst: usize, way: InputPort, e: ConnectableError) -> bool {
    match e {
        ConnectableError::AddOutput(id, e) => id == src && called(w0, id) is Some && comp(w0, called(w0, id)->0) is Some && out_refusal(comp(w0, called(w0, id)->0)->0, port) == Some(e),
        ConnectableError::AddInput(id, e) => id == dst && called(w0, id) is Some && comp(w0, called(w0, id)->0) is Some && in_refusal(comp(w0, called(w0, id)->0)->0, way.priority) == Some(e),
        ConnectableError::CouldNotFindSourceComponent(id) => id == src && (called(w0, id) is None || comp(w0, called(w0, id)->0) is None),
        ConnectableError::CouldNotFindDestinationComponent(id) => id == dst && (called(w0, id) is None || comp(w0, called(w0, id)->0) is None),
    }
}
//@item src/waiter.rs :: impl Waiter > fn join [eff, seq]
    pub fn join(&mut self, (src_id, output_port) : (usize, OutputPort), (dst_id, input_port) : (usize, InputPort)) -> /*@ (r: @*/ Result<(), ConnectableError> /*@ )
        requires all_sized(*old(self)),
        ensures quiet(old(w).v(), final(w).v()), match r {
            Ok(_) => does_join(*old(self), a0__.0, a0__.1, a1__.0, a1__.1, *final(self), old(w).v(), final(w).v()),
            Err(e) => no_join(*old(self), a0__.0, a0__.1, a1__.0, a1__.1, e),
        }, @*/ {
        /*@ let ghost w0 = *self; let ghost v0 = w.v(); let ghost bk = input_port.breakable; @*/
        let pull = self.get_src_pull(src_id, dst_id, output_port, input_port.breakable)?;
        /*@ let ghost wm = *self; let ghost q = pull; let ghost n = called(w0, src_id)->0; let ghost d = called(w0, dst_id);
            let ghost p = choose|p: Push| #[trigger] halves(pull, p, wm) && gave(w0, n, output_port, bk, src_id, dst_id, pull, p, wm, v0, w.v());
            proof { assert(called(wm, dst_id) == d); if d is Some { lemma_given(w0, wm, n, d->0, output_port, bk, src_id, dst_id, q, p, v0, w.v()); } } @*/
        let input_priority = input_port.priority;
        let res = match self.component_type_name_to_id_reverse.as_ref().map(|x| x.get(&dst_id)).flatten() {
            Some((ComponentType::Faucet, component_name)) => {
                self.faucet.get_mut(component_name).map(|x| x.add_input(pull, input_priority))
            },
            Some((ComponentType::Launch, component_name)) => {
                self.launch.get_mut(component_name).map(|x| x.add_input(pull, input_priority))
            },
            Some((ComponentType::Junction, component_name)) => {
                self.junction.get_mut(component_name).map(|x| x.add_input(pull, input_priority))
            },
            Some((ComponentType::Buffer, component_name)) => {
                self.buffer.get_mut(component_name).map(|x| x.add_input(pull, input_priority))
            },
            Some((ComponentType::Drain, component_name)) => {
                self.drain.get_mut(component_name).map(|x| x.add_input(pull, input_priority))
            },
            Some((ComponentType::Regulator, component_name)) => {
                self.regulator.get_mut(component_name).map(|x| x.add_input(pull, input_priority))
            },
            None => None,
        };
        /*@ proof { if res is Some && res->0 is Ok { assert(d is Some); assert(same_but(wm, *self, d->0)); assert(took(wm, d->0, q, input_priority, *self)); assert(halves(q, p, wm)); } } @*/
        match res {
            None => Err(ConnectableError::CouldNotFindDestinationComponent(dst_id)),
            Some(Err(x)) => Err(ConnectableError::AddInput(dst_id, x)),
            Some(Ok(x)) => Ok(x),
        }
    }
//@end
//@item src/waiter.rs :: impl Waiter > fn add_launch [seq]
    pub fn add_launch(&mut self, name: String, l: LaunchString)
        /*@ ensures same_but(*old(self), *final(self), Node { ct: ComponentType::Launch, name: name@ }), comp(*final(self), Node { ct: ComponentType::Launch, name: name@ }) == Some(Comp::L(l.v())) @*/ {
        self.launch.insert(name, l);
    }
//@end
//@item src/waiter.rs :: impl Waiter > fn add_faucet [seq]
    pub fn add_faucet(&mut self, name: String, f: Faucet)
        /*@ ensures same_but(*old(self), *final(self), Node { ct: ComponentType::Faucet, name: name@ }), comp(*final(self), Node { ct: ComponentType::Faucet, name: name@ }) == Some(Comp::F(f.v())) @*/ {
        self.faucet.insert(name, f);
    }
//@end
//@item src/waiter.rs :: impl Waiter > fn add_junction [seq]
    pub fn add_junction(&mut self, name: String, j: Junction)
        /*@ ensures same_but(*old(self), *final(self), Node { ct: ComponentType::Junction, name: name@ }), comp(*final(self), Node { ct: ComponentType::Junction, name: name@ }) == Some(Comp::J(jv(j))) @*/ {
        self.junction.insert(name, j);
    }
//@end
//@item src/waiter.rs :: impl Waiter > fn add_buffer [seq]
    pub fn add_buffer(&mut self, name: String, b: Buffer)
        /*@ ensures same_but(*old(self), *final(self), Node { ct: ComponentType::Buffer, name: name@ }), comp(*final(self), Node { ct: ComponentType::Buffer, name: name@ }) == Some(Comp::B(b.v())) @*/ {
        self.buffer.insert(name, b);
    }
//@end
//@item src/waiter.rs :: impl Waiter > fn add_drain [seq]
    pub fn add_drain(&mut self, name: String, d: Drain)
        /*@ ensures same_but(*old(self), *final(self), Node { ct: ComponentType::Drain, name: name@ }), comp(*final(self), Node { ct: ComponentType::Drain, name: name@ }) == Some(Comp::D(d.v())) @*/ {
        self.drain.insert(name, d);
    }
//@end
//@item src/waiter.rs :: impl Waiter > fn add_regulator [seq]
    pub fn add_regulator(&mut self, name: String, r: Regulator)
        /*@ ensures same_but(*old(self), *final(self), Node { ct: ComponentType::Regulator, name: name@ }), comp(*final(self), Node { ct: ComponentType::Regulator, name: name@ }) == Some(Comp::R(r.v())) @*/ {
        self.regulator.insert(name, r);
    }
//@end
//@item src/waiter.rs :: impl Waiter > fn id_to_component_type_name [seq]
    pub fn id_to_component_type_name(&self, id: &usize) -> /*@ (r: @*/ Option<&(ComponentType, String)> /*@ ) ensures (match r { Some(p) => Some(node(*p)), None => None }) == called(*self, *id) @*/ {
        if let Some(x) = &self.component_type_name_to_id_reverse {
            return x.get(id);
        }
        None
    }
//@end
/// what is set up for watermarks of the regulator n
pub closed spec fn captured(c: RegulatorSettingsCapture, n: Seq<char>, w0: Waiter, w1: Waiter) -> bool {
    &&& tuned(w0, n) is Some && c.low_watermark == tuned(w0, n)->0.low && c.high_watermark == tuned(w0, n)->0.high
    &&& comp(w1, reg(n)) is Some && comp(w1, reg(n))->0->R_0.ctl is Some && comp(w1, reg(n))->0->R_0.ctl->0.key() == c.regulator_component.key() && !c.regulator_component.is_paused()
    &&& watched(c.buffer_size_monitors@, tuned(w0, n)->0.names, w1)
}
/// these are the reports of these buffers
pub closed spec fn watched(ms: Seq<Receiver<BufferSizeMessage>>, names: Seq<Seq<char>>, w: Waiter) -> bool {
    &&& ms.len() == names.len()
    &&& forall|j: int| 0 <= j < ms.len() ==> reports_to(w, names[j], (#[trigger] ms[j]).key())
}
pub open spec fn reports_to(w: Waiter, n: Seq<char>, k: Key) -> bool { comp(w, buf(n)) is Some && comp(w, buf(n))->0->B_0.mon is Some && comp(w, buf(n))->0->B_0.mon->0.key() == k }
pub open spec fn reg(n: Seq<char>) -> Node { Node { ct: ComponentType::Regulator, name: n } }
pub open spec fn buf(n: Seq<char>) -> Node { Node { ct: ComponentType::Buffer, name: n } }
/// controls and reports apart, a component is as before
pub open spec fn same_core(a: Option<Comp>, b: Option<Comp>) -> bool {
    match a {
        Some(Comp::R(v)) => b is Some && b->0 is R && b->0->R_0 == (RV { ctl: b->0->R_0.ctl, ..v }),
        Some(Comp::B(v)) => b is Some && b->0 is B && b->0->B_0 == (BV { mon: b->0->B_0.mon, ..v }),
        _ => b == a,
    }
}
/// a place among the settings: the j-th buffer of the regulator n
pub open spec fn named_by(w: Waiter, n: Seq<char>, j: int, b: Seq<char>) -> bool { tuned(w, n) is Some && 0 <= j < tuned(w, n)->0.names.len() && tuned(w, n)->0.names[j] == b }
/// regulators and buffers with watermarks exist, are not yet controlled or watched, and no buffer is watched twice
pub closed spec fn tunable(w: Waiter) -> bool {
    &&& forall|n: Seq<char>| (#[trigger] tuned(w, n)) is Some ==> comp(w, reg(n)) is Some && comp(w, reg(n))->0->R_0.ctl is None
    &&& forall|n: Seq<char>, j: int, b: Seq<char>| #[trigger] named_by(w, n, j, b) ==> comp(w, buf(b)) is Some && comp(w, buf(b))->0->B_0.mon is None
    &&& once(w)
}
pub open spec fn once(w: Waiter) -> bool { forall|n: Seq<char>, j: int, m: Seq<char>, k: int, b: Seq<char>| #[trigger] named_by(w, n, j, b) && #[trigger] named_by(w, m, k, b) ==> n == m && j == k }
pub closed spec fn monitors(c: RegulatorSettingsCapture) -> Seq<Mon> { watch(c.buffer_size_monitors@) }
pub open spec fn all_buffers(w: Waiter, bs: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < bs.len() ==> comp(w, buf(#[trigger] bs[i])) is Some }
/// settings are taken if what they refer to exists
pub closed spec fn set_up(w0: Waiter, w1: Waiter, n: Seq<char>, t: Tuned, r: bool) -> bool {
    &&& r == (all_buffers(w0, t.names) && comp(w0, reg(n)) is Some) && (!r ==> w1 == w0)
    &&& r ==> only_settings(w0, w1) && forall|k: Seq<char>| #[trigger] tuned(w1, k) == (if k == n { Some(t) } else { tuned(w0, k) })
}
//@item src/waiter.rs :: impl Waiter > fn configure_regulator [seq]
    pub fn configure_regulator(&mut self, regulator_name: String, buffer_names: Vec<String>, low_watermark: usize, high_watermark: usize) -> /*@ (r: @*/ bool /*@ )
        ensures set_up(*old(self), *final(self), regulator_name@, Tuned { low: low_watermark, high: high_watermark, names: texts(buffer_names@) }, r), @*/ {
        let has_all_buffers = /*! ({ let v0 = !*/ buffer_names.iter() /*! ; !*/ /*@ let ghost g = v0@; proof { assert(v0.all_v() == g); } @*/ /*! let u0 = v0 !*/ .all(
            |f /*@: &String@*/| /*@ -> (o: bool) ensures o == (comp(*self, buf(f@)) is Some) { @*/ self.buffer.get(f).is_some() /*@ } @*/
        ) /*! ; !*/ /*@ proof {
            let ts = texts(buffer_names@);
            assert(forall|i: int| 0 <= i < ts.len() ==> #[trigger] ts[i] == g[i]@);
            if u0 { assert forall|i: int| 0 <= i < ts.len() implies comp(*self, buf(#[trigger] ts[i])) is Some by { assert(g[i]@ == ts[i]); } }
            else { let i = choose|i: int| 0 <= i < g.len() && comp(*self, buf((#[trigger] g[i])@)) is None; assert(ts[i] == g[i]@); }
        } @*/ /*! u0 }) !*/;
        if !has_all_buffers || self.regulator.get(&regulator_name).is_none() {
            return false;
        }
        self.regulator_settings.insert(
            regulator_name,
            FaucetSettings { low_watermark, high_watermark, buffer_names }
        );
        true
    }
//@end
/// the first n names of the order ks have been captured in v
pub closed spec fn capturing(w0: Waiter, w1: Waiter, v: Seq<RegulatorSettingsCapture>, ks: Seq<Seq<char>>) -> bool {
    &&& v.len() <= ks.len()
    &&& forall|a: int| 0 <= a < v.len() ==> captured(#[trigger] v[a], ks[a], w0, w1)
    &&& forall|a: int| v.len() <= a < ks.len() ==> comp(w1, reg(#[trigger] ks[a])) is Some && comp(w1, reg(ks[a]))->0->R_0.ctl is None
    &&& forall|a: int, j: int, b: Seq<char>| v.len() <= a < ks.len() && #[trigger] named_by(w0, ks[a], j, b) ==> comp(w1, buf(b)) is Some && comp(w1, buf(b))->0->B_0.mon is None
    &&& only_tuned(w0, w1)
}
/// only controls and reports were added
pub closed spec fn only_tuned(w0: Waiter, w1: Waiter) -> bool {
    &&& forall|n: Node| same_core(comp(w0, n), #[trigger] comp(w1, n))
    &&& w1.id == w0.id && w1.component_type_name_to_id == w0.component_type_name_to_id && w1.component_type_name_to_id_reverse == w0.component_type_name_to_id_reverse && w1.regulator_settings == w0.regulator_settings
}
/// the reports and controls are new and apart
pub closed spec fn apart(v: Seq<RegulatorSettingsCapture>, w: WV) -> bool {
    &&& forall|a: int| 0 <= a < v.len() ==> distinct(monitors(#[trigger] v[a])) && current(monitors(v[a]), w)
    &&& forall|a: int, j: int| 0 <= a < v.len() && 0 <= j < v[a].buffer_size_monitors@.len() ==> w.chans.contains((#[trigger] v[a].buffer_size_monitors@[j]).key())
    &&& forall|a: int| 0 <= a < v.len() ==> w.chans.contains((#[trigger] v[a]).regulator_component.key())
}
pub closed spec fn all_captured(v: Seq<RegulatorSettingsCapture>, w0: Waiter, w1: Waiter) -> bool { exists|ks: Seq<Seq<char>>| #[trigger] entries::<String, FaucetSettings>(ks, w0.regulator_settings.m()) && ks.len() == v.len() && capturing(w0, w1, v, ks) }
pub open spec fn keys_of<V>(s: Seq<(&String, &V)>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i].0@) }
/// the settings of the next name are being captured: its control, and the reports of its first buffers
pub closed spec fn filling(w0: Waiter, w1: Waiter, v: Seq<RegulatorSettingsCapture>, ks: Seq<Seq<char>>, c: Key, ms: Seq<Receiver<BufferSizeMessage>>) -> bool {
    let a = v.len() as int; let n = ks[a]; let t = tuned(w0, n)->0; let k = ms.len();
    &&& a < ks.len() && tuned(w0, n) is Some && k <= t.names.len()
    &&& forall|x: int| 0 <= x < a ==> captured(#[trigger] v[x], ks[x], w0, w1)
    &&& comp(w1, reg(n)) is Some && comp(w1, reg(n))->0->R_0.ctl is Some && comp(w1, reg(n))->0->R_0.ctl->0.key() == c
    &&& forall|j: int| 0 <= j < k ==> reports_to(w1, t.names[j], (#[trigger] ms[j]).key())
    &&& forall|x: int| a < x < ks.len() ==> comp(w1, reg(#[trigger] ks[x])) is Some && comp(w1, reg(ks[x]))->0->R_0.ctl is None
    &&& forall|x: int, j: int, b: Seq<char>| a <= x < ks.len() && (x == a ==> j >= k) && #[trigger] named_by(w0, ks[x], j, b) ==> comp(w1, buf(b)) is Some && comp(w1, buf(b))->0->B_0.mon is None
    &&& only_tuned(w0, w1)
}
pub open spec fn all_new(ks: Seq<Seq<char>>) -> bool { forall|i: int, j: int| 0 <= i < j < ks.len() ==> (#[trigger] ks[i]) != (#[trigger] ks[j]) }
pub open spec fn controlled(w1: Waiter, w2: Waiter, n: Seq<char>, c: Key) -> bool {
    &&& same_but(w1, w2, reg(n)) && comp(w1, reg(n)) is Some && comp(w2, reg(n)) is Some && comp(w2, reg(n))->0->R_0.ctl is Some && comp(w2, reg(n))->0->R_0.ctl->0.key() == c
    &&& comp(w1, reg(n))->0 is R && comp(w2, reg(n)) == Some(Comp::R(RV { ctl: comp(w2, reg(n))->0->R_0.ctl, ..comp(w1, reg(n))->0->R_0 }))
}
pub open spec fn reported(w1: Waiter, w2: Waiter, n: Seq<char>, c: Key) -> bool {
    &&& same_but(w1, w2, buf(n)) && comp(w1, buf(n)) is Some && reports_to(w2, n, c)
    &&& comp(w1, buf(n))->0 is B && comp(w2, buf(n)) == Some(Comp::B(BV { mon: comp(w2, buf(n))->0->B_0.mon, ..comp(w1, buf(n))->0->B_0 }))
}
proof fn lemma_control(w0: Waiter, w1: Waiter, v: Seq<RegulatorSettingsCapture>, ks: Seq<Seq<char>>, w2: Waiter, c: Key)
    requires capturing(w0, w1, v, ks), v.len() < ks.len(), all_new(ks), tuned(w0, ks[v.len() as int]) is Some, controlled(w1, w2, ks[v.len() as int], c)
    ensures filling(w0, w2, v, ks, c, Seq::empty())
{
    let a = v.len() as int; let n = ks[a];
    assert forall|x: int| 0 <= x < a implies captured(#[trigger] v[x], ks[x], w0, w2) by {
        assert(captured(v[x], ks[x], w0, w1)); assert(ks[x] != n); assert(reg(ks[x]) != reg(n));
        let ms = v[x].buffer_size_monitors@; let ns = tuned(w0, ks[x])->0.names;
        assert forall|j: int| 0 <= j < ms.len() implies reports_to(w2, ns[j], (#[trigger] ms[j]).key()) by { assert(reports_to(w1, ns[j], ms[j].key())); assert(buf(ns[j]) != reg(n)); }
    }
    assert forall|x: int| a < x < ks.len() implies comp(w2, reg(#[trigger] ks[x])) is Some && comp(w2, reg(ks[x]))->0->R_0.ctl is None by { assert(ks[a] != ks[x]); assert(reg(ks[x]) != reg(n)); }
    assert forall|x: int, j: int, b: Seq<char>| a <= x < ks.len() && #[trigger] named_by(w0, ks[x], j, b) implies comp(w2, buf(b)) is Some && comp(w2, buf(b))->0->B_0.mon is None by { assert(buf(b) != reg(n)); }
    assert forall|m: Node| same_core(comp(w0, m), #[trigger] comp(w2, m)) by { assert(same_core(comp(w0, m), comp(w1, m))); }
}
proof fn lemma_report(w0: Waiter, w1: Waiter, v: Seq<RegulatorSettingsCapture>, ks: Seq<Seq<char>>, c: Key, ms: Seq<Receiver<BufferSizeMessage>>, w2: Waiter, r: Receiver<BufferSizeMessage>)
    requires filling(w0, w1, v, ks, c, ms), all_new(ks), once(w0), ms.len() < tuned(w0, ks[v.len() as int])->0.names.len(), reported(w1, w2, tuned(w0, ks[v.len() as int])->0.names[ms.len() as int], r.key())
    ensures filling(w0, w2, v, ks, c, ms.push(r))
{
    let a = v.len() as int; let n = ks[a]; let t = tuned(w0, n)->0; let k = ms.len() as int; let b0 = t.names[k]; let m1 = ms.push(r);
    assert(named_by(w0, n, k, b0));
    assert forall|x: int| 0 <= x < a implies captured(#[trigger] v[x], ks[x], w0, w2) by {
        assert(captured(v[x], ks[x], w0, w1)); assert(ks[x] != n); assert(reg(ks[x]) != buf(b0));
        let ns = tuned(w0, ks[x])->0.names; let mx = v[x].buffer_size_monitors@;
        assert forall|j: int| 0 <= j < mx.len() implies reports_to(w2, ns[j], (#[trigger] mx[j]).key()) by { assert(reports_to(w1, ns[j], mx[j].key())); assert(named_by(w0, ks[x], j, ns[j])); assert(ns[j] != b0); assert(buf(ns[j]) != buf(b0)); }
    }
    assert(reg(n) != buf(b0));
    assert forall|j: int| 0 <= j < m1.len() implies reports_to(w2, t.names[j], (#[trigger] m1[j]).key()) by {
        if j < k { assert(reports_to(w1, t.names[j], ms[j].key())); assert(named_by(w0, n, j, t.names[j])); assert(buf(t.names[j]) != buf(b0)); }
    }
    assert forall|x: int| a < x < ks.len() implies comp(w2, reg(#[trigger] ks[x])) is Some && comp(w2, reg(ks[x]))->0->R_0.ctl is None by { assert(reg(ks[x]) != buf(b0)); }
    assert forall|x: int, j: int, b: Seq<char>| a <= x < ks.len() && (x == a ==> j >= k + 1) && #[trigger] named_by(w0, ks[x], j, b) implies comp(w2, buf(b)) is Some && comp(w2, buf(b))->0->B_0.mon is None by {
        if b == b0 { assert(ks[x] == n && j == k); if x > a { assert(ks[a] != ks[x]); } }
        assert(buf(b) != buf(b0));
    }
    assert forall|m: Node| same_core(comp(w0, m), #[trigger] comp(w2, m)) by { assert(same_core(comp(w0, m), comp(w1, m))); }
}
proof fn lemma_capture(w0: Waiter, w1: Waiter, v: Seq<RegulatorSettingsCapture>, ks: Seq<Seq<char>>, r: RegulatorSettingsCapture)
    requires filling(w0, w1, v, ks, r.regulator_component.key(), r.buffer_size_monitors@), r.buffer_size_monitors@.len() == tuned(w0, ks[v.len() as int])->0.names.len(),
        r.low_watermark == tuned(w0, ks[v.len() as int])->0.low, r.high_watermark == tuned(w0, ks[v.len() as int])->0.high, !r.regulator_component.is_paused(),
    ensures capturing(w0, w1, v.push(r), ks)
{
    let a = v.len() as int; let u = v.push(r);
    assert forall|x: int| 0 <= x < u.len() implies captured(#[trigger] u[x], ks[x], w0, w1) by { if x < a { assert(captured(v[x], ks[x], w0, w1)); } }
}
/// another channel does not touch the reports
proof fn lemma_apart(v: Seq<RegulatorSettingsCapture>, w: WV, k: Key)
    requires apart(v, w)
    ensures apart(v, w.new_chan(k))
{
    assert forall|a: int| 0 <= a < v.len() implies distinct(monitors(#[trigger] v[a])) && current(monitors(v[a]), w.new_chan(k)) by { lemma_current(monitors(v[a]), w, w.new_chan(k)); }
}
/// reports of a regulator's buffers, all new
pub closed spec fn fresh_reports(ms: Seq<Receiver<BufferSizeMessage>>, w: WV) -> bool {
    distinct(watch(ms)) && current(watch(ms), w) && forall|j: int| 0 <= j < ms.len() ==> w.chans.contains((#[trigger] ms[j]).key())
}
proof fn lemma_fresh(ms: Seq<Receiver<BufferSizeMessage>>, w: WV, r: Receiver<BufferSizeMessage>)
    requires fresh_reports(ms, w), !w.chans.contains(r.key()), w.fresh(r.key())
    ensures fresh_reports(ms.push(r), w.new_chan(r.key()))
{
    let m1 = ms.push(r); let a = watch(ms); let b = watch(m1);
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).k == m1[i].key() && b[i].n == 0 by {}
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).k != (#[trigger] b[j]).k by { if j < ms.len() { assert(a[i] == b[i] && a[j] == b[j]); } else { assert(w.chans.contains(ms[i].key())); } }
    let w1 = w.new_chan(r.key());
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).k is Size && b[i].n == latest(w1, b[i].k) && b[i].n >= 0 by { assert(w1.recvd(b[i].k) == w.recvd(b[i].k)); if i < ms.len() { assert(a[i] == b[i]); } }
}
//@item src/waiter.rs :: impl Waiter > fn regulator_settings [eff, seq, forsrc=0]
    fn regulator_settings(&mut self) -> /*@ (r: @*/ Result<Vec<RegulatorSettingsCapture>, WaiterError> /*@ )
        requires tunable(*old(self)), all_sized(*old(self)),
        ensures r is Ok, all_captured(r->Ok_0@, *old(self), *final(self)), apart(r->Ok_0@, final(w).v()), quiet(old(w).v(), final(w).v()), @*/ {
        /*@ let ghost w0 = *self; let ghost ms = self.regulator_settings.m(); let ghost v00 = w.v(); @*/
        let mut regulator_settings_capture: Vec<RegulatorSettingsCapture> = vec![];
        /*@ proof {
            assert forall|n: Seq<char>| #[trigger] ms.contains_key(n) implies comp(w0, reg(n)) is Some && comp(w0, reg(n))->0->R_0.ctl is None by { assert(tuned(w0, n) is Some); }
            assert forall|m: Node| same_core(comp(w0, m), #[trigger] comp(w0, m)) by {}
        } @*/
        for (regulator_name, settings) in /*@ it: @*/ self.regulator_settings.iter()
            /*@ invariant
                it.seq() == fg0__, entries::<String, FaucetSettings>(keys_of(fg0__), ms), self.regulator_settings.m() == ms, tunable(w0), all_sized(w0), ms == w0.regulator_settings.m(), regulator_settings_capture@.len() == it.index(), capturing(w0, *self, regulator_settings_capture@, keys_of(fg0__)), apart(regulator_settings_capture@, w.v()), quiet(v00, w.v()), @*/ {
            /*@ let ghost ks = keys_of(fg0__); let ghost a0 = it.index() as int; let ghost n = ks[a0]; let ghost wk = *self; let ghost vk = w.v(); let ghost t = tuned(w0, n)->0; proof { assert(tuned(w0, n) is Some); assert(it.seq()[a0] == fg0__[a0]); } @*/
            let regulator = self.regulator.get_mut(regulator_name).ok_or_else(|| /*@ -> (o: WaiterError) ensures true { @*/ WaiterError::SettingsForMissingRegulator(regulator_name.to_string()) /*@ } @*/)?;
            let regulator_component = regulator.get_control();
            let mut buffer_size_monitors /*@: Vec<Receiver<BufferSizeMessage>>@*/ = vec![];
            /*@ let ghost bs = settings.buffer_names@; let ghost ctl = regulator_component.key(); let ghost v0 = regulator_settings_capture@;
                proof { assert(controlled(wk, *self, n, ctl)); lemma_control(w0, wk, v0, ks, *self, ctl); lemma_apart(v0, vk, ctl); assert(texts(bs) == t.names); } @*/
            for buffer_name in /*@ ib: @*/ settings.buffer_names.iter()
                /*@ invariant
                    ib.seq() == bs.map_values(|x: String| &x), buffer_size_monitors@.len() == ib.index(), self.regulator_settings.m() == ms, filling(w0, *self, v0, ks, ctl, buffer_size_monitors@), fresh_reports(buffer_size_monitors@, w.v()), apart(v0, w.v()), w.v().chans.contains(ctl), quiet(v00, w.v()),
                @*/ {
                /*@ let ghost wb = *self; let ghost vb = w.v(); let ghost k = ib.index() as int; let ghost m0 = buffer_size_monitors@; let ghost b = bs[k]@;
                    proof { assert(t.names[k] == b); assert(named_by(w0, n, k, b)); assert(same_core(comp(w0, buf(b)), comp(wb, buf(b)))); assert(sized(comp(w0, buf(b))->0)); } @*/
                let buf = self.buffer.get_mut(buffer_name).ok_or_else(|| /*@ -> (o: WaiterError) ensures true { @*/ WaiterError::SettingsRefersMissingBuffer(regulator_name.to_string(), buffer_name.to_string()) /*@ } @*/)?;
                buffer_size_monitors.push(buf.add_buffer_size_monitor());
                /*@ proof {
                    let r = buffer_size_monitors@.last(); assert(buffer_size_monitors@ == m0.push(r));
                    assert(reported(wb, *self, b, r.key()));
                    lemma_report(w0, wb, v0, ks, ctl, m0, *self, r); lemma_fresh(m0, vb, r); lemma_apart(v0, vb, r.key());
                } @*/
            }
            regulator_settings_capture.push(
                RegulatorSettingsCapture {
                    low_watermark: settings.low_watermark,
                    high_watermark: settings.high_watermark,
                    regulator_component,
                    buffer_size_monitors
                }
            );
            /*@ proof { let r = regulator_settings_capture@.last(); assert(regulator_settings_capture@ == v0.push(r)); lemma_capture(w0, *self, v0, ks, r); } @*/
        }
        Ok(regulator_settings_capture)
    }
//@end
// ---- what a configuration's connections say ----
pub open spec fn node_of(e: Connection) -> Node {
    match e {
        Connection::MiddleConnection { component_type, component_name, .. } => Node { ct: component_type, name: component_name@ },
        Connection::StartConnection { component_type, component_name, .. } => Node { ct: component_type, name: component_name@ },
        Connection::EndConnection { component_type, component_name, .. } => Node { ct: component_type, name: component_name@ },
    }
}
pub open spec fn port_of(e: Connection) -> Option<OutputPort> {
    match e { Connection::MiddleConnection { output_port, .. } => Some(output_port), Connection::StartConnection { output_port, .. } => Some(output_port), Connection::EndConnection { .. } => None }
}
pub open spec fn way_of(e: Connection) -> Option<InputPort> {
    match e { Connection::MiddleConnection { input_port, .. } => Some(input_port), Connection::StartConnection { .. } => None, Connection::EndConnection { input_port, .. } => Some(input_port) }
}
/// each element that has an output is joined to the element behind it
pub open spec fn wires(es: Seq<Connection>) -> Seq<Wire> decreases es.len() {
    if es.len() == 0 { Seq::empty() } else { wires(es.drop_last()) + wire_at(es) }
}
pub open spec fn wire_at(es: Seq<Connection>) -> Seq<Wire> {
    let n = es.len() as int; 
    if n >= 2 && port_of(es[n - 2]) is Some && way_of(es[n - 1]) is Some { seq![Wire { from: node_of(es[n - 2]), port: port_of(es[n - 2])->0, to: node_of(es[n - 1]), way: way_of(es[n - 1])->0 }] } else { Seq::empty() }
}
/// THEOREM: lists that end in an end element are joined within themselves only
pub proof fn theorem_lists_apart(a: Seq<Connection>, b: Seq<Connection>)
    requires a.len() == 0 || port_of(a.last()) is None
    ensures wires(a + b) == wires(a) + wires(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(wires(a) + wires(b) =~= wires(a)); }
    else {
        theorem_lists_apart(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert(wire_at(a + b) == wire_at(b)) by { assert((a + b).last() == b.last()); if b.len() == 1 && a.len() > 0 { assert((a + b)[(a + b).len() - 2] == a.last()); } if b.len() >= 2 { assert((a + b)[(a + b).len() - 2] == b[b.len() - 2]); } }
        assert(wires(a) + (wires(b.drop_last()) + wire_at(b)) =~= (wires(a) + wires(b.drop_last())) + wire_at(b));
    }
}
pub open spec fn mentioned(es: Seq<Connection>, n: Node) -> bool { exists|i: int| 0 <= i < es.len() && node_of(#[trigger] es[i]) == n }
/// what follows an element with an output can be joined to
pub open spec fn chained(es: Seq<Connection>) -> bool { forall|i: int| 0 < i < es.len() && port_of(es[i - 1]) is Some ==> way_of(#[trigger] es[i]) is Some }
/// the lists of a configuration, in some order of their names, one after the other
pub open spec fn list_of(d: DeserializedConnection) -> Seq<Connection> { match d { DeserializedConnection::Connections(v) => v@, DeserializedConnection::JoinString(_) => Seq::empty() } }
pub open spec fn joined(ks: Seq<Seq<char>>, m: Map<Seq<char>, DeserializedConnection>) -> Seq<Connection> decreases ks.len() { if ks.len() == 0 { Seq::empty() } else { joined(ks.drop_last(), m) + list_of(m[ks.last()]) } }
pub open spec fn converted(c: Config) -> bool { forall|k: Seq<char>| c.connection.m().contains_key(k) ==> (#[trigger] c.connection.m()[k]) is Connections }
/// in every order of the lists, what follows an element with an output can be joined to
pub open spec fn proper(c: Config) -> bool { converted(c) && forall|ks: Seq<Seq<char>>| #[trigger] entries::<String, DeserializedConnection>(ks, c.connection.m()) ==> chained(joined(ks, c.connection.m())) }

// ---- the component of a name, apart from its connections ----
pub open spec fn source_of(c: Config, n: Seq<char>) -> Seq<char> { match at(c.faucet.m(), n) { Some(f) => f.source@, None => Seq::empty() } }
pub open spec fn target_of(c: Config, n: Seq<char>) -> Seq<char> { match at(c.drain.m(), n) { Some(f) => f.destination@, None => Seq::empty() } }
pub open spec fn nothing<K: View, V>(h: HashMap<K, V>) -> bool { h.m().dom() =~= Set::<K::V>::empty() }
pub open spec fn base(cfg: Config, n: Node, id: usize, c: Comp) -> bool {
    kind(c) == n.ct && match c {
        Comp::F(v) => !v.started && v.ctl is None && v.inp is None && v.size > 0 && v.loc is Some && v.loc->0@ == source_of(cfg, n.name)
            && match v.out { Some(p) => p is IoSender && v.pj == Some(PullJourney { src: p->IoSender_0.src, dst: p->IoSender_0.dst }), None => v.pj is None },
        Comp::D(v) => !v.started && v.loc is Some && v.loc->0@ == target_of(cfg, n.name),
        Comp::R(v) => !v.started && v.ctl is None && v.size > 0,
        Comp::B(v) => v.mon is None && v.size > 0,
        Comp::J(v) => !v.running && v.groups.len() == 0 && v.size > 0,
        Comp::L(v) => !v.launched && v.id == id && match at(cfg.launch.m(), n.name) {
            Some(l) => l.command is Some && v.prog == os_text(l.command->0@) && v.dir == (match l.path { Some(p) => Some(path_text(p@).v()), None => None })
                && v.env == (if nothing(l.env) { None } else { Some(os_pairs(listed(l.env))) }) && v.args == (if l.arg@.len() == 0 { None } else { Some(os_items(l.arg@)) }),
            None => false,
        },
    }
}
pub open spec fn bare(c: Comp) -> bool { ins(c).len() == 0 && forall|s: OutputPort| #[trigger] outs(c, s).len() == 0 }

// ---- a component's connections ----
/// launches have a port of each kind, other components have one kind only
pub open spec fn slot(ct: ComponentType, port: OutputPort) -> OutputPort { if ct is Launch { port } else { OutputPort::Out } }
pub open spec fn outs_of(ls: Seq<Lk>, n: Node, s: OutputPort) -> Seq<Lk> decreases ls.len() {
    if ls.len() == 0 { Seq::empty() } else if ls.last().w.from == n && slot(n.ct, ls.last().w.port) == s { outs_of(ls.drop_last(), n, s).push(ls.last()) } else { outs_of(ls.drop_last(), n, s) }
}
pub open spec fn ins_of(ls: Seq<Lk>, n: Node) -> Seq<Lk> decreases ls.len() {
    if ls.len() == 0 { Seq::empty() } else if ls.last().w.to == n { ins_of(ls.drop_last(), n).push(ls.last()) } else { ins_of(ls.drop_last(), n) }
}
pub open spec fn push_is(p: Push, l: Lk) -> bool {
    p is IoSender && p->IoSender_1.key() == l.key && p->IoSender_0 == (Journey { src: l.src, src_port: Some(said(l.w.from.ct, l.w.port)), dst: l.dst, breakable: l.w.way.breakable })
}
pub open spec fn pull_is(q: (Pull, isize), l: Lk) -> bool {
    q.0 is Receiver && pkey(q.0) == l.key && q.0->Receiver_0 == (PullJourney { src: l.src, dst: l.dst }) && q.1 == l.w.way.priority
}
pub open spec fn pushes_are(ps: Seq<Push>, ls: Seq<Lk>) -> bool { ps.len() == ls.len() && forall|i: int| 0 <= i < ps.len() ==> push_is(#[trigger] ps[i], ls[i]) }
pub open spec fn pulls_are(qs: Seq<(Pull, isize)>, ls: Seq<Lk>) -> bool { qs.len() == ls.len() && forall|i: int| 0 <= i < qs.len() ==> pull_is(#[trigger] qs[i], ls[i]) }
pub open spec fn gives(c: Comp, n: Node, ls: Seq<Lk>) -> bool { forall|s: OutputPort| #[trigger] pushes_are(outs(c, s), outs_of(ls, n, s)) }
pub open spec fn takes(c: Comp, n: Node, ls: Seq<Lk>) -> bool { pulls_are(ins(c), ins_of(ls, n)) }
pub open spec fn connected(c: Comp, n: Node, ls: Seq<Lk>) -> bool { takes(c, n, ls) && gives(c, n, ls) }
/// the identifiers in a connection are those of its ends
pub open spec fn ids_fit(l: Lk, ns: Seq<Node>) -> bool { l.src < ns.len() && l.dst < ns.len() && ns[l.src as int] == l.w.from && ns[l.dst as int] == l.w.to }
/// the waiter has these components, connected by these connections, each through a channel of its own
pub closed spec fn wired(cfg: Config, w: Waiter, ns: Seq<Node>, ls: Seq<Lk>, v: WV) -> bool {
    &&& named(w, ns)
    &&& forall|n: Node| (#[trigger] comp(w, n)) is Some <==> ns.contains(n)
    &&& forall|i: int| 0 <= i < ns.len() ==> base(cfg, #[trigger] ns[i], i as usize, comp(w, ns[i])->0) && connected(comp(w, ns[i])->0, ns[i], ls)
    &&& forall|i: int| 0 <= i < ls.len() ==> ids_fit(#[trigger] ls[i], ns) && v.chans.contains(ls[i].key)
    &&& forall|i: int, j: int| 0 <= i < j < ls.len() ==> (#[trigger] ls[i]).key != (#[trigger] ls[j]).key
}
pub open spec fn just_wires(ls: Seq<Lk>) -> Seq<Wire> { ls.map_values(|l: Lk| l.w) }
/// the waiter is what the elements es say
pub open spec fn built(cfg: Config, es: Seq<Connection>, w: Waiter, ns: Seq<Node>, ls: Seq<Lk>, v: WV) -> bool {
    wired(cfg, w, ns, ls, v) && just_wires(ls) == wires(es) && forall|n: Node| #[trigger] ns.contains(n) <==> mentioned(es, n)
}
/// the element behind es cannot be built: a launch without a command, or a connection one of its ends refuses
pub open spec fn stuck(cfg: Config, es: Seq<Connection>, e: Connection, w: Waiter, ns: Seq<Node>, ls: Seq<Lk>, v: WV) -> bool {
    &&& built(cfg, es, w, ns, ls, v)
    &&& {
        ||| node_of(e).ct is Launch && !mentioned(es, node_of(e)) && no_command(cfg, node_of(e).name)
        ||| es.len() > 0 && port_of(es.last()) is Some && way_of(e) is Some && refuses(comp(w, node_of(es.last())), comp(w, node_of(e)), port_of(es.last())->0, way_of(e)->0.priority, node_of(e).ct)
    }
}
pub open spec fn no_command(cfg: Config, n: Seq<char>) -> bool { match at(cfg.launch.m(), n) { Some(l) => l.command is None, None => true } }
/// the source refuses another output, or the destination (which may have come just now, without any input) another input
pub open spec fn refuses(src: Option<Comp>, dst: Option<Comp>, port: OutputPort, prio: isize, ct: ComponentType) -> bool {
    ||| src is Some && out_refusal(src->0, port) is Some
    ||| match dst { Some(c) => in_refusal(c, prio) is Some, None => ct is Faucet || (!(ct is Junction) && prio != 0) }
}
//@item src/waiter.rs :: struct CreateSpec
struct CreateSpec {
    component_type: ComponentType,
    component_name: String,
    input_port: Option<InputPort>,
    output_port: Option<OutputPort>,
}
//@end

pub closed spec fn spec_of(s: CreateSpec, e: Connection) -> bool { s.component_type == node_of(e).ct && s.component_name@ == node_of(e).name && s.input_port == way_of(e) && s.output_port == port_of(e) }
//@item src/waiter.rs :: fn get_create_spec
fn get_create_spec(connection: Connection) -> /*@ (r: @*/ CreateSpec /*@ ) ensures spec_of(r, connection) @*/ {
    match connection {
        Connection::MiddleConnection { component_type, component_name, input_port, output_port, .. } => CreateSpec {
            component_type,
            component_name,
            input_port: Some(input_port),
            output_port: Some(output_port),
        },
        Connection::StartConnection { component_type, component_name, output_port, .. } => CreateSpec {
            component_type,
            component_name,
            input_port: None,
            output_port: Some(output_port),
        },
        Connection::EndConnection { component_type, component_name, input_port, .. } => CreateSpec {
            component_type,
            component_name,
            input_port: Some(input_port),
            output_port: None,
        },
    }
}
//@end
/// a component was added under a new name
proof fn lemma_added(w0: Waiter, w1: Waiter, w2: Waiter, n: Node)
    requires same_comps(w0, w1), same_but(w1, w2, n)
    ensures forall|m: Node| m != n ==> #[trigger] comp(w2, m) == comp(w0, m), forall|ns: Seq<Node>| #[trigger] named(w1, ns) ==> named(w2, ns), forall|k: Seq<char>| #[trigger] tuned(w2, k) == tuned(w0, k)
{
    assert forall|m: Node| m != n implies #[trigger] comp(w2, m) == comp(w0, m) by { assert(comp(w2, m) == comp(w1, m)); }
    lemma_named(w1, w2);
}
proof fn lemma_named(w1: Waiter, w2: Waiter)
    requires w1.id == w2.id, w1.component_type_name_to_id == w2.component_type_name_to_id, w1.component_type_name_to_id_reverse == w2.component_type_name_to_id_reverse
    ensures forall|ns: Seq<Node>| #[trigger] named(w1, ns) ==> named(w2, ns)
{
    assert forall|ns: Seq<Node>| #[trigger] named(w1, ns) implies named(w2, ns) by {
        assert forall|id: usize| #[trigger] called(w2, id) == (if (id as int) < ns.len() { Some(ns[id as int]) } else { None }) by { assert(called(w1, id) == called(w2, id)); }
        assert forall|n: Node| #[trigger] id_of(w2, n) == id_of(w1, n) by {}
    }
}
pub closed spec fn free_name(w: Waiter, n: Node) -> bool { exists|ns: Seq<Node>| #[trigger] named(w, ns) && ns.len() < usize::MAX && !ns.contains(n) }
/// the component n has been added
pub closed spec fn constructed(c: Config, n: Node, w0: Waiter, w1: Waiter, id: usize) -> bool {
    &&& comp(w1, n) is Some && base(c, n, id, comp(w1, n)->0) && bare(comp(w1, n)->0)
    &&& forall|m: Node| m != n ==> #[trigger] comp(w1, m) == comp(w0, m)
    &&& forall|ns: Seq<Node>| #[trigger] named(w0, ns) && !ns.contains(n) ==> id == ns.len() && named(w1, ns.push(n))
    &&& forall|k: Seq<char>| #[trigger] tuned(w1, k) == tuned(w0, k)
}
/// nothing of the configuration was used up but what is said of n
pub closed spec fn without(c0: Config, c1: Config, n: Node) -> bool {
    &&& c1.faucet == c0.faucet && c1.drain == c0.drain && c1.regulator == c0.regulator && c1.connection == c0.connection
    &&& forall|k: Seq<char>| n.ct is Launch && k == n.name || #[trigger] at(c1.launch.m(), k) == at(c0.launch.m(), k)
}
//@item src/waiter.rs :: fn get_waiter > fn constructor [seq, sync]
    async fn constructor(component_type: ComponentType, component_name: String, config: &mut Config, w: &mut Waiter) -> /*@ (r: @*/ Result<usize, String> /*@ )
        requires free_name(*old(w), Node { ct: component_type, name: component_name@ }),
        ensures match r {
                Ok(id) => constructed(*old(config), Node { ct: component_type, name: component_name@ }, *old(w), *final(w), id),
                Err(_) => component_type is Launch && no_command(*old(config), component_name@),
            }, without(*old(config), *final(config), Node { ct: component_type, name: component_name@ }), @*/ {
        /*@ let ghost w0 = *w; let ghost n = Node { ct: component_type, name: component_name@ }; proof { reveal_strlit(""); } @*/
        let id = w.incr_id(component_type, component_name.clone());
        /*@ let ghost w1 = *w; @*/
        match component_type {
            ComponentType::Faucet => {
                let faucet = Faucet::new(config.faucet.get(&component_name).map(|t| t.source.clone()).unwrap_or_else(|| /*@ -> (o: String) ensures o@ == Seq::<char>::empty() { proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); } @*/ "".to_string() /*@ } @*/));
                w.add_faucet(component_name.to_string(), faucet);
                /*@ proof { lemma_added(w0, w1, *w, n); } @*/
                Ok(id)
            },
            ComponentType::Drain => {
                w.add_drain(component_name.to_string(), Drain::new(config.drain.get(&component_name).map(|s| s.destination.clone()).unwrap_or_else(|| /*@ -> (o: String) ensures o@ == Seq::<char>::empty() { proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); } @*/ "".to_string() /*@ } @*/)));
                /*@ proof { lemma_added(w0, w1, *w, n); } @*/
                Ok(id)
            },
            ComponentType::Regulator => {
                w.add_regulator(component_name.to_string(), Regulator::new());
                /*@ proof { lemma_added(w0, w1, *w, n); } @*/
                Ok(id)
            },
            ComponentType::Buffer => {
                w.add_buffer(component_name.to_string(), Buffer::new());
                /*@ proof { lemma_added(w0, w1, *w, n); } @*/
                Ok(id)
            },
            ComponentType::Junction => {
                w.add_junction(component_name.to_string(), Junction::new());
                /*@ proof { lemma_added(w0, w1, *w, n); } @*/
                Ok(id)
            },
            ComponentType::Launch => {
                if let Some(cfg) = config.launch.remove(&component_name) {
                    if cfg.command.is_none() {
                        return Err(format!("Launch '{}' did not have a command specified", component_name));
                    }
                    let launch: Launch<HashMap<String, String>, String, String, Vec<String>, String, String, String> = Launch::new(
                        id,
                        if cfg.env.is_empty() { None } else { Some(cfg.env) },
                        cfg.path,
                        cfg.command.ok_or(format!("Launch '{}' did not have a command specified", component_name))?,
                        if cfg.arg.is_empty() { None } else { Some(cfg.arg) }
                    );
                    w.add_launch(component_name.to_string(), launch);
                    /*@ proof { lemma_added(w0, w1, *w, n); } @*/
                    return Ok(id);
                }
                Err(format!("Could not find configuration for Launch {}", component_name))
            }
        }
    }
//@end
//@item src/waiter.rs :: fn get_waiter > fn string_hack [seq]
            fn string_hack(id: &usize, o: Option<&(ComponentType, String)>) -> String {
                match o {
                    Some((ct, n)) => format!("{}:{}", ct, n),
                    None => format!("Unknown Component {}", id)
                }
            }
//@end
proof fn lemma_unmentioned(ls: Seq<Lk>, ns: Seq<Node>, n: Node)
    requires !ns.contains(n), forall|i: int| 0 <= i < ls.len() ==> ids_fit(#[trigger] ls[i], ns)
    ensures ins_of(ls, n).len() == 0, forall|s: OutputPort| #[trigger] outs_of(ls, n, s).len() == 0
    decreases ls.len()
{
    if ls.len() > 0 {
        let d = ls.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies ids_fit(#[trigger] d[i], ns) by { assert(ids_fit(ls[i], ns)); }
        lemma_unmentioned(d, ns, n);
        assert(ids_fit(ls[ls.len() - 1], ns));
        assert(ls.last().w.from != n && ls.last().w.to != n);
        assert forall|s: OutputPort| #[trigger] outs_of(ls, n, s).len() == 0 by { assert(outs_of(d, n, s).len() == 0); }
    }
}
proof fn lemma_new_node(cfg: Config, w0: Waiter, w1: Waiter, ns: Seq<Node>, ls: Seq<Lk>, v: WV, n: Node)
    requires wired(cfg, w0, ns, ls, v), !ns.contains(n), ns.len() < usize::MAX, named(w1, ns.push(n)), comp(w1, n) is Some, base(cfg, n, ns.len() as usize, comp(w1, n)->0), bare(comp(w1, n)->0),
        forall|m: Node| m != n ==> #[trigger] comp(w1, m) == comp(w0, m),
    ensures wired(cfg, w1, ns.push(n), ls, v)
{
    let ms = ns.push(n);
    lemma_unmentioned(ls, ns, n);
    assert(ms[ns.len() as int] == n);
    assert forall|m: Node| (#[trigger] comp(w1, m)) is Some <==> ms.contains(m) by {
        if m != n { assert(comp(w1, m) == comp(w0, m)); if ns.contains(m) { let k = ns.index_of(m); assert(ms[k] == m); } if ms.contains(m) { let k = ms.index_of(m); assert(ns[k] == m); } }
    }
    assert forall|i: int| 0 <= i < ms.len() implies base(cfg, #[trigger] ms[i], i as usize, comp(w1, ms[i])->0) && connected(comp(w1, ms[i])->0, ms[i], ls) by {
        if i < ns.len() { assert(ns[i] != n) by { assert(ns.contains(ns[i])); } assert(base(cfg, ns[i], i as usize, comp(w0, ns[i])->0)); }
        else {
            let c = comp(w1, n)->0;
            assert forall|s: OutputPort| #[trigger] pushes_are(outs(c, s), outs_of(ls, n, s)) by { assert(outs(c, s).len() == 0); assert(outs_of(ls, n, s).len() == 0); }
        }
    }
    assert forall|i: int| 0 <= i < ls.len() implies ids_fit(#[trigger] ls[i], ms) by { assert(ids_fit(ls[i], ns)); }
}
proof fn lemma_give(cfg: Config, c: Comp, n: Node, id: usize, ls: Seq<Lk>, l: Lk, p: Push)
    requires base(cfg, n, id, c), gives(c, n, ls), out_refusal(c, l.w.port) is None, l.w.from == n, push_is(p, l)
    ensures base(cfg, n, id, with_out(c, l.w.port, p)), gives(with_out(c, l.w.port, p), n, ls.push(l)), ins(with_out(c, l.w.port, p)) == ins(c), forall|x: isize| #[trigger] in_refusal(with_out(c, l.w.port, p), x) == in_refusal(c, x)
{
    let d = with_out(c, l.w.port, p);
    assert(ls.push(l).drop_last() =~= ls);
    assert forall|s: OutputPort| #[trigger] pushes_are(outs(d, s), outs_of(ls.push(l), n, s)) by {
        assert(pushes_are(outs(c, s), outs_of(ls, n, s)));
        if s == slot(n.ct, l.w.port) { assert(outs(d, s) =~= outs(c, s).push(p)); assert(outs_of(ls.push(l), n, s) == outs_of(ls, n, s).push(l)); }
        else { assert(outs(d, s) =~= outs(c, s)); }
    }
}
proof fn lemma_take(cfg: Config, c: Comp, n: Node, id: usize, ls: Seq<Lk>, l: Lk, q: Pull)
    requires base(cfg, n, id, c), takes(c, n, ls), in_refusal(c, l.w.way.priority) is None, l.w.to == n, pull_is((q, l.w.way.priority), l)
    ensures base(cfg, n, id, with_in(c, q, l.w.way.priority)), takes(with_in(c, q, l.w.way.priority), n, ls.push(l)), forall|s: OutputPort| #[trigger] outs(with_in(c, q, l.w.way.priority), s) == outs(c, s)
{
    let d = with_in(c, q, l.w.way.priority);
    assert(ls.push(l).drop_last() =~= ls);
    assert(ins(d) =~= ins(c).push((q, l.w.way.priority)));
    assert forall|s: OutputPort| #[trigger] outs(d, s) == outs(c, s) by { assert(outs(d, s) =~= outs(c, s)); }
}
#[verifier::spinoff_prover]
proof fn lemma_link(cfg: Config, w0: Waiter, wm: Waiter, w1: Waiter, ns: Seq<Node>, ls: Seq<Lk>, l: Lk, pull: Pull, p: Push, v0: WV, v1: WV)
    requires wired(cfg, w0, ns, ls, v0), gave(w0, l.w.from, l.w.port, l.w.way.breakable, l.src, l.dst, pull, p, wm, v0, v1), took(wm, l.w.to, pull, l.w.way.priority, w1), ids_fit(l, ns), l.key == pkey(pull),
    ensures wired(cfg, w1, ns, ls.push(l), v1)
{
    let ms = ls.push(l);
    assert(ms.drop_last() =~= ls);
    lemma_named(w0, wm); lemma_named(wm, w1);
    assert(push_is(p, l)); assert(pull_is((pull, l.w.way.priority), l));
    assert forall|n: Node| (#[trigger] comp(w1, n)) is Some <==> ns.contains(n) by {
        assert(comp(w0, n) is Some <==> ns.contains(n));
        if n != l.w.to { assert(comp(w1, n) == comp(wm, n)); }
        if n != l.w.from { assert(comp(wm, n) == comp(w0, n)); }
    }
    assert forall|i: int| 0 <= i < ns.len() implies base(cfg, #[trigger] ns[i], i as usize, comp(w1, ns[i])->0) && connected(comp(w1, ns[i])->0, ns[i], ms) by {
        let n = ns[i]; let c = comp(w0, n)->0; let d = comp(wm, n)->0; let e = comp(w1, n)->0;
        assert(base(cfg, n, i as usize, c) && connected(c, n, ls));
        if n == l.w.from { lemma_give(cfg, c, n, i as usize, ls, l, p); }
        else {
            assert(d == c);
            assert forall|s: OutputPort| #[trigger] pushes_are(outs(d, s), outs_of(ms, n, s)) by { assert(pushes_are(outs(c, s), outs_of(ls, n, s))); }
        }
        assert(base(cfg, n, i as usize, d) && gives(d, n, ms) && takes(d, n, ls));
        if n == l.w.to {
            lemma_take(cfg, d, n, i as usize, ls, l, pull);
            assert forall|s: OutputPort| #[trigger] pushes_are(outs(e, s), outs_of(ms, n, s)) by { assert(pushes_are(outs(d, s), outs_of(ms, n, s))); assert(outs(e, s) == outs(d, s)); }
        } else { assert(e == d); }
    }
    assert forall|i: int| 0 <= i < ms.len() implies ids_fit(#[trigger] ms[i], ns) && v1.chans.contains(ms[i].key) by { if i < ls.len() { assert(ids_fit(ls[i], ns)); assert(v0.chans.contains(ls[i].key)); } }
    assert forall|i: int, j: int| 0 <= i < j < ms.len() implies (#[trigger] ms[i]).key != (#[trigger] ms[j]).key by { assert(v0.chans.contains(ls[i].key)); if j < ls.len() { assert(ls[i].key != ls[j].key); } }
}
proof fn lemma_sized(cfg: Config, w: Waiter, ns: Seq<Node>, ls: Seq<Lk>, v: WV)
    requires wired(cfg, w, ns, ls, v)
    ensures all_sized(w)
{
    assert forall|n: Node| (#[trigger] comp(w, n)) is Some implies sized(comp(w, n)->0) by { let i = ns.index_of(n); assert(ns[i] == n); assert(base(cfg, ns[i], i as usize, comp(w, ns[i])->0)); }
}
/// the settings a regulator is to have
pub open spec fn wanted(cfg: Config, w: Waiter, n: Seq<char>) -> Option<Tuned> {
    match at(cfg.regulator.m(), n) {
        Some(rc) => match rc.buffered {
            Some(b) => if all_buffers(w, texts(rc.monitored_buffers@)) && comp(w, reg(n)) is Some { Some(Tuned { low: b.0, high: b.1, names: texts(rc.monitored_buffers@) }) } else { None },
            None => None,
        },
        None => None,
    }
}
/// es and the component of e are there, e is not yet connected
pub closed spec fn ready(cfg: Config, es: Seq<Connection>, e: Connection, w: Waiter, ns: Seq<Node>, ls: Seq<Lk>, v: WV) -> bool {
    wired(cfg, w, ns, ls, v) && just_wires(ls) == wires(es) && forall|n: Node| #[trigger] ns.contains(n) <==> mentioned(es.push(e), n)
}
/// the output the next element is to be joined to
pub closed spec fn left_open(last: Option<(usize, OutputPort)>, es: Seq<Connection>, ns: Seq<Node>) -> bool {
    match last {
        Some(p) => es.len() > 0 && p.0 < ns.len() && ns[p.0 as int] == node_of(es.last()) && port_of(es.last()) == Some(p.1),
        None => es.len() == 0 || port_of(es.last()) is None,
    }
}
/// what is left of a configuration when these components are there
pub closed spec fn rest(cfg: Config, c: Config, ns: Seq<Node>) -> bool {
    &&& c.faucet == cfg.faucet && c.drain == cfg.drain && c.regulator == cfg.regulator
    &&& forall|k: Seq<char>| !ns.contains(Node { ct: ComponentType::Launch, name: k }) ==> at(c.launch.m(), k) == #[trigger] at(cfg.launch.m(), k)
}
/// one of the elements cannot be built
pub open spec fn stuck_at(cfg: Config, es: Seq<Connection>, i: int) -> bool { 0 <= i < es.len() && exists|w: Waiter, ns: Seq<Node>, ls: Seq<Lk>, v: WV| #[trigger] stuck(cfg, es.take(i), es[i], w, ns, ls, v) }
pub open spec fn cannot_build(cfg: Config, es: Seq<Connection>) -> bool { exists|i: int| #[trigger] stuck_at(cfg, es, i) }
pub open spec fn untuned(w: Waiter) -> bool { forall|k: Seq<char>| (#[trigger] tuned(w, k)) is None }
proof fn lemma_mentioned(es: Seq<Connection>, e: Connection)
    ensures forall|n: Node| #[trigger] mentioned(es.push(e), n) <==> (mentioned(es, n) || n == node_of(e))
{
    let fs = es.push(e);
    assert forall|n: Node| #[trigger] mentioned(fs, n) <==> (mentioned(es, n) || n == node_of(e)) by {
        if mentioned(es, n) { let i = choose|i: int| 0 <= i < es.len() && node_of(#[trigger] es[i]) == n; assert(fs[i] == es[i]); }
        if n == node_of(e) { assert(fs[es.len() as int] == e); }
        if mentioned(fs, n) { let i = choose|i: int| 0 <= i < fs.len() && node_of(#[trigger] fs[i]) == n; if i < es.len() { assert(es[i] == fs[i]); } }
    }
}
/// how the component of e came to be there: it was, or it is new and not connected
pub closed spec fn arrived(e: Connection, w0: Waiter, w1: Waiter, ns0: Seq<Node>, ns1: Seq<Node>) -> bool {
    let n = node_of(e);
    if ns0.contains(n) { w1 == w0 && ns1 == ns0 }
    else { ns1 == ns0.push(n) && comp(w1, n) is Some && bare(comp(w1, n)->0) && kind(comp(w1, n)->0) == n.ct && forall|m: Node| m != n ==> #[trigger] comp(w1, m) == comp(w0, m) }
}
/// everything about where a component of e is and who it is
pub closed spec fn at_hand(cfg: Config, c: Config, es: Seq<Connection>, e: Connection, w0: Waiter, w1: Waiter, ns0: Seq<Node>, ns1: Seq<Node>, ls: Seq<Lk>, v: WV, id: usize) -> bool {
    &&& built(cfg, es, w0, ns0, ls, v) && ready(cfg, es, e, w1, ns1, ls, v) && arrived(e, w0, w1, ns0, ns1) && rest(cfg, c, ns1) && untuned(w1)
    &&& id < ns1.len() && ns1[id as int] == node_of(e) && ns1.len() <= ns0.len() + 1
}
/// what can be said before e's component is looked up
proof fn lemma_lookup(cfg: Config, c: Config, es: Seq<Connection>, e: Connection, w: Waiter, ns: Seq<Node>, ls: Seq<Lk>, v: WV)
    requires built(cfg, es, w, ns, ls, v), rest(cfg, c, ns), untuned(w), ns.len() < usize::MAX
    ensures match id_of(w, node_of(e)) {
        Some(id) => at_hand(cfg, c, es, e, w, w, ns, ns, ls, v, id),
        None => !ns.contains(node_of(e)) && free_name(w, node_of(e)) && (node_of(e).ct is Launch && no_command(c, node_of(e).name) ==> stuck(cfg, es, e, w, ns, ls, v)),
    }
{
    let n = node_of(e);
    assert(named(w, ns));
    lemma_mentioned(es, e);
    if id_of(w, n) is None && n.ct is Launch { assert(at(c.launch.m(), n.name) == at(cfg.launch.m(), n.name)); }
}
/// the component of e is there already
proof fn lemma_known(cfg: Config, c: Config, es: Seq<Connection>, e: Connection, w0: Waiter, w: Waiter, ns0: Seq<Node>, ns: Seq<Node>, ls: Seq<Lk>, v: WV, id: usize)
    requires at_hand(cfg, c, es, e, w0, w, ns0, ns, ls, v, id)
    ensures all_sized(w)
{ lemma_sized(cfg, w, ns, ls, v); }
proof fn lemma_base(cfg: Config, c: Config, ns: Seq<Node>, n: Node, id: usize, x: Comp)
    requires rest(cfg, c, ns), !ns.contains(n), base(c, n, id, x)
    ensures base(cfg, n, id, x)
{ if n.ct is Launch { assert(at(c.launch.m(), n.name) == at(cfg.launch.m(), n.name)); } }
/// the component of e is new
proof fn lemma_fresh_node(cfg: Config, c0: Config, c1: Config, es: Seq<Connection>, e: Connection, w0: Waiter, w1: Waiter, ns: Seq<Node>, ls: Seq<Lk>, v: WV, id: usize)
    requires built(cfg, es, w0, ns, ls, v), rest(cfg, c0, ns), untuned(w0), !ns.contains(node_of(e)), ns.len() < usize::MAX, constructed(c0, node_of(e), w0, w1, id), without(c0, c1, node_of(e))
    ensures at_hand(cfg, c1, es, e, w0, w1, ns, ns.push(node_of(e)), ls, v, id), all_sized(w1)
{
    let n = node_of(e);
    assert(named(w0, ns));
    lemma_base(cfg, c0, ns, n, ns.len() as usize, comp(w1, n)->0);
    lemma_new_node(cfg, w0, w1, ns, ls, v, n); lemma_mentioned(es, e); lemma_sized(cfg, w1, ns.push(n), ls, v);
    let ms = ns.push(n);
    assert(ms[ns.len() as int] == n);
    assert forall|m: Node| #[trigger] ms.contains(m) <==> (ns.contains(m) || m == n) by {
        if ns.contains(m) { let k = ns.index_of(m); assert(ms[k] == m); }
        if ms.contains(m) && m != n { let k = ms.index_of(m); assert(ns[k] == m); }
    }
    assert forall|m: Node| #[trigger] ms.contains(m) <==> mentioned(es.push(e), m) by { assert(ns.contains(m) <==> mentioned(es, m)); }
    assert forall|k: Seq<char>| !ms.contains(Node { ct: ComponentType::Launch, name: k }) implies at(c1.launch.m(), k) == #[trigger] at(cfg.launch.m(), k) by {
        assert(!ns.contains(Node { ct: ComponentType::Launch, name: k }));
        assert(at(c0.launch.m(), k) == at(cfg.launch.m(), k));
        assert(at(c1.launch.m(), k) == at(c0.launch.m(), k));
    }
}
proof fn lemma_unfold(cfg: Config, c: Config, es: Seq<Connection>, e: Connection, w0: Waiter, w1: Waiter, ns0: Seq<Node>, ns: Seq<Node>, ls: Seq<Lk>, v: WV, id: usize)
    requires at_hand(cfg, c, es, e, w0, w1, ns0, ns, ls, v, id)
    ensures ready(cfg, es, e, w1, ns, ls, v), rest(cfg, c, ns), untuned(w1), id < ns.len(), ns[id as int] == node_of(e), ns.len() <= ns0.len() + 1
{}
/// e is not joined to what is before it
proof fn lemma_loose(cfg: Config, es: Seq<Connection>, e: Connection, w: Waiter, ns: Seq<Node>, ls: Seq<Lk>, v: WV)
    requires ready(cfg, es, e, w, ns, ls, v), es.len() == 0 || port_of(es.last()) is None
    ensures built(cfg, es.push(e), w, ns, ls, v)
{
    let fs = es.push(e); assert(fs.drop_last() =~= es);
    if es.len() > 0 { assert(fs[fs.len() - 2] == es.last()); }
    assert(wires(fs) =~= wires(es));
}
/// e is joined to what is before it
proof fn lemma_joined(cfg: Config, c: Config, es: Seq<Connection>, e: Connection, w0: Waiter, w1: Waiter, w2: Waiter, ns0: Seq<Node>, ns: Seq<Node>, ls: Seq<Lk>, v0: WV, v1: WV, last: (usize, OutputPort), way: InputPort, id: usize) -> (l: Lk)
    requires at_hand(cfg, c, es, e, w0, w1, ns0, ns, ls, v0, id), left_open(Some(last), es, ns0), way_of(e) == Some(way), does_join(w1, last.0, last.1, id, way, w2, v0, v1)
    ensures built(cfg, es.push(e), w2, ns, ls.push(l), v1), untuned(w2)
{
    let (pull, p, wm) = choose|pull: Pull, p: Push, wm: Waiter| #[trigger] halves(pull, p, wm) && gave(w1, called(w1, last.0)->0, last.1, way.breakable, last.0, id, pull, p, wm, v0, v1) && took(wm, called(w1, id)->0, pull, way.priority, w2);
    assert(named(w1, ns)); assert(ns[last.0 as int] == ns0[last.0 as int]);
    let l = Lk { w: Wire { from: node_of(es.last()), port: last.1, to: node_of(e), way }, key: pkey(pull), src: last.0, dst: id };
    assert(called(w1, last.0) == Some(l.w.from)); assert(called(w1, id) == Some(l.w.to));
    let fs = es.push(e); assert(fs.drop_last() =~= es); assert(fs[fs.len() - 2] == es.last());
    lemma_link(cfg, w1, wm, w2, ns, ls, l, pull, p, v0, v1);
    assert(just_wires(ls.push(l)) =~= just_wires(ls).push(l.w));
    assert(wires(fs) =~= wires(es).push(l.w));
    assert forall|k: Seq<char>| (#[trigger] tuned(w2, k)) is None by { assert(tuned(w1, k) is None); }
    l
}
/// e cannot be joined to what is before it
proof fn lemma_refused(cfg: Config, c: Config, es: Seq<Connection>, e: Connection, w0: Waiter, w1: Waiter, ns0: Seq<Node>, ns: Seq<Node>, ls: Seq<Lk>, v0: WV, last: (usize, OutputPort), way: InputPort, id: usize)
    requires at_hand(cfg, c, es, e, w0, w1, ns0, ns, ls, v0, id), left_open(Some(last), es, ns0), way_of(e) == Some(way),
    ensures forall|x: ConnectableError| #[trigger] no_join(w1, last.0, last.1, id, way, x) ==> stuck(cfg, es, e, w0, ns0, ls, v0)
{
    let s = node_of(es.last()); let n = node_of(e);
    assert(named(w1, ns)); assert(ns[last.0 as int] == s); assert(ns0.contains(s)); assert(ns.contains(s)); assert(ns.contains(n));
    assert(called(w1, last.0) == Some(s)); assert(called(w1, id) == Some(n));
    assert(comp(w1, s) is Some && comp(w1, n) is Some && comp(w0, s) is Some);
    assert(ns0.contains(n) <==> comp(w0, n) is Some);
    assert(n != s ==> comp(w1, s) == comp(w0, s));
    assert forall|x: ConnectableError| #[trigger] no_join(w1, last.0, last.1, id, way, x) implies stuck(cfg, es, e, w0, ns0, ls, v0) by {
        assert(refuses(comp(w0, s), comp(w0, n), last.1, way.priority, n.ct));
    }
}
/// the regulators' settings, the first i being done
pub closed spec fn tuning(cfg: Config, wb: Waiter, w: Waiter, rs: Seq<(String, RegulatorConfig)>, i: int) -> bool {
    &&& 0 <= i <= rs.len() && entries::<String, RegulatorConfig>(Seq::new(rs.len(), |i: int| rs[i].0@), cfg.regulator.m()) && (forall|i: int| 0 <= i < rs.len() ==> (#[trigger] rs[i]).1 == cfg.regulator.m()[rs[i].0@])
    &&& only_settings(wb, w) && forall|k: Seq<char>| #[trigger] tuned(w, k) == (if met(rs, i, k) { wanted(cfg, wb, k) } else { None })
}
proof fn lemma_untuned(cfg: Config, w: Waiter, rs: Seq<(String, RegulatorConfig)>)
    requires untuned(w), entries::<String, RegulatorConfig>(Seq::new(rs.len(), |i: int| rs[i].0@), cfg.regulator.m()), forall|i: int| 0 <= i < rs.len() ==> (#[trigger] rs[i]).1 == cfg.regulator.m()[rs[i].0@]
    ensures tuning(cfg, w, w, rs, 0)
{}
proof fn lemma_tuning(cfg: Config, wb: Waiter, w: Waiter, rs: Seq<(String, RegulatorConfig)>, i: int)
    requires tuning(cfg, wb, w, rs, i), i < rs.len()
    ensures rs[i].1.buffered is None ==> tuning(cfg, wb, w, rs, i + 1),
        rs[i].1.buffered is Some ==> forall|w2: Waiter, r: bool| #[trigger] set_up(w, w2, rs[i].0@, Tuned { low: (rs[i].1.buffered->0).0, high: (rs[i].1.buffered->0).1, names: texts(rs[i].1.monitored_buffers@) }, r) ==> tuning(cfg, wb, w2, rs, i + 1)
{
    let n = rs[i].0@; let kk = Seq::new(rs.len(), |i: int| rs[i].0@); let rm = cfg.regulator.m();
    assert(kk[i] == n); assert(rs[i].1 == rm[n]); assert(rm.contains_key(kk[i]));
    assert(!met(rs, i, n)) by { if met(rs, i, n) { let j = choose|j: int| 0 <= j < i && (#[trigger] rs[j]).0@ == n; assert(kk[j] == kk[i]); } }
    assert forall|k: Seq<char>| #[trigger] met(rs, i + 1, k) == (met(rs, i, k) || k == n) by { lemma_met(rs, i, k); }
    lemma_wanted(cfg, wb, w, n);
    let bs = texts(rs[i].1.monitored_buffers@);
    assert(rs[i].1.buffered is None ==> wanted(cfg, wb, n) is None);
    if rs[i].1.buffered is Some {
        let t = Tuned { low: (rs[i].1.buffered->0).0, high: (rs[i].1.buffered->0).1, names: bs };
        assert forall|w2: Waiter, r: bool| #[trigger] set_up(w, w2, n, t, r) implies tuning(cfg, wb, w2, rs, i + 1) by {
            assert(only_settings(wb, w2));
            assert forall|k: Seq<char>| #[trigger] tuned(w2, k) == (if met(rs, i + 1, k) { wanted(cfg, wb, k) } else { None }) by { assert(tuned(w, k) == (if met(rs, i, k) { wanted(cfg, wb, k) } else { None })); }
        }
    } else {
        assert forall|k: Seq<char>| #[trigger] tuned(w, k) == (if met(rs, i + 1, k) { wanted(cfg, wb, k) } else { None }) by { assert(tuned(w, k) == (if met(rs, i, k) { wanted(cfg, wb, k) } else { None })); }
    }
}
proof fn lemma_finished(cfg: Config, es: Seq<Connection>, wb: Waiter, w: Waiter, rs: Seq<(String, RegulatorConfig)>, ns: Seq<Node>, ls: Seq<Lk>, v: WV)
    requires built(cfg, es, wb, ns, ls, v), tuning(cfg, wb, w, rs, rs.len() as int)
    ensures is_waiter(cfg, es, w, v)
{
    lemma_settings(cfg, es, wb, w, ns, ls, v);
    assert forall|k: Seq<char>| #[trigger] tuned(w, k) == wanted(cfg, w, k) by {
        let kk = Seq::new(rs.len(), |i: int| rs[i].0@);
        lemma_wanted(cfg, wb, w, k);
        if cfg.regulator.m().contains_key(k) { let j = choose|j: int| 0 <= j < kk.len() && #[trigger] kk[j] == k; assert(rs[j].0@ == k); assert(met(rs, rs.len() as int, k)); }
        else if met(rs, rs.len() as int, k) { let j = choose|j: int| 0 <= j < rs.len() && (#[trigger] rs[j]).0@ == k; assert(cfg.regulator.m().contains_key(kk[j])); }
    }
}
proof fn lemma_settings(cfg: Config, es: Seq<Connection>, w0: Waiter, w1: Waiter, ns: Seq<Node>, ls: Seq<Lk>, v: WV)
    requires built(cfg, es, w0, ns, ls, v), only_settings(w0, w1)
    ensures built(cfg, es, w1, ns, ls, v)
{
    lemma_named(w0, w1);
    assert forall|n: Node| #[trigger] comp(w1, n) == comp(w0, n) by {}
}
proof fn lemma_none(cfg: Config, c: Config, w: Waiter, v: WV)
    requires c == (Config { connection: c.connection, ..cfg }), named(w, Seq::empty()), forall|n: Node| (#[trigger] comp(w, n)) is None, forall|n: Seq<char>| (#[trigger] tuned(w, n)) is None
    ensures built(cfg, Seq::empty(), w, Seq::empty(), Seq::empty(), v), untuned(w), rest(cfg, c, Seq::empty())
{ assert(just_wires(Seq::empty()) =~= wires(Seq::empty())); }
proof fn lemma_rest(cfg: Config, c: Config, ns: Seq<Node>) requires rest(cfg, c, ns) ensures c.regulator == cfg.regulator {}
/// the waiter is what the configuration says, and its regulators are set up as it says
pub open spec fn is_waiter(cfg: Config, es: Seq<Connection>, w: Waiter, v: WV) -> bool {
    &&& exists|ns: Seq<Node>, ls: Seq<Lk>| #[trigger] built(cfg, es, w, ns, ls, v)
    &&& forall|n: Seq<char>| #[trigger] tuned(w, n) == wanted(cfg, w, n)
}
pub open spec fn some_order(ks: Seq<Seq<char>>, c: Config) -> bool { entries::<String, DeserializedConnection>(ks, c.connection.m()) }
pub open spec fn met<V>(s: Seq<(String, V)>, n: int, k: Seq<char>) -> bool { exists|j: int| 0 <= j < n && (#[trigger] s[j]).0@ == k }
proof fn lemma_met<V>(s: Seq<(String, V)>, n: int, k: Seq<char>) requires 0 <= n < s.len() ensures met(s, n + 1, k) == (met(s, n, k) || s[n].0@ == k)
{
    if met(s, n + 1, k) { let j = choose|j: int| 0 <= j < n + 1 && (#[trigger] s[j]).0@ == k; if j < n { assert(met(s, n, k)); } }
    if met(s, n, k) { let j = choose|j: int| 0 <= j < n && (#[trigger] s[j]).0@ == k; assert(s[j].0@ == k); }
    if s[n].0@ == k { assert(met(s, n + 1, k)); }
}
proof fn lemma_wanted(cfg: Config, w0: Waiter, w1: Waiter, n: Seq<char>)
    requires only_settings(w0, w1)
    ensures wanted(cfg, w0, n) == wanted(cfg, w1, n)
{
    assert(comp(w0, reg(n)) == comp(w1, reg(n)));
    match at(cfg.regulator.m(), n) {
        Some(rc) => {
            let bs = texts(rc.monitored_buffers@);
            assert forall|j: int| 0 <= j < bs.len() implies comp(w0, buf(#[trigger] bs[j])) == comp(w1, buf(bs[j])) by {}
            if all_buffers(w0, bs) { assert forall|j: int| 0 <= j < bs.len() implies comp(w1, buf(#[trigger] bs[j])) is Some by { assert(comp(w0, buf(bs[j])) is Some); } }
            if all_buffers(w1, bs) { assert forall|j: int| 0 <= j < bs.len() implies comp(w0, buf(#[trigger] bs[j])) is Some by { assert(comp(w1, buf(bs[j])) is Some); } }
        },
        None => {},
    }
}
//@item src/waiter.rs :: fn get_waiter [seq, nofn, eff, forsrc=1]
pub fn get_waiter(mut config: Config) -> /*@ (r: @*/ Result<Waiter, String> /*@ )
    requires proper(config),
    ensures quiet(old(w).v(), final(w).v()), exists|ks: Seq<Seq<char>>| #[trigger] some_order(ks, config) && match r {
        Ok(x) => is_waiter(config, joined(ks, config.connection.m()), x, final(w).v()),
        Err(_) => cannot_build(config, joined(ks, config.connection.m())),
    }, @*/ {
    /*@ hide(built); hide(wired); hide(ready); hide(named); hide(called); hide(id_of); hide(comp); hide(tuned); hide(stuck); hide(gave); hide(took); hide(same_but); hide(all_sized); hide(base); hide(refuses); hide(out_refusal); hide(in_refusal); hide(mentioned); hide(is_waiter); hide(only_settings); hide(wanted); hide(halves); hide(does_join); hide(no_join); hide(constructed); hide(free_name); hide(without); hide(arrived); hide(at_hand); hide(rest); hide(untuned); hide(set_up); hide(tuning); hide(wires); @*/
    /*@ let ghost cfg = config; let ghost cm = config.connection.m(); let ghost v0 = w.v(); @*/
    let mut config_connections: BTreeMap<String, DeserializedConnection> = BTreeMap::new();
    std::mem::swap(&mut config.connection, &mut config_connections);
    let all_connections = config_connections.into_iter().fold(
        /*@ let ghost kv = src0__@; let ghost ks = Seq::new(kv.len(), |i: int| kv[i].0@); @*/
        Vec::new(),
        |mut acc, (_hash_key, deser_conn)|
        /*@ invariant it0__.seq() == kv, some_order(ks, cfg), ks == Seq::new(kv.len(), |i: int| kv[i].0@), converted(cfg), cm == cfg.connection.m(), forall|i: int| 0 <= i < kv.len() ==> (#[trigger] kv[i]).1 == cm[kv[i].0@], acc0__@ == joined(ks.take(it0__.index() as int), cm), @*/ {
            /*@ proof { let i = it0__.index() as int; assert(ks[i] == kv[i].0@); assert(cm[ks[i]] is Connections); assert(ks.take(i + 1).drop_last() =~= ks.take(i)); assert(ks.take(i + 1).last() == ks[i]); } @*/
            if let DeserializedConnection::Connections(mut v) = deser_conn {
                acc.append(&mut v);
                return acc;
            }
            panic!("Encountered DeserializedConnection::JoinString in waiter::get_waiter()")
        }
        /*@ proof { assert(ks.take(ks.len() as int) =~= ks); assert(some_order(ks, cfg)); assert(some_order(ks, cfg) && joined(ks, cm) == acc0__@); } @*/
    );
    /*@ let ghost ks = choose|ks: Seq<Seq<char>>| #[trigger] some_order(ks, cfg) && joined(ks, cm) == all_connections@; let ghost es = all_connections@; let ghost elen = all_connections.len(); @*/
    let mut waiter = Waiter::new();
    /*@ let ghost mut ns = Seq::<Node>::empty(); let ghost mut ls = Seq::<Lk>::empty();
        proof { assert(entries::<String, DeserializedConnection>(ks, cfg.connection.m())); assert(chained(es)); assert(es.take(0) =~= Seq::<Connection>::empty()); lemma_none(cfg, config, waiter, w.v()); } @*/
    async fn constructor(component_type: ComponentType, component_name: String, config: &mut Config, w: &mut Waiter) -> Result<usize, String> {
        let id = w.incr_id(component_type, component_name.clone());
        match component_type {
            ComponentType::Faucet => {
                let faucet = Faucet::new(config.faucet.get(&component_name).map(|t| t.source.clone()).unwrap_or_else(|| "".to_string()));
                w.add_faucet(component_name.to_string(), faucet);
                Ok(id)
            },
            ComponentType::Drain => {
                w.add_drain(component_name.to_string(), Drain::new(config.drain.get(&component_name).map(|s| s.destination.clone()).unwrap_or_else(|| "".to_string())));
                Ok(id)
            },
            ComponentType::Regulator => {
                w.add_regulator(component_name.to_string(), Regulator::new());
                Ok(id)
            },
            ComponentType::Buffer => {
                w.add_buffer(component_name.to_string(), Buffer::new());
                Ok(id)
            },
            ComponentType::Junction => {
                w.add_junction(component_name.to_string(), Junction::new());
                Ok(id)
            },
            ComponentType::Launch => {
                if let Some(cfg) = config.launch.remove(&component_name) {
                    if cfg.command.is_none() {
                        return Err(format!("Launch '{}' did not have a command specified", component_name));
                    }
                    let launch: Launch<HashMap<String, String>, String, String, Vec<String>, String, String, String> = Launch::new(
                        id,
                        if cfg.env.is_empty() { None } else { Some(cfg.env) },
                        cfg.path,
                        cfg.command.ok_or(format!("Launch '{}' did not have a command specified", component_name))?,
                        if cfg.arg.is_empty() { None } else { Some(cfg.arg) }
                    );
                    w.add_launch(component_name.to_string(), launch);
                    return Ok(id);
                }
                Err(format!("Could not find configuration for Launch {}", component_name))
            }
        }
    }
    let mut last: Option<(usize, OutputPort)> = None;
    for connection in /*@ it: @*/ all_connections.into_iter()
        /*@ invariant
            it.seq() == es, chained(es), some_order(ks, cfg), es == joined(ks, cm), cm == cfg.connection.m(), es.len() <= usize::MAX,
            built(cfg, es.take(it.index() as int), waiter, ns, ls, w.v()), left_open(last, es.take(it.index() as int), ns), rest(cfg, config, ns), untuned(waiter), ns.len() <= it.index(), quiet(v0, w.v()), @*/ {
        /*@ let ghost i = it.index() as int; let ghost e = es[i]; let ghost pre = es.take(i); let ghost n = node_of(e); let ghost w0 = waiter; let ghost ns0 = ns; let ghost ls0 = ls; let ghost c0 = config; let ghost va = w.v(); let ghost last0 = last;
            proof {
                assert(connection == e); assert(es.take(i + 1) =~= pre.push(e));
                lemma_lookup(cfg, c0, pre, e, w0, ns0, ls0, va);
                assert(stuck(cfg, pre, e, w0, ns0, ls0, va) ==> stuck_at(cfg, es, i));
            } @*/
        let mut create_spec = get_create_spec(connection);
        let dst_id = match waiter.get_id(&create_spec.component_type, &create_spec.component_name) {
            None => {
                let mut dst_component_type = ComponentType::Buffer;
                let mut dst_component_name = "".to_string();
                std::mem::swap(&mut create_spec.component_name, &mut dst_component_name);
                std::mem::swap(&mut create_spec.component_type, &mut dst_component_type);
                async_std::task::block_on(constructor(dst_component_type, dst_component_name, &mut config, &mut waiter))?
            },
            Some(id) => id
        };
        /*@ let ghost w1 = waiter;
            proof {
                if id_of(w0, n) is Some { lemma_known(cfg, c0, pre, e, w0, w1, ns0, ns, ls0, va, dst_id); }
                else { lemma_fresh_node(cfg, c0, config, pre, e, w0, w1, ns0, ls0, va, dst_id); ns = ns0.push(n); }
                assert(at_hand(cfg, config, pre, e, w0, w1, ns0, ns, ls0, va, dst_id));
            } @*/
        if let Some((src_id, src_output_port)) = last {
            /*@ proof {
                assert(pre.last() == es[i - 1]); assert(way_of(es[i]) is Some);
                lemma_refused(cfg, config, pre, e, w0, w1, ns0, ns, ls0, va, last0->0, way_of(e)->0, dst_id);
            } @*/
            let mut dst_input_port = Some(InputPort { priority: 0, breakable: Breakable::Terminate });
            std::mem::swap(&mut create_spec.input_port, &mut dst_input_port);
            fn string_hack(id: &usize, o: Option<&(ComponentType, String)>) -> String {
                match o {
                    Some((ct, n)) => format!("{}:{}", ct, n),
                    None => format!("Unknown Component {}", id)
                }
            }
            if let Some(dst_input_port) = dst_input_port {
                /*@ assert(Some(dst_input_port) == way_of(e)); @*/
                match waiter.join((src_id, src_output_port), (dst_id, dst_input_port)) {
                    Ok(_) => Ok(()),
                    Err(ConnectableError::AddInput(src_id, connectable_add_input_error)) => {
                        Err(format!("AddInput({}, {:?})", string_hack(&src_id, waiter.id_to_component_type_name(&src_id)), connectable_add_input_error))
                    },
                    Err(ConnectableError::AddOutput(dst_id, connectable_add_output_error)) => {
                        Err(format!("AddOutput({}, {:?})", string_hack(&dst_id, waiter.id_to_component_type_name(&dst_id)), connectable_add_output_error))
                    },
                    Err(ConnectableError::CouldNotFindSourceComponent(src_id)) => {
                        Err(format!("ConnectableError::CouldNotFindSourceComponent({})", string_hack(&src_id, waiter.id_to_component_type_name(&src_id))))
                    },
                    Err(ConnectableError::CouldNotFindDestinationComponent(dst_id)) => {
                        Err(format!("ConnectableError::CouldNotFindDestinationComponent({})", string_hack(&dst_id, waiter.id_to_component_type_name(&dst_id))))
                    },
                }?;
                /*@ proof {
                    let l = lemma_joined(cfg, config, pre, e, w0, w1, waiter, ns0, ns, ls0, va, w.v(), last0->0, dst_input_port, dst_id);
                    ls = ls0.push(l);
                } @*/
            } else {
                panic!("HOW!");
            }
        }
        /*@ proof { lemma_unfold(cfg, config, pre, e, w0, w1, ns0, ns, ls0, va, dst_id); if last0 is None { lemma_loose(cfg, pre, e, waiter, ns, ls, w.v()); } } @*/
        last = None;
        if let Some(create_spec_output_port) = create_spec.output_port {
            last = Some((dst_id, create_spec_output_port));
        }
    }
    /*@ let ghost wb = waiter; proof { assert(es.take(es.len() as int) =~= es); lemma_rest(cfg, config, ns); } @*/
    for (regulator_name, RegulatorConfig { monitored_buffers, buffered}) in /*@ it: @*/ config.regulator.into_iter()
        /*@ invariant it.seq() == fg1__, untuned(wb), entries::<String, RegulatorConfig>(Seq::new(fg1__.len(), |i: int| fg1__[i].0@), cfg.regulator.m()), forall|i: int| 0 <= i < fg1__.len() ==> (#[trigger] fg1__[i]).1 == cfg.regulator.m()[fg1__[i].0@],
            it.index() == 0 ==> waiter == wb, it.index() > 0 ==> tuning(cfg, wb, waiter, fg1__, it.index() as int), @*/ {
        /*@ let ghost i = it.index() as int; proof { if i == 0 { lemma_untuned(cfg, wb, fg1__); } lemma_tuning(cfg, wb, waiter, fg1__, i); } @*/
        if let Some(b) = buffered {
            waiter.configure_regulator(regulator_name, monitored_buffers, b.0, b.1);
        }
    }
    /*@ proof { if fg1__.len() == 0 { lemma_untuned(cfg, wb, fg1__); } lemma_finished(cfg, es, wb, waiter, fg1__, ns, ls, w.v()); } @*/
    Ok(waiter)
}
//@end
}
//@include run.rs
}
