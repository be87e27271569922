// How an error of a run is told.
pub mod bin_support {
use vstd::prelude::*;
use crate::coll::*;
use crate::config::*;
use crate::fmt::*;
use crate::motion::*;
use crate::waiter::*;
verus!{
/// a component in a message
pub open spec fn label(ct: ComponentType, n: Seq<char>) -> Seq<char> { ct.shown() + ":"@ + n }
pub open spec fn known(names: Map<usize, (ComponentType, String)>, id: Option<usize>) -> Option<Seq<char>> {
    match id { Some(i) => if names.contains_key(i) { Some(label(names[i].0, names[i].1@)) } else { None }, None => None }
}
/// the component the error's connection comes from, if it names one that is known, else the component that failed, if one did
pub open spec fn shown_source(e: WaiterError, names: Map<usize, (ComponentType, String)>) -> Seq<char> {
    match (known(names, match e.cause() { Some(m) => m.source(), None => None }), e) {
        (Some(s), _) => s,
        (None, WaiterError::CausedByError(ct, n, _)) => label(ct, n@),
        _ => "Unknown Source"@,
    }
}
/// the component the error's connection goes to, where the error names a connection whose both ends are known
pub open spec fn shown_target(e: WaiterError, names: Map<usize, (ComponentType, String)>) -> Seq<char> {
    match (known(names, match e.cause() { Some(m) => m.source(), None => None }), known(names, match e.cause() { Some(m) => match m.on() { Some(j) => Some(j.dst), None => None }, None => None })) {
        (Some(_), Some(s)) => s,
        _ => "Unknown Destination"@,
    }
}
/// ASSUMED: what Debug prints for a string depends on its characters only
pub uninterp spec fn quoted(s: Seq<char>) -> Seq<char>;
impl Dbg for String { open spec fn shown_dbg(&self) -> Seq<char> { quoted(self@) } }
pub open spec fn shown_error(e: WaiterError, names: Map<usize, (ComponentType, String)>) -> Seq<char> {
    shown_source(e, names) + " | "@ + shown_target(e, names) + " - "@ + quoted(e.says())
}
//@item src/bin_support.rs :: fn waiter_error_to_string > fn component_type_name_to_string
    fn component_type_name_to_string(ct: &ComponentType, n: &str) -> /*@ (r: @*/ String /*@ ) ensures r@ == label(*ct, n@), @*/ {
        /*@ proof { reveal_strlit(":"); } @*/
        format!("{}:{}", ct, n)
    }
//@end
//@item src/bin_support.rs :: fn waiter_error_to_string [nofn, seq]
pub fn waiter_error_to_string(waiter_err: WaiterError, id_to_component_type_name: &HashMap<usize, (ComponentType, String)>) -> /*@ (r: @*/ String /*@ ) ensures r@ == shown_error(waiter_err, id_to_component_type_name.m()), @*/ {
    fn component_type_name_to_string(ct: &ComponentType, n: &str) -> String {
        format!("{}:{}", ct, n)
    }
    let waiter_src: Option<(&ComponentType, &String)> = waiter_err.caused_by_error_source();
    let motion_src: Option<&(ComponentType, String)> = match waiter_err.caused_by_error().map(|err /*@: &MotionError @*/| /*@ -> (o: Option<&usize>) ensures match o { Some(i) => err.source() == Some(*i), None => err.source() is None } { @*/ err.journey_source() /*@ } @*/).flatten() {
        Some(journey_source) => id_to_component_type_name.get(journey_source),
        _ => None
    };
    let motion_dst: Option<&(ComponentType, String)> = match waiter_err.caused_by_error().map(|err /*@: &MotionError @*/| /*@ -> (o: Option<Journey>) ensures o == err.on() { @*/ err.journey() /*@ } @*/).flatten() {
        Some(Journey { dst, .. }) => id_to_component_type_name.get(&dst),
        _ => None
    };
    let (src, dst) = match (waiter_src, motion_src, motion_dst) {
        (_, Some(motion_src), Some(motion_dst)) => (component_type_name_to_string(&motion_src.0, &motion_src.1), component_type_name_to_string(&motion_dst.0, &motion_dst.1)),
        (_, Some(motion_src), _) => (component_type_name_to_string(&motion_src.0, &motion_src.1), "Unknown Destination".to_string()),
        (Some(waiter_src), _, _) => (component_type_name_to_string(waiter_src.0, waiter_src.1), "Unknown Destination".to_string()),
        _ => ("Unknown Source".to_string(), "Unknown Destination".to_string()),
    };
    /*@ proof { assert(src@ == shown_source(waiter_err, id_to_component_type_name.m())); assert(dst@ == shown_target(waiter_err, id_to_component_type_name.m())); } @*/
    /*! { let res0 = !*/ format!("{} | {} - {:?}", src, dst, waiter_err.description()) /*! ; !*/ /*@ proof { assert(res0@ =~= shown_error(waiter_err, id_to_component_type_name.m())); } @*/ /*! res0 } !*/
}
//@end
}
}
