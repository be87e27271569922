#![verifier::loop_isolation(false)]
#![feature(const_destruct)]
#![verifier::exec_allows_no_decreases_clause]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_assignments, non_snake_case, unused_must_use, unreachable_code, unreachable_patterns)]
use vstd::prelude::*;
verus! { global size_of usize == 8; }
//@include fmt.rs
//@include coll.rs
//@include std_shim_cfg.rs
//@include ports.rs
//@include peg.rs
// Join strings: the grammar, and what is made of its result.
pub mod joins {
use vstd::prelude::*;
use crate::connectable::*;
use crate::coll::*;
use crate::peg::*;
use crate::peg::error::ParseError;
use crate::std_shim as std;
verus!{
//@include config_types.rs
//@item src/config.rs :: struct ComponentIdentifier
struct ComponentIdentifier ( ComponentType, String );
//@end
//@item src/config.rs :: enum ParserConnection
pub enum ParserConnection {
    Connection(Connection),
    Pipe(Breakable)
}
//@end
impl Clone for ParserConnection { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
}
//@include join_specs.rs
verus!{
pub mod connection_parser {
use super::*;
type Input = str;
type PositionRepr = LineCol;
#[verifier::external_body] struct ParseState<'input> { x: core::marker::PhantomData<&'input ()> }
impl<'input> ParseState<'input> { #[verifier::external_body] fn new() -> ParseState<'input> { unimplemented!() } }
//@include join_rules.rs
}
// ---- the connections a sequence of pieces stands for
/// the policy of a pipe just before the end
pub open spec fn policy(ts: Seq<Tok>) -> Option<Breakable> { if ts.len() > 0 && ts.last() is Pipe { Some(ts.last()->Pipe_0) } else { None } }
pub open spec fn with(t: Tok, b: Breakable) -> Tok {
    match t {
        Tok::Middle(ct, n, i, o, s) => Tok::Middle(ct, n, InputPort { breakable: b, priority: i.priority }, o, s),
        Tok::End(ct, n, i, s) => Tok::End(ct, n, InputPort { breakable: b, priority: i.priority }, s),
        _ => t,
    }
}
/// the components, each with the policy of the pipe right before it
pub open spec fn folded(ts: Seq<Tok>) -> Seq<Tok> decreases ts.len() {
    if ts.len() == 0 { Seq::empty() } else if ts.last() is Pipe { folded(ts.drop_last()) }
    else { folded(ts.drop_last()).push(match policy(ts.drop_last()) { Some(b) => with(ts.last(), b), None => ts.last() }) }
}
/// what a join string denotes, if anything
pub open spec fn read(s: Seq<char>) -> Option<Seq<Tok>> { match whole(g_set(s)) { Some(ts) => Some(folded(ts)), None => None } }
pub open spec fn ctoks(v: Seq<Connection>) -> Seq<Tok> { v.map_values(|c: Connection| ctok(c)) }
/// one start, first of all
pub open spec fn starts_first(ts: Seq<Tok>) -> bool { forall|i: int| 0 < i < ts.len() ==> !(#[trigger] ts[i] is Start) }
pub proof fn lemma_lines_no_start(s: Seq<char>)
    ensures forall|i: int| 0 <= i < g_lines(s).1.len() ==> !(#[trigger] g_lines(s).1[i] is Start),
    decreases s.len(),
{
    if let Some((a, t)) = g_line(s) { if a.len() < s.len() { lemma_lines_no_start(a); } }
}
pub proof fn lemma_starts_first(s: Seq<char>) ensures g_set(s) matches Some((_, ts)) ==> starts_first(ts) {
    if g_has(s) is Some { let a = g_start(s)->0; let c = g_pipe(a.0)->0; lemma_lines_no_start(c.0); }
}
impl Connection {
//@item src/config.rs :: impl Connection > fn convert_to_input_breakable [bare]
    fn convert_to_input_breakable(self, breakable: Breakable) -> /*@ (r: @*/ Self /*@ ) requires !(self is StartConnection) ensures ctok(r) == with(ctok(self), breakable) @*/ {
        match self {
            Connection::MiddleConnection { component_type, component_name, mut input_port, output_port, connection_set } => {
                input_port.breakable = breakable;
                Connection::MiddleConnection {
                    component_type,
                    component_name,
                    input_port,
                    output_port,
                    connection_set,
                }
            },
            Connection::StartConnection { .. } => {
                panic!("Start connections cannot be marked as input breakable!");
            },
            Connection::EndConnection { component_type, component_name, mut input_port, connection_set } => {
                input_port.breakable = breakable;
                Connection::EndConnection {
                    component_type,
                    component_name,
                    input_port,
                    connection_set,
                }
            },
        }
    }
//@end
}
//@item src/config.rs :: fn load_connection_from_string
pub fn load_connection_from_string(s: &str) -> /*@ (r: @*/ Result<Vec<Connection>, ParseError<LineCol>> /*@ ) ensures match r { Ok(v) => read(s@) == Some(ctoks(v@)), Err(_) => read(s@) is None } @*/ {

    let mut breakable = None;
    let mut acc: Vec<Connection> = vec![];
    /*@ let ghost g = whole(g_set(s@)); proof { lemma_starts_first(s@); } @*/
    for pc in /*@ it: @*/ connection_parser::connection_set(s)?
        /*@ invariant g == Some(toks(it.seq())), starts_first(toks(it.seq())), ctoks(acc@) =~= folded(toks(it.seq()).take(it.index() as int)), breakable == policy(toks(it.seq()).take(it.index() as int)) @*/ {
        /*@ let ghost k = it.index() as int; let ghost ts = toks(it.seq()); proof { assert(ts.take(k + 1).drop_last() =~= ts.take(k)); assert(ts.take(k + 1).last() == tok(pc)); assert(ts[k] == tok(pc)); } @*/
        match pc {
            ParserConnection::Connection(x) => {
                if let Some(breakable) = breakable {
                    acc.push(x.convert_to_input_breakable(breakable));
                } else {
                    acc.push(x);
                }
                breakable = None
            },
            ParserConnection::Pipe(b) => { breakable = Some(b) },
        }
    }
    /*@ proof { let ts = g->0; assert(ts.take(ts.len() as int) =~= ts); } @*/

    Ok(acc)


}
//@end
}
//@include join_texts.rs
}

fn main() {}
