// A run: all components side by side, and how it ends.
pub mod run {
use super::*;
use crate::async_std;
use crate::world::*;
use vstd::prelude::*;
use crate::coll::HashMap;
use crate::junction::{did, over, broke, closed_all, ins_ok, outs_ok, pkey, Rd};
use super::quiet;
use super::super::distinct;
use crate::pump::*;
use crate::faucet::opened;
use crate::drain::{directed, drained};
use crate::buffer::{buffered, outcome};
use crate::launch::launched;
use crate::fmt::*;
use crate::motion::*;
use ::std::time::{Duration, Instant};
verus!{
/// ASSUMED: components run as tasks of their own; the contract of each speaks of the world as that task sees it, which starts as it is when the run starts
pub axiom fn fork(tracked w: &World) -> (tracked r: World) ensures r.v() == w.v();
/// ASSUMED: time since an earlier moment, in nanoseconds (nothing if it is later)
pub uninterp spec fn since(a: Instant, b: Instant) -> nat;
pub uninterp spec fn nanos(d: Duration) -> nat;
pub assume_specification[ Instant::duration_since ](a: &Instant, b: Instant) -> (r: Duration) ensures nanos(r) == since(*a, b);
/// ASSUMED: how keys are ordered when sorting: nothing first, then shorter before longer
pub uninterp spec fn key_le<K>(a: K, b: K) -> bool;
pub axiom fn axiom_key_le(a: Option<Duration>, b: Option<Duration>)
    ensures key_le(a, b) == match (a, b) { (None, _) => true, (Some(_), None) => false, (Some(x), Some(y)) => nanos(x) <= nanos(y) };
pub open spec fn key_ok<T, K>(f: spec_fn(T, K) -> bool, a: T, b: T, same: bool) -> bool { exists|k: K, l: K| #[trigger] f(a, k) && #[trigger] f(b, l) && key_le(k, l) && (same ==> !key_le(l, k)) }
pub open spec fn by_key<T, K>(v: Seq<T>, r: Seq<T>, f: spec_fn(T, K) -> bool) -> bool {
    exists|p: Seq<int>| #[trigger] rearranged(v, r, p) && forall|i: int, j: int| 0 <= i < j < r.len() ==> key_ok(f, #[trigger] r[i], #[trigger] r[j], p[i] > p[j])
}
/// ASSUMED: `sort_by_key` rearranges, orders by the keys, and keeps elements of equal keys in order
pub assume_specification<T, K: Ord, F: FnMut(&T) -> K>[ <[T]>::sort_by_key::<K, F> ](s: &mut [T], f: F)
    requires forall|x: &T| #[trigger] f.requires((x,))
    ensures by_key(old(s)@, final(s)@, keyed::<T, K, F>(f));
pub open spec fn keyed<T, K, F: FnMut(&T) -> K>(f: F) -> spec_fn(T, K) -> bool { |a: T, k: K| f.ensures((&a,), k) }
impl Disp for MotionError { uninterp spec fn shown(&self) -> Seq<char>; }

// ---- errors ----
impl WaiterError {
    pub open spec fn when(&self) -> Option<Instant> { match self { WaiterError::CausedByError(_, _, e) => e.when(), _ => None } }
    pub open spec fn says(&self) -> Seq<char> {
        match self {
            WaiterError::CausedByError(_, _, e) => e.shown(),
            WaiterError::SettingsForMissingRegulator(s) => "There are no settings for Faucet:"@ + s@,
            WaiterError::SettingsRefersMissingBuffer(f, b) => "Faucet "@ + f@ + " refers to buffer "@ + b@ + " which does not exist"@,
            _ => "CouldNotPause"@,
        }
    }
    pub open spec fn cause(&self) -> Option<MotionError> { match self { WaiterError::CausedByError(_, _, e) => Some(*e), _ => None } }
}
//@item src/waiter.rs :: impl WaiterError > fn description
    pub fn description(&self) -> /*@ (r: @*/ String /*@ ) ensures r@ == self.says(), @*/ {
        match self {
            WaiterError::CausedByError(_, _, m) => format!("{}", m),
            WaiterError::SettingsForMissingRegulator(s) => format!("There are no settings for Faucet:{}", s),
            WaiterError::SettingsRefersMissingBuffer(f, b) => format!("Faucet {} refers to buffer {} which does not exist", f, b),
            WaiterError::CouldNotPause => "CouldNotPause".to_string(),
            WaiterError::CouldNotResume => "CouldNotPause".to_string(),
        }
    }
//@end
//@item src/waiter.rs :: impl WaiterError > fn instant
    fn instant(&self) -> /*@ (r: @*/ Option<&Instant> /*@ ) ensures match r { Some(i) => self.when() == Some(*i), None => self.when() is None }, @*/ {
        match self {
            WaiterError::CausedByError(_, _, e) => e.instant(),
            _ => None,
        }
    }
//@end
//@item src/waiter.rs :: impl WaiterError > fn caused_by_error_name
    pub fn caused_by_error_name(&self) -> /*@ (r: @*/ Option<&str> /*@ ) ensures match r { Some(n) => self is CausedByError && self->CausedByError_1@ == n@, None => !(self is CausedByError) }, @*/ {
        match self {
            WaiterError::CausedByError(_, n, _) => Some(n),
            _ => None,
        }
    }
//@end
//@item src/waiter.rs :: impl WaiterError > fn caused_by_error_source
    pub fn caused_by_error_source(&self) -> /*@ (r: @*/ Option<(&ComponentType, &String)> /*@ ) ensures match r { Some(p) => self is CausedByError && self->CausedByError_0 == *p.0 && self->CausedByError_1 == *p.1, None => !(self is CausedByError) }, @*/ {
        match self {
            WaiterError::CausedByError(t, n, _) => Some((t, n)),
            _ => None,
        }
    }
//@end
//@item src/waiter.rs :: impl WaiterError > fn caused_by_error
    pub fn caused_by_error(&self) -> /*@ (r: @*/ Option<&MotionError> /*@ ) ensures match r { Some(e) => self.cause() == Some(*e), None => self.cause() is None }, @*/ {
        match self {
            WaiterError::CausedByError(_, _, e) => Some(e),
            _ => None,
        }
    }
//@end
//@item src/waiter.rs :: impl Waiter > fn start > fn folder
        fn folder(acc: Result<usize, Vec<WaiterError>>, cur: Result<usize, WaiterError>) -> /*@ (r: @*/ Result<usize, Vec<WaiterError>> /*@ )
        requires acc is Ok && cur is Ok ==> acc->Ok_0 + cur->Ok_0 <= usize::MAX,
        ensures match (acc, cur) {
            (Ok(i), Ok(j)) => r == Ok::<usize, Vec<WaiterError>>((i + j) as usize),
            (Err(_), Ok(_)) => r == acc,
            (Err(xs), Err(x)) => r is Err && r->Err_0@ == xs@.push(x),
            (Ok(_), Err(x)) => r is Err && r->Err_0@ == seq![x],
        }, @*/ {
            match (acc, cur) {
                (Ok(i), Ok(j)) => Ok(i + j),
                (xs, Ok(_)) => xs,
                (Err(mut xs), Err(x)) => {
                    xs.push(x);
                    Err(xs)
                },
                (Ok(_), Err(x)) => Err(vec![x])
            }
        }
//@end
//@item src/waiter.rs :: impl Waiter > fn start > fn err_as_vec_err
        fn err_as_vec_err(e: WaiterError) -> /*@ (r: @*/ Vec<WaiterError> /*@ ) ensures r@ == seq![e], @*/ {
            vec![e]
        }
//@end

// ---- what happens when all components run ----
/// who takes part in a run: the components, and for each regulator with watermarks the one who manages it
pub ghost enum Who { C(Node), W(int) }
/// the contract of a component's start can be relied on
pub open spec fn can(c: Comp, spy: Option<Sender<SpyMessage>>, v: WV) -> bool {
    match c {
        Comp::F(x) => !x.started,
        Comp::L(x) => !x.launched && (x.inp is Some ==> x.inp->0.wf()),
        Comp::J(x) => !x.running && x.groups.len() == 0 && ins_ok(x.ins) && outs_ok(x.outs),
        Comp::B(x) => (x.inp is Some ==> x.inp->0.wf() && x.inp->0.jn() is Some && (x.inp->0 is Receiver ==> v.chans.contains(x.inp->0->Receiver_1.key())))
            && (x.out is Some && x.out->0.is_chan() ==> v.chans.contains(x.out->0.key()->0)),
        Comp::D(x) => spy is None && (x.inp is Some ==> x.inp->0.wf()) && x.loc is Some,
        Comp::R(x) => !x.started && (x.inp is Some ==> x.inp->0.wf()),
    }
}
/// what a component's start says of its result
pub closed spec fn ran_as(c: Comp, spy: Option<Sender<SpyMessage>>, v0: WV, r: MotionResult<usize>, v1: WV) -> bool {
    match c {
        Comp::F(x) => match (x.pj, x.loc) {
            (Some(j), Some(f)) => {
                ||| r is Err && r->Err_0 is OpenIOError && r->Err_0->OpenIOError_0 == j && f@ != "-"@ && steered(x.ctl, v0, v1)
                ||| exists|p: Pull, wx: WV| #[trigger] opened(j, f@, p) && #[trigger] steered(x.ctl, wx, v1) && ran_pump(Some(p), x.out, spy, x.ctl, v0, r, wx)
            },
            _ => exists|wx: WV| #[trigger] steered(x.ctl, wx, v1) && ran_pump(Some(Pull::None), x.out, spy, x.ctl, v0, r, wx),
        },
        Comp::L(x) => r is Err && r->Err_0 is LaunchSpawnError && v1 == v0 || launched(x, spy, v0, r, v1),
        Comp::J(x) => match r {
            Ok(count) => exists|rd: Seq<Rd>, o: Seq<Push>| #[trigger] did(x.outs, spy, v0, rd, o, v1) && count == rd.len() && closed_all(o, v1)
                && forall|i: int| 0 <= i < x.ins.len() ==> over(x.outs, v0, rd, pkey((#[trigger] x.ins[i]).0), o, v1),
            Err(e) => exists|rd: Seq<Rd>, d: IODataWrapper| #[trigger] broke(x.outs, v0, rd, d, e, v1),
        },
        Comp::B(x) => match r {
            Ok(n) => x.inp is Some && x.out is Some && exists|ra: Seq<IODataWrapper>, rb: Seq<IODataWrapper>, pull1: Pull, push1: Push, wm: WV| #[trigger] outcome(ra, rb, pull1, push1, wm)
                && buffered(x.inp->0, x.out->0, spy, x.mon, n as int, ra, rb, pull1, push1, v0, wm, v1),
            Err(_) => true,
        },
        Comp::D(x) => match x.inp {
            None => r is Err && r->Err_0 is NoneError && v1 == v0,
            Some(pull) => match pull.jn() {
                None => drained(pull, Push::None, v0, r, v1),
                Some(j) => {
                    ||| r is Err && r->Err_0 is OpenIOError && r->Err_0->OpenIOError_0 == j && v1 == v0
                    ||| exists|push: Push| #[trigger] directed(j, x.loc->0@, push) && drained(pull, push, v0, r, v1)
                },
            },
        },
        Comp::R(x) => exists|wx: WV| #[trigger] steered(x.ctl, wx, v1) && ran_pump(x.inp, x.out, spy, x.ctl, v0, r, wx),
    }
}
/// the result of a component behind what the waiter makes of it
pub open spec fn inner(r: Result<usize, WaiterError>) -> MotionResult<usize> { match r { Ok(n) => Ok(n), Err(e) => Err(e->CausedByError_2) } }
pub open spec fn spy_of(ct: ComponentType, spy: Option<Sender<SpyMessage>>) -> Option<Sender<SpyMessage>> { if ct is Drain { None } else { spy } }
/// one answer: what the component came to, an error with its type and name; managing a regulator does not fail
pub closed spec fn told(w: Waiter, caps: Seq<RegulatorSettingsCapture>, spy: Option<Sender<SpyMessage>>, v: WV, who: Who, r: Result<usize, WaiterError>) -> bool {
    match who {
        Who::C(n) => {
            &&& comp(w, n) is Some && (r is Err ==> r->Err_0 is CausedByError && r->Err_0->CausedByError_0 == n.ct && r->Err_0->CausedByError_1@ == n.name)
            &&& exists|v1: WV| #[trigger] ran_as(comp(w, n)->0, spy_of(n.ct, spy), v, inner(r), v1)
        },
        Who::W(a) => 0 <= a < caps.len() && r is Ok && exists|ts: Seq<Turn>, t: Turn, v1: WV| #[trigger] watermarked(caps[a].regulator_component.key(), caps[a].low_watermark as int, caps[a].high_watermark as int, watch(caps[a].buffer_size_monitors@), v, ts, t, r->Ok_0 as int, v1),
    }
}
pub open spec fn kid(who: Who) -> int {
    match who { Who::C(n) => match n.ct { ComponentType::Faucet => 0, ComponentType::Launch => 1, ComponentType::Junction => 2, ComponentType::Buffer => 3, ComponentType::Drain => 4, ComponentType::Regulator => 5 }, Who::W(_) => 6int }
}
pub open spec fn there(w: Waiter, caps: Seq<RegulatorSettingsCapture>, who: Who) -> bool { match who { Who::C(n) => comp(w, n) is Some, Who::W(a) => 0 <= a < caps.len() } }
/// the answers res are those of the participants of, who are all of the kinds ks, each once
pub closed spec fn part(w: Waiter, caps: Seq<RegulatorSettingsCapture>, spy: Option<Sender<SpyMessage>>, v: WV, ks: Set<int>, of: Seq<Who>, res: Seq<Result<usize, WaiterError>>) -> bool {
    &&& of.len() == res.len()
    &&& forall|i: int| 0 <= i < of.len() ==> told(w, caps, spy, v, #[trigger] of[i], res[i])
    &&& forall|x: Who| #[trigger] of.contains(x) <==> ks.contains(kid(x)) && there(w, caps, x)
    &&& forall|i: int, j: int| 0 <= i < j < of.len() ==> #[trigger] of[i] != #[trigger] of[j]
}
/// the run of a waiter: w1 is the waiter with its regulators tuned; everyone took part exactly once
pub open spec fn settled(w0: Waiter, w1: Waiter, v0: WV, v1: WV, caps: Seq<RegulatorSettingsCapture>, spy: Option<Sender<SpyMessage>>, of: Seq<Who>, res: Seq<Result<usize, WaiterError>>) -> bool {
    &&& all_captured(caps, w0, w1) && apart(caps, v1) && quiet(v0, v1)
    &&& of.len() == res.len()
    &&& forall|i: int| 0 <= i < of.len() ==> told(w1, caps, spy, v1, #[trigger] of[i], res[i])
    &&& forall|x: Who| #[trigger] of.contains(x) <==> there(w1, caps, x)
    &&& forall|i: int, j: int| 0 <= i < j < of.len() ==> #[trigger] of[i] != #[trigger] of[j]
}
pub open spec fn total_of(res: Seq<Result<usize, WaiterError>>) -> int decreases res.len() { if res.len() == 0 { 0 } else { total_of(res.drop_last()) + match res.last() { Ok(n) => n as int, Err(_) => 0 } } }
pub open spec fn errors_of(res: Seq<Result<usize, WaiterError>>) -> Seq<WaiterError> decreases res.len() { if res.len() == 0 { Seq::empty() } else { match res.last() { Ok(_) => errors_of(res.drop_last()), Err(e) => errors_of(res.drop_last()).push(e) } } }
pub open spec fn later(a: WaiterError, b: WaiterError, t: Instant) -> bool {
    match (a.when(), b.when()) { (None, _) => false, (Some(_), None) => true, (Some(x), Some(y)) => since(x, t) > since(y, t) }
}
/// the errors, in the order they happened (those without a time first), those of the same time in their order
pub closed spec fn in_time(errs: Seq<WaiterError>, r: Seq<WaiterError>, t: Instant) -> bool {
    exists|p: Seq<int>| #[trigger] rearranged(errs, r, p) && forall|i: int, j: int| 0 <= i < j < r.len() ==> !later(#[trigger] r[i], #[trigger] r[j], t) && (p[i] > p[j] ==> later(r[j], r[i], t))
}
/// a run's result: the sum of the counts if all went well, else every error once, in time
pub open spec fn summed(res: Seq<Result<usize, WaiterError>>, r: Result<usize, Vec<WaiterError>>) -> bool {
    match r {
        Ok(n) => errors_of(res).len() == 0 && n == total_of(res),
        Err(v) => errors_of(res).len() > 0 && exists|t: Instant| #[trigger] in_time(errors_of(res), v@, t),
    }
}
/// ASSUMED: the messages of a whole run can be counted
pub axiom fn axiom_total(w0: Waiter, w1: Waiter, v0: WV, v1: WV, caps: Seq<RegulatorSettingsCapture>, spy: Option<Sender<SpyMessage>>, of: Seq<Who>, res: Seq<Result<usize, WaiterError>>)
    requires settled(w0, w1, v0, v1, caps, spy, of, res)
    ensures total_of(res) <= usize::MAX;
/// everything is ready to start
pub closed spec fn startable(w: Waiter, spy: Option<Sender<SpyMessage>>, v: WV) -> bool { forall|n: Node| (#[trigger] comp(w, n)) is Some ==> can(comp(w, n)->0, spy_of(n.ct, spy), v) }
proof fn lemma_startable(w0: Waiter, w1: Waiter, spy: Option<Sender<SpyMessage>>, v0: WV, v1: WV)
    requires startable(w0, spy, v0), only_tuned(w0, w1), quiet(v0, v1)
    ensures startable(w1, spy, v1)
{
    assert forall|n: Node| (#[trigger] comp(w1, n)) is Some implies can(comp(w1, n)->0, spy_of(n.ct, spy), v1) by { assert(same_core(comp(w0, n), comp(w1, n))); assert(comp(w0, n) is Some); }
}
proof fn lemma_caps(caps: Seq<RegulatorSettingsCapture>, w0: Waiter, w1: Waiter, v: WV, a: int)
    requires all_captured(caps, w0, w1), apart(caps, v), 0 <= a < caps.len()
    ensures !caps[a].regulator_component.is_paused(), distinct(watch(caps[a].buffer_size_monitors@)), current(watch(caps[a].buffer_size_monitors@), v)
{
    let ks = choose|ks: Seq<Seq<char>>| #[trigger] entries::<String, FaucetSettings>(ks, w0.regulator_settings.m()) && ks.len() == caps.len() && capturing(w0, w1, caps, ks);
    assert(captured(caps[a], ks[a], w0, w1)); assert(distinct(monitors(caps[a])));
}
proof fn lemma_only_tuned(caps: Seq<RegulatorSettingsCapture>, w0: Waiter, w1: Waiter) requires all_captured(caps, w0, w1) ensures only_tuned(w0, w1) {}
proof fn lemma_add(w: Waiter, caps: Seq<RegulatorSettingsCapture>, spy: Option<Sender<SpyMessage>>, v: WV, ka: Set<int>, a: Seq<Who>, ra: Seq<Result<usize, WaiterError>>, kb: Set<int>, b: Seq<Who>, rb: Seq<Result<usize, WaiterError>>)
    requires part(w, caps, spy, v, ka, a, ra), part(w, caps, spy, v, kb, b, rb), forall|k: int| !(ka.contains(k) && kb.contains(k))
    ensures part(w, caps, spy, v, ka.union(kb), a + b, ra + rb)
{
    let c = a + b;
    assert forall|x: Who| #[trigger] c.contains(x) <==> ka.union(kb).contains(kid(x)) && there(w, caps, x) by {
        assert(c.contains(x) <==> a.contains(x) || b.contains(x)) by {
            if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(c[i] == x); }
            if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert(c[a.len() + i] == x); }
            if c.contains(x) { let i = choose|i: int| 0 <= i < c.len() && c[i] == x; if i < a.len() { assert(a[i] == x); } else { assert(b[i - a.len()] == x); } }
        }
    }
    assert forall|i: int, j: int| 0 <= i < j < c.len() implies #[trigger] c[i] != #[trigger] c[j] by {
        if j >= a.len() && i < a.len() { assert(a.contains(a[i]) && b.contains(b[j - a.len()])); }
    }
}
proof fn lemma_settled(w0: Waiter, w1: Waiter, v0: WV, v1: WV, caps: Seq<RegulatorSettingsCapture>, spy: Option<Sender<SpyMessage>>, ks: Set<int>, of: Seq<Who>, res: Seq<Result<usize, WaiterError>>)
    requires part(w1, caps, spy, v1, ks, of, res), all_captured(caps, w0, w1), apart(caps, v1), quiet(v0, v1), forall|k: int| 0 <= k < 7 ==> ks.contains(k)
    ensures settled(w0, w1, v0, v1, caps, spy, of, res), total_of(res) <= usize::MAX
{
    axiom_total(w0, w1, v0, v1, caps, spy, of, res);
}
proof fn lemma_total(res: Seq<Result<usize, WaiterError>>, i: int)
    requires 0 <= i <= res.len()
    ensures 0 <= total_of(res.take(i)) <= total_of(res)
    decreases res.len()
{
    if i < res.len() { lemma_total(res.drop_last(), i); assert(res.drop_last().take(i) =~= res.take(i)); }
    else { assert(res.take(i) =~= res); if res.len() > 0 { lemma_total(res.drop_last(), i - 1); } }
    if res.len() > 0 && i < res.len() { lemma_total(res.drop_last(), res.len() - 1); }
}
proof fn lemma_fold(res: Seq<Result<usize, WaiterError>>, i: int)
    requires 0 <= i < res.len()
    ensures total_of(res.take(i + 1)) == total_of(res.take(i)) + (match res[i] { Ok(n) => n as int, Err(_) => 0 }),
        errors_of(res.take(i + 1)) == (match res[i] { Ok(_) => errors_of(res.take(i)), Err(e) => errors_of(res.take(i)).push(e) }),
        errors_of(res.take(i)).len() == 0 && res[i] is Err ==> errors_of(res.take(i + 1)) == seq![res[i]->Err_0]
{
    assert(res.take(i + 1).drop_last() =~= res.take(i)); assert(res.take(i + 1).last() == res[i]); if errors_of(res.take(i)).len() == 0 && res[i] is Err { assert(errors_of(res.take(i + 1)) =~= seq![res[i]->Err_0]); }
}
pub open spec fn folded(res: Seq<Result<usize, WaiterError>>, acc: Result<usize, Vec<WaiterError>>) -> bool {
    match acc { Ok(n) => errors_of(res).len() == 0 && n == total_of(res), Err(v) => errors_of(res).len() > 0 && v@ == errors_of(res) }
}
/// the components of a type, by their names in some order
pub open spec fn all_of<V>(ct: ComponentType, ks: Seq<Seq<char>>, m: Map<Seq<char>, V>) -> Seq<Who> { ks.map_values(|k: Seq<char>| Who::C(Node { ct, name: k })) }
pub open spec fn names_in<V>(s: Seq<(&String, &mut V)>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i].0@) }
pub open spec fn nodes(ct: ComponentType, ks: Seq<Seq<char>>) -> Seq<Who> { ks.map_values(|k: Seq<char>| Who::C(Node { ct, name: k })) }
/// the answers so far of the components of a type
pub open spec fn answered(w: Waiter, caps: Seq<RegulatorSettingsCapture>, spy: Option<Sender<SpyMessage>>, v: WV, of: Seq<Who>, res: Seq<Result<usize, WaiterError>>) -> bool {
    res.len() <= of.len() && forall|i: int| 0 <= i < res.len() ==> told(w, caps, spy, v, #[trigger] of[i], res[i])
}
/// ks are the names of the components of the type
pub closed spec fn named_all(w: Waiter, ct: ComponentType, ks: Seq<Seq<char>>) -> bool {
    (forall|k: Seq<char>| #[trigger] ks.contains(k) <==> comp(w, Node { ct, name: k }) is Some) && ks.no_duplicates()
}
proof fn lemma_part(w: Waiter, caps: Seq<RegulatorSettingsCapture>, spy: Option<Sender<SpyMessage>>, v: WV, ct: ComponentType, ks: Seq<Seq<char>>, res: Seq<Result<usize, WaiterError>>)
    requires named_all(w, ct, ks), answered(w, caps, spy, v, nodes(ct, ks), res), res.len() == ks.len()
    ensures part(w, caps, spy, v, set![kid(Who::C(Node { ct, name: Seq::empty() }))], nodes(ct, ks), res)
{
    let of = nodes(ct, ks); let s = set![kid(Who::C(Node { ct, name: Seq::empty() }))];
    assert forall|x: Who| #[trigger] of.contains(x) <==> s.contains(kid(x)) && there(w, caps, x) by {
        if of.contains(x) { let i = choose|i: int| 0 <= i < of.len() && of[i] == x; assert(ks.contains(ks[i])); }
        if s.contains(kid(x)) && there(w, caps, x) { let n = x->C_0; assert(n == Node { ct, name: n.name }); assert(ks.contains(n.name)); let i = choose|i: int| 0 <= i < ks.len() && ks[i] == n.name; assert(of[i] == x); }
    }
}
pub open spec fn managers(n: int) -> Seq<Who> { Seq::new(n as nat, |i: int| Who::W(i)) }
proof fn lemma_managers(w: Waiter, caps: Seq<RegulatorSettingsCapture>, spy: Option<Sender<SpyMessage>>, v: WV, res: Seq<Result<usize, WaiterError>>)
    requires answered(w, caps, spy, v, managers(caps.len() as int), res), res.len() == caps.len()
    ensures part(w, caps, spy, v, set![6int], managers(caps.len() as int), res)
{
    let of = managers(caps.len() as int);
    assert forall|x: Who| #[trigger] of.contains(x) <==> set![6int].contains(kid(x)) && there(w, caps, x) by {
        if set![6int].contains(kid(x)) && there(w, caps, x) { assert(of[x->W_0] == x); }
    }
}
proof fn lemma_sorted(v: Seq<WaiterError>, r: Seq<WaiterError>, f: spec_fn(WaiterError, Option<Duration>) -> bool, t: Instant)
    requires by_key(v, r, f), forall|e: WaiterError, k: Option<Duration>| #[trigger] f(e, k) ==> (match e.when() { None => k is None, Some(i) => k is Some && nanos(k->0) == since(i, t) })
    ensures in_time(v, r, t)
{
    let p = choose|p: Seq<int>| #[trigger] rearranged(v, r, p) && forall|i: int, j: int| 0 <= i < j < r.len() ==> key_ok(f, #[trigger] r[i], #[trigger] r[j], p[i] > p[j]);
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies !later(#[trigger] r[i], #[trigger] r[j], t) && (p[i] > p[j] ==> later(r[j], r[i], t)) by {
        assert(key_ok(f, r[i], r[j], p[i] > p[j]));
        let (k, l) = choose|k: Option<Duration>, l: Option<Duration>| #[trigger] f(r[i], k) && #[trigger] f(r[j], l) && key_le(k, l) && (p[i] > p[j] ==> !key_le(l, k));
        axiom_key_le(k, l); axiom_key_le(l, k);
    }
}
/// the names the waiter gives out
pub closed spec fn names_of(w: Waiter) -> Option<HashMap<usize, (ComponentType, String)>> { w.component_type_name_to_id_reverse }
proof fn lemma_faucet(w: Waiter, ks: Seq<Seq<char>>)
    requires entries::<String, Faucet>(ks, w.faucet.m())
    ensures named_all(w, ComponentType::Faucet, ks), forall|i: int| 0 <= i < ks.len() ==> { let m = w.faucet.m(); let k = #[trigger] ks[i]; comp(w, Node { ct: ComponentType::Faucet, name: k }) == Some(Comp::F(m[k].v())) }
{
    assert forall|k: Seq<char>| #[trigger] ks.contains(k) <==> comp(w, Node { ct: ComponentType::Faucet, name: k }) is Some by {}
    assert forall|i: int| 0 <= i < ks.len() implies { let m = w.faucet.m(); let k = #[trigger] ks[i]; comp(w, Node { ct: ComponentType::Faucet, name: k }) == Some(Comp::F(m[k].v())) } by { assert(ks.contains(ks[i])); }
}
proof fn lemma_launch(w: Waiter, ks: Seq<Seq<char>>)
    requires entries::<String, LaunchString>(ks, w.launch.m())
    ensures named_all(w, ComponentType::Launch, ks), forall|i: int| 0 <= i < ks.len() ==> { let m = w.launch.m(); let k = #[trigger] ks[i]; comp(w, Node { ct: ComponentType::Launch, name: k }) == Some(Comp::L(m[k].v())) }
{
    assert forall|k: Seq<char>| #[trigger] ks.contains(k) <==> comp(w, Node { ct: ComponentType::Launch, name: k }) is Some by {}
    assert forall|i: int| 0 <= i < ks.len() implies { let m = w.launch.m(); let k = #[trigger] ks[i]; comp(w, Node { ct: ComponentType::Launch, name: k }) == Some(Comp::L(m[k].v())) } by { assert(ks.contains(ks[i])); }
}
proof fn lemma_junction(w: Waiter, ks: Seq<Seq<char>>)
    requires entries::<String, Junction>(ks, w.junction.m())
    ensures named_all(w, ComponentType::Junction, ks), forall|i: int| 0 <= i < ks.len() ==> { let m = w.junction.m(); let k = #[trigger] ks[i]; comp(w, Node { ct: ComponentType::Junction, name: k }) == Some(Comp::J(jv(m[k]))) }
{
    assert forall|k: Seq<char>| #[trigger] ks.contains(k) <==> comp(w, Node { ct: ComponentType::Junction, name: k }) is Some by {}
    assert forall|i: int| 0 <= i < ks.len() implies { let m = w.junction.m(); let k = #[trigger] ks[i]; comp(w, Node { ct: ComponentType::Junction, name: k }) == Some(Comp::J(jv(m[k]))) } by { assert(ks.contains(ks[i])); }
}
proof fn lemma_buffer(w: Waiter, ks: Seq<Seq<char>>)
    requires entries::<String, Buffer>(ks, w.buffer.m())
    ensures named_all(w, ComponentType::Buffer, ks), forall|i: int| 0 <= i < ks.len() ==> { let m = w.buffer.m(); let k = #[trigger] ks[i]; comp(w, Node { ct: ComponentType::Buffer, name: k }) == Some(Comp::B(m[k].v())) }
{
    assert forall|k: Seq<char>| #[trigger] ks.contains(k) <==> comp(w, Node { ct: ComponentType::Buffer, name: k }) is Some by {}
    assert forall|i: int| 0 <= i < ks.len() implies { let m = w.buffer.m(); let k = #[trigger] ks[i]; comp(w, Node { ct: ComponentType::Buffer, name: k }) == Some(Comp::B(m[k].v())) } by { assert(ks.contains(ks[i])); }
}
proof fn lemma_drain(w: Waiter, ks: Seq<Seq<char>>)
    requires entries::<String, Drain>(ks, w.drain.m())
    ensures named_all(w, ComponentType::Drain, ks), forall|i: int| 0 <= i < ks.len() ==> { let m = w.drain.m(); let k = #[trigger] ks[i]; comp(w, Node { ct: ComponentType::Drain, name: k }) == Some(Comp::D(m[k].v())) }
{
    assert forall|k: Seq<char>| #[trigger] ks.contains(k) <==> comp(w, Node { ct: ComponentType::Drain, name: k }) is Some by {}
    assert forall|i: int| 0 <= i < ks.len() implies { let m = w.drain.m(); let k = #[trigger] ks[i]; comp(w, Node { ct: ComponentType::Drain, name: k }) == Some(Comp::D(m[k].v())) } by { assert(ks.contains(ks[i])); }
}
proof fn lemma_regulator(w: Waiter, ks: Seq<Seq<char>>)
    requires entries::<String, Regulator>(ks, w.regulator.m())
    ensures named_all(w, ComponentType::Regulator, ks), forall|i: int| 0 <= i < ks.len() ==> { let m = w.regulator.m(); let k = #[trigger] ks[i]; comp(w, Node { ct: ComponentType::Regulator, name: k }) == Some(Comp::R(m[k].v())) }
{
    assert forall|k: Seq<char>| #[trigger] ks.contains(k) <==> comp(w, Node { ct: ComponentType::Regulator, name: k }) is Some by {}
    assert forall|i: int| 0 <= i < ks.len() implies { let m = w.regulator.m(); let k = #[trigger] ks[i]; comp(w, Node { ct: ComponentType::Regulator, name: k }) == Some(Comp::R(m[k].v())) } by { assert(ks.contains(ks[i])); }
}
//@item src/waiter.rs :: impl Waiter > fn get_id_to_component_type_name
    pub fn get_id_to_component_type_name(&mut self) -> /*@ (r: @*/ Option<HashMap<usize, (ComponentType, String)>> /*@ ) ensures r == names_of(*old(self)) @*/ {
        std::mem::take(&mut self.component_type_name_to_id_reverse)
    }
//@end
//@item src/waiter.rs :: impl Waiter > fn start [eff, seq, nofn, inline=start+start_launch, m+start]
    pub async fn start(&mut self, spy: Option<Sender<SpyMessage>>) -> /*@ (r: @*/ Result<usize, Vec<WaiterError>> /*@ )
        requires tunable(*old(self)), all_sized(*old(self)), startable(*old(self), spy, old(w).v()),
        ensures exists|w1: Waiter, v1: WV, caps: Seq<RegulatorSettingsCapture>, of: Seq<Who>, res: Seq<Result<usize, WaiterError>>| #[trigger] settled(*old(self), w1, old(w).v(), v1, caps, spy, of, res) && summed(res, r), @*/ {
        /*@ hide(ran_pump); hide(steered); hide(opened); hide(launched); hide(did); hide(over); hide(broke); hide(closed_all); hide(buffered); hide(drained); hide(directed); hide(ins_ok); hide(outs_ok); hide(watermarked); hide(part); hide(settled); hide(all_captured); hide(apart); hide(comp); hide(only_tuned); hide(named_all); hide(in_time); hide(tunable); hide(quiet); @*/
        /*@ let ghost w0 = *self; let ghost v0 = w.v(); let ghost sp = spy; let ghost mut w1 = w0; let ghost mut v1 = v0; let ghost mut caps: Seq<RegulatorSettingsCapture> = Seq::empty(); let ghost mut kl: Seq<Seq<char>> = Seq::empty(); let ghost mut kr = kl; let ghost mut kf = kl; let ghost mut kd = kl; let ghost mut kb = kl; let ghost mut kj = kl; @*/
        use futures::future::join_all;
        let start_instant = Instant::now();
        fn folder(acc: Result<usize, Vec<WaiterError>>, cur: Result<usize, WaiterError>) -> Result<usize, Vec<WaiterError>> {
            match (acc, cur) {
                (Ok(i), Ok(j)) => Ok(i + j),
                (xs, Ok(_)) => xs,
                (Err(mut xs), Err(x)) => {
                    xs.push(x);
                    Err(xs)
                },
                (Ok(_), Err(x)) => Err(vec![x])
            }
        }
        async fn start(component_type: ComponentType, name: &str, cntrl: &mut dyn StartableControl, spy: Option<Sender<SpyMessage>>) -> Result<usize, WaiterError> {
            match cntrl.start(spy).await {
                Err(e) => Err(WaiterError::CausedByError(component_type, name.to_string(), e)),
                Ok(x) => Ok(x),
            }
        }
        async fn start_launch(name: &str, cntrl: &mut LaunchString, spy: Option<Sender<SpyMessage>>) -> Result<usize, WaiterError> {
            match cntrl.start(spy).await {
                Err(e) => Err(WaiterError::CausedByError(ComponentType::Launch, name.to_string(), e)),
                Ok(x) => Ok(x),
            }
        }
        fn err_as_vec_err(e: WaiterError) -> Vec<WaiterError> {
            vec![e]
        }
        let managed_regulators = join_all(self.regulator_settings().map_err(err_as_vec_err)?.into_iter() /*@ proof { w1 = *self; v1 = w.v(); caps = jag0__; lemma_only_tuned(caps, w0, w1); lemma_startable(w0, w1, sp, v0, v1); } @*/ .map(/*@ invariant jit0__.seq() == jag0__, ja0__@.len() == jit0__.index(), jag0__ == caps, answered(w1, caps, sp, v1, managers(caps.len() as int), ja0__@), @*/
            /*@ let ghost i = jit0__.index() as int; proof { lemma_caps(caps, w0, w1, v1, i); assert(x0__ == caps[i]); } let tracked mut wt = fork(w); let tracked w = &mut wt; @*/ manage_regulator_from_buffers /*@ proof {
                let (ts, t) = choose|ts: Seq<Turn>, t: Turn| #[trigger] managed(ts, t) && watermarked(caps[i].regulator_component.key(), caps[i].low_watermark as int, caps[i].high_watermark as int, watch(caps[i].buffer_size_monitors@), v1, ts, t, jr0__->Ok_0 as int, w.v());
                assert(told(w1, caps, sp, v1, managers(caps.len() as int)[i], jr0__));
            } @*/) /*@ proof { lemma_managers(w1, caps, sp, v1, ja0__@); } @*/ );
        let faucets = join_all(self.faucet.iter_mut().map(|(n, f)| /*@ invariant jit1__.seq() == jag1__, ja1__@.len() == jit1__.index(), forall|i: int| 0 <= i < jag1__.len() ==> { let k = (#[trigger] jag1__[i]).0@; *jag1__[i].1 == w1.faucet.m()[k] }, entries::<String, Faucet>(names_in(jag1__), w1.faucet.m()),
                answered(w1, caps, sp, v1, nodes(ComponentType::Faucet, names_in(jag1__)), ja1__@), @*/
            /*@ let ghost ks = names_in(jag1__); let ghost i = jit1__.index() as int; let ghost nd = Node { ct: ComponentType::Faucet, name: ks[i] }; let ghost a0 = ja1__@;
                proof { lemma_faucet(w1, ks); assert(jag1__[i].0@ == ks[i]); assert(comp(w1, nd) is Some); }
                let tracked mut wt = fork(w); let tracked w = &mut wt; @*/ start(ComponentType::Faucet, n, f, spy.clone()) /*@ proof {
                assert(ran_as(comp(w1, nd)->0, spy_of(nd.ct, sp), v1, inner(jr1__), w.v()));
                assert(told(w1, caps, sp, v1, nodes(ComponentType::Faucet, ks)[i], jr1__));
            } @*/) /*@ proof { kf = names_in(jag1__); lemma_faucet(w1, kf); lemma_part(w1, caps, sp, v1, ComponentType::Faucet, kf, ja1__@); } @*/);
        let launch = join_all(self.launch.iter_mut().map(
            |(n, l)| /*@ invariant jit2__.seq() == jag2__, ja2__@.len() == jit2__.index(), forall|i: int| 0 <= i < jag2__.len() ==> { let k = (#[trigger] jag2__[i]).0@; *jag2__[i].1 == w1.launch.m()[k] }, entries::<String, LaunchString>(names_in(jag2__), w1.launch.m()),
                answered(w1, caps, sp, v1, nodes(ComponentType::Launch, names_in(jag2__)), ja2__@), @*/
            /*@ let ghost ks = names_in(jag2__); let ghost i = jit2__.index() as int; let ghost nd = Node { ct: ComponentType::Launch, name: ks[i] }; let ghost a0 = ja2__@;
                proof { lemma_launch(w1, ks); assert(jag2__[i].0@ == ks[i]); assert(comp(w1, nd) is Some); }
                let tracked mut wt = fork(w); let tracked w = &mut wt; @*/ start_launch(n, l, spy.clone()) /*@ proof {
                assert(ran_as(comp(w1, nd)->0, spy_of(nd.ct, sp), v1, inner(jr2__), w.v()));
                assert(told(w1, caps, sp, v1, nodes(ComponentType::Launch, ks)[i], jr2__));
            } @*/ ) /*@ proof { kl = names_in(jag2__); lemma_launch(w1, kl); lemma_part(w1, caps, sp, v1, ComponentType::Launch, kl, ja2__@); } @*/);
        let junction = join_all(self.junction.iter_mut().map(|(n, j)| /*@ invariant jit3__.seq() == jag3__, ja3__@.len() == jit3__.index(), forall|i: int| 0 <= i < jag3__.len() ==> { let k = (#[trigger] jag3__[i]).0@; *jag3__[i].1 == w1.junction.m()[k] }, entries::<String, Junction>(names_in(jag3__), w1.junction.m()),
                answered(w1, caps, sp, v1, nodes(ComponentType::Junction, names_in(jag3__)), ja3__@), @*/
            /*@ let ghost ks = names_in(jag3__); let ghost i = jit3__.index() as int; let ghost nd = Node { ct: ComponentType::Junction, name: ks[i] }; let ghost a0 = ja3__@;
                proof { lemma_junction(w1, ks); assert(jag3__[i].0@ == ks[i]); assert(comp(w1, nd) is Some); }
                let tracked mut wt = fork(w); let tracked w = &mut wt; @*/ start(ComponentType::Junction, n, j, spy.clone()) /*@ proof {
                assert(ran_as(comp(w1, nd)->0, spy_of(nd.ct, sp), v1, inner(jr3__), w.v()));
                assert(told(w1, caps, sp, v1, nodes(ComponentType::Junction, ks)[i], jr3__));
            } @*/) /*@ proof { kj = names_in(jag3__); lemma_junction(w1, kj); lemma_part(w1, caps, sp, v1, ComponentType::Junction, kj, ja3__@); } @*/);
        let regulators = join_all(self.regulator.iter_mut().map(|(n, j)| /*@ invariant jit4__.seq() == jag4__, ja4__@.len() == jit4__.index(), forall|i: int| 0 <= i < jag4__.len() ==> { let k = (#[trigger] jag4__[i]).0@; *jag4__[i].1 == w1.regulator.m()[k] }, entries::<String, Regulator>(names_in(jag4__), w1.regulator.m()),
                answered(w1, caps, sp, v1, nodes(ComponentType::Regulator, names_in(jag4__)), ja4__@), @*/
            /*@ let ghost ks = names_in(jag4__); let ghost i = jit4__.index() as int; let ghost nd = Node { ct: ComponentType::Regulator, name: ks[i] }; let ghost a0 = ja4__@;
                proof { lemma_regulator(w1, ks); assert(jag4__[i].0@ == ks[i]); assert(comp(w1, nd) is Some); }
                let tracked mut wt = fork(w); let tracked w = &mut wt; @*/ start(ComponentType::Regulator, n, j, spy.clone()) /*@ proof {
                assert(ran_as(comp(w1, nd)->0, spy_of(nd.ct, sp), v1, inner(jr4__), w.v()));
                assert(told(w1, caps, sp, v1, nodes(ComponentType::Regulator, ks)[i], jr4__));
            } @*/) /*@ proof { kr = names_in(jag4__); lemma_regulator(w1, kr); lemma_part(w1, caps, sp, v1, ComponentType::Regulator, kr, ja4__@); } @*/);
        let buffers = join_all(self.buffer.iter_mut().map(|(n, b)| /*@ invariant jit5__.seq() == jag5__, ja5__@.len() == jit5__.index(), forall|i: int| 0 <= i < jag5__.len() ==> { let k = (#[trigger] jag5__[i]).0@; *jag5__[i].1 == w1.buffer.m()[k] }, entries::<String, Buffer>(names_in(jag5__), w1.buffer.m()),
                answered(w1, caps, sp, v1, nodes(ComponentType::Buffer, names_in(jag5__)), ja5__@), @*/
            /*@ let ghost ks = names_in(jag5__); let ghost i = jit5__.index() as int; let ghost nd = Node { ct: ComponentType::Buffer, name: ks[i] }; let ghost a0 = ja5__@;
                proof { lemma_buffer(w1, ks); assert(jag5__[i].0@ == ks[i]); assert(comp(w1, nd) is Some); }
                let tracked mut wt = fork(w); let tracked w = &mut wt; @*/ start(ComponentType::Buffer, n, b, spy.clone()) /*@ proof {
                assert(ran_as(comp(w1, nd)->0, spy_of(nd.ct, sp), v1, inner(jr5__), w.v()));
                assert(told(w1, caps, sp, v1, nodes(ComponentType::Buffer, ks)[i], jr5__));
            } @*/) /*@ proof { kb = names_in(jag5__); lemma_buffer(w1, kb); lemma_part(w1, caps, sp, v1, ComponentType::Buffer, kb, ja5__@); } @*/);
        let drain = join_all(self.drain.iter_mut().map(|(n, d)| /*@ invariant jit6__.seq() == jag6__, ja6__@.len() == jit6__.index(), forall|i: int| 0 <= i < jag6__.len() ==> { let k = (#[trigger] jag6__[i]).0@; *jag6__[i].1 == w1.drain.m()[k] }, entries::<String, Drain>(names_in(jag6__), w1.drain.m()),
                answered(w1, caps, sp, v1, nodes(ComponentType::Drain, names_in(jag6__)), ja6__@), @*/
            /*@ let ghost ks = names_in(jag6__); let ghost i = jit6__.index() as int; let ghost nd = Node { ct: ComponentType::Drain, name: ks[i] }; let ghost a0 = ja6__@;
                proof { lemma_drain(w1, ks); assert(jag6__[i].0@ == ks[i]); assert(comp(w1, nd) is Some); }
                let tracked mut wt = fork(w); let tracked w = &mut wt; @*/ start(ComponentType::Drain, n, d, None) /*@ proof {
                assert(ran_as(comp(w1, nd)->0, spy_of(nd.ct, sp), v1, inner(jr6__), w.v()));
                assert(told(w1, caps, sp, v1, nodes(ComponentType::Drain, ks)[i], jr6__));
            } @*/) /*@ proof { kd = names_in(jag6__); lemma_drain(w1, kd); lemma_part(w1, caps, sp, v1, ComponentType::Drain, kd, ja6__@); } @*/);
        let (mut l, (mut r, (mut f, (mut m, (mut d, (mut b, mut j)))))) = launch.join(regulators.join(faucets.join(managed_regulators.join(drain.join(buffers.join(junction)))))).await;
        /*@ let ghost (la, ra, fa, ma, da, ba, ja) = (l@, r@, f@, m@, d@, b@, j@);
            let ghost (wl, wr, wf, wm, wd, wb, wj) = (nodes(ComponentType::Launch, kl), nodes(ComponentType::Regulator, kr), nodes(ComponentType::Faucet, kf), managers(caps.len() as int), nodes(ComponentType::Drain, kd), nodes(ComponentType::Buffer, kb), nodes(ComponentType::Junction, kj));
            let ghost of = wl + wf + wr + wm + wd + wb + wj; let ghost all = la + fa + ra + ma + da + ba + ja;
            proof {
                lemma_add(w1, caps, sp, v1, set![1int], wl, la, set![0int], wf, fa);
                let s = set![1int].union(set![0int]); lemma_add(w1, caps, sp, v1, s, wl + wf, la + fa, set![5int], wr, ra);
                let s = s.union(set![5int]); lemma_add(w1, caps, sp, v1, s, wl + wf + wr, la + fa + ra, set![6int], wm, ma);
                let s = s.union(set![6int]); lemma_add(w1, caps, sp, v1, s, wl + wf + wr + wm, la + fa + ra + ma, set![4int], wd, da);
                let s = s.union(set![4int]); lemma_add(w1, caps, sp, v1, s, wl + wf + wr + wm + wd, la + fa + ra + ma + da, set![3int], wb, ba);
                let s = s.union(set![3int]); lemma_add(w1, caps, sp, v1, s, wl + wf + wr + wm + wd + wb, la + fa + ra + ma + da + ba, set![2int], wj, ja);
                let s = s.union(set![2int]);
                lemma_settled(w0, w1, v0, v1, caps, sp, s, of, all);
            } @*/
        l.append(&mut f);
        l.append(&mut r);
        l.append(&mut m);
        l.append(&mut d);
        l.append(&mut b);
        l.append(&mut j);
        /*@ proof { assert(l@ =~= all); } @*/
        /*! { let ends = !*/ l.into_iter().fold(Ok(0) /*@ proof { assert(all.take(0) =~= Seq::empty()); } @*/, /*@ invariant it0__.seq() == all, folded(all.take(it0__.index() as int), acc0__), total_of(all) <= usize::MAX, @*/
            /*@ let ghost i = it0__.index() as int; proof { lemma_fold(all, i); lemma_total(all, i + 1); } @*/ folder)
            .map_err(|mut v| {
                /*@ proof { assert(all.take(all.len() as int) =~= all); } let ghost ve = v@; @*/
                /*@ let ghost mut gf: spec_fn(WaiterError, Option<Duration>) -> bool = |a: WaiterError, k: Option<Duration>| true; @*/
                v.sort_by_key(/*! { let f0 = !*/ |e /*@: &WaiterError @*/| /*@ -> (o: Option<Duration>) ensures match e.when() { None => o is None, Some(i) => o is Some && nanos(o->0) == since(i, start_instant) } { @*/ e.instant().map(|i /*@: &Instant @*/| /*@ -> (o: Duration) ensures nanos(o) == since(*i, start_instant) { @*/ i.duration_since(start_instant) /*@ } @*/) /*@ } @*/ /*! ; !*/ /*@ proof { gf = keyed(f0); } @*/ /*! f0 } !*/);
                /*@ proof { lemma_sorted(ve, v@, gf, start_instant); assert(ve == errors_of(all)); assert(in_time(errors_of(all), v@, start_instant)); } @*/
                v
            }) /*! ; !*/ /*@ proof { assert(all.take(all.len() as int) =~= all); assert(ends is Ok ==> summed(all, ends)); assert(ends is Err ==> errors_of(all).len() > 0); assert(ends is Err ==> in_time(errors_of(all), ends->Err_0@, start_instant)); assert(summed(all, ends)); } @*/ /*! ends } !*/
    }
//@end
// ---- a waiter as it is built is ready to run ----
/// no buffer is named twice by the watermarks of the configuration
pub open spec fn named_in(cfg: Config, n: Seq<char>, j: int, b: Seq<char>) -> bool {
    cfg.regulator.m().contains_key(n) && cfg.regulator.m()[n].buffered is Some && 0 <= j < cfg.regulator.m()[n].monitored_buffers@.len() && cfg.regulator.m()[n].monitored_buffers@[j]@ == b
}
pub open spec fn watched_once(cfg: Config) -> bool { forall|n: Seq<char>, j: int, m: Seq<char>, k: int, b: Seq<char>| #[trigger] named_in(cfg, n, j, b) && #[trigger] named_in(cfg, m, k, b) ==> n == m && j == k }
pub open spec fn keys_apart(ls: Seq<Lk>) -> bool { forall|i: int, j: int| 0 <= i < j < ls.len() ==> (#[trigger] ls[i]).key != (#[trigger] ls[j]).key }
proof fn lemma_ins_of(ls: Seq<Lk>, n: Node)
    requires keys_apart(ls)
    ensures keys_apart(ins_of(ls, n)), forall|i: int| 0 <= i < ins_of(ls, n).len() ==> ls.contains(#[trigger] ins_of(ls, n)[i])
    decreases ls.len()
{
    if ls.len() > 0 {
        let a = ls.drop_last(); lemma_ins_of(a, n); let r = ins_of(a, n); let x = ls.last();
        assert forall|i: int| 0 <= i < r.len() implies ls.contains(#[trigger] r[i]) && r[i].key != x.key by { let q = choose|q: int| 0 <= q < a.len() && a[q] == r[i]; assert(ls[q] == r[i]); assert(ls[ls.len() - 1] == x); }
        assert(ls[ls.len() - 1] == x);
    }
}
proof fn lemma_outs_of(ls: Seq<Lk>, n: Node, s: OutputPort)
    requires keys_apart(ls)
    ensures keys_apart(outs_of(ls, n, s)), forall|i: int| 0 <= i < outs_of(ls, n, s).len() ==> ls.contains(#[trigger] outs_of(ls, n, s)[i])
    decreases ls.len()
{
    if ls.len() > 0 {
        let a = ls.drop_last(); lemma_outs_of(a, n, s); let r = outs_of(a, n, s); let x = ls.last();
        assert forall|i: int| 0 <= i < r.len() implies ls.contains(#[trigger] r[i]) && r[i].key != x.key by { let q = choose|q: int| 0 <= q < a.len() && a[q] == r[i]; assert(ls[q] == r[i]); assert(ls[ls.len() - 1] == x); }
        assert(ls[ls.len() - 1] == x);
    }
}
proof fn lemma_can(cfg: Config, w: Waiter, ns: Seq<Node>, ls: Seq<Lk>, v: WV, spy: Option<Sender<SpyMessage>>, n: Node)
    requires wired(cfg, w, ns, ls, v), comp(w, n) is Some
    ensures can(comp(w, n)->0, spy_of(n.ct, spy), v), sized(comp(w, n)->0), kind(comp(w, n)->0) == n.ct, comp(w, n)->0 is R ==> comp(w, n)->0->R_0.ctl is None, comp(w, n)->0 is B ==> comp(w, n)->0->B_0.mon is None
{
    reveal(Push::key); reveal(Push::kind);
    assert(ns.contains(n)); let i = choose|i: int| 0 <= i < ns.len() && ns[i] == n;
    let c = comp(w, n)->0;
    assert(base(cfg, ns[i], i as usize, comp(w, ns[i])->0) && connected(comp(w, ns[i])->0, ns[i], ls));
    assert(keys_apart(ls)) by { assert forall|i: int, j: int| 0 <= i < j < ls.len() implies (#[trigger] ls[i]).key != (#[trigger] ls[j]).key by {} }
    lemma_ins_of(ls, n); lemma_outs_of(ls, n, OutputPort::Out);
    let li = ins_of(ls, n); let lo = outs_of(ls, n, OutputPort::Out);
    assert(pulls_are(ins(c), li)); assert(pushes_are(outs(c, OutputPort::Out), lo));
    assert forall|a: int| 0 <= a < li.len() implies pull_is(#[trigger] ins(c)[a], li[a]) && v.chans.contains(li[a].key) by { assert(ls.contains(li[a])); let q = choose|q: int| 0 <= q < ls.len() && ls[q] == li[a]; assert(ids_fit(ls[q], ns)); }
    assert forall|a: int| 0 <= a < lo.len() implies push_is(#[trigger] outs(c, OutputPort::Out)[a], lo[a]) && v.chans.contains(lo[a].key) by { assert(ls.contains(lo[a])); let q = choose|q: int| 0 <= q < ls.len() && ls[q] == lo[a]; assert(ids_fit(ls[q], ns)); }
    match c {
        Comp::J(x) => {
            assert forall|a: int, b: int| 0 <= a < x.ins.len() && 0 <= b < x.ins.len() && a != b implies pkey((#[trigger] x.ins[a]).0) != pkey((#[trigger] x.ins[b]).0) by { assert(pull_is(ins(c)[a], li[a]) && pull_is(ins(c)[b], li[b])); if a < b { assert(li[a].key != li[b].key); } else { assert(li[b].key != li[a].key); } }
            assert forall|a: int| 0 <= a < x.ins.len() implies (#[trigger] x.ins[a]).0 is Receiver by { assert(pull_is(ins(c)[a], li[a])); }
            assert forall|a: int| 0 <= a < x.outs.len() implies (#[trigger] x.outs[a]).is_chan() && x.outs[a].key() == Some(lo[a].key) by { assert(push_is(outs(c, OutputPort::Out)[a], lo[a])); }
            assert forall|a: int, b: int| 0 <= a < b < x.outs.len() implies (#[trigger] x.outs[a]).key() != (#[trigger] x.outs[b]).key() by { assert(lo[a].key != lo[b].key); }
        },
        _ => {
            if ins(c).len() > 0 { assert(pull_is(ins(c)[0], li[0])); }
            if outs(c, OutputPort::Out).len() > 0 { assert(push_is(outs(c, OutputPort::Out)[0], lo[0])); }
        },
    }
}
/// C16, C08: what get_waiter builds can be run, and its watermarks managed
pub proof fn theorem_ready(cfg: Config, es: Seq<Connection>, w: Waiter, v: WV, spy: Option<Sender<SpyMessage>>)
    requires is_waiter(cfg, es, w, v), watched_once(cfg)
    ensures startable(w, spy, v), tunable(w), all_sized(w)
{
    let (ns, ls) = choose|ns: Seq<Node>, ls: Seq<Lk>| #[trigger] built(cfg, es, w, ns, ls, v);
    assert forall|n: Node| (#[trigger] comp(w, n)) is Some implies can(comp(w, n)->0, spy_of(n.ct, spy), v) && sized(comp(w, n)->0) by { lemma_can(cfg, w, ns, ls, v, spy, n); }
    assert forall|n: Seq<char>| (#[trigger] tuned(w, n)) is Some implies comp(w, reg(n)) is Some && comp(w, reg(n))->0->R_0.ctl is None by { assert(tuned(w, n) == wanted(cfg, w, n)); lemma_can(cfg, w, ns, ls, v, spy, reg(n)); }
    assert forall|n: Seq<char>, j: int, b: Seq<char>| #[trigger] named_by(w, n, j, b) implies comp(w, buf(b)) is Some && comp(w, buf(b))->0->B_0.mon is None && named_in(cfg, n, j, b) by {
        assert(tuned(w, n) == wanted(cfg, w, n)); let t = tuned(w, n)->0; assert(t.names[j] == b); lemma_can(cfg, w, ns, ls, v, spy, buf(b));
    }
    assert forall|n: Seq<char>, j: int, m: Seq<char>, k: int, b: Seq<char>| #[trigger] named_by(w, n, j, b) && #[trigger] named_by(w, m, k, b) implies n == m && j == k by { assert(named_in(cfg, n, j, b) && named_in(cfg, m, k, b)); }
}
}
}
