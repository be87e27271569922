// The waiter: watermarks.
pub mod config {
use vstd::prelude::*;
use crate::coll::*;
use crate::connectable::*;
verus!{
//@include config_types.rs
}
}
pub mod waiter {
use crate::async_std;
use vstd::prelude::*;
use crate::world::*;
use crate::async_std::channel::{Sender, Receiver, SendError};
use crate::config::*;
use crate::connectable::*;
use crate::motion::*;
use crate::buffer_msgs::BufferSizeMessage;
use crate::regulator::{Regulator, RegulatorControl};
use crate::seqs::VecExt;
verus!{
//@item src/waiter.rs :: struct RegulatorSettingsCapture
struct RegulatorSettingsCapture {
    low_watermark: usize,
    high_watermark: usize,
    regulator_component: RegulatorControl,
    buffer_size_monitors: Vec<Receiver<BufferSizeMessage>>,
}
//@end
//@item src/waiter.rs :: enum WaiterError
pub enum WaiterError {
    CausedByError(ComponentType, String, MotionError),
    SettingsForMissingRegulator(String),
    SettingsRefersMissingBuffer(String, String),
    CouldNotPause,
    CouldNotResume,
}
//@end

/// a buffer that is being watched, and the size it reported last
pub ghost struct Mon { pub k: Key, pub n: int }
/// what a look at a buffer's reports can find
pub ghost enum Reply { Gone, Quiet, Size(int) }
pub open spec fn ask(w: WV, m: Mon, r: Reply) -> WV {
    match r {
        Reply::Gone => w.end(m.k),
        Reply::Quiet => w.empty(m.k),
        Reply::Size(n) => WV { steps: w.steps + 1, ..w.recv(m.k, Payload::Size(n as usize)) },
    }
}
pub open spec fn heard(m: Mon, r: Reply) -> Mon { match r { Reply::Size(n) => Mon { k: m.k, n }, _ => m } }
/// every buffer was asked once, in order
#[verifier::opaque]
pub open spec fn asked(w: WV, ms: Seq<Mon>, rs: Seq<Reply>) -> WV decreases rs.len() {
    if rs.len() == 0 { w } else { ask(asked(w, ms, rs.drop_last()), ms[rs.len() - 1], rs.last()) }
}
/// the buffers that remain, with what they reported last
#[verifier::opaque]
pub open spec fn kept(ms: Seq<Mon>, rs: Seq<Reply>) -> Seq<Mon> decreases rs.len() {
    if rs.len() == 0 { Seq::empty() } else if rs.last() is Gone { kept(ms, rs.drop_last()) } else { kept(ms, rs.drop_last()).push(heard(ms[rs.len() - 1], rs.last())) }
}
#[verifier::opaque]
pub open spec fn total(ms: Seq<Mon>) -> int decreases ms.len() { if ms.len() == 0 { 0 } else { total(ms.drop_last()) + ms.last().n } }
/// number of reports
#[verifier::opaque]
pub open spec fn reports(rs: Seq<Reply>) -> int decreases rs.len() { if rs.len() == 0 { 0 } else { reports(rs.drop_last()) + if rs.last() is Size { 1int } else { 0 } } }
/// the regulator is told something (it may have stopped already)
pub open spec fn told(k: Key, w0: WV, w1: WV) -> bool { w1 == w0.att(k, Att { p: Payload::Unit, r: Res::Accepted }) || w1 == w0.att(k, Att { p: Payload::Unit, r: Res::Closed }) }
/// what the watermarks demand
pub open spec fn stops(open: bool, high: int, t: int) -> bool { open && t >= high }
pub open spec fn goes(open: bool, low: int, high: int, t: int) -> bool { (!open || stops(open, high, t)) && t <= low }
pub open spec fn next(open: bool, low: int, high: int, t: int) -> bool { goes(open, low, high, t) || (open && !stops(open, high, t)) }
/// one look at all buffers, and what follows from it
#[verifier::opaque]
pub open spec fn pass(ctl: Key, low: int, high: int, ms: Seq<Mon>, open: bool, rs: Seq<Reply>, w0: WV, w1: WV) -> bool {
    let t = total(kept(ms, rs));
    rs.len() == ms.len() && exists|wb: WV| #[trigger] mid(wb)
        && (if stops(open, high, t) { told(ctl, asked(w0, ms, rs), wb) } else { wb == asked(w0, ms, rs) })
        && (if goes(open, low, high, t) { told(ctl, wb, w1) } else { w1 == wb })
}
pub open spec fn mid(w: WV) -> bool { true }
pub ghost struct Turn { pub ms: Seq<Mon>, pub open: bool, pub n: int, pub back: nat, pub w: WV, pub rs: Seq<Reply>, pub w1: WV }
/// the state after some turns, each started from the state the one before left; a fruitless one is followed by a wait that grows
#[verifier::opaque]
pub open spec fn governed(ctl: Key, low: int, high: int, ms0: Seq<Mon>, w0: WV, ts: Seq<Turn>, ms: Seq<Mon>, open: bool, n: int, back: nat, w: WV) -> bool decreases ts.len() {
    if ts.len() == 0 { ms == ms0 && open && n == 0 && back == 0 && w == w0 } else {
        let t = ts.last();
        &&& governed(ctl, low, high, ms0, w0, ts.drop_last(), t.ms, t.open, t.n, t.back, t.w)
        &&& pass(ctl, low, high, t.ms, t.open, t.rs, t.w, t.w1)
        &&& ms == kept(t.ms, t.rs) && open == next(t.open, low, high, total(ms)) && n == t.n + reports(t.rs)
        &&& if reports(t.rs) == 0 { w == t.w1.wait(t.back * t.back) && back == crate::back_off::grown(t.back) } else { w == t.w1 && back == 0 }
    }
}
pub open spec fn watch(rs: Seq<Receiver<BufferSizeMessage>>) -> Seq<Mon> { rs.map_values(|r: Receiver<BufferSizeMessage>| Mon { k: r.key(), n: 0 }) }
pub open spec fn managed(ts: Seq<Turn>, t: Turn) -> bool { true }
/// the whole life of a pair of watermarks: it ends when no buffer is left, and leaves the regulator running
pub open spec fn watermarked(ctl: Key, low: int, high: int, ms0: Seq<Mon>, w0: WV, ts: Seq<Turn>, t: Turn, n: int, w1: WV) -> bool {
    &&& governed(ctl, low, high, ms0, w0, ts, t.ms, t.open, t.n, t.back, t.w)
    &&& pass(ctl, low, high, t.ms, t.open, t.rs, t.w, w1) && w1 == t.w1
    &&& kept(t.ms, t.rs).len() == 0 && n == t.n + reports(t.rs)
    &&& next(t.open, low, high, total(kept(t.ms, t.rs)))
}
pub open spec fn distinct(ms: Seq<Mon>) -> bool { forall|i: int, j: int| 0 <= i < j < ms.len() ==> (#[trigger] ms[i]).k != (#[trigger] ms[j]).k }
/// the size a buffer reported last
pub open spec fn latest(w: WV, k: Key) -> int { if w.recvd(k).len() == 0 { 0 } else { w.recvd(k).last()->Size_0 as int } }
pub open spec fn current(ms: Seq<Mon>, w: WV) -> bool { forall|i: int| 0 <= i < ms.len() ==> (#[trigger] ms[i]).k is Size && ms[i].n == latest(w, ms[i].k) && ms[i].n >= 0 }
/// ASSUMED: the sizes all buffers reported last sum to less than 2^62 (they count messages held in memory).
pub axiom fn axiom_sizes(tracked w: &World, ms: Seq<Mon>)
    requires distinct(ms), current(ms, w.v())
    ensures total(ms) < 0x4000_0000_0000_0000;

pub proof fn lemma_total_pos(ms: Seq<Mon>) requires forall|i: int| 0 <= i < ms.len() ==> (#[trigger] ms[i]).n >= 0 ensures total(ms) >= 0 decreases ms.len()
{ reveal(total); if ms.len() > 0 { assert forall|i: int| 0 <= i < ms.drop_last().len() implies (#[trigger] ms.drop_last()[i]).n >= 0 by { assert(ms.drop_last()[i] == ms[i]); } lemma_total_pos(ms.drop_last()); } }
/// what remains are some of the watched, in order
pub proof fn lemma_kept(ms: Seq<Mon>, rs: Seq<Reply>)
    requires rs.len() <= ms.len()
    ensures kept(ms, rs).len() <= rs.len(), forall|i: int| 0 <= i < kept(ms, rs).len() ==> exists|j: int| i <= j < rs.len() && ms[j].k == (#[trigger] kept(ms, rs)[i]).k,
        distinct(ms) ==> distinct(kept(ms, rs)),
    decreases rs.len()
{ reveal(kept);
    if rs.len() > 0 {
        lemma_kept(ms, rs.drop_last());
        let s = kept(ms, rs.drop_last()); let t = kept(ms, rs);
        assert forall|i: int| 0 <= i < t.len() implies exists|j: int| i <= j < rs.len() && ms[j].k == (#[trigger] t[i]).k by {
            if i < s.len() { assert(t[i] == s[i]); let j = choose|j: int| i <= j < rs.len() - 1 && ms[j].k == s[i].k; assert(i <= j < rs.len() && ms[j].k == t[i].k); }
            else { assert(ms[rs.len() - 1].k == t[i].k); }
        }
        if distinct(ms) {
            assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).k != (#[trigger] t[j]).k by {
                assert(t[i] == s[i]);
                if j < s.len() { assert(t[j] == s[j]); } else { let a = choose|a: int| i <= a < rs.len() - 1 && ms[a].k == s[i].k; assert(ms[a].k != ms[rs.len() - 1].k); }
            }
        }
    }
}
/// what is remembered is what was reported last
pub proof fn lemma_asked(w: WV, ms: Seq<Mon>, rs: Seq<Reply>)
    requires distinct(ms), current(ms, w), rs.len() <= ms.len(), forall|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]) is Size ==> 0 <= rs[i]->Size_0 <= usize::MAX,
    ensures
        current(kept(ms, rs), asked(w, ms, rs)),
        forall|i: int| rs.len() <= i < ms.len() ==> latest(asked(w, ms, rs), (#[trigger] ms[i]).k) == ms[i].n,
        asked(w, ms, rs).steps == w.steps + reports(rs), reports(rs) >= 0,
    decreases rs.len()
{ reveal(asked); reveal(kept); reveal(reports);
    if rs.len() > 0 {
        let a = rs.drop_last(); let n = rs.len() - 1;
        assert forall|i: int| 0 <= i < a.len() && (#[trigger] a[i]) is Size implies 0 <= a[i]->Size_0 <= usize::MAX by { assert(a[i] == rs[i]); }
        assert(rs[n] == rs.last());
        lemma_asked(w, ms, a); lemma_kept(ms, a); lemma_kept(ms, rs);
        let wa = asked(w, ms, a); let w1 = asked(w, ms, rs); let s = kept(ms, a); let t = kept(ms, rs);
        assert forall|i: int| rs.len() <= i < ms.len() implies latest(w1, (#[trigger] ms[i]).k) == ms[i].n by { assert(ms[n].k != ms[i].k); assert(w1.recvd(ms[i].k) == wa.recvd(ms[i].k)); }
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).k is Size && t[i].n == latest(w1, t[i].k) && t[i].n >= 0 by {
            if i < s.len() {
                assert(t[i] == s[i]);
                let j = choose|j: int| i <= j < n && ms[j].k == s[i].k;
                assert(ms[j].k != ms[n].k);
                assert(w1.recvd(s[i].k) == wa.recvd(s[i].k));
            } else {
                assert(ms[n].k is Size && ms[n].n == latest(wa, ms[n].k));
                match rs.last() { Reply::Size(x) => { assert(w1.recvd(ms[n].k).last() == Payload::Size(x as usize)); }, _ => { assert(w1.recvd(ms[n].k) == wa.recvd(ms[n].k)); } }
            }
        }
    }
}
pub open spec fn hears(ms: Seq<Mon>, rs: Seq<Reply>) -> Seq<Mon> { Seq::new(ms.len(), |i: int| if i < rs.len() { heard(ms[i], rs[i]) } else { ms[i] }) }
/// the buffers that went away, in order
pub open spec fn gone(rs: Seq<Reply>, g: Seq<usize>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < g.len() ==> (#[trigger] g[i]) < (#[trigger] g[j])
    &&& forall|i: int| 0 <= i < g.len() ==> (#[trigger] g[i]) < rs.len() && rs[g[i] as int] is Gone
    &&& forall|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]) is Gone ==> exists|j: int| 0 <= j < g.len() && g[j] == i
}
/// between two that went away everything is kept
pub proof fn lemma_between(ms: Seq<Mon>, rs: Seq<Reply>, a: int, c: int)
    requires 0 <= a <= c <= rs.len() <= ms.len(), forall|i: int| a <= i < c ==> !((#[trigger] rs[i]) is Gone),
    ensures kept(ms, rs.take(c)) =~= kept(ms, rs.take(a)) + hears(ms, rs).subrange(a, c),
    decreases c - a
{ reveal(kept);
    if a < c {
        lemma_between(ms, rs, a, c - 1);
        assert(rs.take(c).drop_last() =~= rs.take(c - 1));
        assert(rs.take(c).last() == rs[c - 1]);
    } else { assert(hears(ms, rs).subrange(a, c) =~= Seq::empty()); }
}
pub proof fn lemma_prefix(ms: Seq<Mon>, rs: Seq<Reply>, a: int)
    requires 0 <= a <= rs.len() <= ms.len()
    ensures kept(ms, rs.take(a)).is_prefix_of(kept(ms, rs))
    decreases rs.len() - a
{ reveal(kept);
    if a < rs.len() {
        lemma_prefix(ms, rs, a + 1);
        assert(rs.take(a + 1).drop_last() =~= rs.take(a));
        assert(kept(ms, rs.take(a)).is_prefix_of(kept(ms, rs.take(a + 1))));
    } else { assert(rs.take(a) =~= rs); }
}
/// what is left to do once all those from `c` on that went away have been removed
pub open spec fn swept(ms: Seq<Mon>, rs: Seq<Reply>, c: int) -> Seq<Mon> { hears(ms, rs).take(c) + kept(ms, rs).skip(kept(ms, rs.take(c)).len() as int) }
pub proof fn lemma_sweep(ms: Seq<Mon>, rs: Seq<Reply>, g: Seq<usize>, j: int, c: int)
    requires rs.len() == ms.len(), gone(rs, g), 0 <= j <= g.len(), c == (if j < g.len() { g[j] as int } else { rs.len() as int }),
    ensures
        j > 0 ==> g[j - 1] < swept(ms, rs, c).len() && swept(ms, rs, c).remove(g[j - 1] as int) =~= swept(ms, rs, g[j - 1] as int),
        j == 0 ==> swept(ms, rs, c) =~= kept(ms, rs),
        j == g.len() ==> swept(ms, rs, c) =~= hears(ms, rs),
{ reveal(kept);
    let u = hears(ms, rs);
    lemma_prefix(ms, rs, c);
    if j == g.len() { assert(rs.take(c) =~= rs); }
    if j == 0 {
        assert forall|i: int| 0 <= i < c implies !((#[trigger] rs[i]) is Gone) by { if rs[i] is Gone { let q = choose|q: int| 0 <= q < g.len() && g[q] == i; assert(g[0] <= g[q]); } }
        lemma_between(ms, rs, 0, c);
        assert(rs.take(0) =~= Seq::empty());
        let k = kept(ms, rs); let s = kept(ms, rs.take(c));
        assert(s =~= u.subrange(0, c)); assert(u.take(c) =~= s);
        assert(s + k.skip(s.len() as int) =~= k);
    } else {
        let p = g[j - 1] as int;
        if j < g.len() { assert(g[j - 1] < g[j]); }
        assert forall|i: int| p + 1 <= i < c implies !((#[trigger] rs[i]) is Gone) by {
            if rs[i] is Gone { let q = choose|q: int| 0 <= q < g.len() && g[q] == i; if q < j - 1 { assert(g[q] < g[j - 1]); } if q > j { assert(g[j] < g[q]); } }
        }
        lemma_between(ms, rs, p + 1, c);
        assert(rs.take(p + 1).drop_last() =~= rs.take(p)); assert(rs.take(p + 1).last() is Gone);
        lemma_prefix(ms, rs, p);
        let k = kept(ms, rs); let sp = kept(ms, rs.take(p)); let sc = kept(ms, rs.take(c));
        assert(sc =~= sp + u.subrange(p + 1, c));
        let mid = u.subrange(p + 1, c); let rest = k.skip(sc.len() as int);
        assert(k =~= sc + rest);
        assert(k =~= sp + (mid + rest));
        assert(k.skip(sp.len() as int) =~= u.subrange(p + 1, c) + k.skip(sc.len() as int));
        assert(swept(ms, rs, c).remove(p) =~= u.take(p) + u.subrange(p + 1, c) + k.skip(sc.len() as int));
    }
}
/// where the removal of those that went away has got to
pub open spec fn upto(rs: Seq<Reply>, g: Seq<usize>, j: int) -> int { if j < g.len() { g[j] as int } else { rs.len() as int } }
pub proof fn lemma_gone_push(a: Seq<Reply>, g: Seq<usize>, r: Reply)
    requires gone(a, g), a.len() <= usize::MAX
    ensures r is Gone ==> gone(a.push(r), g.push(a.len() as usize)), !(r is Gone) ==> gone(a.push(r), g)
{
    let b = a.push(r); let h = if r is Gone { g.push(a.len() as usize) } else { g };
    assert forall|i: int| 0 <= i < b.len() && (#[trigger] b[i]) is Gone implies exists|j: int| 0 <= j < h.len() && h[j] == i by {
        if i < a.len() { assert(a[i] is Gone); let j = choose|j: int| 0 <= j < g.len() && g[j] == i; assert(h[j] == i); }
        else { assert(h[g.len() as int] == i); }
    }
    assert forall|i: int| 0 <= i < g.len() implies (#[trigger] g[i]) < b.len() && b[g[i] as int] is Gone by { assert(b[g[i] as int] == a[g[i] as int]); }
}

pub proof fn lemma_pass(ctl: Key, low: int, high: int, ms: Seq<Mon>, open: bool, rs: Seq<Reply>, w0: WV, wa: WV, wb: WV, w1: WV)
    requires
        rs.len() == ms.len(), wa == asked(w0, ms, rs),
        if stops(open, high, total(kept(ms, rs))) { told(ctl, wa, wb) } else { wb == wa },
        if goes(open, low, high, total(kept(ms, rs))) { told(ctl, wb, w1) } else { w1 == wb },
    ensures pass(ctl, low, high, ms, open, rs, w0, w1)
{ reveal(pass); assert(mid(wb)); }
pub proof fn lemma_governed(ctl: Key, low: int, high: int, ms0: Seq<Mon>, w0: WV, ts: Seq<Turn>, t: Turn, ms: Seq<Mon>, open: bool, n: int, back: nat, w: WV)
    requires
        governed(ctl, low, high, ms0, w0, ts, t.ms, t.open, t.n, t.back, t.w),
        pass(ctl, low, high, t.ms, t.open, t.rs, t.w, t.w1),
        ms == kept(t.ms, t.rs), open == next(t.open, low, high, total(ms)), n == t.n + reports(t.rs),
        if reports(t.rs) == 0 { w == t.w1.wait(t.back * t.back) && back == crate::back_off::grown(t.back) } else { w == t.w1 && back == 0 },
    ensures governed(ctl, low, high, ms0, w0, ts.push(t), ms, open, n, back, w)
{ reveal(governed); assert(ts.push(t).drop_last() =~= ts); }
/// telling the regulator, or waiting, does not touch the reports
pub proof fn lemma_current(ms: Seq<Mon>, w: WV, w1: WV)
    requires current(ms, w), w1.got == w.got
    ensures current(ms, w1)
{ assert forall|i: int| 0 <= i < ms.len() implies (#[trigger] ms[i]).k is Size && ms[i].n == latest(w1, ms[i].k) && ms[i].n >= 0 by { assert(w1.recvd(ms[i].k) == w.recvd(ms[i].k)); } }

/// one more buffer was asked
pub proof fn lemma_look(w: WV, ms: Seq<Mon>, a: Seq<Reply>, r: Reply)
    requires a.len() < ms.len()
    ensures
        asked(w, ms, a.push(r)) == ask(asked(w, ms, a), ms[a.len() as int], r), reports(a.push(r)) == reports(a) + if r is Size { 1int } else { 0 },
        kept(ms, a.push(r)) == (if r is Gone { kept(ms, a) } else { kept(ms, a).push(heard(ms[a.len() as int], r)) }),
        total(kept(ms, a.push(r))) == total(kept(ms, a)) + (if r is Gone { 0 } else { heard(ms[a.len() as int], r).n }),
{
    reveal(asked); reveal(kept); reveal(reports); reveal(total);
    assert(a.push(r).drop_last() =~= a);
    if !(r is Gone) { assert(kept(ms, a.push(r)).drop_last() =~= kept(ms, a)); }
}
pub proof fn lemma_none(w: WV, ms: Seq<Mon>)
    ensures asked(w, ms, Seq::empty()) == w, kept(ms, Seq::empty()) == Seq::<Mon>::empty(), reports(Seq::empty()) == 0, total(Seq::empty()) == 0
{ reveal(asked); reveal(kept); reveal(reports); reveal(total); }
pub proof fn lemma_start(ctl: Key, low: int, high: int, ms0: Seq<Mon>, w0: WV) ensures governed(ctl, low, high, ms0, w0, Seq::empty(), ms0, true, 0, 0, w0) { reveal(governed); }

//@item src/waiter.rs :: fn manage_regulator_from_buffers [eff, m+pause, m+resume, idx, hoist]
async fn manage_regulator_from_buffers(mut regulator_settings: RegulatorSettingsCapture) -> /*@ (r: @*/ Result<usize, WaiterError> /*@ )
    requires
        !regulator_settings.regulator_component.is_paused(),
        distinct(watch(regulator_settings.buffer_size_monitors@)), current(watch(regulator_settings.buffer_size_monitors@), old(w).v()),
    ensures match r {
        Ok(n) => exists|ts: Seq<Turn>, t: Turn| #[trigger] managed(ts, t) && watermarked(regulator_settings.regulator_component.key(), regulator_settings.low_watermark as int, regulator_settings.high_watermark as int,
            watch(regulator_settings.buffer_size_monitors@), old(w).v(), ts, t, n as int, final(w).v()),
        Err(_) => false,
    }, @*/ {

    /*@ proof { regulator_settings.regulator_component.lemma_ctl(); } let ghost low = regulator_settings.low_watermark as int; let ghost high = regulator_settings.high_watermark as int; let ghost ctl = regulator_settings.regulator_component.key();
        let ghost ms0 = watch(regulator_settings.buffer_size_monitors@); let ghost w0 = w.v(); let ghost mut ts: Seq<Turn> = Seq::empty(); let ghost mut ms = ms0; @*/
    let mut back_off = crate::back_off::BackOff::new();

    struct Bsm { pub buffer_size: usize, pub buffer_monitor: Receiver<BufferSizeMessage>, }

    let mut monitors: Vec<Bsm> = regulator_settings.buffer_size_monitors.into_iter().map(|bm /*@: Receiver<BufferSizeMessage>@*/| /*@ -> (o: Bsm) ensures o.buffer_size == 0, o.buffer_monitor == bm @*/ {
        Bsm {buffer_size: 0, buffer_monitor: bm }
    }).collect();

    enum RegulatorStatus {
        Open,
        Closed,
    }

    let mut read_count /*@: usize@*/ = 0;
    let mut regulator_status = RegulatorStatus::Open;
    /*@ let ghost bv = |b: Bsm| Mon { k: b.buffer_monitor.key(), n: b.buffer_size as int }; proof { assert(monitors@.map_values(bv) =~= ms0); lemma_start(ctl, low, high, ms0, w0); } @*/
    loop
        /*@ invariant
            governed(ctl, low, high, ms0, w0, ts, ms, regulator_status == RegulatorStatus::Open, read_count as int, back_off.n(), w.v()),
            monitors@.map_values(bv) == ms, distinct(ms), current(ms, w.v()), back_off.wf(), read_count <= w.v().steps,
            regulator_settings.low_watermark == low, regulator_settings.high_watermark == high, regulator_settings.regulator_component.key() == ctl, ctl is Ctl,
            regulator_settings.regulator_component.is_paused() == (regulator_status == RegulatorStatus::Closed), @*/
    {
        /*@ let ghost wk = w.v(); let ghost n0 = read_count; let ghost open0 = regulator_status == RegulatorStatus::Open; let ghost back0 = back_off.n(); let ghost mut rs: Seq<Reply> = Seq::empty();
            proof { assert(hears(ms, rs) =~= ms); lemma_none(wk, ms); } @*/
        let mut to_remove = vec![];
        let mut nothing_read = true;
        let mut total /*@: usize@*/ = 0;
        for (index, buffer_size_monitor) in monitors.iter_mut().enumerate()
            /*@ invariant
                n__index == rs.len(), rs.len() <= ms.len(), monitors@.len() == ms.len(), forall|j: int| 0 <= j < ms.len() ==> bv(#[trigger] monitors@[j]) == hears(ms, rs)[j], w.v() == asked(wk, ms, rs), gone(rs, to_remove@),
                total == crate::waiter::total(kept(ms, rs)), nothing_read == (reports(rs) == 0), read_count == n0 + reports(rs), read_count <= w.v().steps,
                forall|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]) is Size ==> 0 <= rs[i]->Size_0 <= usize::MAX, @*/
        {
            /*@ let ghost wi = w.v(); let ghost i = rs.len() as int; let ghost a = rs; proof { assert(bv(*buffer_size_monitor) == hears(ms, rs)[i]); } @*/
            match /*! { let res0 = !*/ buffer_size_monitor.buffer_monitor.try_recv() /*! ; !*/ /*@ proof {
                let r = if res0 is Ok { Reply::Size(res0->Ok_0.0 as int) } else if res0->Err_0 is Closed { Reply::Gone } else { Reply::Quiet };
                if res0 is Ok { tick(w); }
                rs = rs.push(r);
                lemma_look(wk, ms, a, r);
                lemma_asked(wk, ms, rs); lemma_kept(ms, rs); axiom_sizes(w, kept(ms, rs));
                lemma_kept(ms, a); lemma_asked(wk, ms, a);
                lemma_total_pos(kept(ms, a));
                lemma_gone_push(a, to_remove@, r);
            } @*/ /*! res0 } !*/ {
                Err(async_std::channel::TryRecvError::Closed) => {
                    to_remove.push(index);
                },
                Err(async_std::channel::TryRecvError::Empty) => {
                    total += buffer_size_monitor.buffer_size;
                },
                Ok(BufferSizeMessage(n)) => {
                    buffer_size_monitor.buffer_size = n;
                    total += n;
                    read_count += 1;
                    nothing_read = false;
                }
            }
            /*@ proof {
                assert forall|j: int| 0 <= j < ms.len() implies bv(#[trigger] monitors@[j]) == hears(ms, rs)[j] by { if j < i { assert(rs[j] == a[j]); } }
            } @*/
        }
        /*@ let ghost wa = w.v(); let ghost t = total as int; proof { assert(rs.len() == ms.len()); assert(monitors@.map_values(bv) =~= hears(ms, rs)); } @*/
        if regulator_status == RegulatorStatus::Open && total >= regulator_settings.high_watermark {
            regulator_settings.regulator_component.pause().await.map_err(|_ /*@: SendError<()>@*/| /*@ -> (o: WaiterError) { @*/ WaiterError::CouldNotPause /*@ } @*/)?;
            regulator_status = RegulatorStatus::Closed;
        }
        /*@ let ghost wb = w.v(); proof { assert(if stops(open0, high, t) { told(ctl, wa, wb) } else { wb == wa }); } @*/
        if regulator_status == RegulatorStatus::Closed && total <= regulator_settings.low_watermark {
            regulator_settings.regulator_component.resume().await.map_err(|_ /*@: SendError<()>@*/| /*@ -> (o: WaiterError) { @*/ WaiterError::CouldNotResume /*@ } @*/)?;
            regulator_status = RegulatorStatus::Open;
        }
        /*@ let ghost g = to_remove@; let ghost wr = w.v(); let ghost open1 = regulator_status == RegulatorStatus::Open; proof { assert(if goes(open0, low, high, t) { told(ctl, wb, wr) } else { wr == wb }); assert(open1 == next(open0, low, high, t)); lemma_sweep(ms, rs, g, g.len() as int, rs.len() as int); } @*/
        for tr in /*@ it: @*/ to_remove.into_iter().rev()
            /*@ invariant it.seq() == g.reverse(), monitors@.map_values(bv) == swept(ms, rs, upto(rs, g, g.len() - it.index())), w.v() == wr, @*/
        {
            /*@ let ghost m1 = monitors@; let ghost j = g.len() - it.index(); proof { assert(tr == g[j - 1]); lemma_sweep(ms, rs, g, j, upto(rs, g, j)); } @*/
            monitors.remove(tr);
            /*@ proof { assert(monitors@.map_values(bv) =~= m1.map_values(bv).remove(tr as int)); } @*/
        }
        /*@ proof { lemma_sweep(ms, rs, g, 0, upto(rs, g, 0)); lemma_asked(wk, ms, rs); lemma_kept(ms, rs); } proof { lemma_pass(ctl, low, high, ms, open0, rs, wk, wa, wb, wr); lemma_current(kept(ms, rs), wa, wr); } let ghost turn = Turn { ms, open: open0, n: n0 as int, back: back0, w: wk, rs, w1: w.v() }; @*/
        if monitors.is_empty() {
            /*@ proof { assert(kept(ms, rs) =~= Seq::empty()); lemma_none(wk, ms); assert(managed(ts, turn)); } @*/
            return Ok(read_count);
        }
        /*@ let ghost ts0 = ts; @*/
        match nothing_read {
            true => {
                back_off.wait().await
            },
            false => {
                back_off.reset()
            },
        };
        /*@ proof {
            lemma_governed(ctl, low, high, ms0, w0, ts0, turn, kept(ms, rs), open1, read_count as int, back_off.n(), w.v());
            lemma_current(kept(ms, rs), wr, w.v());
            ts = ts0.push(turn); ms = kept(ms, rs);
        } @*/
    }
}
//@end
}
//@include net.rs
}
