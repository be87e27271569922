pub mod utils {
use vstd::prelude::*;
verus!{
pub open spec fn nonempty<X>() -> spec_fn(Vec<X>) -> bool { |v: Vec<X>| v@.len() > 0 }

//@item src/utils.rs :: fn remove_vec_vec_index
pub fn remove_vec_vec_index<X>(vals: &mut Vec<Vec<X>>, index_0: usize, index_1: usize)
    /*@ ensures
        final(vals)@.len() == old(vals)@.len(),
        forall|i: int| 0 <= i < old(vals)@.len() && i != index_0 ==> (#[trigger] final(vals)@[i]) == old(vals)@[i],
        index_0 < old(vals)@.len() ==> final(vals)@[index_0 as int]@ == if index_1 < old(vals)@[index_0 as int]@.len() { old(vals)@[index_0 as int]@.remove(index_1 as int) } else { old(vals)@[index_0 as int]@ },
    @*/ {
    if let Some(v) = vals.get_mut(index_0) {
        if index_1 < v.len() {
            v.remove(index_1);
        }
    }
}
//@end
//@item src/utils.rs :: fn remove_vec_vec
pub fn remove_vec_vec<X>(vals: &mut Vec<Vec<X>>)
    /*@ ensures final(vals)@ == old(vals)@.filter(nonempty()), @*/ {
    /*@ let ghost v0 = vals@;
        proof { assert(v0.skip(v0.len() as int) =~= Seq::empty()); assert(v0.take(v0.len() as int) =~= v0); reveal(Seq::filter);
            assert(vals@ =~= v0.take(v0.len() as int) + v0.skip(v0.len() as int).filter(nonempty())); } @*/
    for i in /*@ it: @*/ (0..vals.len()).rev()
        /*@ invariant
            it.seq().len() == v0.len(), forall|k: int| 0 <= k < v0.len() ==> (#[trigger] it.seq()[k]) == v0.len() - 1 - k,
            vals@ == v0.take(v0.len() - it.index()) + v0.skip(v0.len() - it.index()).filter(nonempty()), @*/
    {
        let mut inner_len = 99;
        if let Some(iv) = vals.get(i) {
            inner_len = iv.len();
        }
        /*@ let ghost n = i + 1; proof {
            assert(i == it.seq()[it.index() as int]);
            assert(vals@[i as int] == v0[i as int]);
            let s = v0.skip(n - 1);
            assert(s =~= seq![v0[n - 1]] + v0.skip(n));
            Seq::filter_distributes_over_add(seq![v0[n - 1]], v0.skip(n), nonempty::<X>());
            reveal_with_fuel(Seq::filter, 2);
            assert(seq![v0[n - 1]].drop_last() =~= Seq::empty());
            assert(v0.take(n) =~= v0.take(n - 1).push(v0[n - 1]));
        } @*/
        if inner_len == 0 {
            vals.remove(i);
        }
        /*@ proof { assert(vals@ =~= v0.take(n - 1) + v0.skip(n - 1).filter(nonempty())); } @*/
    }
    /*@ proof { assert(v0.skip(0) =~= v0); assert(vals@ =~= v0.filter(nonempty())); } @*/
}
//@end
}
}

pub mod back_off {
use vstd::prelude::*;
use crate::async_std;
use crate::world::*;
verus!{
//@item src/back_off.rs :: struct BackOff
pub struct BackOff {
    count: u64,
}
//@end
impl BackOff {
    /// fruitless polls in a row, as far as they still matter
    pub closed spec fn n(&self) -> nat { self.count as nat }
    pub open spec fn wf(&self) -> bool { self.n() <= 51 }
}
/// the state after one more fruitless poll
pub open spec fn grown(n: nat) -> nat { if n <= 50 { n + 1 } else { n } }

//@item src/back_off.rs :: impl BackOff > fn new
    pub fn new() -> /*@ (r: @*/ BackOff /*@ ) ensures r.n() == 0, r.wf() @*/ {
        BackOff {
            count: 0,
        }
    }
//@end
//@item src/back_off.rs :: impl BackOff > fn reset
    pub fn reset(&mut self) -> /*@ (r: @*/ u64 /*@ ) ensures final(self).n() == 0, final(self).wf(), r == 0 @*/ {
        self.count = 0;
        self.count
    }
//@end
//@item src/back_off.rs :: impl BackOff > fn wait [eff]
    pub async fn wait(&mut self) -> /*@ (r: @*/ u64 /*@ )
        requires old(self).wf()
        ensures final(self).wf(), final(self).n() == grown(old(self).n()), r == final(self).n() - 1,
            final(w).v() == old(w).v().wait(old(self).n() * old(self).n()), @*/ {
        /*@ let ghost c = self.count; proof { assert(0 <= c * c <= 2601) by (nonlinear_arith) requires c <= 51, 0 <= c; } let ghost cn = self.n(); let ghost w0 = w.v(); proof { assert(cn * cn == c * c) by (nonlinear_arith) requires cn == c; } @*/
        async_std::task::sleep(
            std::time::Duration::from_millis(self.count * self.count)
        ).await;
        /*@proof { assert(w.v() == w0.wait(cn * cn)); }@*/
        if self.count <= 50 {
            self.count += 1;
        }
        self.count - 1
    }
//@end
}
}

pub mod junction {
use vstd::prelude::*;
use crate::connectable::*;
use crate::async_std;
use crate::world::*;
use crate::utils::*;
use crate::motion;
use crate::motion::*;
use crate::back_off::*;
use crate::async_std::channel::{Receiver, RecvError, SendError, Sender, TryRecvError, bounded};
verus!{
//@item src/junction.rs :: struct Junction
pub struct Junction {
    stdout_size: usize,
    started: bool,
    stdout: Vec<Push>,
    stdin: Vec<Vec<Pull>>,
    inputs: Vec<(Pull, isize)>,
}
//@end
//@item src/junction.rs :: struct MotionOneResult
pub struct MotionOneResult {
    pub finished_pulls: Vec<usize>,
    pub finished_pushs: Vec<usize>,
    pub read_from: Vec<usize>,
    pub skipped: Vec<usize>,
}
//@end

// ---- vocabulary --------------------------------------------------------------------------------
/// one read: which input gave what
pub ghost struct Rd { pub k: Key, pub d: IODataWrapper }
pub open spec fn pkey(p: Pull) -> Key { p->Receiver_1.key() }
/// all inputs are channels, no two the same one
pub open spec fn inputs_ok(p: Seq<Pull>) -> bool {
    &&& forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]) is Receiver
    &&& forall|i: int, j: int| 0 <= i < j < p.len() ==> pkey(#[trigger] p[i]) != pkey(#[trigger] p[j])
}
/// the messages input k gave
pub open spec fn sel(r: Seq<Rd>, k: Key) -> Seq<Payload> decreases r.len() {
    if r.len() == 0 { Seq::empty() } else {
        let s = sel(r.drop_last(), k);
        if r.last().k == k && r.last().d is IOData { s.push(Payload::Data(r.last().d->IOData_0.0@)) } else { s }
    }
}
/// all messages in the order in which they were read
pub open spec fn dat(r: Seq<Rd>) -> Seq<IODataWrapper> decreases r.len() {
    if r.len() == 0 { Seq::empty() } else {
        let s = dat(r.drop_last());
        if r.last().d is IOData { s.push(r.last().d) } else { s }
    }
}
pub open spec fn spy_reads(h: Seq<Att>, spy: Option<Sender<SpyMessage>>, k: int, p: Seq<Push>, r: Seq<Rd>) -> Seq<Att> decreases r.len() {
    if r.len() == 0 { h } else { spied(spy_reads(h, spy, k, p, r.drop_last()), spy, k, p, r.last().d, p.len() as int) }
}
/// ASSUMED bound on the number of messages (see `tick`) carried along
pub open spec fn tame(w0: WV, w1: WV) -> bool { w1.steps >= w0.steps && (w1.steps == w0.steps || w1.steps < 0x4000_0000_0000_0000) }
pub open spec fn same_all(p0: Seq<Push>, p1: Seq<Push>) -> bool { p1.len() == p0.len() && forall|j: int| 0 <= j < p0.len() ==> (#[trigger] p1[j]).same(p0[j]) }
/// exactly the reads r took place, each message was handed to every output in that order, and nothing else happened
pub open spec fn did(p0: Seq<Push>, spy: Option<Sender<SpyMessage>>, w0: WV, r: Seq<Rd>, p1: Seq<Push>, w1: WV) -> bool {
    &&& forall|k: Key| #[trigger] w1.recvd(k) == w0.recvd(k) + sel(r, k)
    &&& same_all(p0, p1)
    &&& forall|j: int| 0 <= j < p0.len() ==> wrote(#[trigger] p0[j], p0[j].hist(w0), dat(r), p1[j].hist(w1))
    &&& forall|k: int| #[trigger] w1.hist(Key::Spy(k)) == spy_reads(w0.hist(Key::Spy(k)), spy, k, p0, r)
    &&& forall|k: int| #[trigger] w1.hist(Key::Mon(k)) == w0.hist(Key::Mon(k))
    &&& others_same(p0, w0, w1)
    &&& w1.bytes == w0.bytes && w1.flushed == w0.flushed
    &&& forall|k: Key| w0.ended.contains(k) ==> #[trigger] w1.ended.contains(k)
    &&& forall|i: int| 0 <= i < r.len() && (#[trigger] r[i]).d is Finished ==> w1.ended.contains(r[i].k)
    &&& r.len() <= w1.steps - w0.steps
}
pub proof fn lemma_did_none(p: Seq<Push>, spy: Option<Sender<SpyMessage>>, w: WV)
    ensures did(p, spy, w, Seq::empty(), p, w)
{
    assert forall|k: Key| #[trigger] w.recvd(k) == w.recvd(k) + sel(Seq::empty(), k) by { assert(w.recvd(k) + Seq::<Payload>::empty() =~= w.recvd(k)); }
    assert forall|j: int| 0 <= j < p.len() implies wrote(#[trigger] p[j], p[j].hist(w), dat(Seq::empty()), p[j].hist(w)) by { lemma_wrote_none(p[j], p[j].hist(w)); }
}
pub open spec fn push1(r: Seq<Rd>, k: Key, d: IODataWrapper) -> Seq<Rd> { if d is Skipped { r } else { r.push(Rd { k, d }) } }
/// output p0 -> p1 refused the message d, the `at`-th attempt made on it, and gives up
pub open spec fn refused_at(p0: Push, h: Seq<Att>, d: IODataWrapper, n: int) -> bool {
    p0.key() is Some && p0.policy() == Breakable::Finish && 0 <= n < h.len() && h[n] == msg_att(d, Res::Closed)
}
/// every output has refused the message d, the m-th one handed out since w0
pub open spec fn all_refused(p0: Seq<Push>, w0: WV, d: IODataWrapper, m: int, p1: Seq<Push>, w1: WV) -> bool {
    d is IOData && forall|j: int| 0 <= j < p0.len() ==> refused_at(#[trigger] p0[j], p1[j].hist(w1), d, p0[j].hist(w0).len() + m)
}
pub proof fn lemma_spied_same(h: Seq<Att>, spy: Option<Sender<SpyMessage>>, k: int, p: Seq<Push>, q: Seq<Push>, d: IODataWrapper, n: int)
    requires same_all(p, q), n <= p.len()
    ensures spied(h, spy, k, p, d, n) == spied(h, spy, k, q, d, n)
    decreases n
{ lemma_copies_same(h, p, q, d, n); }
pub proof fn lemma_copies_same(h: Seq<Att>, p: Seq<Push>, q: Seq<Push>, d: IODataWrapper, n: int)
    requires same_all(p, q), n <= p.len()
    ensures spy_copies(h, p, d, n) == spy_copies(h, q, d, n)
    decreases n
{ if n > 0 { lemma_copies_same(h, p, q, d, n - 1); assert(q[n - 1].same(p[n - 1])); } }
pub proof fn lemma_hists_same_log(p: Seq<Push>, w0: WV, w1: WV)
    requires w1.log == w0.log
    ensures forall|j: int| 0 <= j < p.len() ==> (#[trigger] p[j]).hist(w1) == p[j].hist(w0)
{ assert forall|j: int| 0 <= j < p.len() implies (#[trigger] p[j]).hist(w1) == p[j].hist(w0) by { lemma_hist_same_log(p[j], w0, w1); } }

/// one more successful step of the worker on input `pull`
#[verifier::spinoff_prover]
pub proof fn lemma_did_step(p0: Seq<Push>, spy: Option<Sender<SpyMessage>>, w0: WV, r: Seq<Rd>, pk: Seq<Push>, wk: WV, pull: Pull, m: MotionNotifications,
    res: MotionWorkerResult, data: IODataWrapper, wr: WV, pull1: Pull, p1: Seq<Push>, w1: WV)
    requires
        did(p0, spy, w0, r, pk, wk), pull is Receiver, m.rd() is None, m.wr() is None,
        worker_ok(pull, m, pk, spy, wk, res, data, wr, pull1, p1, w1),
    ensures
        did(p0, spy, w0, push1(r, pkey(pull), data), p1, w1), pull1 == pull,
        data is Skipped ==> w1.idles(pkey(pull)) == wk.idles(pkey(pull)) + 1 && !res.read && !res.finished,
        !(data is Skipped) ==> w1.idles(pkey(pull)) == wk.idles(pkey(pull)) && res.read,
        forall|k: Key| k != pkey(pull) ==> #[trigger] w1.idles(k) == wk.idles(k),
        data is IOData ==> dat(push1(r, pkey(pull), data)) == dat(r).push(data),
        !(data is IOData) ==> dat(push1(r, pkey(pull), data)) == dat(r),
        w1.waits == wk.waits, w1.closed == wk.closed, w1.steps == wk.steps + 1, w1.steps < 0x4000_0000_0000_0000,
        forall|j: int| 0 <= j < p0.len() ==> grew(#[trigger] pk[j].hist(wk), p1[j].hist(w1)),
        !(data is Skipped) ==> (res.finished <==> (data is Finished || all_refused(p0, w0, data, dat(r).len() as int, p1, w1))),
        data is Skipped ==> p1 == pk,
{
    let k0 = pkey(pull);
    let wx = choose|wx: WV| #[trigger] after_read(wx, wr) && read_step(pull, wk, data, pull1, wx);
    let r1 = push1(r, k0, data);
    lemma_hists_same_log(pk, wk, wr);
    assert forall|k: Key| #[trigger] w1.recvd(k) == w0.recvd(k) + sel(r1, k) by {
        assert(w1.recvd(k) == wx.recvd(k));
        if !(data is Skipped) { assert(r1.drop_last() =~= r); }
        if data is IOData && k == k0 {
            assert(wx.recvd(k) == wk.recvd(k).push(Payload::Data(data->IOData_0.0@)));
            assert((w0.recvd(k) + sel(r, k)).push(Payload::Data(data->IOData_0.0@)) =~= w0.recvd(k) + sel(r, k).push(Payload::Data(data->IOData_0.0@)));
        } else { assert(wx.recvd(k) == wk.recvd(k)); }
    }
    if !(data is Skipped) {
        assert(r1.drop_last() =~= r);
        assert(r1.last() == (Rd { k: k0, d: data }));
        assert forall|j: int| 0 <= j < p0.len() implies p1[j].same(p0[j]) && wrote(#[trigger] p0[j], p0[j].hist(w0), dat(r1), p1[j].hist(w1)) && grew(pk[j].hist(wk), p1[j].hist(w1)) by {
            assert(pk[j].same(p0[j]));
            assert(delivered(pk[j], pk[j].hist(wr), data, p1[j], p1[j].hist(w1)));
            if data is IOData && !p0[j].is_none() {
                let a = p1[j].hist(w1).last();
                assert(p1[j].hist(w1) == pk[j].hist(wk).push(a));
                lemma_wrote_step(p0[j], p0[j].hist(w0), dat(r), pk[j].hist(wk), data, a);
            }
        }
        assert forall|k: int| #[trigger] w1.hist(Key::Spy(k)) == spy_reads(w0.hist(Key::Spy(k)), spy, k, p0, r1) by {
            assert(wr.hist(Key::Spy(k)) == wk.hist(Key::Spy(k)));
            lemma_spied_same(wk.hist(Key::Spy(k)), spy, k, p0, pk, data, p0.len() as int);
        }
        assert forall|k: int| #[trigger] w1.hist(Key::Mon(k)) == w0.hist(Key::Mon(k)) by {
            assert(wr.hist(Key::Mon(k)) == wk.hist(Key::Mon(k)));
            assert(wk.hist(Key::Mon(k)) == w0.hist(Key::Mon(k)));
        }
        assert forall|k: Key| !(k is Mon) && !(k is Spy) && (forall|i: int| 0 <= i < p0.len() ==> (#[trigger] p0[i]).key() != Some(k)) implies #[trigger] w1.hist(k) == w0.hist(k) by {
            assert forall|i: int| 0 <= i < pk.len() implies (#[trigger] pk[i]).key() != Some(k) by { assert(pk[i].same(p0[i])); assert(p0[i].key() != Some(k)); }
            assert(wr.hist(k) == wk.hist(k));
            assert(w1.hist(k) == wr.hist(k));
            assert(wk.hist(k) == w0.hist(k));
        }
        assert forall|i: int| 0 <= i < r1.len() && (#[trigger] r1[i]).d is Finished implies w1.ended.contains(r1[i].k) by {
            if i < r.len() { assert(r1[i] == r[i]); }
        }
        // when it counts as finished
        let m0 = dat(r).len() as int;
        if data is IOData {
            assert forall|j: int| 0 <= j < p0.len() implies
                (gave_up(pk[j], (#[trigger] pk[j]).hist(wr), data, p1[j].hist(w1)) <==> refused_at(p0[j], p1[j].hist(w1), data, p0[j].hist(w0).len() + m0)) by {
                assert(pk[j].same(p0[j]));
                assert(delivered(pk[j], pk[j].hist(wr), data, p1[j], p1[j].hist(w1)));
                lemma_key_kind(p0[j]);
                if p0[j].key() is Some {
                    assert(!p0[j].is_none());
                    assert(pk[j].hist(wk).len() == p0[j].hist(w0).len() + m0);
                    let h = p1[j].hist(w1);
                    assert(h == pk[j].hist(wk).push(h.last()));
                }
            }
            if all_refused(p0, w0, data, m0, p1, w1) {
                assert forall|i: int| 0 <= i < pk.len() implies gave_up(pk[i], (#[trigger] pk[i]).hist(wr), data, p1[i].hist(w1)) by {
                    assert(refused_at(p0[i], p1[i].hist(w1), data, p0[i].hist(w0).len() + m0)); }
            }
            if forall|i: int| 0 <= i < pk.len() ==> gave_up(pk[i], (#[trigger] pk[i]).hist(wr), data, p1[i].hist(w1)) {
                assert forall|j: int| 0 <= j < p0.len() implies refused_at(#[trigger] p0[j], p1[j].hist(w1), data, p0[j].hist(w0).len() + m0) by { assert(gave_up(pk[j], pk[j].hist(wr), data, p1[j].hist(w1))); }
            }
        } else {
            assert(!all_refused(p0, w0, data, m0, p1, w1));
        }
    } else {
        assert(w1.log == wk.log);
        lemma_hists_same_log(pk, wk, w1);
        assert forall|k: int| #[trigger] w1.hist(Key::Spy(k)) == spy_reads(w0.hist(Key::Spy(k)), spy, k, p0, r1) by { assert(wk.hist(Key::Spy(k)) == w1.hist(Key::Spy(k))); }
        assert forall|k: int| #[trigger] w1.hist(Key::Mon(k)) == w0.hist(Key::Mon(k)) by { assert(wk.hist(Key::Mon(k)) == w1.hist(Key::Mon(k))); }
        assert forall|k: Key| !(k is Mon) && !(k is Spy) && (forall|i: int| 0 <= i < p0.len() ==> (#[trigger] p0[i]).key() != Some(k)) implies #[trigger] w1.hist(k) == w0.hist(k) by { assert(wk.hist(k) == w1.hist(k)); }
    }
}
/// a history is only ever added to
pub open spec fn grew(h0: Seq<Att>, h1: Seq<Att>) -> bool { h0.len() <= h1.len() && h1.take(h0.len() as int) =~= h0 }

/// the reads of one pass over the inputs p that gave ds
pub open spec fn reads_of(p: Seq<Pull>, ds: Seq<IODataWrapper>, n: int) -> Seq<Rd> decreases n {
    if n <= 0 { Seq::empty() } else { push1(reads_of(p, ds, n - 1), pkey(p[n - 1]), ds[n - 1]) }
}
pub open spec fn fin(p0: Seq<Push>, w0: WV, ps: Seq<Pull>, ds: Seq<IODataWrapper>, i: int, p1: Seq<Push>, w1: WV) -> bool {
    ds[i] is Finished || all_refused(p0, w0, ds[i], dat(reads_of(ps, ds, i)).len() as int, p1, w1)
}
pub open spec fn rises(v: Seq<usize>, n: int) -> bool { (forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] < n) && forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] v[i] < #[trigger] v[j] }
/// every one of the first n inputs was asked exactly once
pub open spec fn asked(p: Seq<Pull>, w0: WV, ds: Seq<IODataWrapper>, w1: WV, n: int) -> bool {
    &&& forall|i: int| 0 <= i < n ==> w1.idles(pkey(#[trigger] p[i])) == w0.idles(pkey(p[i])) + (if ds[i] is Skipped { 1int } else { 0 })
    &&& forall|k: Key| (forall|i: int| 0 <= i < n ==> pkey(#[trigger] p[i]) != k) ==> #[trigger] w1.idles(k) == w0.idles(k)
}
/// one pass over the inputs of a group: each is asked exactly once, in order, and what it gives goes to every output
pub open spec fn pass_ok(ps: Seq<Pull>, p0: Seq<Push>, spy: Option<Sender<SpyMessage>>, w0: WV, ds: Seq<IODataWrapper>, n: int, finished: Seq<usize>, p1: Seq<Push>, w1: WV) -> bool {
    &&& ds.len() == n
    &&& did(p0, spy, w0, reads_of(ps, ds, n), p1, w1)
    &&& w1.waits == w0.waits && w1.closed == w0.closed
    &&& asked(ps, w0, ds, w1, n)
    &&& rises(finished, n)
    &&& forall|i: int| 0 <= i < finished.len() ==> fin(p0, w0, ps, ds, #[trigger] finished[i] as int, p1, w1)
    &&& forall|i: int| 0 <= i < n && fin(p0, w0, ps, ds, i, p1, w1) ==> #[trigger] finished.contains(i as usize)
}
pub open spec fn pass(ds: Seq<IODataWrapper>) -> bool { true }
pub open spec fn skips(ds: Seq<IODataWrapper>) -> nat decreases ds.len() { if ds.len() == 0 { 0 } else { skips(ds.drop_last()) + if ds.last() is Skipped { 1nat } else { 0 } } }

/// at a failure: all outputs got the messages ds, those served before the failure one more
pub open spec fn wrote_upto(p: Push, h0: Seq<Att>, ds: Seq<IODataWrapper>, d: IODataWrapper, h1: Seq<Att>) -> bool {
    wrote(p, h0, ds, h1) || (h1.len() > 0 && wrote(p, h0, ds, h1.drop_last()) && h1.last().p == Payload::Data(d->IOData_0.0@))
}
pub open spec fn broke(p0: Seq<Push>, w0: WV, r: Seq<Rd>, d: IODataWrapper, e: MotionError, w1: WV) -> bool {
    &&& forall|j: int| 0 <= j < p0.len() ==> wrote_upto(#[trigger] p0[j], p0[j].hist(w0), dat(r), d, p0[j].hist(w1))
    &&& e is OutputClosed ==> exists|j: int| 0 <= j < p0.len() && (#[trigger] p0[j]).jn() == Some(e->OutputClosed_0) && p0[j].policy() is Terminate && p0[j].hist(w1).len() > 0 && p0[j].hist(w1).last() == msg_att(d, Res::Closed)
    &&& e is OutputClosed || e is WriteIOError || e is SpyWriteError || e is ReadIOError
}
pub open spec fn keyed(p: Seq<Push>) -> bool { forall|j: int| 0 <= j < p.len() ==> (#[trigger] p[j]).key() is Some }
pub open spec fn broken(r: Seq<Rd>, d: IODataWrapper) -> bool { true }
#[verifier::spinoff_prover]
pub proof fn lemma_broke(p0: Seq<Push>, spy: Option<Sender<SpyMessage>>, w0: WV, r: Seq<Rd>, pk: Seq<Push>, wk: WV, pull: Pull, m: MotionNotifications, e: MotionError, pull1: Pull, p1: Seq<Push>, w1: WV)
    requires
        did(p0, spy, w0, r, pk, wk), pull is Receiver, m.rd() is None, m.wr() is None, keyed(p0),
        (e is ReadIOError && pull.jn() == Some(e->ReadIOError_0) && p1 == pk && only_read(pull, wk, pull1, w1))
            || exists|data: IODataWrapper, wr: WV, n: int| #[trigger] at(data, wr, n) && worker_err(pull, pk, wk, e, data, wr, n, pull1, p1, w1) && !(e is MonitorReadError) && !(e is MonitorWriteError),
    ensures exists|r: Seq<Rd>, d: IODataWrapper| #[trigger] broken(r, d) && broke(p0, w0, r, d, e, w1),
{
    assert forall|j: int| 0 <= j < p0.len() implies (forall|x: WV| #[trigger] pk[j].hist(x) == (#[trigger] p0[j]).hist(x)) by { assert(pk[j].same(p0[j])); assert(p0[j].key() is Some); reveal(Push::hist); }
    if e is ReadIOError {
        lemma_hists_same_log(p0, wk, w1);
        assert(broken(r, IODataWrapper::Finished));
        assert forall|j: int| 0 <= j < p0.len() implies wrote_upto(#[trigger] p0[j], p0[j].hist(w0), dat(r), IODataWrapper::Finished, p0[j].hist(w1)) by { assert(pk[j].hist(wk) == p0[j].hist(wk)); }
        assert(broke(p0, w0, r, IODataWrapper::Finished, e, w1));
    } else {
        let (data, wr, n) = choose|data: IODataWrapper, wr: WV, n: int| #[trigger] at(data, wr, n) && worker_err(pull, pk, wk, e, data, wr, n, pull1, p1, w1) && !(e is MonitorReadError) && !(e is MonitorWriteError);
        lemma_hists_same_log(pk, wk, wr);
        assert(broken(r, data));
        assert forall|j: int| 0 <= j < p0.len() implies wrote_upto(#[trigger] p0[j], p0[j].hist(w0), dat(r), data, p0[j].hist(w1)) by {
            assert(pk[j].same(p0[j]));
            let h = pk[j].hist(wk);
            assert(wrote(p0[j], p0[j].hist(w0), dat(r), h));
            if j < n { assert(delivered(pk[j], pk[j].hist(wr), data, p1[j], p1[j].hist(w1))); assert(p1[j].hist(w1) == p0[j].hist(w1)) by { reveal(Push::hist); } if data is IOData && !pk[j].is_none() { assert(p1[j].hist(w1).drop_last() =~= h); } }
            else if j == n && !(e is SpyWriteError) { assert(p1[j].hist(w1) == p0[j].hist(w1)) by { reveal(Push::hist); } assert(p1[j].hist(w1).drop_last() =~= h); }
            else { assert(pk[j].hist(w1) == h); }
        }
        if e is OutputClosed {
            assert(pk[n].same(p0[n])); assert(p1[n].hist(w1) == p0[n].hist(w1)) by { reveal(Push::hist); }
            assert(p0[n].hist(w1).last() == msg_att(data, Res::Closed));
        }
        assert(broke(p0, w0, r, data, e, w1));
    }
}
pub proof fn lemma_reads_prefix(p: Seq<Pull>, ds: Seq<IODataWrapper>, es: Seq<IODataWrapper>, n: int)
    requires forall|i: int| 0 <= i < n ==> ds[i] == es[i]
    ensures reads_of(p, ds, n) == reads_of(p, es, n)
    decreases n
{ if n > 0 { lemma_reads_prefix(p, ds, es, n - 1); } }
pub proof fn lemma_refused_grew(p0: Seq<Push>, w0: WV, d: IODataWrapper, m: int, pk: Seq<Push>, wk: WV, p1: Seq<Push>, w1: WV)
    requires 0 <= m, pk.len() == p0.len(), forall|j: int| 0 <= j < p0.len() ==> grew(#[trigger] pk[j].hist(wk), p1[j].hist(w1)),
        forall|j: int| 0 <= j < p0.len() ==> (#[trigger] pk[j]).hist(wk).len() > p0[j].hist(w0).len() + m,
    ensures all_refused(p0, w0, d, m, pk, wk) == all_refused(p0, w0, d, m, p1, w1)
{
    assert forall|j: int| 0 <= j < p0.len() implies refused_at(#[trigger] p0[j], pk[j].hist(wk), d, p0[j].hist(w0).len() + m) == refused_at(p0[j], p1[j].hist(w1), d, p0[j].hist(w0).len() + m) by {
        let a = pk[j].hist(wk); let b = p1[j].hist(w1); let n = p0[j].hist(w0).len() + m;
        assert(b.take(a.len() as int)[n] == b[n]);
    }
}
pub proof fn lemma_dat_count(p: Seq<Pull>, ds: Seq<IODataWrapper>, i: int, n: int)
    requires 0 <= i < n <= ds.len(), ds[i] is IOData
    ensures dat(reads_of(p, ds, i)).len() < dat(reads_of(p, ds, n)).len()
    decreases n
{
    let r = reads_of(p, ds, n - 1);
    assert(reads_of(p, ds, n) == push1(r, pkey(p[n - 1]), ds[n - 1]));
    if !(ds[n - 1] is Skipped) { assert(push1(r, pkey(p[n - 1]), ds[n - 1]).drop_last() =~= r); }
    if i < n - 1 { lemma_dat_count(p, ds, i, n - 1); }
}
/// one more input of the group asked
#[verifier::spinoff_prover]
pub proof fn lemma_pass_step(ps: Seq<Pull>, p0: Seq<Push>, spy: Option<Sender<SpyMessage>>, w0: WV, ds: Seq<IODataWrapper>, n: int, f0: Seq<usize>, pk: Seq<Push>, wk: WV,
    m: MotionNotifications, res: MotionWorkerResult, data: IODataWrapper, wr: WV, pull1: Pull, p1: Seq<Push>, w1: WV, f1: Seq<usize>)
    requires
        inputs_ok(ps), keyed(p0), 0 <= n < ps.len() <= usize::MAX, pass_ok(ps, p0, spy, w0, ds, n, f0, pk, wk), m.rd() is None, m.wr() is None,
        worker_ok(ps[n], m, pk, spy, wk, res, data, wr, pull1, p1, w1),
        f1 == if res.finished { f0.push(n as usize) } else { f0 },
    ensures pass_ok(ps, p0, spy, w0, ds.push(data), n + 1, f1, p1, w1), pull1 == ps[n], skips(ds.push(data)) == skips(ds) + if data is Skipped { 1nat } else { 0 },
        res.read == !(data is Skipped), w1.steps < 0x4000_0000_0000_0000,
        reads_of(ps, ds.push(data), n + 1).len() == reads_of(ps, ds, n).len() + if data is Skipped { 0int } else { 1 },
{
    let es = ds.push(data);
    let r = reads_of(ps, ds, n);
    assert(ps[n] is Receiver);
    lemma_did_step(p0, spy, w0, r, pk, wk, ps[n], m, res, data, wr, pull1, p1, w1);
    lemma_reads_prefix(ps, ds, es, n);
    assert(es.drop_last() =~= ds);
    assert(reads_of(ps, es, n + 1) == push1(r, pkey(ps[n]), data));
    assert forall|i: int| 0 <= i < n + 1 implies w1.idles(pkey(#[trigger] ps[i])) == w0.idles(pkey(ps[i])) + (if es[i] is Skipped { 1int } else { 0 }) by {
        if i < n { assert(pkey(ps[i]) != pkey(ps[n])); }
        else { assert forall|j: int| 0 <= j < n implies pkey(#[trigger] ps[j]) != pkey(ps[n]) by { } }
    }
    assert forall|k: Key| (forall|i: int| 0 <= i < n + 1 ==> pkey(#[trigger] ps[i]) != k) implies #[trigger] w1.idles(k) == w0.idles(k) by {
        assert(pkey(ps[n]) != k);
        assert forall|i: int| 0 <= i < n implies pkey(#[trigger] ps[i]) != k by { }
    }
    // the set of inputs that are done
    assert forall|i: int| 0 <= i < n implies fin(p0, w0, ps, es, i, p1, w1) == #[trigger] fin(p0, w0, ps, ds, i, pk, wk) by {
        lemma_reads_prefix(ps, ds, es, i);
        if ds[i] is IOData {
            let mm = dat(reads_of(ps, ds, i)).len() as int;
            lemma_dat_count(ps, ds, i, n);
            assert forall|j: int| 0 <= j < p0.len() implies (#[trigger] pk[j]).hist(wk).len() > p0[j].hist(w0).len() + mm by {
                assert(wrote(p0[j], p0[j].hist(w0), dat(r), pk[j].hist(wk)));
                lemma_key_kind(p0[j]); assert(p0[j].key() is Some);
            }
            lemma_refused_grew(p0, w0, ds[i], mm, pk, wk, p1, w1);
        }
    }
    assert(data is Skipped ==> !fin(p0, w0, ps, es, n, p1, w1));
    assert(res.finished == fin(p0, w0, ps, es, n, p1, w1));
    assert forall|i: int| 0 <= i < f1.len() implies fin(p0, w0, ps, es, #[trigger] f1[i] as int, p1, w1) by {
        if i < f0.len() { assert(f0[i] < n); assert(fin(p0, w0, ps, ds, f0[i] as int, pk, wk)); }
    }
    assert forall|i: int| 0 <= i < n + 1 && fin(p0, w0, ps, es, i, p1, w1) implies #[trigger] f1.contains(i as usize) by {
        if i < n { assert(fin(p0, w0, ps, ds, i, pk, wk)); assert(f0.contains(i as usize)); let q = choose|q: int| 0 <= q < f0.len() && f0[q] == i as usize; assert(f1[q] == i as usize); }
        else { assert(f1[f0.len() as int] == n as usize); }
    }
}
//@item src/junction.rs :: fn junction_motion_worker [eff]
async fn junction_motion_worker(pulls: &mut Vec<Pull>, pushs: &mut Vec<Push>, spy: &mut Option<Sender<SpyMessage>>) -> /*@ (res: @*/ MotionResult<MotionOneResult> /*@ )
    requires inputs_ok(old(pulls)@), keyed(old(pushs)@), distinct(old(pushs)@),
    ensures *final(spy) == *old(spy),
        match res {
            Ok(res) => final(pulls)@ == old(pulls)@ && tame(old(w).v(), final(w).v()) && res.read_from@.len() + res.skipped@.len() == old(pulls)@.len()
                && exists|ds: Seq<IODataWrapper>| #[trigger] pass(ds) && res.skipped@.len() == skips(ds) && res.read_from@.len() == reads_of(old(pulls)@, ds, old(pulls)@.len() as int).len()
                    && pass_ok(old(pulls)@, old(pushs)@, *old(spy), old(w).v(), ds, old(pulls)@.len() as int, res.finished_pulls@, final(pushs)@, final(w).v()),
            Err(e) => exists|r: Seq<Rd>, d: IODataWrapper| #[trigger] broken(r, d) && broke(old(pushs)@, old(w).v(), r, d, e, final(w).v()),
        }, @*/ {

    /*@ let ghost ps = pulls@; let ghost p0 = pushs@; let ghost w0 = w.v(); let ghost mut ds: Seq<IODataWrapper> = Seq::empty(); let ghost sp = *spy;
        proof { lemma_did_none(p0, sp, w0); assert(pulls.len() == ps.len()); } @*/
    let mut finished_pulls /*@: Vec<usize>@*/ = vec![];
    let mut read_from /*@: Vec<usize>@*/ = vec![];
    let mut skipped: Vec<usize> = vec![];
    let mut notifications = MotionNotifications::empty();
    for (pull_index, pull) in /*@ it: @*/ pulls.iter_mut().enumerate()
        /*@ invariant
            it.seq().len() == ps.len(), n__pull_index == it.index(), ps.len() <= usize::MAX,
            forall|i: int| #![trigger ps[i]] #![trigger it.seq()[i]] 0 <= i < ps.len() ==> *it.seq()[i] == ps[i],
            forall|i: int| 0 <= i < it.index() ==> *final(it.seq()[i]) == #[trigger] ps[i],
            pass_ok(ps, p0, sp, w0, ds, it.index() as int, finished_pulls@, pushs@, w.v()), *spy == sp,
            read_from@.len() + skipped@.len() == it.index(), skipped@.len() == skips(ds), read_from@.len() == reads_of(ps, ds, it.index() as int).len(),
            tame(w0, w.v()), distinct(pushs@), notifications.rd() is None, notifications.wr() is None, @*/
    {

        // If we have finished reading that particular pull
        if finished_pulls.contains(&pull_index) { continue; }

        /*@ let ghost n = it.index() as int; let ghost pk = pushs@; let ghost wk = w.v(); let ghost f0 = finished_pulls@; let ghost mm = notifications;
            proof { assert(*pull == ps[n]); assert(ps[n] is Receiver); } @*/
        let r = /*! { let res0 = !*/ motion_worker(pull, &mut notifications, pushs, spy, true).await /*! ; !*/ /*@ proof {
            if res0 is Err { lemma_broke(p0, sp, w0, reads_of(ps, ds, n), pk, wk, ps[n], mm, res0->Err_0, *pull, pushs@, w.v()); }
        } @*/ /*! res0 !*/ ? /*! } !*/ ;
        /*@ let ghost (data, wr) = choose|data: IODataWrapper, wr: WV| #[trigger] at(data, wr, 0) && worker_ok(ps[n], mm, pk, sp, wk, r, data, wr, *pull, pushs@, w.v());
            proof {
                lemma_pass_step(ps, p0, sp, w0, ds, n, f0, pk, wk, mm, r, data, wr, *pull, pushs@, w.v(), if r.finished { f0.push(n as usize) } else { f0 });
                ds = ds.push(data);
                assert forall|i: int, j: int| 0 <= i < j < pushs@.len() && (#[trigger] pushs@[i]).key() is Some implies pushs@[i].key() != (#[trigger] pushs@[j]).key() by { assert(pushs@[i].same(p0[i]) && pushs@[j].same(p0[j])); assert(pk[i].same(p0[i]) && pk[j].same(p0[j])); }
            } @*/
        if !r.read {
            skipped.push(pull_index);
        } else {
            read_from.push(pull_index);
        }
        if r.finished { finished_pulls.push(pull_index); continue; }

    }
    /*@ proof { assert(pulls@ =~= ps); assert(pass(ds)); } @*/
    MotionResult::Ok(MotionOneResult { finished_pulls, finished_pushs: vec![], read_from, skipped })
}
//@end

// ---- several reads one after the other -----------------------------------------------------------
pub proof fn lemma_sel_add(a: Seq<Rd>, b: Seq<Rd>, k: Key)
    ensures sel(a + b, k) == sel(a, k) + sel(b, k)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(sel(a, k) + Seq::<Payload>::empty() =~= sel(a, k)); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_sel_add(a, b.drop_last(), k); assert(sel(a + b, k) =~= sel(a, k) + sel(b, k)); }
}
pub proof fn lemma_dat_add(a: Seq<Rd>, b: Seq<Rd>)
    ensures dat(a + b) == dat(a) + dat(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(dat(a) + Seq::<IODataWrapper>::empty() =~= dat(a)); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_dat_add(a, b.drop_last()); assert(dat(a + b) =~= dat(a) + dat(b)); }
}
pub proof fn lemma_spy_reads_add(h: Seq<Att>, spy: Option<Sender<SpyMessage>>, k: int, p: Seq<Push>, a: Seq<Rd>, b: Seq<Rd>)
    ensures spy_reads(h, spy, k, p, a + b) == spy_reads(spy_reads(h, spy, k, p, a), spy, k, p, b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_spy_reads_add(h, spy, k, p, a, b.drop_last()); }
}
pub proof fn lemma_spy_reads_same(h: Seq<Att>, spy: Option<Sender<SpyMessage>>, k: int, p: Seq<Push>, q: Seq<Push>, r: Seq<Rd>)
    requires same_all(p, q)
    ensures spy_reads(h, spy, k, p, r) == spy_reads(h, spy, k, q, r)
    decreases r.len()
{
    if r.len() > 0 {
        lemma_spy_reads_same(h, spy, k, p, q, r.drop_last());
        lemma_spied_same(spy_reads(h, spy, k, p, r.drop_last()), spy, k, p, q, r.last().d, p.len() as int);
    }
}
pub proof fn lemma_wrote_add(p: Push, q: Push, h0: Seq<Att>, a: Seq<IODataWrapper>, hk: Seq<Att>, b: Seq<IODataWrapper>, h1: Seq<Att>)
    requires q.same(p), wrote(p, h0, a, hk), wrote(q, hk, b, h1)
    ensures wrote(p, h0, a + b, h1), wrote(p, hk, b, h1)
{
    if !p.is_none() {
        assert(h1.take(h0.len() as int) =~= h0) by { assert(h1.take(hk.len() as int).take(h0.len() as int) =~= h1.take(h0.len() as int)); }
        assert forall|i: int| 0 <= i < b.len() implies handed(p, #[trigger] b[i], h1[hk.len() + i]) by { assert(handed(q, b[i], h1[hk.len() + i])); }
        assert forall|i: int| 0 <= i < (a + b).len() implies handed(p, #[trigger] (a + b)[i], h1[h0.len() + i]) by {
            if i < a.len() { assert((a + b)[i] == a[i]); assert(h1.take(hk.len() as int)[h0.len() + i] == hk[h0.len() + i]); }
            else { assert((a + b)[i] == b[i - a.len()]); assert(handed(q, b[i - a.len()], h1[hk.len() + (i - a.len())])); }
        }
    }
}
pub proof fn lemma_wrote_grew(p: Push, h0: Seq<Att>, a: Seq<IODataWrapper>, h1: Seq<Att>)
    requires wrote(p, h0, a, h1)
    ensures grew(h0, h1)
{ }
#[verifier::spinoff_prover]
pub proof fn lemma_did_seq(p0: Seq<Push>, spy: Option<Sender<SpyMessage>>, w0: WV, a: Seq<Rd>, pk: Seq<Push>, wk: WV, b: Seq<Rd>, p1: Seq<Push>, w1: WV)
    requires did(p0, spy, w0, a, pk, wk), did(pk, spy, wk, b, p1, w1)
    ensures did(p0, spy, w0, a + b, p1, w1), dat(a + b) == dat(a) + dat(b), (a + b).len() == a.len() + b.len(),
        forall|j: int| 0 <= j < p0.len() ==> grew(#[trigger] pk[j].hist(wk), p1[j].hist(w1)),
{
    lemma_dat_add(a, b);
    assert forall|k: Key| #[trigger] w1.recvd(k) == w0.recvd(k) + sel(a + b, k) by {
        lemma_sel_add(a, b, k);
        assert(wk.recvd(k) == w0.recvd(k) + sel(a, k));
        assert((w0.recvd(k) + sel(a, k)) + sel(b, k) =~= w0.recvd(k) + (sel(a, k) + sel(b, k)));
    }
    assert forall|j: int| 0 <= j < p0.len() implies p1[j].same(p0[j]) && wrote(#[trigger] p0[j], p0[j].hist(w0), dat(a + b), p1[j].hist(w1)) && grew(pk[j].hist(wk), p1[j].hist(w1)) by {
        assert(pk[j].same(p0[j])); assert(p1[j].same(pk[j]));
        lemma_wrote_add(p0[j], pk[j], p0[j].hist(w0), dat(a), pk[j].hist(wk), dat(b), p1[j].hist(w1));
        lemma_wrote_grew(pk[j], pk[j].hist(wk), dat(b), p1[j].hist(w1));
    }
    assert forall|k: int| #[trigger] w1.hist(Key::Spy(k)) == spy_reads(w0.hist(Key::Spy(k)), spy, k, p0, a + b) by {
        lemma_spy_reads_add(w0.hist(Key::Spy(k)), spy, k, p0, a, b);
        assert(wk.hist(Key::Spy(k)) == spy_reads(w0.hist(Key::Spy(k)), spy, k, p0, a));
        lemma_spy_reads_same(wk.hist(Key::Spy(k)), spy, k, p0, pk, b);
    }
    assert forall|k: int| #[trigger] w1.hist(Key::Mon(k)) == w0.hist(Key::Mon(k)) by { assert(wk.hist(Key::Mon(k)) == w0.hist(Key::Mon(k))); }
    assert forall|k: Key| !(k is Mon) && !(k is Spy) && (forall|i: int| 0 <= i < p0.len() ==> (#[trigger] p0[i]).key() != Some(k)) implies #[trigger] w1.hist(k) == w0.hist(k) by {
        assert forall|i: int| 0 <= i < pk.len() implies (#[trigger] pk[i]).key() != Some(k) by { assert(pk[i].same(p0[i])); assert(p0[i].key() != Some(k)); }
        assert(wk.hist(k) == w0.hist(k));
    }
    assert forall|i: int| 0 <= i < (a + b).len() && (#[trigger] (a + b)[i]).d is Finished implies w1.ended.contains((a + b)[i].k) by {
        if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); }
    }
}
#[verifier::spinoff_prover]
pub proof fn lemma_broke_seq(p0: Seq<Push>, spy: Option<Sender<SpyMessage>>, w0: WV, a: Seq<Rd>, pk: Seq<Push>, wk: WV, e: MotionError, w1: WV)
    requires did(p0, spy, w0, a, pk, wk), keyed(p0), exists|r: Seq<Rd>, d: IODataWrapper| #[trigger] broken(r, d) && broke(pk, wk, r, d, e, w1)
    ensures exists|r: Seq<Rd>, d: IODataWrapper| #[trigger] broken(r, d) && broke(p0, w0, r, d, e, w1)
{
    let (r, d) = choose|r: Seq<Rd>, d: IODataWrapper| #[trigger] broken(r, d) && broke(pk, wk, r, d, e, w1);
    lemma_dat_add(a, r);
    assert(broken(a + r, d));
    assert forall|j: int| 0 <= j < p0.len() implies (#[trigger] pk[j]).hist(w1) == p0[j].hist(w1) && wrote_upto(p0[j], p0[j].hist(w0), dat(a + r), d, p0[j].hist(w1)) by {
        assert(pk[j].same(p0[j])); assert(p0[j].key() is Some);
        assert(pk[j].hist(w1) == p0[j].hist(w1)) by { reveal(Push::hist); }
        let h = pk[j].hist(w1); let hk = pk[j].hist(wk);
        assert(wrote_upto(pk[j], hk, dat(r), d, h));
        if wrote(pk[j], hk, dat(r), h) { lemma_wrote_add(p0[j], pk[j], p0[j].hist(w0), dat(a), hk, dat(r), h); }
        else { lemma_wrote_add(p0[j], pk[j], p0[j].hist(w0), dat(a), hk, dat(r), h.drop_last()); }
    }
    assert forall|j: int| 0 <= j < p0.len() implies wrote_upto(#[trigger] p0[j], p0[j].hist(w0), dat(a + r), d, p0[j].hist(w1)) by { assert(pk[j].hist(w1) == p0[j].hist(w1)); }
    if e is OutputClosed {
        let j = choose|j: int| 0 <= j < pk.len() && (#[trigger] pk[j]).jn() == Some(e->OutputClosed_0) && pk[j].policy() is Terminate && pk[j].hist(w1).len() > 0 && pk[j].hist(w1).last() == msg_att(d, Res::Closed);
        assert(pk[j].same(p0[j])); assert(pk[j].hist(w1) == p0[j].hist(w1));
    }
    assert(broke(p0, w0, a + r, d, e, w1));
}

// ---- groups of inputs of one priority --------------------------------------------------------------
pub open spec fn groups_ok(g: Seq<Vec<Pull>>) -> bool {
    &&& forall|a: int, i: int| 0 <= a < g.len() && 0 <= i < g[a]@.len() ==> (#[trigger] g[a]@[i]) is Receiver
    &&& forall|a: int, i: int, b: int, j: int| 0 <= a < g.len() && 0 <= i < g[a]@.len() && 0 <= b < g.len() && 0 <= j < g[b]@.len() && (a != b || i != j)
            ==> pkey(#[trigger] g[a]@[i]) != pkey(#[trigger] g[b]@[j])
}
/// the indices below n which are not in f
pub open spec fn left(n: int, f: Seq<usize>) -> Seq<int> decreases n {
    if n <= 0 { Seq::empty() } else if f.contains((n - 1) as usize) { left(n - 1, f) } else { left(n - 1, f).push(n - 1) }
}
pub open spec fn kept(v: Seq<Pull>, f: Seq<usize>) -> Seq<Pull> { left(v.len() as int, f).map_values(|i: int| v[i]) }
pub proof fn lemma_left(n: int, f: Seq<usize>)
    requires 0 <= n <= usize::MAX
    ensures left(n, f).len() <= n, forall|i: int| 0 <= i < left(n, f).len() ==> 0 <= #[trigger] left(n, f)[i] < n && !f.contains(left(n, f)[i] as usize),
        forall|i: int, j: int| 0 <= i < j < left(n, f).len() ==> left(n, f)[i] < left(n, f)[j],
        forall|x: int| 0 <= x < n && !f.contains(x as usize) ==> #[trigger] left(n, f).contains(x),
    decreases n
{
    if n > 0 {
        lemma_left(n - 1, f);
        assert forall|x: int| 0 <= x < n && !f.contains(x as usize) implies #[trigger] left(n, f).contains(x) by {
            if x < n - 1 { assert(left(n - 1, f).contains(x)); let q = choose|q: int| 0 <= q < left(n - 1, f).len() && #[trigger] left(n - 1, f)[q] == x; assert(left(n, f)[q] == x); }
            else { assert(left(n, f)[left(n - 1, f).len() as int] == x); }
        }
    }
}
pub proof fn lemma_left_none(n: int, f: Seq<usize>)
    requires 0 <= n, f.len() == 0
    ensures left(n, f) =~= Seq::new(n as nat, |i: int| i)
    decreases n
{ if n > 0 { lemma_left_none(n - 1, f); } }
/// taking out l as well, when only larger indices were taken out before
pub proof fn lemma_left_more(n: int, f: Seq<usize>, l: int, f1: Seq<usize>)
    requires 0 <= l, n <= usize::MAX, forall|i: int| 0 <= i < f.len() ==> #[trigger] f[i] > l, forall|x: usize| #[trigger] f1.contains(x) <==> (f.contains(x) || x == l), l <= usize::MAX,
    ensures 0 <= n <= l ==> left(n, f1) == left(n, f) && left(n, f) =~= Seq::new(n as nat, |i: int| i),
        n > l ==> left(n, f).len() > l && left(n, f)[l] == l && left(n, f1) =~= left(n, f).remove(l),
    decreases n
{
    if n > 0 {
        lemma_left_more(n - 1, f, l, f1);
        assert(f1.contains((n - 1) as usize) <==> (f.contains((n - 1) as usize) || n - 1 == l));
        assert(!f.contains(l as usize));
        if n <= l { assert(!f.contains((n - 1) as usize)); }
        if n - 1 == l { assert(left(n, f).remove(l) =~= left(n - 1, f)); }
        if n - 1 > l && !f.contains((n - 1) as usize) { assert(left(n - 1, f).push(n - 1).remove(l) =~= left(n - 1, f).remove(l).push(n - 1)); }
    }
}
/// the groups after the inputs f of group g are done: emptied groups disappear, everything else stays, in order
pub open spec fn remaining(g0: Seq<Vec<Pull>>, g: int, f: Seq<usize>, a: int) -> Seq<Pull> { if a == g { kept(g0[a]@, f) } else { g0[a]@ } }
pub open spec fn rises_i(v: Seq<int>, n: int) -> bool { (forall|i: int| 0 <= i < v.len() ==> 0 <= #[trigger] v[i] < n) && forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] v[i] < #[trigger] v[j] }
pub open spec fn survivors(g0: Seq<Vec<Pull>>, g: int, f: Seq<usize>, g1: Seq<Vec<Pull>>, m: Seq<int>) -> bool {
    &&& m.len() == g1.len() && rises_i(m, g0.len() as int)
    &&& forall|x: int| 0 <= x < g1.len() ==> (#[trigger] g1[x])@ == remaining(g0, g, f, m[x]) && g1[x]@.len() > 0
    &&& forall|a: int| 0 <= a < g0.len() && remaining(g0, g, f, a).len() > 0 ==> #[trigger] m.contains(a)
}
pub open spec fn surv(m: Seq<int>) -> bool { true }
pub open spec fn fidx(v: Seq<Vec<Pull>>) -> Seq<int> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else if v.last()@.len() > 0 { fidx(v.drop_last()).push(v.len() - 1) } else { fidx(v.drop_last()) }
}
pub proof fn lemma_filter_idx(v: Seq<Vec<Pull>>)
    ensures ({ let f = v.filter(nonempty()); let m = fidx(v);
        &&& m.len() == f.len() && rises_i(m, v.len() as int)
        &&& forall|x: int| 0 <= x < f.len() ==> (#[trigger] f[x]) == v[m[x]] && f[x]@.len() > 0
        &&& forall|a: int| 0 <= a < v.len() && v[a]@.len() > 0 ==> #[trigger] m.contains(a) })
    decreases v.len()
{
    reveal(Seq::filter);
    if v.len() > 0 {
        let u = v.drop_last();
        lemma_filter_idx(u);
        let f = v.filter(nonempty()); let m = fidx(v);
        assert forall|a: int| 0 <= a < v.len() && v[a]@.len() > 0 implies #[trigger] m.contains(a) by {
            if a < u.len() { assert(u[a] == v[a]); assert(fidx(u).contains(a)); let q = choose|q: int| 0 <= q < fidx(u).len() && #[trigger] fidx(u)[q] == a; assert(m[q] == a); }
            else { assert(m[m.len() - 1] == a); }
        }
    }
}
/// where the i-th input of the new group x was before
pub open spec fn origin(g0: Seq<Vec<Pull>>, g: int, f: Seq<usize>, m: Seq<int>, x: int, i: int) -> int { if m[x] == g { left(g0[g]@.len() as int, f)[i] } else { i } }
pub open spec fn from(g0: Seq<Vec<Pull>>, g: int, f: Seq<usize>, m: Seq<int>, x: int, i: int, p: Pull) -> bool {
    let i0 = origin(g0, g, f, m, x, i);
    0 <= m[x] < g0.len() && 0 <= i0 < g0[m[x]]@.len() && p == g0[m[x]]@[i0] && (m[x] == g ==> !f.contains(i0 as usize))
}
pub proof fn lemma_survivors_ok(g0: Seq<Vec<Pull>>, g: int, f: Seq<usize>, g1: Seq<Vec<Pull>>, m: Seq<int>)
    requires groups_ok(g0), survivors(g0, g, f, g1, m), 0 <= g < g0.len() ==> g0[g]@.len() <= usize::MAX
    ensures groups_ok(g1),
        forall|x: int, i: int| 0 <= x < g1.len() && 0 <= i < g1[x]@.len() ==> from(g0, g, f, m, x, i, #[trigger] g1[x]@[i]),
{
    if 0 <= g < g0.len() { lemma_left(g0[g]@.len() as int, f); }
    let o = |x: int, i: int| origin(g0, g, f, m, x, i);
    assert forall|x: int, i: int| 0 <= x < g1.len() && 0 <= i < g1[x]@.len() implies 0 <= m[x] < g0.len() && 0 <= o(x, i) < g0[m[x]]@.len() && (#[trigger] g1[x]@[i]) == g0[m[x]]@[o(x, i)] && from(g0, g, f, m, x, i, g1[x]@[i]) by {
        assert(g1[x]@ == remaining(g0, g, f, m[x]));
    }
    assert forall|a: int, i: int, b: int, j: int| 0 <= a < g1.len() && 0 <= i < g1[a]@.len() && 0 <= b < g1.len() && 0 <= j < g1[b]@.len() && (a != b || i != j)
            implies pkey(#[trigger] g1[a]@[i]) != pkey(#[trigger] g1[b]@[j]) by {
        assert(g1[a]@[i] == g0[m[a]]@[o(a, i)]);
        assert(g1[b]@[j] == g0[m[b]]@[o(b, j)]);
        if a != b { assert(m[a] != m[b]); } else { assert(o(a, i) != o(b, j)); }
    }
}

// ---- one turn of the junction ----------------------------------------------------------------------
pub open spec fn outs_ok(p: Seq<Push>) -> bool { keyed(p) && distinct(p) && forall|j: int| 0 <= j < p.len() ==> (#[trigger] p[j]).is_chan() }
pub open spec fn same_views(g0: Seq<Vec<Pull>>, g1: Seq<Vec<Pull>>) -> bool { g1.len() == g0.len() && forall|a: int| 0 <= a < g0.len() ==> (#[trigger] g1[a])@ == g0[a]@ }
pub open spec fn in_groups(g: Seq<Vec<Pull>>, k: Key, n: int) -> bool { exists|a: int, i: int| 0 <= a < n && 0 <= i < g[a]@.len() && pkey(#[trigger] g[a]@[i]) == k }
/// the inputs of the first n groups were asked once each and had nothing
pub open spec fn nothing(g0: Seq<Vec<Pull>>, w0: WV, n: int, w1: WV) -> bool {
    forall|a: int, i: int| 0 <= a < n && 0 <= i < g0[a]@.len() ==> w1.idles(pkey(#[trigger] g0[a]@[i])) == w0.idles(pkey(g0[a]@[i])) + 1
}
/// the reads of the turn: those of group g (none if there is no such group)
pub open spec fn turn_reads(g0: Seq<Vec<Pull>>, g: int, ds: Seq<IODataWrapper>) -> Seq<Rd> {
    if g < g0.len() { reads_of(g0[g]@, ds, g0[g]@.len() as int) } else { Seq::empty() }
}
/// group g is the first to have anything (or there is none and g is the number of groups); its inputs gave ds, those of fs are done;
/// the groups before it were asked and had nothing, the groups behind it were not asked
pub open spec fn turn(g0: Seq<Vec<Pull>>, p0: Seq<Push>, spy: Option<Sender<SpyMessage>>, w0: WV, g: int, ds: Seq<IODataWrapper>, fs: Seq<usize>, p1: Seq<Push>, w1: WV) -> bool {
    &&& 0 <= g <= g0.len()
    &&& nothing(g0, w0, g, w1)
    &&& did(p0, spy, w0, turn_reads(g0, g, ds), p1, w1)
    &&& g < g0.len() ==> {
        let n = g0[g]@.len() as int;
        &&& ds.len() == n && skips(ds) < n && rises(fs, n) && n <= usize::MAX
        &&& forall|i: int| 0 <= i < n ==> w1.idles(pkey(#[trigger] g0[g]@[i])) == w0.idles(pkey(g0[g]@[i])) + (if ds[i] is Skipped { 1int } else { 0 })
        &&& forall|i: int| 0 <= i < fs.len() ==> fin(p0, w0, g0[g]@, ds, #[trigger] fs[i] as int, p1, w1)
        &&& forall|i: int| 0 <= i < n && fin(p0, w0, g0[g]@, ds, i, p1, w1) ==> #[trigger] fs.contains(i as usize)
    }
    &&& g == g0.len() ==> fs.len() == 0
    &&& forall|k: Key| !in_groups(g0, k, if g < g0.len() { g + 1 } else { g }) ==> #[trigger] w1.idles(k) == w0.idles(k)
}
pub open spec fn turned(g: int, ds: Seq<IODataWrapper>, fs: Seq<usize>, m: Seq<int>) -> bool { true }
pub open spec fn closed_all(p: Seq<Push>, w: WV) -> bool { forall|j: int| 0 <= j < p.len() ==> w.closed.contains((#[trigger] p[j]).key()->0) }
/// the pause behind a turn: none and a fresh start after a read, growing while there is nothing to read
pub open spec fn paused(n0: nat, w0: WV, read: bool, n1: nat, w1: WV) -> bool {
    if read { n1 == 0 && w1.waits == w0.waits } else { n1 == grown(n0) && w1.waits == w0.waits.push(n0 * n0) }
}
pub proof fn lemma_groups_view(g0: Seq<Vec<Pull>>, g1: Seq<Vec<Pull>>)
    requires groups_ok(g0), same_views(g0, g1)
    ensures groups_ok(g1)
{
    assert forall|a: int, i: int, b: int, j: int| 0 <= a < g1.len() && 0 <= i < g1[a]@.len() && 0 <= b < g1.len() && 0 <= j < g1[b]@.len() && (a != b || i != j)
            implies pkey(#[trigger] g1[a]@[i]) != pkey(#[trigger] g1[b]@[j]) by { assert(g1[a]@[i] == g0[a]@[i]); assert(g1[b]@[j] == g0[b]@[j]); }
    assert forall|a: int, i: int| 0 <= a < g1.len() && 0 <= i < g1[a]@.len() implies (#[trigger] g1[a]@[i]) is Receiver by { assert(g1[a]@[i] == g0[a]@[i]); }
}
pub proof fn lemma_outs_same(p0: Seq<Push>, p1: Seq<Push>)
    requires outs_ok(p0), same_all(p0, p1)
    ensures outs_ok(p1)
{
    assert forall|i: int, j: int| 0 <= i < j < p1.len() && (#[trigger] p1[i]).key() is Some implies p1[i].key() != (#[trigger] p1[j]).key() by { assert(p1[i].same(p0[i])); assert(p1[j].same(p0[j])); }
    assert forall|j: int| 0 <= j < p1.len() implies (#[trigger] p1[j]).key() is Some && p1[j].is_chan() by { assert(p1[j].same(p0[j])); assert(p0[j].is_chan()); assert(p0[j].key() is Some); }
}
/// all inputs of a group had nothing
pub proof fn lemma_all_skipped(ps: Seq<Pull>, ds: Seq<IODataWrapper>, n: int)
    requires 0 <= n <= ds.len()
    ensures skips(ds.take(n)) <= n, skips(ds.take(n)) == n ==> reads_of(ps, ds, n) =~= Seq::empty() && forall|i: int| 0 <= i < n ==> (#[trigger] ds[i]) is Skipped,
        skips(ds.take(n)) < n ==> reads_of(ps, ds, n).len() > 0
    decreases n
{
    if n > 0 { lemma_all_skipped(ps, ds, n - 1); assert(ds.take(n).drop_last() =~= ds.take(n - 1)); assert(ds.take(n).last() == ds[n - 1]); }
}
/// a group that had nothing: nothing but the polls happened
#[verifier::spinoff_prover]
pub proof fn lemma_idle_group(g0: Seq<Vec<Pull>>, p0: Seq<Push>, spy: Option<Sender<SpyMessage>>, w0: WV, n: int, pk: Seq<Push>, wk: WV, ds: Seq<IODataWrapper>, fs: Seq<usize>, p1: Seq<Push>, w1: WV)
    requires
        groups_ok(g0), 0 <= n < g0.len(), did(p0, spy, w0, Seq::empty(), pk, wk), nothing(g0, w0, n, wk), forall|k: Key| !in_groups(g0, k, n) ==> #[trigger] wk.idles(k) == w0.idles(k),
        wk.waits == w0.waits, wk.closed == w0.closed, g0[n]@.len() <= usize::MAX,
        pass_ok(g0[n]@, pk, spy, wk, ds, g0[n]@.len() as int, fs, p1, w1),
    ensures
        w1.waits == w0.waits, w1.closed == w0.closed,
        skips(ds) <= g0[n]@.len(),
        skips(ds) == g0[n]@.len() ==> fs.len() == 0 && reads_of(g0[n]@, ds, g0[n]@.len() as int).len() == 0 && did(p0, spy, w0, Seq::empty(), p1, w1) && nothing(g0, w0, n + 1, w1) && forall|k: Key| !in_groups(g0, k, n + 1) ==> #[trigger] w1.idles(k) == w0.idles(k),
        skips(ds) < g0[n]@.len() ==> turn(g0, p0, spy, w0, n, ds, fs, p1, w1),
{
    let ps = g0[n]@;
    let r = reads_of(ps, ds, ps.len() as int);
    assert(ds.take(ps.len() as int) =~= ds);
    lemma_all_skipped(ps, ds, ps.len() as int);
    lemma_did_seq(p0, spy, w0, Seq::empty(), pk, wk, r, p1, w1);
    assert(Seq::<Rd>::empty() + r =~= r);
    // polls
    assert forall|a: int, i: int| 0 <= a < n && 0 <= i < g0[a]@.len() implies w1.idles(pkey(#[trigger] g0[a]@[i])) == w0.idles(pkey(g0[a]@[i])) + 1 by {
        assert forall|j: int| 0 <= j < ps.len() implies pkey(#[trigger] ps[j]) != pkey(g0[a]@[i]) by { assert(ps[j] == g0[n]@[j]); }
        assert(w1.idles(pkey(g0[a]@[i])) == wk.idles(pkey(g0[a]@[i])));
    }
    assert forall|i: int| 0 <= i < ps.len() implies w1.idles(pkey(#[trigger] g0[n]@[i])) == w0.idles(pkey(g0[n]@[i])) + (if ds[i] is Skipped { 1int } else { 0 }) by {
        let k = pkey(g0[n]@[i]);
        assert(w1.idles(pkey(ps[i])) == wk.idles(pkey(ps[i])) + (if ds[i] is Skipped { 1int } else { 0 }));
        assert(!in_groups(g0, k, n)) by { if in_groups(g0, k, n) { let (a, j) = choose|a: int, j: int| 0 <= a < n && 0 <= j < g0[a]@.len() && pkey(#[trigger] g0[a]@[j]) == k; assert(pkey(g0[a]@[j]) != pkey(g0[n]@[i])); } }
    }
    assert forall|k: Key| !in_groups(g0, k, n + 1) implies #[trigger] w1.idles(k) == w0.idles(k) by {
        assert(!in_groups(g0, k, n));
        assert forall|i: int| 0 <= i < ps.len() implies pkey(#[trigger] ps[i]) != k by { assert(ps[i] == g0[n]@[i]); }
    }
    // what counts as done does not depend on the world before the idle polls
    assert forall|i: int| 0 <= i < ps.len() implies #[trigger] fin(pk, wk, ps, ds, i, p1, w1) == fin(p0, w0, ps, ds, i, p1, w1) by {
        let m = dat(reads_of(ps, ds, i)).len() as int;
        assert forall|j: int| 0 <= j < p0.len() implies refused_at(#[trigger] p0[j], p1[j].hist(w1), ds[i], p0[j].hist(w0).len() + m) == refused_at(pk[j], p1[j].hist(w1), ds[i], pk[j].hist(wk).len() + m) by {
            assert(pk[j].same(p0[j])); assert(wrote(p0[j], p0[j].hist(w0), dat(Seq::<Rd>::empty()), pk[j].hist(wk)));
        }
        if all_refused(p0, w0, ds[i], m, p1, w1) { assert forall|j: int| 0 <= j < pk.len() implies refused_at(#[trigger] pk[j], p1[j].hist(w1), ds[i], pk[j].hist(wk).len() + m) by { assert(refused_at(p0[j], p1[j].hist(w1), ds[i], p0[j].hist(w0).len() + m)); } }
        if all_refused(pk, wk, ds[i], m, p1, w1) { assert forall|j: int| 0 <= j < p0.len() implies refused_at(#[trigger] p0[j], p1[j].hist(w1), ds[i], p0[j].hist(w0).len() + m) by { assert(refused_at(pk[j], p1[j].hist(w1), ds[i], pk[j].hist(wk).len() + m)); } }
    }
    if skips(ds) == ps.len() {
        if fs.len() > 0 { assert(fin(pk, wk, ps, ds, fs[0] as int, p1, w1)); assert(fs[0] < ps.len()); assert(ds[fs[0] as int] is Skipped); }
        assert(r =~= Seq::empty());
    } else {
        assert forall|i: int| 0 <= i < fs.len() implies fin(p0, w0, ps, ds, #[trigger] fs[i] as int, p1, w1) by { assert(fs[i] < ps.len()); assert(fin(pk, wk, ps, ds, fs[i] as int, p1, w1)); }
        assert forall|i: int| 0 <= i < ps.len() && fin(p0, w0, ps, ds, i, p1, w1) implies #[trigger] fs.contains(i as usize) by { assert(fin(pk, wk, ps, ds, i, p1, w1)); }
        assert(turn_reads(g0, n, ds) == r);
    }
}
/// the world differs only in what does not concern messages and polls
pub open spec fn still(w0: WV, w1: WV) -> bool { w1 == (WV { closed: w1.closed, waits: w1.waits, ..w0 }) }
pub proof fn lemma_turn_frame(g0: Seq<Vec<Pull>>, p0: Seq<Push>, spy: Option<Sender<SpyMessage>>, w0: WV, g: int, ds: Seq<IODataWrapper>, fs: Seq<usize>, pk: Seq<Push>, wk: WV, p1: Seq<Push>, w1: WV)
    requires turn(g0, p0, spy, w0, g, ds, fs, pk, wk), still(wk, w1), same_all(pk, p1), p1.len() == pk.len(), outs_ok(p0)
    ensures turn(g0, p0, spy, w0, g, ds, fs, p1, w1)
{
    assert forall|j: int| 0 <= j < p0.len() implies (#[trigger] p1[j]).hist(w1) == pk[j].hist(wk) && p1[j].same(p0[j]) by { assert(p1[j].same(pk[j])); assert(pk[j].same(p0[j])); assert(p0[j].key() is Some); reveal(Push::hist); }
    let r = turn_reads(g0, g, ds);
    assert forall|k: Key| #[trigger] w1.recvd(k) == w0.recvd(k) + sel(r, k) by { assert(wk.recvd(k) == w0.recvd(k) + sel(r, k)); }
    assert forall|k: Key| #[trigger] w1.hist(k) == wk.hist(k) by { }
    assert forall|j: int| 0 <= j < p0.len() implies wrote(#[trigger] p0[j], p0[j].hist(w0), dat(r), p1[j].hist(w1)) by { assert(p1[j].hist(w1) == pk[j].hist(wk)); }
    assert(did(p0, spy, w0, r, p1, w1));
    assert forall|k: Key| #[trigger] w1.idles(k) == wk.idles(k) by { }
    if g < g0.len() {
        let ps = g0[g]@;
        assert forall|i: int| 0 <= i < ps.len() implies #[trigger] fin(p0, w0, ps, ds, i, pk, wk) == fin(p0, w0, ps, ds, i, p1, w1) by {
            let m = dat(reads_of(ps, ds, i)).len() as int;
            assert forall|j: int| 0 <= j < p0.len() implies refused_at(#[trigger] p0[j], p1[j].hist(w1), ds[i], p0[j].hist(w0).len() + m) == refused_at(p0[j], pk[j].hist(wk), ds[i], p0[j].hist(w0).len() + m) by { assert(p1[j].hist(w1) == pk[j].hist(wk)); }
        }
        assert forall|i: int| 0 <= i < fs.len() implies fin(p0, w0, ps, ds, #[trigger] fs[i] as int, p1, w1) by { assert(fs[i] < ps.len()); assert(fin(p0, w0, ps, ds, fs[i] as int, pk, wk)); }
        assert forall|i: int| 0 <= i < ps.len() && fin(p0, w0, ps, ds, i, p1, w1) implies #[trigger] fs.contains(i as usize) by { assert(fin(p0, w0, ps, ds, i, pk, wk)); }
    }
}
impl Junction {
    pub closed spec fn outs(&self) -> Seq<Push> { self.stdout@ }
    pub closed spec fn groups(&self) -> Seq<Vec<Pull>> { self.stdin@ }
    pub closed spec fn ins(&self) -> Seq<(Pull, isize)> { self.inputs@ }
    pub closed spec fn size(&self) -> usize { self.stdout_size }
    pub closed spec fn running(&self) -> bool { self.started }
}
pub open spec fn pairs(g: usize, f: Seq<usize>) -> Seq<(usize, usize)> { f.map_values(|x: usize| (g, x)) }

//@item src/junction.rs :: impl Junction > fn iteration [eff, idx]
    /*! #[verifier::allow_complex_invariants] !*/ async fn iteration(&mut self, spy: &mut Option<Sender<SpyMessage>>, back_off: &mut BackOff) -> /*@ (res: @*/ MotionResult<(bool, usize)> /*@ )
        requires groups_ok(old(self).groups()), outs_ok(old(self).outs()), old(back_off).wf(),
        ensures *final(spy) == *old(spy), final(back_off).wf(), final(self).size() == old(self).size(), final(self).running() == old(self).running(), final(self).ins() == old(self).ins(),
            match res {
                Ok((done, count)) => exists|g: int, ds: Seq<IODataWrapper>, fs: Seq<usize>, m: Seq<int>| #[trigger] turned(g, ds, fs, m)
                    && turn(old(self).groups(), old(self).outs(), *old(spy), old(w).v(), g, ds, fs, final(self).outs(), final(w).v())
                    && survivors(old(self).groups(), g, fs, final(self).groups(), m)
                    && count == turn_reads(old(self).groups(), g, ds).len() && tame(old(w).v(), final(w).v())
                    && done == (final(self).groups().len() == 0)
                    && (done ==> closed_all(final(self).outs(), final(w).v()) && final(w).v().waits == old(w).v().waits)
                    && (!done ==> final(w).v().closed == old(w).v().closed && paused(old(back_off).n(), old(w).v(), g < old(self).groups().len(), final(back_off).n(), final(w).v())),
                Err(e) => exists|r: Seq<Rd>, d: IODataWrapper| #[trigger] broken(r, d) && broke(old(self).outs(), old(w).v(), r, d, e, final(w).v()),
            }, @*/ {
        /*@ let ghost g0 = self.stdin@; let ghost p0 = self.stdout@; let ghost w0 = w.v(); let ghost sp = *spy;
            let ghost mut g: int = g0.len() as int; let ghost mut ds: Seq<IODataWrapper> = Seq::empty(); let ghost mut fs: Seq<usize> = Seq::empty();
            proof { lemma_did_none(p0, sp, w0); assert(self.stdin.len() == g0.len()); } @*/
        let mut finished /*@: Vec<(usize, usize)>@*/ = vec![];
        let mut any_read = false;
        let mut read_count /*@: usize@*/ = 0;

        for (si_index, si) in self.stdin.iter_mut().enumerate()
            /*@ invariant_except_break
                0 <= n__si_index <= g0.len(), any_read == false, read_count == 0, finished@.len() == 0, fs.len() == 0, g == g0.len(),
                did(p0, sp, w0, Seq::empty(), self.stdout@, w.v()), nothing(g0, w0, n__si_index as int, w.v()),
                forall|k: Key| !in_groups(g0, k, n__si_index as int) ==> #[trigger] w.v().idles(k) == w0.idles(k),
            invariant
                *self == (Junction { stdin: self.stdin, stdout: self.stdout, ..*old(self) }),
                tame(w0, w.v()), same_views(g0, self.stdin@), *spy == sp, w.v().waits == w0.waits, w.v().closed == w0.closed, *back_off == *old(back_off),
            ensures
                turn(g0, p0, sp, w0, g, ds, fs, self.stdout@, w.v()), finished@ == pairs(g as usize, fs), any_read == (g < g0.len()), read_count == turn_reads(g0, g, ds).len(),
                tame(w0, w.v()), @*/
        {
            /*@ let ghost n = n__si_index as int; let ghost pk = self.stdout@; let ghost wk = w.v();
                proof { let n = si_index as int; lemma_outs_same(p0, pk); assert(si@ == g0[n]@); assert(inputs_ok(g0[n]@)) by {
                    assert forall|i: int| 0 <= i < g0[n]@.len() implies (#[trigger] g0[n]@[i]) is Receiver by { } } assert(si.len() == g0[n]@.len()); } @*/
            let motion_one_results = /*! { let res0 = !*/ junction_motion_worker(
                si,
                &mut self.stdout,
                spy,
            ).await /*! ; !*/ /*@ proof { if res0 is Err { lemma_broke_seq(p0, sp, w0, Seq::empty(), pk, wk, res0->Err_0, w.v()); } } @*/ /*! res0 !*/ ? /*! } !*/ ;
            /*@ let ghost n = si_index as int; let ghost es = choose|es: Seq<IODataWrapper>| #[trigger] pass(es) && motion_one_results.skipped@.len() == skips(es) && motion_one_results.read_from@.len() == reads_of(g0[n]@, es, g0[n]@.len() as int).len()
                    && pass_ok(g0[n]@, pk, sp, wk, es, g0[n]@.len() as int, motion_one_results.finished_pulls@, self.stdout@, w.v());
                proof { lemma_idle_group(g0, p0, sp, w0, n, pk, wk, es, motion_one_results.finished_pulls@, self.stdout@, w.v()); } @*/
            read_count += motion_one_results.read_from.len();
            for fin in /*@ fit: @*/ motion_one_results.finished_pulls.iter()
                /*@ invariant finished@ =~= pairs(si_index, motion_one_results.finished_pulls@.take(fit.index() as int)), @*/
            {
                finished.push((si_index, *fin));
            }
            /*@ proof { assert(motion_one_results.finished_pulls@.take(motion_one_results.finished_pulls@.len() as int) =~= motion_one_results.finished_pulls@); } @*/
            if motion_one_results.skipped.len() < si.len() {
                any_read = true;
                /*@ proof { g = n; ds = es; fs = motion_one_results.finished_pulls@; } @*/
                break;
            }
        }

        /*@ let ghost pk = self.stdout@; let ghost wk = w.v(); let ghost gg = g; let ghost n = if g < g0.len() { g0[g]@.len() as int } else { 0 }; let ghost nf = fs.len() as int;
            proof {
                assert(fs.skip(nf) =~= Seq::empty());
                lemma_left_none(n, fs.skip(nf));
                if g < g0.len() { assert(kept(g0[g]@, fs.skip(nf)) =~= g0[g]@); assert(self.stdin@[g]@ == g0[g]@); }
            } @*/
        for (fin_0, fin_1) in /*@ rit: @*/ finished.iter().rev()
            /*@ invariant
                rit.seq().len() == nf, forall|j: int| 0 <= j < nf ==> *(#[trigger] rit.seq()[j]) == finished@[nf - 1 - j], finished@ == pairs(g as usize, fs), g < g0.len() || nf == 0, fs.len() == nf,
                self.stdin@.len() == g0.len(), forall|a: int| 0 <= a < g0.len() && a != g ==> (#[trigger] self.stdin@[a])@ == g0[a]@,
                g < g0.len() ==> self.stdin@[g]@ == kept(g0[g]@, fs.skip(nf - rit.index())),
                *self == (Junction { stdin: self.stdin, stdout: self.stdout, ..*old(self) }), self.stdout@ == pk, w.v() == wk, @*/
        {
            /*@ let ghost j = nf - 1 - rit.index(); let ghost gv = self.stdin@; proof {
                assert((*fin_0, *fin_1) == finished@[j]);
                assert(finished@[j] == (g as usize, fs[j]));
                assert forall|x: usize| #[trigger] fs.skip(j).contains(x) <==> (fs.skip(j + 1).contains(x) || x == fs[j]) by {
                    assert(fs.skip(j)[0] == fs[j]);
                    if fs.skip(j).contains(x) { let q = choose|q: int| 0 <= q < fs.skip(j).len() && #[trigger] fs.skip(j)[q] == x; if q > 0 { assert(fs.skip(j + 1)[q - 1] == x); } }
                    if fs.skip(j + 1).contains(x) { let q = choose|q: int| 0 <= q < fs.skip(j + 1).len() && #[trigger] fs.skip(j + 1)[q] == x; assert(fs.skip(j)[q + 1] == x); }
                }
                lemma_left_more(n, fs.skip(j + 1), fs[j] as int, fs.skip(j));
            } @*/
            remove_vec_vec_index(&mut self.stdin, *fin_0, *fin_1);
            /*@ proof {
                let l = fs[j] as int;
                assert(l < n);
                assert(gv[g]@ == kept(g0[g]@, fs.skip(j + 1)));
                assert(self.stdin@[g]@ == gv[g]@.remove(l));
                assert(self.stdin@[g]@ =~= kept(g0[g]@, fs.skip(j)));
            } @*/
        }

        /*@ let ghost gm = self.stdin@; let ghost m = fidx(gm); proof {
            assert(fs.skip(0) =~= fs);
            assert forall|a: int| 0 <= a < g0.len() implies (#[trigger] gm[a])@ == remaining(g0, g, fs, a) by { }
            lemma_filter_idx(gm);
        } @*/
        remove_vec_vec(&mut self.stdin);
        /*@ proof {
            let g1 = self.stdin@;
            assert forall|a: int| 0 <= a < g0.len() && remaining(g0, g, fs, a).len() > 0 implies #[trigger] m.contains(a) by { assert(gm[a]@.len() > 0); }
            assert forall|x: int| 0 <= x < g1.len() implies (#[trigger] g1[x])@ == remaining(g0, g, fs, m[x]) && g1[x]@.len() > 0 by { assert(g1[x] == gm[m[x]]); }
            assert(survivors(g0, g, fs, g1, m));
            assert(turned(g, ds, fs, m));
            lemma_outs_same(p0, pk);
        } let ghost g1 = self.stdin@; @*/
        if self.stdin.is_empty() {
            for out in /*@ oit: @*/ self.stdout.iter_mut()
                /*@ invariant
                    oit.seq().len() == pk.len(), forall|i: int| #![trigger pk[i]] #![trigger oit.seq()[i]] 0 <= i < pk.len() ==> *oit.seq()[i] == pk[i],
                    forall|i: int| 0 <= i < oit.index() ==> (*final(oit.seq()[i])).same(#[trigger] pk[i]) && w.v().closed.contains(pk[i].key()->0),
                    still(wk, w.v()), w.v().waits == w0.waits, @*/
            {
                /*@ proof { assert(*out == pk[oit.index() as int]); assert(pk[oit.index() as int].is_chan()); assert(pk[oit.index() as int].key() is Some); } @*/
                motion::motion_close(out).await?;
            }
            /*@ proof {
                let p1 = self.stdout@;
                assert forall|j: int| 0 <= j < pk.len() implies (#[trigger] p1[j]).same(pk[j]) && w.v().closed.contains(p1[j].key()->0) by { assert(pk[j].same(pk[j])); }
                lemma_turn_frame(g0, p0, sp, w0, g, ds, fs, pk, wk, p1, w.v());
            } @*/
            return MotionResult::Ok((true, read_count));
        }
        match any_read {
            false => back_off.wait().await,
            true => back_off.reset(),
        };

        /*@ proof { lemma_turn_frame(g0, p0, sp, w0, g, ds, fs, pk, wk, self.stdout@, w.v()); } @*/
        MotionResult::Ok((false, read_count))
    }
//@end

// ---- the whole run -------------------------------------------------------------------------------
/// input k reported its end, or every output gave up on the message it gave
pub open spec fn over(p0: Seq<Push>, w0: WV, r: Seq<Rd>, k: Key, p1: Seq<Push>, w1: WV) -> bool {
    exists|i: int| 0 <= i < r.len() && #[trigger] over_at(p0, w0, r, i, k, p1, w1)
}
pub open spec fn over_at(p0: Seq<Push>, w0: WV, r: Seq<Rd>, i: int, k: Key, p1: Seq<Push>, w1: WV) -> bool {
    r[i].k == k && (r[i].d is Finished || all_refused(p0, w0, r[i].d, dat(r.take(i)).len() as int, p1, w1))
}
pub open spec fn ran(r: Seq<Rd>) -> bool { true }
pub proof fn lemma_reads_at(ps: Seq<Pull>, ds: Seq<IODataWrapper>, i: int, n: int)
    requires 0 <= i < n <= ds.len(), !(ds[i] is Skipped)
    ensures ({ let r = reads_of(ps, ds, n); let x = reads_of(ps, ds, i).len() as int; x < r.len() && r[x] == (Rd { k: pkey(ps[i]), d: ds[i] }) && r.take(x) == reads_of(ps, ds, i) })
    decreases n
{
    let r = reads_of(ps, ds, n); let u = reads_of(ps, ds, n - 1);
    assert(r == push1(u, pkey(ps[n - 1]), ds[n - 1]));
    if i < n - 1 { lemma_reads_at(ps, ds, i, n - 1); let x = reads_of(ps, ds, i).len() as int; assert(r.take(x) =~= u.take(x)); }
    else { assert(r.take(u.len() as int) =~= u); }
}
pub proof fn lemma_dat_take(r: Seq<Rd>, i: int)
    requires 0 <= i < r.len(), r[i].d is IOData
    ensures dat(r.take(i)).len() < dat(r).len()
    decreases r.len()
{
    if i < r.len() - 1 { lemma_dat_take(r.drop_last(), i); assert(r.drop_last().take(i) =~= r.take(i)); }
    else { assert(r.take(i) =~= r.drop_last()); }
}
#[verifier::spinoff_prover]
pub proof fn lemma_turn_over(p0: Seq<Push>, spy: Option<Sender<SpyMessage>>, w0: WV, r: Seq<Rd>, pk: Seq<Push>, wk: WV, g0: Seq<Vec<Pull>>, g: int, ds: Seq<IODataWrapper>, fs: Seq<usize>, p1: Seq<Push>, w1: WV, g1: Seq<Vec<Pull>>, m: Seq<int>, k: Key)
    requires
        outs_ok(p0), did(p0, spy, w0, r, pk, wk), turn(g0, pk, spy, wk, g, ds, fs, p1, w1), survivors(g0, g, fs, g1, m), groups_ok(g0),
    ensures
        did(p0, spy, w0, r + turn_reads(g0, g, ds), p1, w1),
        over(p0, w0, r, k, pk, wk) ==> over(p0, w0, r + turn_reads(g0, g, ds), k, p1, w1),
        in_groups(g0, k, g0.len() as int) ==> in_groups(g1, k, g1.len() as int) || over(p0, w0, r + turn_reads(g0, g, ds), k, p1, w1),
{
    let tr = turn_reads(g0, g, ds);
    let rr = r + tr;
    lemma_did_seq(p0, spy, w0, r, pk, wk, tr, p1, w1);
    if over(p0, w0, r, k, pk, wk) {
        let i = choose|i: int| 0 <= i < r.len() && #[trigger] over_at(p0, w0, r, i, k, pk, wk);
        assert(rr[i] == r[i]);
        assert(rr.take(i) =~= r.take(i));
        if !(r[i].d is Finished) {
            let mm = dat(r.take(i)).len() as int;
            lemma_dat_take(r, i);
            assert forall|j: int| 0 <= j < p0.len() implies (#[trigger] pk[j]).hist(wk).len() > p0[j].hist(w0).len() + mm by {
                assert(wrote(p0[j], p0[j].hist(w0), dat(r), pk[j].hist(wk))); lemma_key_kind(p0[j]); assert(p0[j].key() is Some);
            }
            lemma_refused_grew(p0, w0, r[i].d, mm, pk, wk, p1, w1);
        }
        assert(over_at(p0, w0, rr, i, k, p1, w1));
    }
    if in_groups(g0, k, g0.len() as int) && !in_groups(g1, k, g1.len() as int) {
        let (a, i) = choose|a: int, i: int| 0 <= a < g0.len() && 0 <= i < g0[a]@.len() && pkey(#[trigger] g0[a]@[i]) == k;
        if a != g {
            assert(remaining(g0, g, fs, a).len() > 0);
            assert(m.contains(a));
            let x = choose|x: int| 0 <= x < m.len() && #[trigger] m[x] == a;
            assert(g1[x]@ == g0[a]@);
            assert(g1[x]@[i] == g0[a]@[i]);
            assert(in_groups(g1, k, g1.len() as int));
        } else {
            let ps = g0[g]@; let n = ps.len() as int;
            lemma_left(n, fs);
            if !fs.contains(i as usize) {
                assert(left(n, fs).contains(i));
                let q = choose|q: int| 0 <= q < left(n, fs).len() && #[trigger] left(n, fs)[q] == i;
                assert(remaining(g0, g, fs, a)[q] == ps[i]);
                assert(m.contains(a));
                let x = choose|x: int| 0 <= x < m.len() && #[trigger] m[x] == a;
                assert(g1[x]@ == remaining(g0, g, fs, a));
                assert(pkey(g1[x]@[q]) == k);
                assert(in_groups(g1, k, g1.len() as int));
            }
            let y = choose|y: int| 0 <= y < fs.len() && #[trigger] fs[y] == i as usize;
            assert(fin(pk, wk, ps, ds, fs[y] as int, p1, w1));
            lemma_reads_at(ps, ds, i, n);
            let x = reads_of(ps, ds, i).len() as int;
            let z = r.len() + x;
            assert(rr[z] == tr[x]);
            assert(rr.take(z) =~= r + tr.take(x));
            lemma_dat_add(r, tr.take(x));
            if !(ds[i] is Finished) {
                let mm = dat(tr.take(x)).len() as int;
                assert forall|j: int| 0 <= j < p0.len() implies refused_at(#[trigger] p0[j], p1[j].hist(w1), ds[i], p0[j].hist(w0).len() + dat(r).len() + mm) by {
                    assert(pk[j].same(p0[j])); lemma_key_kind(p0[j]); assert(p0[j].key() is Some);
                    assert(wrote(p0[j], p0[j].hist(w0), dat(r), pk[j].hist(wk)));
                    assert(refused_at(pk[j], p1[j].hist(w1), ds[i], pk[j].hist(wk).len() + mm));
                }
            }
            assert(over_at(p0, w0, rr, z, k, p1, w1));
        }
    }
}
/// inputs as they were added: channels, no two the same
pub open spec fn ins_ok(v: Seq<(Pull, isize)>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0 is Receiver
    &&& forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && i != j ==> pkey((#[trigger] v[i]).0) != pkey((#[trigger] v[j]).0)
}
/// group a holds, in the order of addition, exactly the inputs of one priority; the priorities of the groups rise
pub open spec fn grouped(v: Seq<(Pull, isize)>, g: Seq<Vec<Pull>>, ix: Seq<Seq<int>>, pr: Seq<isize>) -> bool {
    &&& ix.len() == g.len() && pr.len() == g.len()
    &&& forall|a: int, b: int| 0 <= a < b < g.len() ==> #[trigger] pr[a] < #[trigger] pr[b]
    &&& forall|a: int| 0 <= a < g.len() ==> (#[trigger] g[a])@.len() == ix[a].len() && ix[a].len() > 0 && rises_i(ix[a], v.len() as int)
    &&& forall|a: int, i: int| 0 <= a < g.len() && 0 <= i < g[a]@.len() ==> v[ix[a][i]] == (#[trigger] g[a]@[i], pr[a])
    &&& forall|j: int| 0 <= j < v.len() ==> placed(v, ix, pr, #[trigger] v[j], j)
}
pub open spec fn placed(v: Seq<(Pull, isize)>, ix: Seq<Seq<int>>, pr: Seq<isize>, x: (Pull, isize), j: int) -> bool { exists|a: int| 0 <= a < ix.len() && (#[trigger] ix[a]).contains(j) && pr[a] == x.1 }
pub open spec fn grouping(ix: Seq<Seq<int>>, pr: Seq<isize>) -> bool { true }
pub proof fn lemma_grouped(v: Seq<(Pull, isize)>, g: Seq<Vec<Pull>>, ix: Seq<Seq<int>>, pr: Seq<isize>)
    requires ins_ok(v), grouped(v, g, ix, pr)
    ensures groups_ok(g), forall|j: int| 0 <= j < v.len() ==> in_groups(g, pkey((#[trigger] v[j]).0), g.len() as int)
{
    assert forall|a: int, i: int, b: int, j: int| 0 <= a < g.len() && 0 <= i < g[a]@.len() && 0 <= b < g.len() && 0 <= j < g[b]@.len() && (a != b || i != j)
            implies pkey(#[trigger] g[a]@[i]) != pkey(#[trigger] g[b]@[j]) by {
        assert(v[ix[a][i]] == (g[a]@[i], pr[a])); assert(v[ix[b][j]] == (g[b]@[j], pr[b]));
        if a != b { assert(pr[a] != pr[b]); }
        assert(ix[a][i] != ix[b][j]);
    }
    assert forall|a: int, i: int| 0 <= a < g.len() && 0 <= i < g[a]@.len() implies (#[trigger] g[a]@[i]) is Receiver by { assert(v[ix[a][i]] == (g[a]@[i], pr[a])); assert(v[ix[a][i]].0 is Receiver); }
    assert forall|j: int| 0 <= j < v.len() implies in_groups(g, pkey((#[trigger] v[j]).0), g.len() as int) by {
        assert(placed(v, ix, pr, v[j], j));
        let a = choose|a: int| 0 <= a < ix.len() && (#[trigger] ix[a]).contains(j) && pr[a] == v[j].1;
        let i = choose|i: int| 0 <= i < ix[a].len() && ix[a][i] == j;
        assert(v[ix[a][i]] == (g[a]@[i], pr[a]));
    }
}
//@item src/junction.rs :: impl Junction > fn new
    pub fn new() -> /*@ (r: @*/ Junction /*@ ) ensures r.outs().len() == 0, r.groups().len() == 0, r.ins().len() == 0, !r.running(), r.size() > 0 @*/ {
        Junction {
            stdout_size: 8,
            started: false,
            stdin: vec![],
            stdout: vec![],
            inputs: vec![],
        }
    }
//@end
//@item src/junction.rs :: impl Junction > fn set_stdout_size
    pub fn set_stdout_size(&mut self, size: usize)
        /*@ ensures final(self).size() == size, final(self).outs() == old(self).outs(), final(self).groups() == old(self).groups(), final(self).ins() == old(self).ins(), final(self).running() == old(self).running() @*/ {
        self.stdout_size = size;
    }
//@end
//@item src/junction.rs :: impl Connectable for Junction > fn add_output [eff, wrap=impl Junction]
    fn add_output(&mut self, _port: OutputPort, breakable: Breakable, src_id: usize, dst_id: usize) -> /*@ (r: @*/ std::result::Result<Pull, ConnectableAddOutputError> /*@ )
        requires old(self).size() > 0,
        ensures r is Ok, final(self).groups() == old(self).groups(), final(self).ins() == old(self).ins(), final(self).running() == old(self).running(), final(self).size() == old(self).size(),
            r->Ok_0 is Receiver, r->Ok_0->Receiver_0 == (PullJourney { src: src_id, dst: dst_id }),
            !old(w).v().chans.contains(pkey(r->Ok_0)), final(w).v() == old(w).v().new_chan(pkey(r->Ok_0)),
            exists|p: Push| final(self).outs() == #[trigger] old(self).outs().push(p) && p is IoSender && p->IoSender_1.key() == pkey(r->Ok_0) && p->IoSender_1.cap() == Some(old(self).size())
                && p->IoSender_0 == (Journey { src: src_id, src_port: Some(OutputPort::Out), dst: dst_id, breakable }), @*/ {
        let (child_stdout_push_channel, stdout_io_reciever_channel) = bounded(self.stdout_size);
        self.stdout.push(Push::IoSender(Journey { src: src_id, src_port: Some(OutputPort::Out), dst: dst_id, breakable }, child_stdout_push_channel));
        /*@ proof { assert(self.outs() == old(self).outs().push(self.outs().last())); } @*/
        Ok(Pull::Receiver(PullJourney { src: src_id, dst: dst_id }, stdout_io_reciever_channel))
    }
//@end
//@item src/junction.rs :: impl Connectable for Junction > fn add_input [wrap=impl Junction]
    fn add_input(&mut self, pull: Pull, priority: isize) -> /*@ (r: @*/ std::result::Result<(), ConnectableAddInputError> /*@ )
        ensures r is Ok, final(self).ins() == old(self).ins().push((pull, priority)), final(self).groups() == old(self).groups(), final(self).outs() == old(self).outs(), final(self).running() == old(self).running(), final(self).size() == old(self).size(), @*/ {
        self.inputs.push((pull, priority));
        Ok(())
    }
//@end
/// the first n inputs of the sorted list s (v rearranged by p) have been put into groups
pub open spec fn building(v: Seq<(Pull, isize)>, s: Seq<(Pull, isize)>, p: Seq<int>, n: int, g: Seq<Vec<Pull>>, ix: Seq<Seq<int>>, pr: Seq<isize>) -> bool {
    &&& ix.len() == g.len() && pr.len() == g.len()
    &&& forall|a: int, b: int| 0 <= a < b < g.len() ==> #[trigger] pr[a] < #[trigger] pr[b]
    &&& forall|a: int| 0 <= a < g.len() ==> (#[trigger] g[a])@.len() == ix[a].len() && ix[a].len() > 0 && rises_i(ix[a], v.len() as int)
    &&& forall|a: int, i: int| 0 <= a < g.len() && 0 <= i < g[a]@.len() ==> v[ix[a][i]] == (#[trigger] g[a]@[i], pr[a])
    &&& forall|i: int| 0 <= i < n ==> placed(v, ix, pr, #[trigger] s[i], p[i])
    &&& (n == 0 <==> g.len() == 0)
    &&& n > 0 ==> pr.last() == s[n - 1].1 && ix.last().last() == p[n - 1]
}
#[verifier::spinoff_prover]
pub proof fn lemma_building(v: Seq<(Pull, isize)>, s: Seq<(Pull, isize)>, p: Seq<int>, n: int, g0: Seq<Vec<Pull>>, ix0: Seq<Seq<int>>, pr0: Seq<isize>, g: Seq<Vec<Pull>>, ix: Seq<Seq<int>>, pr: Seq<isize>, pull: Pull, priority: isize)
    requires
        rearranged(v, s, p), forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).1 <= (#[trigger] s[j]).1 && (p[i] > p[j] ==> s[i].1 < s[j].1),
        0 <= n < s.len(), building(v, s, p, n, g0, ix0, pr0), s[n] == (pull, priority),
        g.len() > 0,
        if n == 0 || priority > s[n - 1].1 {
            ix == ix0.push(seq![p[n]]) && pr == pr0.push(priority) && g.len() == g0.len() + 1 && g.last()@ == seq![pull] && forall|a: int| 0 <= a < g0.len() ==> (#[trigger] g[a]) == g0[a]
        } else {
            ix == ix0.update(ix0.len() - 1, ix0.last().push(p[n])) && pr == pr0 && g.len() == g0.len() && g.last()@ == g0.last()@.push(pull) && forall|a: int| 0 <= a < g0.len() - 1 ==> (#[trigger] g[a]) == g0[a]
        },
    ensures building(v, s, p, n + 1, g, ix, pr)
{
    let l = g.len() - 1;
    if n > 0 { assert(s[n - 1].1 <= s[n].1 && (p[n - 1] > p[n] ==> s[n - 1].1 < s[n].1)); assert(p[n - 1] != p[n]); }
    assert(v[p[n]] == s[n]);
    assert forall|a: int, b: int| 0 <= a < b < g.len() implies #[trigger] pr[a] < #[trigger] pr[b] by {
        if g.len() > g0.len() && b == l { assert(a < g0.len()); assert(pr0[a] <= pr0.last()) by { if a < pr0.len() - 1 { assert(pr0[a] < pr0[pr0.len() - 1]); } } } else { assert(pr0[a] < pr0[b]); }
    }
    assert forall|a: int| 0 <= a < g.len() implies (#[trigger] g[a])@.len() == ix[a].len() && ix[a].len() > 0 && rises_i(ix[a], v.len() as int) by {
        if a < l || g.len() == g0.len() { assert(g0[a]@.len() == ix0[a].len() && rises_i(ix0[a], v.len() as int)); }
        if a == l && g.len() == g0.len() {
            let x = ix[a]; let y = ix0[a];
            assert forall|i: int, j: int| 0 <= i < j < x.len() implies #[trigger] x[i] < #[trigger] x[j] by { if j == y.len() { if i < y.len() - 1 { assert(y[i] < y[y.len() - 1]); } } else { assert(y[i] < y[j]); } }
        }
    }
    assert forall|a: int, i: int| 0 <= a < g.len() && 0 <= i < g[a]@.len() implies v[ix[a][i]] == (#[trigger] g[a]@[i], pr[a]) by {
        if a < l { assert(g[a] == g0[a]); assert(v[ix0[a][i]] == (g0[a]@[i], pr0[a])); }
        else if g.len() == g0.len() && i < g0[a]@.len() { assert(v[ix0[a][i]] == (g0[a]@[i], pr0[a])); }
        else { assert(ix[a][i] == p[n]); }
    }
    assert forall|i: int| 0 <= i < n + 1 implies placed(v, ix, pr, #[trigger] s[i], p[i]) by {
        if i < n {
            assert(placed(v, ix0, pr0, s[i], p[i]));
            let a = choose|a: int| 0 <= a < ix0.len() && (#[trigger] ix0[a]).contains(p[i]) && pr0[a] == s[i].1;
            let q = choose|q: int| 0 <= q < ix0[a].len() && ix0[a][q] == p[i];
            assert(ix[a][q] == p[i]);
            assert(ix[a].contains(p[i]));
        } else { assert(ix[l][ix[l].len() - 1] == p[n]); assert(ix[l].contains(p[n])); }
    }
}
//@item src/junction.rs :: impl Junction > fn initialize_stdin
    pub fn initialize_stdin(&mut self)
        /*@ requires old(self).groups().len() == 0,
        ensures final(self).outs() == old(self).outs(), final(self).running() == old(self).running(), final(self).size() == old(self).size(), final(self).ins().len() == 0,
            exists|ix: Seq<Seq<int>>, pr: Seq<isize>| #[trigger] grouping(ix, pr) && grouped(old(self).ins(), final(self).groups(), ix, pr), @*/ {
        /*@ let ghost v = self.inputs@; @*/
        self.inputs.sort_by(|(_, a) /*@: &(Pull, isize)@*/, (_, b) /*@: &(Pull, isize)@*/| /*@ -> (o: std::cmp::Ordering) ensures p0__.1 < p1__.1 ==> o is Less, p0__.1 == p1__.1 ==> o is Equal, p0__.1 > p1__.1 ==> o is Greater @*/ {
            a.cmp(b)
        });
        /*@ let ghost s = self.inputs@; proof {
            assert(exists|p: Seq<int>| #[trigger] rearranged(v, s, p) && forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).1 <= (#[trigger] s[j]).1 && (p[i] > p[j] ==> s[i].1 < s[j].1));
        } @*/

        let mut old_priority = 0;
        /*@ let ghost p = choose|p: Seq<int>| #[trigger] rearranged(v, s, p) && forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).1 <= (#[trigger] s[j]).1 && (p[i] > p[j] ==> s[i].1 < s[j].1);
            let ghost mut ix: Seq<Seq<int>> = Seq::empty(); let ghost mut pr: Seq<isize> = Seq::empty(); @*/
        for (pull, priority) in /*@ it: @*/ std::mem::take(&mut self.inputs)
            /*@ invariant
                it.seq() == s, self.inputs@.len() == 0, self.stdout@ == old(self).stdout@, self.started == old(self).started, self.stdout_size == old(self).stdout_size,
                building(v, s, p, it.index() as int, self.stdin@, ix, pr), it.index() > 0 ==> old_priority == s[it.index() - 1].1, @*/
        {
            /*@ let ghost n = it.index() as int; let ghost g0 = self.stdin@; let ghost ix0 = ix; let ghost pr0 = pr; proof { assert((pull, priority) == s[n]); assert(v[p[n]] == s[n]); } @*/
            if self.stdin.is_empty() {
                old_priority = priority;
                self.stdin.push(vec![])
            }
            if priority > old_priority {
                old_priority = priority;
                self.stdin.push(vec![])
            }
            /*@ let ghost g1 = self.stdin@; proof {
                if g1.len() > g0.len() { ix = ix.push(seq![p[n]]); pr = pr.push(priority); } else { ix = ix.update(ix.len() - 1, ix.last().push(p[n])); }
            } @*/
            if let Some(v) = self.stdin.last_mut() {
                v.push(pull);
            }
            /*@ proof { lemma_building(v, s, p, n, g0, ix0, pr0, self.stdin@, ix, pr, pull, priority); } @*/
        }
        /*@ proof {
            assert forall|j: int| 0 <= j < v.len() implies placed(v, ix, pr, #[trigger] v[j], j) by {
                assert(p.contains(j)); let i = choose|i: int| 0 <= i < p.len() && p[i] == j; assert(placed(v, ix, pr, s[i], p[i]));
            }
            assert(grouping(ix, pr));
            assert(grouped(v, self.stdin@, ix, pr));
        } @*/
    }
//@end
//@item src/junction.rs :: impl StartableControl for Junction > fn start [eff, wrap=impl Junction]
    async fn start(&mut self, mut spy: Option<Sender<SpyMessage>>) -> /*@ (res: @*/ MotionResult<usize> /*@ )
        requires !old(self).running(), old(self).groups().len() == 0, ins_ok(old(self).ins()), outs_ok(old(self).outs()),
        ensures match res {
            Ok(count) => exists|r: Seq<Rd>| #[trigger] ran(r) && did(old(self).outs(), spy, old(w).v(), r, final(self).outs(), final(w).v()) && count == r.len()
                && closed_all(final(self).outs(), final(w).v())
                && forall|i: int| 0 <= i < old(self).ins().len() ==> over(old(self).outs(), old(w).v(), r, pkey((#[trigger] old(self).ins()[i]).0), final(self).outs(), final(w).v()),
            Err(e) => final(self).outs().len() == 0 && final(self).groups().len() == 0
                && exists|r: Seq<Rd>, d: IODataWrapper| #[trigger] broken(r, d) && broke(old(self).outs(), old(w).v(), r, d, e, final(w).v()),
        }, @*/ {
        /*@ let ghost ins = self.inputs@; let ghost p0 = self.stdout@; let ghost w0 = w.v(); let ghost sp = spy; let ghost mut r: Seq<Rd> = Seq::empty(); @*/
        assert!(!self.started);
        self.started = true;

        self.initialize_stdin();
        /*@ proof {
            let (ix, pr) = choose|ix: Seq<Seq<int>>, pr: Seq<isize>| #[trigger] grouping(ix, pr) && grouped(ins, self.groups(), ix, pr);
            lemma_grouped(ins, self.groups(), ix, pr);
            lemma_did_none(p0, sp, w0);
        } @*/

        let mut back_off = BackOff::new();
        let mut read_count /*@: usize@*/ = 0;

        loop
            /*@ invariant
                groups_ok(self.groups()), outs_ok(self.outs()), back_off.wf(), spy == sp, did(p0, sp, w0, r, self.outs(), w.v()), read_count == r.len(), tame(w0, w.v()),
                forall|i: int| 0 <= i < ins.len() ==> in_groups(self.groups(), pkey((#[trigger] ins[i]).0), self.groups().len() as int) || over(p0, w0, r, pkey(ins[i].0), self.outs(), w.v()), @*/
        {
            /*@ let ghost gk = self.groups(); let ghost pk = self.outs(); let ghost wk = w.v(); @*/
            match /*! { let res0 = !*/ self.iteration(&mut spy, &mut back_off).await /*! ; !*/ /*@ proof {
                if res0 is Ok {
                    let (g, ds, fs, m) = choose|g: int, ds: Seq<IODataWrapper>, fs: Seq<usize>, m: Seq<int>| #[trigger] turned(g, ds, fs, m)
                        && turn(gk, pk, sp, wk, g, ds, fs, self.outs(), w.v()) && survivors(gk, g, fs, self.groups(), m) && res0->Ok_0.1 == turn_reads(gk, g, ds).len();
                    lemma_survivors_ok(gk, g, fs, self.groups(), m);
                    let rr = r + turn_reads(gk, g, ds);
                    assert forall|i: int| 0 <= i < ins.len() implies in_groups(self.groups(), pkey((#[trigger] ins[i]).0), self.groups().len() as int) || over(p0, w0, rr, pkey(ins[i].0), self.outs(), w.v()) by {
                        lemma_turn_over(p0, sp, w0, r, pk, wk, gk, g, ds, fs, self.outs(), w.v(), self.groups(), m, pkey(ins[i].0));
                    }
                    lemma_did_seq(p0, sp, w0, r, pk, wk, turn_reads(gk, g, ds), self.outs(), w.v());
                    lemma_outs_same(p0, self.outs());
                    r = rr;
                    assert(ran(r));
                } else { lemma_broke_seq(p0, sp, w0, r, pk, wk, res0->Err_0, w.v()); }
            } @*/ /*! res0 } !*/ {
                Ok((true, n)) => {
                    return Ok(read_count + n);
                }
                Ok((false, n)) => { read_count += n }
                Err(e) => {
                    self.stdin.clear();
                    self.stdout.clear();
                    return MotionResult::Err(e);
                }
            }
        }

    }
//@end
}
}
