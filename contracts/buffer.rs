// Buffers: two links around an unbounded queue, and the count of what is inside.
pub mod buffer {
use crate::async_std;
use vstd::prelude::*;
use crate::world::*;
use crate::async_std::channel::{bounded, unbounded, Sender, Receiver, SendError};
use crate::connectable::*;
use crate::motion::*;
use crate::back_off::*;
use crate::buffer_msgs::BufferSizeMessage;
verus!{
//@item src/buffer.rs :: struct Buffer
pub struct Buffer {
    stdout_size: usize,
    stdout: Option<Push>,
    stdin: Option<Pull>,
    buffer_size_monitor: Option<Sender<BufferSizeMessage>>,
}
//@end
pub ghost struct BV { pub out: Option<Push>, pub inp: Option<Pull>, pub mon: Option<Sender<BufferSizeMessage>>, pub size: usize }
impl Buffer {
    pub closed spec fn v(&self) -> BV { BV { out: self.stdout, inp: self.stdin, mon: self.buffer_size_monitor, size: self.stdout_size } }
}
//@item src/buffer.rs :: impl Connectable for Buffer > fn add_output [eff, wrap=impl Buffer]
    fn add_output(&mut self, port: OutputPort, breakable: Breakable, src_id: usize, dst_id: usize) -> /*@ (r: @*/ std::result::Result<Pull, ConnectableAddOutputError> /*@ )
        requires old(self).v().size > 0,
        ensures match r {
            Err(e) => *final(self) == *old(self) && final(w).v() == old(w).v() && old(self).v().out is Some && e == ConnectableAddOutputError::AlreadyAllocated(port),
            Ok(p) => old(self).v().out is None && final(self).v().out is Some && final(self).v() == (BV { out: final(self).v().out, ..old(self).v() })
                && crate::pump::made_output(port, breakable, src_id, dst_id, old(self).v().size, p, final(self).v().out->Some_0, old(w).v(), final(w).v()),
        }, @*/ {
        if self.stdout.is_some() { return Err(ConnectableAddOutputError::AlreadyAllocated(port)); }
        let (child_stdout_push_channel, stdout_io_reciever_channel) = bounded(self.stdout_size);
        self.stdout = Some(Push::IoSender(Journey { src: src_id, src_port: Some(port), dst: dst_id, breakable }, child_stdout_push_channel));
        Ok(Pull::Receiver(PullJourney { src: src_id, dst: dst_id }, stdout_io_reciever_channel))
    }
//@end
//@item src/buffer.rs :: impl Connectable for Buffer > fn add_input [wrap=impl Buffer]
    fn add_input(&mut self, pull: Pull, unused_priority: isize) -> /*@ (r: @*/ std::result::Result<(), ConnectableAddInputError> /*@ )
        ensures match r {
            Err(e) => *final(self) == *old(self)
                && (if unused_priority != 0 { e == ConnectableAddInputError::UnsupportedPriority(unused_priority) } else { old(self).v().inp is Some && e == ConnectableAddInputError::AlreadyAllocated }),
            Ok(_) => unused_priority == 0 && old(self).v().inp is None && final(self).v() == (BV { inp: Some(pull), ..old(self).v() }),
        }, @*/ {
        if unused_priority != 0 {
            return Err(ConnectableAddInputError::UnsupportedPriority(unused_priority));
        }
        if self.stdin.is_some() {
            return Err(ConnectableAddInputError::AlreadyAllocated);
        }
        self.stdin = Some(pull);
        Ok(())
    }
//@end
//@item src/buffer.rs :: impl Buffer > fn new
    pub fn new() -> /*@ (r: @*/ Buffer /*@ ) ensures r.v().out is None, r.v().inp is None, r.v().mon is None, r.v().size > 0 @*/ {
        Buffer {
            stdout_size: 8,
            stdin: None,
            stdout: None,
            buffer_size_monitor: None,
        }
    }
//@end
//@item src/buffer.rs :: impl Buffer > fn add_buffer_size_monitor [eff]
    pub fn add_buffer_size_monitor(&mut self) -> /*@ (r: @*/ Receiver<BufferSizeMessage> /*@ )
        requires old(self).v().mon is None, old(self).v().size > 0,
        ensures final(self).v().mon is Some, final(self).v().mon->Some_0.key() == r.key(), final(self).v() == (BV { mon: final(self).v().mon, ..old(self).v() }),
            !old(w).v().chans.contains(r.key()), old(w).v().fresh(r.key()), final(w).v() == old(w).v().new_chan(r.key()), @*/ {
        assert!(self.buffer_size_monitor.is_none(), "Each buffer can only be monitored once");
        let (tx, rx) = bounded(self.stdout_size);
        self.buffer_size_monitor = Some(tx);
        rx
    }
//@end
//@item src/buffer.rs :: impl Buffer > fn set_stdout_size
    pub fn set_stdout_size(&mut self, size: usize)
        /*@ ensures final(self).v() == (BV { size, ..old(self).v() }) @*/ {
        self.stdout_size = size;
    }
//@end

/// notifications received so far
pub open spec fn count(k: Key, w0: WV, w: WV) -> int { w.recvd(k).len() - w0.recvd(k).len() }
pub open spec fn size_att(n: int, r: Res) -> Att { Att { p: Payload::Size(n as usize), r } }
/// one report: how many had been taken in and passed on when it was made
pub open spec fn size_of(t: (int, int)) -> int { t.0 - t.1 }
pub open spec fn sizes(tr: Seq<(int, int)>) -> Seq<Att> { tr.map_values(|t: (int, int)| size_att(size_of(t), Res::Accepted)) }
/// each report is the number of messages inside at that time, they come in the order of time and only when the number has changed
pub open spec fn truthful(tr: Seq<(int, int)>, i: int, o: int) -> bool {
    &&& forall|j: int| 0 <= j < tr.len() ==> 0 <= size_of(#[trigger] tr[j]) && tr[j].0 <= i && tr[j].1 <= o
    &&& forall|a: int, b: int| 0 <= a < b < tr.len() ==> (#[trigger] tr[a]).0 <= (#[trigger] tr[b]).0 && tr[a].1 <= tr[b].1
}
pub open spec fn last_size(tr: Seq<(int, int)>) -> int { if tr.len() == 0 { 0 } else { size_of(tr.last()) } }
pub open spec fn trace(tr: Seq<(int, int)>) -> bool { true }
/// the reports made so far
pub open spec fn reported(s: Option<Sender<BufferSizeMessage>>, tr: Seq<(int, int)>, i: int, o: int, w0: WV, w1: WV) -> bool {
    &&& truthful(tr, i, o)
    &&& match s { Some(s) => w1.hist(s.key()) == w0.hist(s.key()) + sizes(tr), None => tr.len() == 0 }
}
/// the size count touches nothing but its two notification channels and its reports
pub open spec fn counts_only(s: Option<Sender<BufferSizeMessage>>, mi: Key, mo: Key, w0: WV, w1: WV) -> bool {
    &&& forall|k: Key| k != mi && k != mo ==> #[trigger] w1.recvd(k) == w0.recvd(k)
    &&& forall|k: Key| k != mi && k != mo ==> (#[trigger] w1.ended.contains(k)) == w0.ended.contains(k)
    &&& forall|k: Key| s is None || s->Some_0.key() != k ==> #[trigger] w1.hist(k) == w0.hist(k)
    &&& w1.chans == w0.chans && w1.closed == w0.closed && w1.bytes == w0.bytes && w1.flushed == w0.flushed
}
/// ASSUMED (scheduling of the three parts of a buffer, which run in one task): a notification that a message was passed on is never
/// counted before the one that it was taken in, given that the queue of the former is not longer than that of the latter, and
/// that the latter is asked first.  See DESIGN.md, C07.
pub axiom fn axiom_in_before_out(tracked w: &World, mi: Receiver<MonitorMessage>, mo: Receiver<MonitorMessage>, w0: WV)
    requires mi.cap() is Some, mo.cap() is Some, mo.cap()->Some_0 <= mi.cap()->Some_0
    ensures count(mo.key(), w0, w.v()) <= count(mi.key(), w0, w.v());
/// all that the channel will ever yield are notifications of this kind
pub open spec fn only(h: Seq<Att>, m: MonitorMessage) -> bool { forall|i: int| 0 <= i < h.len() ==> (#[trigger] h[i]).p == Payload::Mon(m) }
pub proof fn lemma_got_only(tracked w: &World, k: Key, m: MonitorMessage, p: Payload)
    requires w.v().chans.contains(k), only(w.v().hist(k), m), w.v().recvd(k).len() > 0, w.v().recvd(k).last() == p
    ensures p == Payload::Mon(m)
{
    axiom_fifo(w, k);
    let n = w.v().recvd(k).len() as int;
    assert(w.v().recvd(k)[n - 1] == offered(w.v().hist(k))[n - 1]);
    assert(w.v().hist(k)[n - 1].p == Payload::Mon(m));
}
/// a link that returned has told its notification channels nothing but what they are for
pub proof fn lemma_link_notes(pull0: Pull, m: MotionNotifications, spy: Option<Sender<SpyMessage>>, push0: Push, w0: WV, n: int, rs: Seq<IODataWrapper>, pull1: Pull, push1: Push, w1: WV)
    requires link_ok(pull0, m, spy, push0, w0, n, rs, pull1, push1, w1)
    ensures mon_part(m, w0, w1)
{
    assert(mon_part(m, w1, w1));
    lemma_mon_part(m, w0, rs.len(), w1, w1);
}
pub open spec fn is_mon(k: Key) -> bool { k is Mon }
pub proof fn lemma_notes_only(m: MotionNotifications, w0: WV, w1: WV, k: Key, msg: MonitorMessage)
    requires mon_part(m, w0, w1), is_mon(k), only(w0.hist(k), msg), m.rd() is Some && m.rd()->Some_0.key() == k ==> msg == MonitorMessage::Read(0), m.wr() is Some && m.wr()->Some_0.key() == k ==> msg == MonitorMessage::Wrote(0),
    ensures only(w1.hist(k), msg), (m.rd() is None || m.rd()->Some_0.key() != k) && (m.wr() is None || m.wr()->Some_0.key() != k) ==> w1.hist(k) == w0.hist(k)
{
    let h0 = w0.hist(k); let h1 = w1.hist(k); let n = k->Mon_0;
    assert(mon_ext(h0, w1.hist(Key::Mon(n)), m, n));
    assert forall|i: int| 0 <= i < h1.len() implies (#[trigger] h1[i]).p == Payload::Mon(msg) by { if i < h0.len() { assert(h0[i].p == Payload::Mon(msg)); } else { assert(note_att(h1[i], m, n)); } }
    if (m.rd() is None || m.rd()->Some_0.key() != k) && (m.wr() is None || m.wr()->Some_0.key() != k) {
        if h1.len() > h0.len() { assert(note_att(h1[h0.len() as int], m, n)); }
        assert(h1 =~= h0);
    }
}
/// n reads make n notifications on the channel for them
pub proof fn lemma_notes_count(h: Seq<Att>, m: MotionNotifications, k: int, n: nat)
    requires (m.rd() is Some && m.rd()->Some_0.key() == Key::Mon(k)) != (m.wr() is Some && m.wr()->Some_0.key() == Key::Mon(k))
    ensures notes(h, m, k, n).len() == h.len() + n
    decreases n
{ if n > 0 { lemma_notes_count(h, m, k, (n - 1) as nat); } }
pub proof fn lemma_notes_none(h: Seq<Att>, m: MotionNotifications, k: int, n: nat)
    requires m.rd() is None || m.rd()->Some_0.key() != Key::Mon(k), m.wr() is None || m.wr()->Some_0.key() != Key::Mon(k)
    ensures notes(h, m, k, n) == h
    decreases n
{ if n > 0 { lemma_notes_none(h, m, k, (n - 1) as nat); } }

/// the waits so far: the square of the number of fruitless polls in a row, from zero after every movement
pub open spec fn paced(ns: Seq<nat>, mv: Seq<int>, m: int, n: nat) -> bool {
    &&& ns.len() == mv.len()
    &&& forall|i: int| 0 <= i < mv.len() ==> 0 <= #[trigger] mv[i] <= m
    &&& forall|i: int| 0 < i < mv.len() ==> #[trigger] ns[i] == (if mv[i] == mv[i - 1] { grown(ns[i - 1]) } else { 0 }) && mv[i - 1] <= mv[i]
    &&& ns.len() > 0 ==> ns[0] == 0
    &&& n == if ns.len() > 0 && mv.last() == m { grown(ns.last()) } else { 0 }
}
pub open spec fn squares(ns: Seq<nat>) -> Seq<nat> { ns.map_values(|n: nat| n * n) }
pub open spec fn pace(ns: Seq<nat>, mv: Seq<int>) -> bool { true }
pub proof fn lemma_paced_wait(ns: Seq<nat>, mv: Seq<int>, m: int, n: nat, w0: Seq<nat>, w: Seq<nat>)
    requires paced(ns, mv, m, n), m >= 0, w == w0 + squares(ns)
    ensures paced(ns.push(n), mv.push(m), m, grown(n)), w.push(n * n) == w0 + squares(ns.push(n))
{
    assert(w.push(n * n) =~= w0 + squares(ns.push(n)));
    let ns1 = ns.push(n); let mv1 = mv.push(m);
    assert forall|i: int| 0 < i < mv1.len() implies #[trigger] ns1[i] == (if mv1[i] == mv1[i - 1] { grown(ns1[i - 1]) } else { 0 }) && mv1[i - 1] <= mv1[i] by {
        if i < ns.len() { assert(ns[i] == ns1[i]); } else { assert(mv1[i - 1] == mv.last()); assert(0 <= mv[i - 1] <= m); }
    }
}
pub proof fn lemma_counts(s: Option<Sender<BufferSizeMessage>>, mi: Key, mo: Key, w0: WV, wa: WV, wb: WV)
    requires counts_only(s, mi, mo, w0, wa), counts_only(s, mi, mo, wa, wb)
    ensures counts_only(s, mi, mo, w0, wb)
{
    assert forall|k: Key| k != mi && k != mo implies #[trigger] wb.recvd(k) == w0.recvd(k) by { assert(wa.recvd(k) == w0.recvd(k)); }
    assert forall|k: Key| k != mi && k != mo implies (#[trigger] wb.ended.contains(k)) == w0.ended.contains(k) by { assert(wa.ended.contains(k) == w0.ended.contains(k)); }
    assert forall|k: Key| s is None || s->Some_0.key() != k implies #[trigger] wb.hist(k) == w0.hist(k) by { assert(wa.hist(k) == w0.hist(k)); }
}
/// what the size count has done: everything both channels had to say has been counted
pub open spec fn counted(s: Option<Sender<BufferSizeMessage>>, mi: Key, mo: Key, n: int, tr: Seq<(int, int)>, ns: Seq<nat>, mv: Seq<int>, w0: WV, w1: WV) -> bool {
    let (i, o) = (count(mi, w0, w1), count(mo, w0, w1));
    &&& w1.ended.contains(mi) && w1.ended.contains(mo) && n == i - o
    &&& reported(s, tr, i, o, w0, w1) && (s is Some ==> last_size(tr) == n)
    &&& paced(ns, mv, i + o, if ns.len() > 0 && mv.last() == i + o { grown(ns.last()) } else { 0 }) && w1.waits == w0.waits + squares(ns)
}
/// what a buffer that succeeded has done; wm is the world when its input link had ended
pub open spec fn buffered(stdin: Pull, stdout: Push, spy: Option<Sender<SpyMessage>>, mon: Option<Sender<BufferSizeMessage>>, n: int, ra: Seq<IODataWrapper>, rb: Seq<IODataWrapper>, pull1: Pull, push1: Push, w0: WV, wm: WV, w1: WV) -> bool {
    // it took in everything until the input ended (or the part which empties it had stopped, as its output refused under finish)
    &&& n == ra.len() && ra.len() > 0 && rb.len() > 0
    &&& taken(stdin, w0, datas(ra), ra.last() is Finished, pull1, wm)
    &&& stdin is Receiver ==> w1.recvd(stdin->Receiver_1.key()) == w0.recvd(stdin->Receiver_1.key()) + pays(datas(ra))
    // handed on, in order, what it took in, all of it unless the output refused
    &&& pays(datas(rb)).is_prefix_of(pays(datas(ra)))
    &&& rb.last() is Finished ==> pays(datas(rb)) == pays(datas(ra)) && ra.last() is Finished
    &&& push1.same(stdout) && wrote(stdout, stdout.hist(w0), datas(rb), push1.hist(w1))
    &&& rb.last() is Finished || (stdout.key() is Some && stdout.policy() == Breakable::Finish && push1.hist(w1).last() == msg_att(rb.last(), Res::Closed))
    &&& forall|k: int| #[trigger] w1.hist(Key::Spy(k)) == spy_run(w0.hist(Key::Spy(k)), spy, k, stdout, rb)
    // only then it closed its output
    &&& stdout is IoSender || stdout is Sender ==> w1.closed.contains(stdout.key()->Some_0)
    // its reports were true, and the last one said how much was left
    &&& match mon { Some(s) => exists|tr: Seq<(int, int)>, c: Res| #[trigger] report(tr, c) && size_log(s, tr, c, ra.len() as int - rb.len() as int, w0, w1), None => true }
}
pub open spec fn outcome(ra: Seq<IODataWrapper>, rb: Seq<IODataWrapper>, pull1: Pull, push1: Push, wm: WV) -> bool { true }
/// the state of the count: how many are inside, and what has been reported; `last` is what was reported last
#[verifier::opaque]
pub open spec fn tally(s: Option<Sender<BufferSizeMessage>>, mi: Key, mo: Key, tr: Seq<(int, int)>, size: int, last: int, w0: WV, w: WV) -> bool {
    &&& counts_only(s, mi, mo, w0, w) && w.recvd(mi).len() >= w0.recvd(mi).len() && w.recvd(mo).len() >= w0.recvd(mo).len()
    &&& size == count(mi, w0, w) - count(mo, w0, w) && count(mi, w0, w) <= w.steps && size >= 0
    &&& reported(s, tr, count(mi, w0, w), count(mo, w0, w), w0, w) && (s is Some ==> last_size(tr) == last)
    &&& mi != mo && (s is Some ==> s->Some_0.key() != mi && s->Some_0.key() != mo)
}
/// the pace of the count: the waits so far, and the number of fruitless polls in a row
#[verifier::opaque]
pub open spec fn beat(ns: Seq<nat>, mv: Seq<int>, m: int, n: nat, w0: WV, w: WV) -> bool {
    paced(ns, mv, m, n) && m >= 0 && w.waits == w0.waits + squares(ns)
}
pub open spec fn moves(mi: Key, mo: Key, w0: WV, w: WV) -> int { count(mi, w0, w) + count(mo, w0, w) }
pub proof fn lemma_tally_start(s: Option<Sender<BufferSizeMessage>>, mi: Key, mo: Key, w0: WV)
    requires mi != mo && (s is Some ==> s->Some_0.key() != mi && s->Some_0.key() != mo)
    ensures tally(s, mi, mo, Seq::empty(), 0, 0, w0, w0), beat(Seq::empty(), Seq::empty(), moves(mi, mo, w0, w0), 0, w0, w0)
{
    reveal(tally); reveal(beat);
    let tr = Seq::<(int, int)>::empty(); let ns = Seq::<nat>::empty();
    assert(squares(ns) =~= Seq::empty()); assert(w0.waits =~= w0.waits + squares(ns)); assert(sizes(tr) =~= Seq::empty());
    if s is Some { assert(w0.hist(s->Some_0.key()) =~= w0.hist(s->Some_0.key()) + sizes(tr)); }
}
/// steps and waits, and channels found empty or ended, do not change the count
pub proof fn lemma_tally_same(s: Option<Sender<BufferSizeMessage>>, mi: Key, mo: Key, tr: Seq<(int, int)>, size: int, last: int, w0: WV, wa: WV, wb: WV)
    requires tally(s, mi, mo, tr, size, last, w0, wa),
        wb == wa.end(mi) || wb == wa.end(mo) || wb == wa.empty(mi) || wb == wa.empty(mo) || wb == wa.end(mi).end(mo) || wb == (WV { steps: wa.steps + 1, ..wa }) || wb == (WV { waits: wb.waits, ..wa }),
    ensures tally(s, mi, mo, tr, size, last, w0, wb), moves(mi, mo, w0, wb) == moves(mi, mo, w0, wa), size >= 0, size <= wa.steps, count(mi, w0, wb) == count(mi, w0, wa) <= wa.steps,
{ reveal(tally); lemma_counts(s, mi, mo, w0, wa, wb); if s is Some { let k = s->Some_0.key(); assert(wb.hist(k) == wa.hist(k)); } }
/// a notification is counted
pub proof fn lemma_tally_in(s: Option<Sender<BufferSizeMessage>>, mi: Key, mo: Key, tr: Seq<(int, int)>, size: int, last: int, w0: WV, wa: WV, p: Payload, wb: WV)
    requires tally(s, mi, mo, tr, size, last, w0, wa), wb == wa.recv(mi, p), count(mi, w0, wa) < wa.steps
    ensures tally(s, mi, mo, tr, size + 1, last, w0, wb), moves(mi, mo, w0, wb) == moves(mi, mo, w0, wa) + 1, size + 1 <= wa.steps
{ reveal(tally); lemma_counts(s, mi, mo, w0, wa, wb); if s is Some { let k = s->Some_0.key(); assert(wb.hist(k) == wa.hist(k)); } }
pub proof fn lemma_tally_out(tracked w: &World, s: Option<Sender<BufferSizeMessage>>, m_in: Receiver<MonitorMessage>, m_out: Receiver<MonitorMessage>, tr: Seq<(int, int)>, size: int, last: int, w0: WV, wa: WV, p: Payload)
    requires tally(s, m_in.key(), m_out.key(), tr, size, last, w0, wa), w.v() == wa.recv(m_out.key(), p), m_in.cap() is Some, m_out.cap() is Some, m_out.cap()->Some_0 <= m_in.cap()->Some_0
    ensures tally(s, m_in.key(), m_out.key(), tr, size - 1, last, w0, w.v()), moves(m_in.key(), m_out.key(), w0, w.v()) == moves(m_in.key(), m_out.key(), w0, wa) + 1, size >= 1
{ reveal(tally); axiom_in_before_out(w, m_in, m_out, w0); lemma_counts(s, m_in.key(), m_out.key(), w0, wa, w.v()); if s is Some { let k = s->Some_0.key(); assert(w.v().hist(k) == wa.hist(k)); } }
/// a notification is of the kind its channel is for
pub proof fn lemma_tally_kind(tracked w: &World, s: Option<Sender<BufferSizeMessage>>, mi: Key, mo: Key, k: Key, tr: Seq<(int, int)>, size: int, last: int, w0: WV, wa: WV, p: Payload, m: MonitorMessage)
    requires tally(s, mi, mo, tr, size, last, w0, wa), k == mi || k == mo, w.v() == wa.recv(k, p), w0.chans.contains(k), only(w0.hist(k), m)
    ensures p == Payload::Mon(m)
{ reveal(tally); lemma_counts(s, mi, mo, w0, wa, w.v()); assert(w.v().hist(k) == w0.hist(k)); assert(w.v().recvd(k).last() == p); lemma_got_only(w, k, m, p); }
/// a change of the size is reported
#[verifier::spinoff_prover]
pub proof fn lemma_tally_report(s: Option<Sender<BufferSizeMessage>>, mi: Key, mo: Key, tr: Seq<(int, int)>, size: int, last: int, w0: WV, wa: WV, r: Res, wb: WV)
    requires tally(s, mi, mo, tr, size, last, w0, wa), s is Some, wb == wa.att(s->Some_0.key(), size_att(size, r)), r is Accepted || r is Closed, size != last, wa.steps <= usize::MAX
    ensures
        r is Accepted ==> tally(s, mi, mo, tr.push((count(mi, w0, wa), count(mo, w0, wa))), size, size, w0, wb),
        r is Closed ==> total_err(s, mi, mo, w0, wb),
        moves(mi, mo, w0, wb) == moves(mi, mo, w0, wa),
{
    reveal(tally); lemma_counts(s, mi, mo, w0, wa, wb);
    let k = s->Some_0.key(); let i = count(mi, w0, wa); let o = count(mo, w0, wa); let t1 = tr.push((i, o));
    assert(trace(t1)); assert(t1.drop_last() =~= tr); assert(sizes(t1) =~= sizes(tr).push(size_att(size, Res::Accepted)));
    assert forall|j: int| 0 <= j < t1.len() implies 0 <= size_of(#[trigger] t1[j]) && t1[j].0 <= i && t1[j].1 <= o by { if j < tr.len() { assert(t1[j] == tr[j]); } }
    assert(truthful(t1, i, o));
    if r is Accepted { assert(wb.hist(k) =~= w0.hist(k) + sizes(t1)); } else { assert(wb.hist(k) =~= w0.hist(k) + sizes(t1.drop_last()) + seq![size_att(last_size(t1), Res::Closed)]); }
}
pub proof fn lemma_tally_over(s: Option<Sender<BufferSizeMessage>>, mi: Key, mo: Key, tr: Seq<(int, int)>, size: int, last: int, ns: Seq<nat>, mv: Seq<int>, n: nat, w0: WV, w: WV)
    requires tally(s, mi, mo, tr, size, last, w0, w), beat(ns, mv, moves(mi, mo, w0, w), n, w0, w) || (ns.len() > 0 ==> mv.last() < moves(mi, mo, w0, w)) && beat(ns, mv, moves(mi, mo, w0, w), 0, w0, w), w.ended.contains(mi), w.ended.contains(mo), s is Some ==> last == size
    ensures counted(s, mi, mo, size, tr, ns, mv, w0, w), counts_only(s, mi, mo, w0, w)
{ reveal(tally); reveal(beat); }
pub proof fn lemma_beat_same(ns: Seq<nat>, mv: Seq<int>, m: int, n: nat, w0: WV, wa: WV, wb: WV)
    requires beat(ns, mv, m, n, w0, wa), wb.waits == wa.waits
    ensures beat(ns, mv, m, n, w0, wb)
{ reveal(beat); }
/// movement starts the waits again
pub proof fn lemma_beat_moved(ns: Seq<nat>, mv: Seq<int>, m: int, n: nat, m1: int, w0: WV, wa: WV, wb: WV)
    requires beat(ns, mv, m, n, w0, wa), wb.waits == wa.waits, m1 > m
    ensures beat(ns, mv, m1, 0, w0, wb)
{ reveal(beat); }
pub proof fn lemma_beat_wait(ns: Seq<nat>, mv: Seq<int>, m: int, n: nat, w0: WV, wa: WV, wb: WV)
    requires beat(ns, mv, m, n, w0, wa), wb == wa.wait(n * n)
    ensures beat(ns.push(n), mv.push(m), m, grown(n), w0, wb)
{ reveal(beat); lemma_paced_wait(ns, mv, m, n, w0.waits, wa.waits); }
pub open spec fn total_err(s: Option<Sender<BufferSizeMessage>>, mi: Key, mo: Key, w0: WV, w1: WV) -> bool {
    &&& counts_only(s, mi, mo, w0, w1) && s is Some
    &&& exists|tr: Seq<(int, int)>| #[trigger] trace(tr) && tr.len() > 0 && truthful(tr, count(mi, w0, w1), count(mo, w0, w1))
            && w1.hist(s->Some_0.key()) == w0.hist(s->Some_0.key()) + sizes(tr.drop_last()) + seq![size_att(last_size(tr), Res::Closed)]
}
pub open spec fn total_post(s: Option<Sender<BufferSizeMessage>>, mi: Key, mo: Key, r: Result<usize, SendError<BufferSizeMessage>>, w0: WV, w1: WV) -> bool {
    &&& counts_only(s, mi, mo, w0, w1)
    &&& match r {
        Ok(n) => exists|tr: Seq<(int, int)>, ns: Seq<nat>, mv: Seq<int>| #[trigger] trace(tr) && #[trigger] pace(ns, mv) && counted(s, mi, mo, n as int, tr, ns, mv, w0, w1),
        Err(_) => total_err(s, mi, mo, w0, w1),
    }
}
pub open spec fn set_up(q: Key, mi: Key, mo: Key, w0: WV, wm: WV) -> bool {
    &&& wm == w0.new_chan(q).new_chan(mi).new_chan(mo)
    &&& !w0.chans.contains(q) && w0.fresh(q) && w0.fresh(mi) && w0.fresh(mo)
    &&& mi is Mon && mo is Mon && mi != mo && q is Data
}
/// the messages that went through the queue between the two links
#[verifier::spinoff_prover]
pub proof fn lemma_queue(q: Key, policy_chan: Push, ra: Seq<IODataWrapper>, rb: Seq<IODataWrapper>, h: Seq<Att>, got: Seq<Payload>, ended: bool)
    requires wrote(policy_chan, Seq::empty(), datas(ra), h), policy_chan.is_chan(), got == pays(datas(rb)), fifo(h, got, ended), ra.len() > 0,
        ra.last() is Finished || h.last() == msg_att(ra.last(), Res::Closed),
    ensures pays(datas(rb)).is_prefix_of(pays(datas(ra))), ended ==> pays(datas(rb)) == pays(datas(ra)) && ra.last() is Finished
{
    let ds = datas(ra);
    assert(offered(h) =~= pays(ds)) by {
        assert forall|i: int| 0 <= i < ds.len() implies h[i].p == pays(ds)[i] by { assert(handed(policy_chan, ds[i], h[0 + i])); }
    }
    if ended && !(ra.last() is Finished) {
        assert(ds == ra); let i = h.len() - 1; assert(offered(h).len() == h.len()); assert(h[i].r is Accepted);
    }
}
#[verifier::spinoff_prover]
pub proof fn lemma_buffered(tracked w: &World, stdin: Pull, stdout: Push, spy: Option<Sender<SpyMessage>>, mon: Option<Sender<BufferSizeMessage>>, q: Key, mi: Key, mo: Key,
    pa: Push, pb: Pull, ma: MotionNotifications, mb: MotionNotifications, w0: WV, wm: WV, wa: WV, wb: WV, na: int, nb: int,
    ra: Seq<IODataWrapper>, rb: Seq<IODataWrapper>, pull1: Pull, ua: Push, pb1: Pull, push1: Push, total: Result<usize, SendError<BufferSizeMessage>>)
    requires
        set_up(q, mi, mo, w0, wm), pa is Sender, pa.key() == Some(q), pb is Receiver, pb->Receiver_1.key() == q,
        stdin is Receiver ==> w0.chans.contains(stdin->Receiver_1.key()), stdout.is_chan() ==> w0.chans.contains(stdout.key()->Some_0),
        ma.rd() is None, ma.wr() is Some, ma.wr()->Some_0.key() == mi, mb.wr() is None, mb.rd() is Some, mb.rd()->Some_0.key() == mo,
        link_ok(stdin, ma, None, pa, wm, na, ra, pull1, ua, wa), link_ok(pb, mb, spy, stdout, wa, nb, rb, pb1, push1, wb),
        total_post(mon, mi, mo, total, wb, w.v()),
    ensures buffered(stdin, stdout, spy, mon, na, ra, rb, pull1, push1, w0, wa, w.v())
{
    let w1 = w.v();
    reveal(Push::hist); reveal(Push::key); reveal(Push::kind);
    // the input
    assert(stdin is Receiver ==> w1.recvd(stdin->Receiver_1.key()) == w0.recvd(stdin->Receiver_1.key()) + pays(datas(ra)));
    lemma_taken_from(stdin, w0, wm, datas(ra), ra.last() is Finished, pull1, wa);
    // the queue
    assert(w0.hist(q) =~= Seq::empty()); assert(w0.recvd(q) =~= Seq::empty());
    assert(wm.hist(q) == w0.hist(q)); assert(wm.recvd(q) == w0.recvd(q));
    assert(own_in(stdin) != Some(q)); assert(wa.recvd(q) == wm.recvd(q));
    assert(wb.recvd(q) =~= pays(datas(rb))); assert(w1.recvd(q) == wb.recvd(q));
    assert(stdout.key() != Some(q)); assert(wb.hist(q) == wa.hist(q));
    assert(mon is Some ==> mon->Some_0.key() != q); assert(w1.hist(q) == wb.hist(q)); assert(w1.ended.contains(q) == wb.ended.contains(q));
    axiom_fifo(w, q);
    assert(wrote(pa, Seq::empty(), datas(ra), w1.hist(q)));
    assert(ra.last() is Finished || w1.hist(q).last() == msg_att(ra.last(), Res::Closed));
    lemma_queue(q, pa, ra, rb, w1.hist(q), w1.recvd(q), w1.ended.contains(q));
    // the output
    if stdout.key() is Some {
        let k = stdout.key()->Some_0;
        assert(pa.key() != Some(k)); assert(wa.hist(k) == wm.hist(k)); assert(wm.hist(k) == w0.hist(k)); assert(w1.hist(k) == wb.hist(k));
    }
    assert(push1.hist(w1) == push1.hist(wb)); assert(stdout.hist(wa) == stdout.hist(w0));
    assert forall|k: int| #[trigger] w1.hist(Key::Spy(k)) == spy_run(w0.hist(Key::Spy(k)), spy, k, stdout, rb) by {
        assert(w1.hist(Key::Spy(k)) == wb.hist(Key::Spy(k))); assert(wa.hist(Key::Spy(k)) == spy_run(wm.hist(Key::Spy(k)), None, k, pa, ra)); assert(wm.hist(Key::Spy(k)) == w0.hist(Key::Spy(k)));
    }
    // the count
    if mon is Some {
        let s = mon->Some_0; let k = s.key();
        assert(wb.hist(k) == wa.hist(k)); assert(wa.hist(k) == wm.hist(k)); assert(wm.hist(k) == w0.hist(k));
        if total is Ok {
            let (tr, ns, mv) = choose|tr: Seq<(int, int)>, ns: Seq<nat>, mv: Seq<int>| #[trigger] trace(tr) && #[trigger] pace(ns, mv) && counted(mon, mi, mo, total->Ok_0 as int, tr, ns, mv, wb, w1);
            lemma_mon_total(w, mi, ma, mb, true, wm, wa, wb, ra.len(), rb.len());
            lemma_mon_total(w, mo, ma, mb, false, wm, wa, wb, ra.len(), rb.len());
            assert(report(tr, Res::Accepted));
            assert(size_log(s, tr, Res::Accepted, ra.len() as int - rb.len() as int, w0, w1));
        } else {
            let tr = choose|tr: Seq<(int, int)>| #[trigger] trace(tr) && tr.len() > 0 && truthful(tr, count(mi, wb, w1), count(mo, wb, w1))
                && w1.hist(k) == wb.hist(k) + sizes(tr.drop_last()) + seq![size_att(last_size(tr), Res::Closed)];
            assert(report(tr, Res::Closed));
            assert(size_log(s, tr, Res::Closed, ra.len() as int - rb.len() as int, w0, w1));
        }
    }
}
/// what was made in between does not matter to what was taken
pub proof fn lemma_taken_from(p0: Pull, w0: WV, wm: WV, ds: Seq<IODataWrapper>, ended: bool, p1: Pull, w1: WV)
    requires taken(p0, wm, ds, ended, p1, w1), wm.got == w0.got, wm.bytes == w0.bytes
    ensures taken(p0, w0, ds, ended, p1, w1)
{
    if p0.byte() is Some {
        let (b0, c0) = p0.byte().unwrap(); let c1 = p1.byte().unwrap().1;
        let d = choose|d: Seq<u8>| #[trigger] gained(b0, wm, d, w1) && flat(ds) + c1.kept() == c0.kept() + d;
        assert(gained(b0, w0, d, w1));
    }
}
/// every notification made was counted
pub proof fn lemma_mon_total(tracked w: &World, k: Key, ma: MotionNotifications, mb: MotionNotifications, first: bool, wm: WV, wa: WV, wb: WV, na: nat, nb: nat)
    requires
        k is Mon, wm.fresh(k), w.v().chans.contains(k), w.v().ended.contains(k), wb.recvd(k) == wm.recvd(k), w.v().hist(k) == wb.hist(k),
        forall|k: int| #[trigger] wa.hist(Key::Mon(k)) == notes(wm.hist(Key::Mon(k)), ma, k, na), forall|k: int| #[trigger] wb.hist(Key::Mon(k)) == notes(wa.hist(Key::Mon(k)), mb, k, nb),
        ma.rd() is None, ma.wr() is Some, mb.wr() is None, mb.rd() is Some,
        first ==> ma.wr()->Some_0.key() == k && mb.rd()->Some_0.key() != k, !first ==> ma.wr()->Some_0.key() != k && mb.rd()->Some_0.key() == k,
    ensures count(k, wb, w.v()) == (if first { na } else { nb })
{
    let n = k->Mon_0;
    assert(wa.hist(Key::Mon(n)) == notes(wm.hist(k), ma, n, na)); assert(wb.hist(Key::Mon(n)) == notes(wa.hist(k), mb, n, nb));
    if first { lemma_notes_count(wm.hist(k), ma, n, na); lemma_notes_none(wa.hist(k), mb, n, nb); }
    else { lemma_notes_none(wm.hist(k), ma, n, na); lemma_notes_count(wa.hist(k), mb, n, nb); }
    axiom_fifo(w, k);
    assert(offered(w.v().hist(k)).len() == w.v().hist(k).len());
}
pub open spec fn report(tr: Seq<(int, int)>, c: Res) -> bool { true }
/// the reports: either all arrived and the last one was the number left inside, or the last one was refused
pub open spec fn size_log(s: Sender<BufferSizeMessage>, tr: Seq<(int, int)>, c: Res, left: int, w0: WV, w1: WV) -> bool {
    &&& forall|j: int| 0 <= j < tr.len() ==> 0 <= size_of(#[trigger] tr[j])
    &&& if c is Accepted { last_size(tr) == left && w1.hist(s.key()) == w0.hist(s.key()) + sizes(tr) }
        else { tr.len() > 0 && w1.hist(s.key()) == w0.hist(s.key()) + sizes(tr.drop_last()) + seq![size_att(last_size(tr), Res::Closed)] }
}
//@item src/buffer.rs :: impl StartableControl for Buffer > fn start [eff, eff+total_in_buffer, join, m+is_empty, m+is_closed, wrap=impl Buffer]
    async fn start(&mut self, spy: Option<Sender<SpyMessage>>) -> /*@ (r: @*/ MotionResult<usize> /*@ )
        requires
            old(self).v().inp is Some ==> old(self).v().inp->Some_0.wf() && old(self).v().inp->Some_0.jn() is Some,
            old(self).v().inp is Some && old(self).v().inp->Some_0 is Receiver ==> old(w).v().chans.contains(old(self).v().inp->Some_0->Receiver_1.key()),
            old(self).v().out is Some && old(self).v().out->Some_0.is_chan() ==> old(w).v().chans.contains(old(self).v().out->Some_0.key()->Some_0),
        ensures match r {
            Ok(n) => old(self).v().inp is Some && old(self).v().out is Some && exists|ra: Seq<IODataWrapper>, rb: Seq<IODataWrapper>, pull1: Pull, push1: Push, wm: WV| #[trigger] outcome(ra, rb, pull1, push1, wm)
                && buffered(old(self).v().inp->Some_0, old(self).v().out->Some_0, spy, old(self).v().mon, n as int, ra, rb, pull1, push1, old(w).v(), wm, final(w).v()),
            Err(_) => true,
        }, @*/ {
        /*@ let ghost w0 = w.v(); let ghost mon0 = self.v().mon; @*/
        let (unbounded_snd, unbounded_rcv) = unbounded();
        let (monitor_i_snd, monitor_i_rcv): (Sender<MonitorMessage>, Receiver<MonitorMessage>) = bounded(8);
        let (monitor_o_snd, monitor_o_rcv): (Sender<MonitorMessage>, Receiver<MonitorMessage>) = bounded(8);

        let stdin = std::mem::take(&mut self.stdin).ok_or(MotionError::NoneError)?;
        let stdout = std::mem::take(&mut self.stdout).ok_or(MotionError::NoneError)?;

        let push_a = Push::Sender(
            Journey { src: 0, dst: 0, src_port: None, breakable: stdout.journey().ok_or(MotionError::NoneError)?.breakable },
            unbounded_snd
        );
        let pull_b = Pull::Receiver(
            PullJourney { src: 0, dst: 0 },
            unbounded_rcv
        );

        let r_a = motion(
            stdin,
            MotionNotifications::written(monitor_i_snd),
            None,
            push_a
        );
        let r_b = motion(
            pull_b,
            MotionNotifications::read(monitor_o_snd),
            spy,
            stdout,
        );

        /*! #[verifier::spinoff_prover] !*/
        async fn total_in_buffer(sender: Option<Sender<BufferSizeMessage>>, m_in: Receiver<MonitorMessage>, m_out: Receiver<MonitorMessage>) -> /*@ (r: @*/ Result<usize, SendError<BufferSizeMessage>> /*@ )
            requires
                m_in.key() != m_out.key(), sender is Some ==> sender->Some_0.key() != m_in.key() && sender->Some_0.key() != m_out.key(), old(w).v().chans.contains(m_in.key()), old(w).v().chans.contains(m_out.key()),
                only(old(w).v().hist(m_in.key()), MonitorMessage::Wrote(0)), only(old(w).v().hist(m_out.key()), MonitorMessage::Read(0)),
                m_in.cap() is Some, m_out.cap() is Some, m_out.cap()->Some_0 <= m_in.cap()->Some_0,
            ensures
                total_post(sender, m_in.key(), m_out.key(), r, old(w).v(), final(w).v()), @*/ {
            let mut size: usize = 0;
            let mut back_off = BackOff::new();
            let mut last /*@: usize@*/ = 0;
            /*@ let ghost w0 = w.v(); let ghost mi = m_in.key(); let ghost mo = m_out.key(); let ghost mut tr: Seq<(int, int)> = Seq::empty(); let ghost mut ns: Seq<nat> = Seq::empty(); let ghost mut mv: Seq<int> = Seq::empty();
                proof { lemma_tally_start(sender, mi, mo, w0); } @*/
            loop
                /*@ invariant
                    tally(sender, mi, mo, tr, size as int, last as int, w0, w.v()), sender is Some ==> last == size,
                    back_off.wf(), beat(ns, mv, moves(mi, mo, w0, w.v()), back_off.n(), w0, w.v()), @*/
            {
                /*@ let ghost wk = w.v(); proof { tick(w); lemma_tally_same(sender, mi, mo, tr, size as int, last as int, w0, wk, w.v()); } let ghost wl = w.v(); let ghost size_l = size as int; let ghost last_l = last as int; @*/
                let mut buffer_movement = false;
                match m_in.try_recv() {
                    Err(async_std::channel::TryRecvError::Empty) => {
                    },
                    Err(async_std::channel::TryRecvError::Closed) => (),
                    Ok(MonitorMessage::Wrote(_)) => {
                        // println!("+BUF");
                        /*@ proof { lemma_tally_in(sender, mi, mo, tr, size_l, last_l, w0, wl, w.v().recvd(mi).last(), w.v()); } @*/
                        buffer_movement = true;
                        size += 1;
                    }
                    Ok(MonitorMessage::Read(_)) => {
                        /*@ proof { lemma_tally_kind(w, sender, mi, mo, mi, tr, size_l, last_l, w0, wl, w.v().recvd(mi).last(), MonitorMessage::Wrote(0)); } @*/
                        panic!("SHOULD NOT BE HERE");
                    }
                }
                /*@ let ghost wi = w.v(); let ghost size_i = size as int; let ghost mut got_out = false;
                    proof { if !buffer_movement { lemma_tally_same(sender, mi, mo, tr, size_l, last_l, w0, wl, wi); } } @*/
                match m_out.try_recv() {
                    Err(async_std::channel::TryRecvError::Empty) => {
                    },
                    Err(async_std::channel::TryRecvError::Closed) => (),
                    Ok(MonitorMessage::Read(_)) => {
                        // println!("-BUF");
                        /*@ proof { got_out = true; lemma_tally_out(w, sender, m_in, m_out, tr, size_i, last_l, w0, wi, w.v().recvd(mo).last()); } @*/
                        buffer_movement = true;
                        size -= 1;
                    }
                    Ok(MonitorMessage::Wrote(_)) => {
                        /*@ proof { lemma_tally_kind(w, sender, mi, mo, mo, tr, size_i, last_l, w0, wi, w.v().recvd(mo).last(), MonitorMessage::Read(0)); } @*/
                        panic!("SHOULD NOT BE HERE");
                    }
                }
                /*@ let ghost wo = w.v(); let ghost size_o = size as int; let ghost n0 = back_off.n(); let ghost m0 = moves(mi, mo, w0, wk);
                    proof {
                        if !got_out { lemma_tally_same(sender, mi, mo, tr, size_i, last_l, w0, wi, wo); }
                        if buffer_movement { lemma_beat_moved(ns, mv, m0, n0, moves(mi, mo, w0, wo), w0, wk, wo); } else { lemma_beat_same(ns, mv, m0, n0, w0, wk, wo); }
                    } @*/
                /*! let res0 = !*/ match (last != size, &sender) {
                    (true, Some(s)) => {
                        last = size;
                        s.send(BufferSizeMessage(size)).await
                    },
                    _ => Ok(()),
                } /*! ; !*/ /*@ proof {
                    if sender is Some && last_l != size_o {
                        lemma_tally_report(sender, mi, mo, tr, size_o, last_l, w0, wo, if res0 is Ok { Res::Accepted } else { Res::Closed }, w.v());
                        if res0 is Ok { tr = tr.push((count(mi, w0, wo), count(mo, w0, wo))); }
                    }
                } @*/ /*! res0 !*/ ?;
                /*@ let ghost wc = w.v(); proof { lemma_beat_same(ns, mv, moves(mi, mo, w0, wo), if buffer_movement { 0 } else { n0 }, w0, wo, wc); } @*/
                if m_in.is_empty() && m_in.is_closed() && m_out.is_empty() && m_out.is_closed() {
                    /*@ proof { axiom_over(w, mi, mo); lemma_tally_same(sender, mi, mo, tr, size_o, last as int, w0, wc, w.v());
                        lemma_beat_same(ns, mv, moves(mi, mo, w0, wc), if buffer_movement { 0 } else { n0 }, w0, wc, w.v());
                        lemma_tally_over(sender, mi, mo, tr, size_o, last as int, ns, mv, if buffer_movement { 0 } else { n0 }, w0, w.v());
                        assert(trace(tr)); assert(pace(ns, mv)); } @*/
                    return Ok(size as usize);
                }
                match buffer_movement {
                    false => {
                        back_off.wait().await;
                        /*@ proof { lemma_beat_wait(ns, mv, moves(mi, mo, w0, wc), n0, w0, wc, w.v()); ns = ns.push(n0); mv = mv.push(moves(mi, mo, w0, wc)); lemma_tally_same(sender, mi, mo, tr, size_o, last as int, w0, wc, w.v()); } @*/
                    },
                    true => {
                        back_off.reset();
                    },
                };
            }
        }

        /*@ let ghost wm = w.v(); let ghost mut wa = w.v(); let ghost mut wb = w.v(); let ghost in0 = stdin; let ghost out0 = stdout; let ghost pa = push_a; let ghost pb = pull_b;
            let ghost q = unbounded_rcv.key(); let ghost mi = monitor_i_rcv.key(); let ghost mo = monitor_o_rcv.key();
            let ghost ma = notes_of(None, Some(monitor_i_snd)); let ghost mb = notes_of(Some(monitor_o_snd), None);
            
            let ghost mut ra: Seq<IODataWrapper> = Seq::empty(); let ghost mut rb: Seq<IODataWrapper> = Seq::empty(); let ghost mut pull1 = in0; let ghost mut push1 = out0; let ghost mut ua = pa; let ghost mut pb1 = pb; @*/
        let r_out_prep = r_a /*@ proof {
                wa = w.v();
                if j0__ is Ok {
                    let (rs, p1, u1) = choose|rs: Seq<IODataWrapper>, p1: Pull, u1: Push| #[trigger] life(rs, p1, u1) && link_ok(in0, ma, None, pa, wm, j0__->Ok_0 as int, rs, p1, u1, wa);
                    ra = rs; pull1 = p1; ua = u1; lemma_link_notes(in0, ma, None, pa, wm, j0__->Ok_0 as int, rs, p1, u1, wa);
                }
                lemma_notes_only(ma, wm, wa, mi, MonitorMessage::Wrote(0)); lemma_notes_only(ma, wm, wa, mo, MonitorMessage::Read(0));
            } @*/ .join(r_b /*@ proof {
                wb = w.v();
                if j1__ is Ok {
                    let (rs, p1, u1) = choose|rs: Seq<IODataWrapper>, p1: Pull, u1: Push| #[trigger] life(rs, p1, u1) && link_ok(pb, mb, spy, out0, wa, j1__->Ok_0 as int, rs, p1, u1, wb);
                    rb = rs; push1 = u1; pb1 = p1; lemma_link_notes(pb, mb, spy, out0, wa, j1__->Ok_0 as int, rs, p1, u1, wb);
                }
                lemma_notes_only(mb, wa, wb, mi, MonitorMessage::Wrote(0)); lemma_notes_only(mb, wa, wb, mo, MonitorMessage::Read(0));
            } @*/ ).join(
            total_in_buffer(std::mem::take(&mut self.buffer_size_monitor), monitor_i_rcv, monitor_o_rcv) /*@ proof {
                reveal(Push::key);
                if j0__ is Ok && j1__ is Ok {
                    lemma_buffered(w, in0, out0, spy, mon0, q, mi, mo, pa, pb, ma, mb, w0, wm, wa, wb, j0__->Ok_0 as int, j1__->Ok_0 as int, ra, rb, pull1, ua, pb1, push1, j2__);
                    assert(outcome(ra, rb, pull1, push1, wa));
                }
            } @*/
        ).await;

        fn structure_motion_result(input: ((MotionResult<usize>, MotionResult<usize>), Result<usize, SendError<BufferSizeMessage>>)) -> /*@ (r: @*/ MotionResult<usize> /*@ )
            ensures match r { Ok(n) => input.0.1 is Ok && input.0.0 == Ok::<usize, MotionError>(n), Err(_) => input.0.0 is Err || input.0.1 is Err }, @*/ {
            match input {
                ((MotionResult::Ok(stdin_count), MotionResult::Ok(_)), _x) => Ok(stdin_count),
                _ => Err(MotionError::NoneError),
            }
        }

        match structure_motion_result(r_out_prep) {
            Ok(x) => Ok(x),
            Err(x) => Err(x)
        }

    }
//@end
}
}
