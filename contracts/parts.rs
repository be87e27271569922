// Regulators and faucets: one link with a control channel, polled after each message.
pub mod pump {
use vstd::prelude::*;
use crate::world::*;
use crate::async_std::channel::{Sender, Receiver};
use crate::connectable::*;
use crate::motion::*;
verus!{
/// polls of the control channel that have found it empty or have waited out a pause
pub open spec fn polls(k: Key, w0: WV, w: WV) -> int { w.idles(k) - w0.idles(k) + (w.recvd(k).len() - w0.recvd(k).len()) / 2 }
/// the component is not in a pause: every pause taken from the control channel has been followed by its resume
pub open spec fn running(k: Key, w0: WV, w: WV) -> bool { w.ended.contains(k) || (w.recvd(k).len() >= w0.recvd(k).len() && (w.recvd(k).len() - w0.recvd(k).len()) % 2 == 0) }
/// after each of n messages the control channel was asked, and no message was read during a pause (unless its other end has gone)
pub open spec fn obeyed(c: Option<Receiver<()>>, w0: WV, w: WV, n: int) -> bool {
    match c { Some(c) => running(c.key(), w0, w) && (w.ended.contains(c.key()) || polls(c.key(), w0, w) >= n), None => true }
}
/// one poll of the control channel
pub open spec fn polled(c: Option<Receiver<()>>, w0: WV, w1: WV) -> bool {
    match c {
        None => w1 == w0,
        Some(c) => {
            ||| w1 == w0.empty(c.key())
            ||| w1 == w0.end(c.key())
            ||| w1 == w0.recv(c.key(), Payload::Unit).recv(c.key(), Payload::Unit)
            ||| w1 == w0.recv(c.key(), Payload::Unit).end(c.key())
        },
    }
}
/// the part of the world a link does not share with its control
pub open spec fn steered(c: Option<Receiver<()>>, w0: WV, w1: WV) -> bool {
    &&& w1 == (WV { got: w1.got, ended: w1.ended, idle: w1.idle, closed: w1.closed, ..w0 })
    &&& forall|k: Key| !(k is Ctl) ==> #[trigger] w1.recvd(k) == w0.recvd(k)
    &&& forall|k: Key| !(k is Ctl) ==> (#[trigger] w1.ended.contains(k)) == w0.ended.contains(k)
    &&& forall|k: Key| !(k is Ctl) ==> (#[trigger] w1.closed.contains(k)) == w0.closed.contains(k)
}
/// what a component that succeeded has done: handed on, in order, what it read, until its input ended or its finish output refused
pub open spec fn pumped(pull0: Pull, spy: Option<Sender<SpyMessage>>, push0: Push, w0: WV, n: int, rs: Seq<IODataWrapper>, pull1: Pull, push1: Push, w1: WV) -> bool {
    &&& n == rs.len() - 1
    &&& taken(pull0, w0, datas(rs), rs.last() is Finished, pull1, w1)
    &&& push1.same(push0) && wrote(push0, push0.hist(w0), datas(rs), push1.hist(w1))
    &&& rs.last() is Finished || (push0.key() is Some && push0.policy() == Breakable::Finish && push1.hist(w1).last() == msg_att(rs.last(), Res::Closed))
    &&& forall|k: int| #[trigger] w1.hist(Key::Spy(k)) == spy_run(w0.hist(Key::Spy(k)), spy, k, push0, rs)
    &&& rest(push0, w0, w1) && in_frame(pull0, w0, w1)
}
/// the state between two messages
pub open spec fn pump_inv(pull0: Pull, spy: Option<Sender<SpyMessage>>, push0: Push, w0: WV, rs: Seq<IODataWrapper>, pull: Pull, push: Push, w: WV) -> bool {
    &&& all_data(rs) && push.same(push0)
    &&& taken(pull0, w0, rs, false, pull, w) && wrote(push0, push0.hist(w0), rs, push.hist(w))
    &&& forall|k: int| #[trigger] w.hist(Key::Spy(k)) == spy_run(w0.hist(Key::Spy(k)), spy, k, push0, rs)
    &&& rest(push0, w0, w) && in_frame(pull0, w0, w) && own_in(pull) == own_in(pull0)
    &&& rs.len() <= w.steps
}
pub proof fn lemma_taken_steered(p0: Pull, w0: WV, ds: Seq<IODataWrapper>, ended: bool, p1: Pull, c: Option<Receiver<()>>, wx: WV, w1: WV)
    requires taken(p0, w0, ds, ended, p1, wx), steered(c, wx, w1)
    ensures taken(p0, w0, ds, ended, p1, w1)
{
    if p0.byte() is Some {
        let (b0, c0) = p0.byte().unwrap(); let c1 = p1.byte().unwrap().1;
        let d = choose|d: Seq<u8>| #[trigger] gained(b0, w0, d, wx) && flat(ds) + c1.kept() == c0.kept() + d;
        assert(w1.read(b0.source()) == wx.read(b0.source()));
        assert(gained(b0, w0, d, w1));
    }
}
pub proof fn lemma_polled_steered(c: Option<Receiver<()>>, w0: WV, w1: WV)
    requires polled(c, w0, w1)
    ensures steered(c, w0, w1)
{ }
pub proof fn lemma_steered_close(c: Option<Receiver<()>>, w0: WV, wm: WV, w1: WV)
    requires steered(c, w0, wm), w1 == match c { Some(c) => wm.close(c.key()), None => wm }
    ensures steered(c, w0, w1)
{
    assert forall|k: Key| !(k is Ctl) implies #[trigger] w1.recvd(k) == w0.recvd(k) by { assert(wm.recvd(k) == w0.recvd(k)); }
    assert forall|k: Key| !(k is Ctl) implies (#[trigger] w1.ended.contains(k)) == w0.ended.contains(k) by { assert(wm.ended.contains(k) == w0.ended.contains(k)); }
}
/// the link's own state does not depend on what happens on the control channel
pub proof fn lemma_steered(pull0: Pull, spy: Option<Sender<SpyMessage>>, push0: Push, w0: WV, rs: Seq<IODataWrapper>, pull: Pull, push: Push, c: Option<Receiver<()>>, wx: WV, w1: WV)
    requires pump_inv(pull0, spy, push0, w0, rs, pull, push, wx), steered(c, wx, w1)
    ensures pump_inv(pull0, spy, push0, w0, rs, pull, push, w1)
{
    lemma_taken_steered(pull0, w0, rs, false, pull, c, wx, w1);
    lemma_hist_same_log(push, wx, w1);
    assert forall|k: Key| true implies #[trigger] w1.hist(k) == wx.hist(k) by { }
    assert forall|k: Key| !(k is Ctl) && own_in(pull0) != Some(k) implies #[trigger] w1.recvd(k) == w0.recvd(k) by { assert(wx.recvd(k) == w0.recvd(k)); }
    assert forall|k: Key| !(k is Ctl) && own_in(pull0) != Some(k) implies (#[trigger] w1.ended.contains(k)) == w0.ended.contains(k) by { assert(wx.ended.contains(k) == w0.ended.contains(k)); }
}
/// a step of a link leaves its control channel alone
pub open spec fn ctl_same(c: Option<Receiver<()>>, w0: WV, w1: WV) -> bool {
    match c { Some(c) => w1.recvd(c.key()) == w0.recvd(c.key()) && w1.idles(c.key()) == w0.idles(c.key()) && w1.ended.contains(c.key()) == w0.ended.contains(c.key())
        && w1.closed.contains(c.key()) == w0.closed.contains(c.key()), None => true }
}
#[verifier::spinoff_prover]
pub proof fn lemma_pump_step(pull0: Pull, spy: Option<Sender<SpyMessage>>, push0: Push, w0: WV, rs: Seq<IODataWrapper>, pk: Pull, pushk: Push, wk: WV, c: Option<Receiver<()>>, m: MotionNotifications,
    res: MotionWorkerResult, data: IODataWrapper, wr: WV, p1: Pull, pushs: Seq<Push>, w1: WV)
    requires
        pump_inv(pull0, spy, push0, w0, rs, pk, pushk, wk), m.rd() is None, m.wr() is None,
        worker_ok(pk, m, seq![pushk], spy, wk, res, data, wr, p1, pushs, w1), !(data is Skipped),
    ensures
        pushs.len() == 1, pushs[0].same(push0), res.read, w1.steps < 0x4000_0000_0000_0000, ctl_same(c, wk, w1),
        !res.finished ==> pump_inv(pull0, spy, push0, w0, rs.push(data), p1, pushs[0], w1),
        res.finished ==> life(rs.push(data), p1, pushs[0]) && pumped(pull0, spy, push0, w0, rs.len() as int, rs.push(data), p1, pushs[0], w1),
{
    let wx = choose|wx: WV| #[trigger] after_read(wx, wr) && read_step(pk, wk, data, p1, wx);
    lemma_taken_step(pull0, w0, rs, pk, wk, data, p1, wx, w1);
    lemma_in_frame_step(pull0, w0, pk, wk, data, p1, wx, wr, w1);
    let p = seq![pushk];
    assert(p[0] == pushk);
    assert(delivered(p[0], p[0].hist(wr), data, pushs[0], pushs[0].hist(w1)));
    lemma_hist_same_log(pushk, wk, wr);
    let rs1 = rs.push(data);
    assert(rs1.drop_last() =~= rs);
    assert(datas(rs1) =~= if data is Finished { rs } else { rs1 });
    if data is IOData && !pushk.is_none() {
        let a = pushs[0].hist(w1).last();
        assert(pushs[0].hist(w1) == pushk.hist(wk).push(a));
        lemma_wrote_step(push0, push0.hist(w0), rs, pushk.hist(wk), data, a);
    }
    assert forall|k: int| #[trigger] w1.hist(Key::Spy(k)) == spy_run(w0.hist(Key::Spy(k)), spy, k, push0, rs1) by {
        assert(wr.hist(Key::Spy(k)) == wk.hist(Key::Spy(k)));
        let h = wr.hist(Key::Spy(k));
        assert(spy_copies(h, p, data, 1) == spy_copy(spy_copies(h, p, data, 0), p[0], data));
        assert(spy_copies(h, p, data, 0) == h);
    }
    assert forall|k: Key| !(k is Mon) && !(k is Spy) && push0.key() != Some(k) implies #[trigger] w1.hist(k) == w0.hist(k) by {
        assert(wr.hist(k) == wk.hist(k));
    }
    assert(res.finished <==> (data is Finished || forall|i: int| 0 <= i < p.len() ==> gave_up(p[i], (#[trigger] p[i]).hist(wr), data, pushs[i].hist(w1))));
    if res.finished && !(data is Finished) { assert(gave_up(p[0], p[0].hist(wr), data, pushs[0].hist(w1))); }
}
/// the same for a step that failed
#[verifier::spinoff_prover]
pub proof fn lemma_pump_err(pull0: Pull, spy: Option<Sender<SpyMessage>>, push0: Push, w0: WV, rs: Seq<IODataWrapper>, pk: Pull, pushk: Push, wk: WV, m: MotionNotifications,
    e: MotionError, p1: Pull, pushs: Seq<Push>, w1: WV)
    requires
        pump_inv(pull0, spy, push0, w0, rs, pk, pushk, wk), m.rd() is None, m.wr() is None,
        (e is ReadIOError && pushs == seq![pushk] && only_read(pk, wk, p1, w1) && pk.jn() == Some(e->ReadIOError_0))
            || exists|data: IODataWrapper, wr: WV, n: int| #[trigger] at(data, wr, n) && worker_err(pk, seq![pushk], wk, e, data, wr, n, p1, pushs, w1),
    ensures
        failed(pull0, push0, w0, e, w1), e is OutputClosed ==> push0.policy() is Terminate,
{
    if e is ReadIOError {
        lemma_hist_same_log(pushk, wk, w1);
        lemma_in_frame_read(pull0, w0, pk, wk, p1, w1);
        assert(life_err(rs, IODataWrapper::Finished, pushk.hist(wk), p1, pushk));
        assert forall|k: Key| !(k is Mon) && !(k is Spy) && push0.key() != Some(k) implies #[trigger] w1.hist(k) == w0.hist(k) by { assert(wk.hist(k) == w0.hist(k)); assert(w1.hist(k) == wk.hist(k)); }
        assert(link_err(pull0, push0, w0, e, rs, IODataWrapper::Finished, pushk.hist(wk), p1, pushk, w1));
    } else {
        let (data, wr, n) = choose|data: IODataWrapper, wr: WV, n: int| #[trigger] at(data, wr, n) && worker_err(pk, seq![pushk], wk, e, data, wr, n, p1, pushs, w1);
        let wx = choose|wx: WV| #[trigger] after_read(wx, wr) && read_step(pk, wk, data, p1, wx);
        lemma_taken_step(pull0, w0, rs, pk, wk, data, p1, wx, w1);
        lemma_in_frame_step(pull0, w0, pk, wk, data, p1, wx, wr, w1);
        lemma_hist_same_log(pushk, wk, wr);
        let p = seq![pushk];
        assert(p[0] == pushk);
        let h0 = pushk.hist(wk);
        assert forall|k: Key| !(k is Mon) && !(k is Spy) && push0.key() != Some(k) implies #[trigger] w1.hist(k) == w0.hist(k) by { assert(wk.hist(k) == w0.hist(k)); assert(wr.hist(k) == wk.hist(k)); }
        match e {
            MotionError::OutputClosed(_, _, _, _) => {
                assert(life_err(rs, data, h0, p1, pushs[0]));
                assert(link_err(pull0, push0, w0, e, rs, data, h0, p1, pushs[0], w1));
            },
            MotionError::WriteIOError(_, _, _, _) => {
                assert(life_err(rs, data, h0, p1, pushs[0]));
                assert(link_err(pull0, push0, w0, e, rs, data, h0, p1, pushs[0], w1));
            },
            MotionError::MonitorReadError(_, _, _) => {
                assert(p[0].hist(w1) == p[0].hist(wr));
                assert(life_err(rs, data, h0, p1, pushk));
                assert(link_err(pull0, push0, w0, e, rs, data, h0, p1, pushk, w1));
            },
            _ => {
                assert(n == 1);
                assert(delivered(p[0], p[0].hist(wr), data, pushs[0], pushs[0].hist(w1)));
                if data is IOData && !pushk.is_none() {
                    let a = pushs[0].hist(w1).last();
                    assert(pushs[0].hist(w1) == h0.push(a));
                    lemma_wrote_step(push0, push0.hist(w0), rs, h0, data, a);
                    assert(life_err(rs.push(data), data, h0.push(a), p1, pushs[0]));
                    assert(link_err(pull0, push0, w0, e, rs.push(data), data, h0.push(a), p1, pushs[0], w1));
                } else {
                    assert(life_err(rs, data, h0, p1, pushs[0]));
                    assert(link_err(pull0, push0, w0, e, rs, data, h0, p1, pushs[0], w1));
                }
            },
        }
    }
}
pub open spec fn failed(pull0: Pull, push0: Push, w0: WV, e: MotionError, w1: WV) -> bool {
    exists|rs: Seq<IODataWrapper>, data: IODataWrapper, h: Seq<Att>, pull1: Pull, push1: Push| #[trigger] life_err(rs, data, h, pull1, push1) && link_err(pull0, push0, w0, e, rs, data, h, pull1, push1, w1)
}
/// the whole run of a component made of one link
pub open spec fn ran_pump(stdin: Option<Pull>, stdout: Option<Push>, spy: Option<Sender<SpyMessage>>, c: Option<Receiver<()>>, w0: WV, r: MotionResult<usize>, w1: WV) -> bool {
    match (stdin, stdout) {
        (Some(pull), Some(push)) => match r {
            Ok(n) => obeyed(c, w0, w1, n as int) && exists|rs: Seq<IODataWrapper>, pull1: Pull, push1: Push| #[trigger] life(rs, pull1, push1) && pumped(pull, spy, push, w0, n as int, rs, pull1, push1, w1),
            Err(e) => failed(pull, push, w0, e, w1),
        },
        _ => r == MotionResult::<usize>::Ok(0) && w1 == w0,
    }
}
/// `hand` one token over, unless nothing needs to change; the answer tells whether the component got it
pub open spec fn signalled(k: Key, needed: bool, w0: WV, w1: WV, r: Result<bool, crate::async_std::channel::SendError<()>>) -> bool {
    if !needed { r == Ok::<bool, crate::async_std::channel::SendError<()>>(false) && w1 == w0 } else {
        ||| r == Ok::<bool, crate::async_std::channel::SendError<()>>(true) && w1 == w0.att(k, Att { p: Payload::Unit, r: Res::Accepted })
        ||| r == Ok::<bool, crate::async_std::channel::SendError<()>>(false) && w1 == w0.att(k, Att { p: Payload::Unit, r: Res::Closed })
    }
}
/// an output that was made: its sending end (kept by the component) and its receiving end (given out)
pub open spec fn made_output(port: OutputPort, breakable: Breakable, src: usize, dst: usize, cap: usize, r: Pull, p: Push, w0: WV, w1: WV) -> bool {
    &&& r is Receiver && r->Receiver_0 == (PullJourney { src, dst })
    &&& p is IoSender && p->IoSender_1.key() == r->Receiver_1.key() && p->IoSender_1.cap() == Some(cap)
    &&& p->IoSender_0 == (Journey { src, src_port: Some(port), dst, breakable })
    &&& !w0.chans.contains(r->Receiver_1.key()) && w1 == w0.new_chan(r->Receiver_1.key())
}
}
}
pub mod regulator {
use crate::async_std;
use vstd::prelude::*;
use crate::world::*;
use crate::async_std::channel::{bounded, Sender, Receiver, SendError};
use crate::connectable::*;
use crate::motion::*;
use crate::pump::*;
verus!{
//@item src/regulator.rs :: struct Regulator
pub struct Regulator {
    started: bool,
    stdout_size: usize,
    stdout: Option<Push>,
    stdin: Option<Pull>,
    control: Option<async_std::channel::Receiver<()>>,
}
//@end
//@item src/regulator.rs :: struct RegulatorControl
pub struct RegulatorControl {
    paused: bool,
    control: async_std::channel::Sender<()>,
}
//@end
pub ghost struct RV { pub out: Option<Push>, pub inp: Option<Pull>, pub ctl: Option<Receiver<()>>, pub started: bool, pub size: usize }
impl Regulator {
    pub closed spec fn v(&self) -> RV { RV { out: self.stdout, inp: self.stdin, ctl: self.control, started: self.started, size: self.stdout_size } }
}
//@item src/regulator.rs :: impl Regulator > fn new
    pub fn new() -> /*@ (r: @*/ Regulator /*@ ) ensures r.v().out is None, r.v().inp is None, r.v().ctl is None, !r.v().started, r.v().size > 0 @*/ {
        Regulator {
            started: false,
            stdout_size: 8,
            stdin: None,
            stdout: None,
            control: None,
        }
    }
//@end
//@item src/regulator.rs :: impl Regulator > fn set_stdout_size
    pub fn set_stdout_size(&mut self, size: usize)
        /*@ ensures final(self).v() == (RV { size, ..old(self).v() }) @*/ {
        self.stdout_size = size;
    }
//@end
//@item src/regulator.rs :: impl Regulator > fn get_control [eff]
    pub fn get_control(&mut self) -> /*@ (r: @*/ RegulatorControl /*@ )
        requires old(self).v().ctl is None,
        ensures !r.is_paused(), final(self).v().ctl is Some, final(self).v().ctl->Some_0.key() == r.key(), r.cap() == Some(1usize), final(self).v() == (RV { ctl: final(self).v().ctl, ..old(self).v() }),
            !old(w).v().chans.contains(r.key()), final(w).v() == old(w).v().new_chan(r.key()), @*/ {
        assert!(self.control.is_none(), "Each regulator can only have one control");
        let (send, recv) = bounded(1);
        self.control = Some(recv);
        RegulatorControl {
            paused: false,
            control: send,
        }
    }
//@end
//@item src/regulator.rs :: impl Connectable for Regulator > fn add_output [eff, wrap=impl Regulator]
    fn add_output(&mut self, port: OutputPort, breakable: Breakable, src_id: usize, dst_id: usize) -> /*@ (r: @*/ std::result::Result<Pull, ConnectableAddOutputError> /*@ )
        requires old(self).v().size > 0,
        ensures match r {
            Err(e) => *final(self) == *old(self) && final(w).v() == old(w).v()
                && (if port != OutputPort::Out { e == ConnectableAddOutputError::UnsupportedPort(port) } else { old(self).v().out is Some && e == ConnectableAddOutputError::AlreadyAllocated(port) }),
            Ok(p) => port == OutputPort::Out && old(self).v().out is None && final(self).v().out is Some && final(self).v() == (RV { out: final(self).v().out, ..old(self).v() })
                && made_output(port, breakable, src_id, dst_id, old(self).v().size, p, final(self).v().out->Some_0, old(w).v(), final(w).v()),
        }, @*/ {
        if port != OutputPort::Out {
            return Err(ConnectableAddOutputError::UnsupportedPort(port));
        }
        if self.stdout.is_some() {
            return Err(ConnectableAddOutputError::AlreadyAllocated(port));
        }
        let (child_stdout_push_channel, stdout_io_reciever_channel) = bounded(self.stdout_size);
        let journey = Journey { src: src_id, src_port: Some(port), dst: dst_id, breakable };
        self.stdout = Some(Push::IoSender(journey.clone(), child_stdout_push_channel));
        Ok(Pull::Receiver(journey.as_pull_journey(), stdout_io_reciever_channel))
    }
//@end
//@item src/regulator.rs :: impl Connectable for Regulator > fn add_input [wrap=impl Regulator]
    fn add_input(&mut self, pull: Pull, unused_priority: isize) -> /*@ (r: @*/ std::result::Result<(), ConnectableAddInputError> /*@ )
        ensures match r {
            Err(e) => *final(self) == *old(self)
                && (if unused_priority != 0 { e == ConnectableAddInputError::UnsupportedPriority(unused_priority) } else { old(self).v().inp is Some && e == ConnectableAddInputError::AlreadyAllocated }),
            Ok(_) => unused_priority == 0 && old(self).v().inp is None && final(self).v() == (RV { inp: Some(pull), ..old(self).v() }),
        }, @*/ {
        if unused_priority != 0 {
            return Err(ConnectableAddInputError::UnsupportedPriority(unused_priority));
        }
        if self.stdin.is_some() {
            return Err(ConnectableAddInputError::AlreadyAllocated);
        }
        self.stdin = Some(pull);
        Ok(())
    }
//@end
//@item src/regulator.rs :: impl StartableControl for Regulator > fn start [eff, wrap=impl Regulator]
    async fn start(&mut self, spy: Option<Sender<SpyMessage>>) -> /*@ (r: @*/ MotionResult<usize> /*@ )
        requires !old(self).v().started, old(self).v().inp is Some ==> old(self).v().inp->Some_0.wf(),
        ensures
            exists|wx: WV| #[trigger] steered(old(self).v().ctl, wx, final(w).v()) && ran_pump(old(self).v().inp, old(self).v().out, spy, old(self).v().ctl, old(w).v(), r, wx),
            final(self).v().out is None && final(self).v().inp is None && final(self).v().ctl == old(self).v().ctl,
            final(self).v().ctl is Some ==> final(w).v().closed.contains(final(self).v().ctl->Some_0.key()), @*/ {
        /*@ let ghost c0 = self.control; let ghost sp = spy; @*/
        let result = self.start_secret(spy).await;
        /*@ assert(c0 == old(self).v().ctl); let ghost wm = w.v(); assert(self.control == c0); let ghost wx = choose|wx: WV| #[trigger] steered(old(self).v().ctl, wx, w.v()) && ran_pump(old(self).v().inp, old(self).v().out, spy, old(self).v().ctl, old(w).v(), result, wx); @*/
        if let Some(c) = &self.control {
            c.close();
        }
        /*@ proof { lemma_steered_close(c0, wx, wm, w.v()); } @*/
        result
    }
//@end
//@item src/regulator.rs :: impl Regulator > fn start_secret [eff, eff+control, optfor]
    async fn start_secret(&mut self, mut spy: Option<Sender<SpyMessage>>) -> /*@ (r: @*/ MotionResult<usize> /*@ )
        requires !old(self).v().started, old(self).v().inp is Some ==> old(self).v().inp->Some_0.wf(),
        ensures
            exists|wx: WV| #[trigger] steered(old(self).v().ctl, wx, final(w).v()) && ran_pump(old(self).v().inp, old(self).v().out, spy, old(self).v().ctl, old(w).v(), r, wx),
            final(self).v().out is None && final(self).v().inp is None && final(self).v().ctl == old(self).v().ctl, @*/ {
        assert!(!self.started);
        /*@ let ghost w0 = w.v(); let ghost ctl = self.control; let ghost sp = spy; let ghost mut rs: Seq<IODataWrapper> = Seq::empty();
            let ghost inp = self.stdin; let ghost outp = self.stdout; @*/

        self.started = true;
        let mut read_count /*@: usize@*/ = 0;

        let mut notifications = MotionNotifications::empty();
        async fn control(opt_rec: &mut Option<Receiver<()>>) /*@ -> (r: ()) ensures *final(opt_rec) == *old(opt_rec), polled(*old(opt_rec), old(w).v(), final(w).v()), @*/ {
            if let Some(rec) = opt_rec {
                if rec.try_recv().is_ok() {
                    let _x = rec.recv().await;
                }
            }
        }

        if let (Some(mut stdin), Some(stdout)) = (std::mem::take(&mut self.stdin), std::mem::take(&mut self.stdout)) {
            let breakable = stdout.journey().map(|j /*@: &Journey@*/| /*@ -> (o: Breakable) ensures o == j.breakable { @*/ j.breakable /*@ } @*/).unwrap_or(Breakable::Terminate);
            /*@ let ghost pull0 = stdin; let ghost push0 = stdout; @*/
            let mut stdouts = vec![stdout];
            /*@ proof { lemma_taken_none(pull0, w0); lemma_wrote_none(push0, push0.hist(w0)); } @*/
            loop
                /*@ invariant
                    inp == Some(pull0), outp == Some(push0), self.stdout is None, self.stdin is None, self.control == ctl, spy == sp, stdin.wf(), notifications.rd() is None, notifications.wr() is None,
                    breakable == push0.policy(), read_count == rs.len(), stdouts@.len() == 1,
                    pump_inv(pull0, sp, push0, w0, rs, stdin, stdouts@[0], w.v()), obeyed(ctl, w0, w.v(), rs.len() as int), @*/
            {
                /*@ assert(stdouts@ =~= seq![stdouts@[0]]); let ghost pk = stdin; let ghost wk = w.v(); let ghost pushk = stdouts@[0]; proof { lemma_one(pushk); } @*/
                match /*! { let res0 = !*/ motion_worker(&mut stdin, &mut notifications, &mut stdouts, &mut spy, false).await /*! ; !*/ /*@ proof {
                    if res0 is Ok {
                        let res = res0->Ok_0;
                        let (data, wr) = choose|data: IODataWrapper, wr: WV| #[trigger] at(data, wr, 0) && worker_ok(pk, notifications, seq![pushk], sp, wk, res, data, wr, stdin, stdouts@, w.v()) && (data is Skipped ==> false);
                        lemma_pump_step(pull0, sp, push0, w0, rs, pk, pushk, wk, ctl, notifications, res, data, wr, stdin, stdouts@, w.v());
                        rs = rs.push(data);
                        if res.finished { assert(steered(ctl, w.v(), w.v())); }
                    } else {
                        lemma_pump_err(pull0, sp, push0, w0, rs, pk, pushk, wk, notifications, res0->Err_0, stdin, stdouts@, w.v());
                        assert(steered(ctl, w.v(), w.v()));
                    }
                } @*/ /*! res0 } !*/ {
                    Ok(result) => {
                        if result.finished {
                            /*@ let ghost wx = w.v(); @*/
                            for push in &mut self.stdout {
                                motion_close(push).await?
                            }
                            if let Some(c) = &self.control {
                                c.close();
                            }
                            /*@ proof { assert(steered(ctl, wx, w.v())); } @*/
                            return MotionResult::Ok(read_count);
                        }
                        read_count += 1;
                        Ok(())
                    },
                    Err(e @ MotionError::OutputClosed(_, _, _, _)) => {
                        if breakable == Breakable::Terminate {
                            return Err(e);
                        }
                        if breakable == Breakable::Finish {
                            return Ok(read_count)
                        }
                        read_count += 1;
                        Ok(())
                    },
                    Err(e) => {
                        Err(e)
                    }
                }?;

                /*@ let ghost wx = w.v(); @*/
                control(&mut self.control).await;
                /*@ proof { lemma_polled_steered(ctl, wx, w.v()); lemma_steered(pull0, sp, push0, w0, rs, stdin, stdouts@[0], ctl, wx, w.v()); } @*/
            }
        }

        /*@ proof { assert(steered(ctl, w.v(), w.v())); } @*/
        Ok(0)

    }
//@end
impl RegulatorControl {
    pub closed spec fn is_paused(&self) -> bool { self.paused }
    pub closed spec fn key(&self) -> Key { self.control.key() }
    pub closed spec fn cap(&self) -> Option<usize> { self.control.cap() }
    pub proof fn lemma_ctl(&self) ensures self.key() is Ctl { }
}
//@item src/regulator.rs :: impl RegulatorControl > fn pause [eff]
    pub async fn pause(&mut self) -> /*@ (r: @*/ Result<bool, SendError<()>> /*@ )
        ensures final(self).key() == old(self).key(), final(self).is_paused(), signalled(old(self).key(), !old(self).is_paused(), old(w).v(), final(w).v(), r) @*/ {
        if self.paused { return Ok(false); }
        self.paused = true;
        self.control.send(()).await.map(|_x /*@: ()@*/| /*@ -> (o: bool) ensures o { @*/ true /*@ } @*/).or(Ok(false))
    }
//@end
//@item src/regulator.rs :: impl RegulatorControl > fn resume [eff]
    pub async fn resume(&mut self) -> /*@ (r: @*/ Result<bool, SendError<()>> /*@ )
        ensures final(self).key() == old(self).key(), !final(self).is_paused(), signalled(old(self).key(), old(self).is_paused(), old(w).v(), final(w).v(), r) @*/ {
        if !self.paused { return Ok(false); }
        self.paused = false;
        self.control.send(()).await.map(|_x /*@: ()@*/| /*@ -> (o: bool) ensures o { @*/ true /*@ } @*/).or(Ok(false))
    }
//@end
}
}
pub mod faucet {
use crate::async_std;
use vstd::prelude::*;
use crate::world::*;
use crate::async_std::channel::{bounded, Sender, Receiver, SendError};
use crate::connectable::*;
use crate::motion::*;
use crate::pump::*;
use std::time::Instant;
verus!{
//@item src/faucet.rs :: struct Faucet
pub struct Faucet {
    started: bool,
    stdout_size: usize,
    stdout: Option<Push>,
    stdin: Option<Pull>,
    control: Option<async_std::channel::Receiver<()>>,
    pull_journey: Option<PullJourney>,
    read_location: Option<String>,
}
//@end
//@item src/faucet.rs :: struct FaucetControl
pub struct FaucetControl {
    paused: bool,
    control: async_std::channel::Sender<()>,
}
//@end
pub ghost struct FV { pub out: Option<Push>, pub inp: Option<Pull>, pub ctl: Option<Receiver<()>>, pub started: bool, pub size: usize, pub pj: Option<PullJourney>, pub loc: Option<String> }
impl Faucet {
    pub closed spec fn v(&self) -> FV { FV { out: self.stdout, inp: self.stdin, ctl: self.control, started: self.started, size: self.stdout_size, pj: self.pull_journey, loc: self.read_location } }
}
//@item src/faucet.rs :: impl Faucet > fn new
    pub fn new(read_location: String) -> /*@ (r: @*/ Faucet /*@ ) ensures r.v().out is None, r.v().pj is None, r.v().loc == Some(read_location), r.v().inp is None, r.v().ctl is None, !r.v().started, r.v().size > 0 @*/ {
        Faucet {
            started: false,
            stdout_size: 8,
            stdin: None,
            stdout: None,
            control: None,
            pull_journey: None,
            read_location: Some(read_location),
        }
    }
//@end
//@item src/faucet.rs :: impl Faucet > fn set_stdout_size
    pub fn set_stdout_size(&mut self, size: usize)
        /*@ ensures final(self).v() == (FV { size, ..old(self).v() }) @*/ {
        self.stdout_size = size;
    }
//@end
//@item src/faucet.rs :: impl Faucet > fn get_control [eff]
    pub fn get_control(&mut self) -> /*@ (r: @*/ FaucetControl /*@ )
        requires old(self).v().ctl is None,
        ensures !r.is_paused(), final(self).v().ctl is Some, final(self).v().ctl->Some_0.key() == r.key(), r.cap() == Some(1usize), final(self).v() == (FV { ctl: final(self).v().ctl, ..old(self).v() }),
            !old(w).v().chans.contains(r.key()), final(w).v() == old(w).v().new_chan(r.key()), @*/ {
        assert!(self.control.is_none(), "Each faucet can only have one control");
        let (send, recv) = bounded(1);
        self.control = Some(recv);
        FaucetControl {
            paused: false,
            control: send,
        }
    }
//@end
//@item src/faucet.rs :: impl Connectable for Faucet > fn add_output [eff, wrap=impl Faucet]
    fn add_output(&mut self, port: OutputPort, breakable: Breakable, src_id: usize, dst_id: usize) -> /*@ (r: @*/ std::result::Result<Pull, ConnectableAddOutputError> /*@ )
        requires old(self).v().size > 0,
        ensures match r {
            Err(e) => *final(self) == *old(self) && final(w).v() == old(w).v()
                && (if port != OutputPort::Out { e == ConnectableAddOutputError::UnsupportedPort(port) } else { old(self).v().out is Some && e == ConnectableAddOutputError::AlreadyAllocated(port) }),
            Ok(p) => port == OutputPort::Out && old(self).v().out is None && final(self).v().out is Some && final(self).v() == (FV { out: final(self).v().out, pj: Some(PullJourney { src: src_id, dst: dst_id }), ..old(self).v() })
                && made_output(port, breakable, src_id, dst_id, old(self).v().size, p, final(self).v().out->Some_0, old(w).v(), final(w).v()),
        }, @*/ {
        if port != OutputPort::Out {
            return Err(ConnectableAddOutputError::UnsupportedPort(port));
        }
        if self.stdout.is_some() {
            return Err(ConnectableAddOutputError::AlreadyAllocated(port));
        }
        let (child_stdout_push_channel, stdout_io_reciever_channel) = bounded(self.stdout_size);
        let journey = Journey { src: src_id, src_port: Some(port), dst: dst_id, breakable };
        self.stdout = Some(Push::IoSender(journey.clone(), child_stdout_push_channel));
        self.pull_journey = Some(journey.as_pull_journey());
        Ok(Pull::Receiver(journey.as_pull_journey(), stdout_io_reciever_channel))
    }
//@end
//@item src/faucet.rs :: impl Connectable for Faucet > fn add_input [wrap=impl Faucet]
    fn add_input(&mut self, _pull: Pull, _unused_priority: isize) -> /*@ (r: @*/ std::result::Result<(), ConnectableAddInputError> /*@ )
        ensures r == Err::<(), ConnectableAddInputError>(ConnectableAddInputError::UnsupportedForControl), *final(self) == *old(self) @*/ {
        Err(ConnectableAddInputError::UnsupportedForControl)
    }
//@end
/// p reads, from its beginning, what was configured as source
pub open spec fn opened(j: PullJourney, loc: Seq<char>, p: Pull) -> bool {
    &&& p.jn() == Some(j) && p.wf() && p.byte() is Some && p.byte().unwrap().1.kept() == Seq::<u8>::empty()
    &&& if loc == "-"@ { p is Stdin && place(p.byte().unwrap().0.id()) == Place::Stdin } else { p is File && place(p.byte().unwrap().0.id()) == Place::Read(loc) }
}
//@item src/faucet.rs :: impl StartableControl for Faucet > fn start [eff, wrap=impl Faucet]
    async fn start(&mut self, spy: Option<Sender<SpyMessage>>) -> /*@ (r: @*/ MotionResult<usize> /*@ )
        requires !old(self).v().started,
        ensures
            final(self).v().out is None && final(self).v().ctl == old(self).v().ctl,
            final(self).v().ctl is Some ==> final(w).v().closed.contains(final(self).v().ctl->Some_0.key()),
            match (old(self).v().pj, old(self).v().loc) {
                (Some(j), Some(f)) => {
                    ||| r is Err && r->Err_0 is OpenIOError && r->Err_0->OpenIOError_0 == j && f@ != "-"@ && steered(old(self).v().ctl, old(w).v(), final(w).v())
                    ||| exists|p: Pull, wx: WV| #[trigger] opened(j, f@, p) && #[trigger] steered(old(self).v().ctl, wx, final(w).v()) && ran_pump(Some(p), old(self).v().out, spy, old(self).v().ctl, old(w).v(), r, wx)
                },
                _ => exists|wx: WV| #[trigger] steered(old(self).v().ctl, wx, final(w).v()) && ran_pump(Some(Pull::None), old(self).v().out, spy, old(self).v().ctl, old(w).v(), r, wx),
            }, @*/ {
        /*@ let ghost c0 = self.control; let ghost sp = spy; let ghost out0 = self.stdout; let ghost w0 = w.v(); let ghost pj0 = self.pull_journey; let ghost loc0 = self.read_location; proof { crate::fmt::axiom_string_eq(); } @*/
        let read_location = std::mem::take(&mut self.read_location);
        self.stdin = Some(match (self.pull_journey, read_location) {
            (Some(journey), Some(f)) if f == "-" => Pull::Stdin(journey, async_std::io::stdin(), ReadSplitControl::new()),
            (Some(journey), Some(filename)) => {
                match async_std::fs::File::open(filename).await {
                    Ok(file) => Pull::File(journey, file, ReadSplitControl::new()),
                    Err(e) => {
                        self.stdout = None;
                        if let Some(c) = &self.control {
                            c.close();
                        }
                        return Err(MotionError::OpenIOError(journey, Instant::now(), e));
                    },
                }
            },
            _ => Pull::None,
        });

        /*@ let ghost p0 = self.stdin->Some_0; let ghost w1 = w.v();
            assert(match (pj0, loc0) { (Some(j), Some(f)) => opened(j, f@, p0), _ => p0 == Pull::None }); @*/
        let result = self.start_secret(spy).await;
        /*@ let ghost wm = w.v(); let ghost wx = choose|wx: WV| #[trigger] steered(c0, wx, w.v()) && ran_pump(Some(p0), out0, sp, c0, w1, result, wx); @*/
        if let Some(c) = &self.control {
            c.close();
        }
        /*@ proof { lemma_steered_close(c0, wx, wm, w.v()); } @*/
        result

    }
//@end
//@item src/faucet.rs :: impl Faucet > fn start_secret [eff, eff+control, optfor]
    async fn start_secret(&mut self, mut spy: Option<Sender<SpyMessage>>) -> /*@ (r: @*/ MotionResult<usize> /*@ )
        requires !old(self).v().started, old(self).v().inp is Some ==> old(self).v().inp->Some_0.wf(),
        ensures
            exists|wx: WV| #[trigger] steered(old(self).v().ctl, wx, final(w).v()) && ran_pump(old(self).v().inp, old(self).v().out, spy, old(self).v().ctl, old(w).v(), r, wx),
            final(self).v().out is None && final(self).v().inp is None && final(self).v().ctl == old(self).v().ctl, @*/ {
        assert!(!self.started);
        /*@ let ghost w0 = w.v(); let ghost ctl = self.control; let ghost sp = spy; let ghost mut rs: Seq<IODataWrapper> = Seq::empty();
            let ghost inp = self.stdin; let ghost outp = self.stdout; @*/

        self.started = true;
        let mut read_count /*@: usize@*/ = 0;

        let mut notifications = MotionNotifications::empty();
        async fn control(opt_rec: &mut Option<Receiver<()>>) /*@ -> (r: ()) ensures *final(opt_rec) == *old(opt_rec), polled(*old(opt_rec), old(w).v(), final(w).v()), @*/ {
            if let Some(rec) = opt_rec {
                if rec.try_recv().is_ok() {
                    let _x = rec.recv().await;
                }
            }
        }

        if let (Some(mut stdin), Some(stdout)) = (std::mem::take(&mut self.stdin), std::mem::take(&mut self.stdout)) {
            let breakable = stdout.journey().map(|j /*@: &Journey@*/| /*@ -> (o: Breakable) ensures o == j.breakable { @*/ j.breakable /*@ } @*/).unwrap_or(Breakable::Terminate);
            /*@ let ghost pull0 = stdin; let ghost push0 = stdout; @*/
            let mut stdouts = vec![stdout];
            /*@ proof { lemma_taken_none(pull0, w0); lemma_wrote_none(push0, push0.hist(w0)); } @*/
            loop
                /*@ invariant
                    inp == Some(pull0), outp == Some(push0), self.stdout is None, self.stdin is None, self.control == ctl, spy == sp, stdin.wf(), notifications.rd() is None, notifications.wr() is None,
                    breakable == push0.policy(), read_count == rs.len(), stdouts@.len() == 1,
                    pump_inv(pull0, sp, push0, w0, rs, stdin, stdouts@[0], w.v()), obeyed(ctl, w0, w.v(), rs.len() as int), @*/
            {
                /*@ assert(stdouts@ =~= seq![stdouts@[0]]); let ghost pk = stdin; let ghost wk = w.v(); let ghost pushk = stdouts@[0]; proof { lemma_one(pushk); } @*/
                match /*! { let res0 = !*/ motion_worker(&mut stdin, &mut notifications, &mut stdouts, &mut spy, false).await /*! ; !*/ /*@ proof {
                    if res0 is Ok {
                        let res = res0->Ok_0;
                        let (data, wr) = choose|data: IODataWrapper, wr: WV| #[trigger] at(data, wr, 0) && worker_ok(pk, notifications, seq![pushk], sp, wk, res, data, wr, stdin, stdouts@, w.v()) && (data is Skipped ==> false);
                        lemma_pump_step(pull0, sp, push0, w0, rs, pk, pushk, wk, ctl, notifications, res, data, wr, stdin, stdouts@, w.v());
                        rs = rs.push(data);
                        if res.finished { assert(steered(ctl, w.v(), w.v())); }
                    } else {
                        lemma_pump_err(pull0, sp, push0, w0, rs, pk, pushk, wk, notifications, res0->Err_0, stdin, stdouts@, w.v());
                        assert(steered(ctl, w.v(), w.v()));
                    }
                } @*/ /*! res0 } !*/ {
                    Ok(result) => {
                        if result.finished {
                            /*@ let ghost wx = w.v(); @*/
                            for push in &mut self.stdout {
                                motion_close(push).await?
                            }
                            if let Some(c) = &self.control {
                                c.close();
                            }
                            /*@ proof { assert(steered(ctl, wx, w.v())); } @*/
                            return MotionResult::Ok(read_count);
                        }
                        read_count += 1;
                        Ok(())
                    },
                    Err(e @ MotionError::OutputClosed(_, _, _, _)) => {
                        if breakable == Breakable::Terminate {
                            return Err(e);
                        }
                        if breakable == Breakable::Finish {
                            return Ok(read_count)
                        }
                        read_count += 1;
                        Ok(())
                    },
                    Err(e) => {
                        Err(e)
                    }
                }?;

                /*@ let ghost wx = w.v(); @*/
                control(&mut self.control).await;
                /*@ proof { lemma_polled_steered(ctl, wx, w.v()); lemma_steered(pull0, sp, push0, w0, rs, stdin, stdouts@[0], ctl, wx, w.v()); } @*/
            }
        }

        /*@ proof { assert(steered(ctl, w.v(), w.v())); } @*/
        Ok(0)

    }
//@end
impl FaucetControl {
    pub closed spec fn is_paused(&self) -> bool { self.paused }
    pub closed spec fn key(&self) -> Key { self.control.key() }
    pub closed spec fn cap(&self) -> Option<usize> { self.control.cap() }
}
//@item src/faucet.rs :: impl FaucetControl > fn pause [eff]
    pub async fn pause(&mut self) -> /*@ (r: @*/ Result<bool, SendError<()>> /*@ )
        ensures final(self).key() == old(self).key(), final(self).is_paused(), signalled(old(self).key(), !old(self).is_paused(), old(w).v(), final(w).v(), r) @*/ {
        if self.paused { return Ok(false); }
        self.paused = true;
        self.control.send(()).await.map(|_x /*@: ()@*/| /*@ -> (o: bool) ensures o { @*/ true /*@ } @*/).or(Ok(false))
    }
//@end
//@item src/faucet.rs :: impl FaucetControl > fn resume [eff]
    pub async fn resume(&mut self) -> /*@ (r: @*/ Result<bool, SendError<()>> /*@ )
        ensures final(self).key() == old(self).key(), !final(self).is_paused(), signalled(old(self).key(), old(self).is_paused(), old(w).v(), final(w).v(), r) @*/ {
        if !self.paused { return Ok(false); }
        self.paused = false;
        self.control.send(()).await.map(|_x /*@: ()@*/| /*@ -> (o: bool) ensures o { @*/ true /*@ } @*/).or(Ok(false))
    }
//@end
}
}
pub mod drain {
use crate::async_std;
use vstd::prelude::*;
use crate::world::*;
use crate::async_std::channel::Sender;
use crate::connectable::*;
use crate::motion::*;
use std::time::Instant;
verus!{
//@item src/drain.rs :: struct Drain
pub struct Drain {
    started: bool,
    stdin: Option<Pull>,
    write_location: Option<String>,
}
//@end
pub ghost struct DV { pub inp: Option<Pull>, pub started: bool, pub loc: Option<String> }
impl Drain {
    pub closed spec fn v(&self) -> DV { DV { inp: self.stdin, started: self.started, loc: self.write_location } }
}
//@item src/drain.rs :: impl Drain > fn new
    pub fn new(write_location: String) -> /*@ (r: @*/ Drain /*@ ) ensures r.v().inp is None, !r.v().started, r.v().loc == Some(write_location) @*/ {
        Drain {
            started: false,
            stdin: None,
            write_location: Some(write_location)
        }
    }
//@end
//@item src/drain.rs :: impl Connectable for Drain > fn add_output [eff, wrap=impl Drain]
    fn add_output(&mut self, port: OutputPort, _breakable: Breakable, _src_id: usize, _dst_id: usize) -> /*@ (r: @*/ std::result::Result<Pull, ConnectableAddOutputError> /*@ )
        ensures r == Err::<Pull, ConnectableAddOutputError>(ConnectableAddOutputError::UnsupportedPort(port)), *final(self) == *old(self), final(w).v() == old(w).v() @*/ {
        Err(ConnectableAddOutputError::UnsupportedPort(port))
    }
//@end
//@item src/drain.rs :: impl Connectable for Drain > fn add_input [wrap=impl Drain]
    fn add_input(&mut self, pull: Pull, unused_priority: isize) -> /*@ (r: @*/ std::result::Result<(), ConnectableAddInputError> /*@ )
        ensures match r {
            Err(e) => *final(self) == *old(self)
                && (if unused_priority != 0 { e == ConnectableAddInputError::UnsupportedPriority(unused_priority) } else { old(self).v().inp is Some && e == ConnectableAddInputError::AlreadyAllocated }),
            Ok(_) => unused_priority == 0 && old(self).v().inp is None && final(self).v() == (DV { inp: Some(pull), ..old(self).v() }),
        }, @*/ {
        if unused_priority != 0 {
            return Err(ConnectableAddInputError::UnsupportedPriority(unused_priority));
        }
        if self.stdin.is_some() {
            return Err(ConnectableAddInputError::AlreadyAllocated);
        }
        self.stdin = Some(pull);
        Ok(())
    }
//@end
/// p writes to what was configured as destination
pub open spec fn directed(j: PullJourney, loc: Seq<char>, p: Push) -> bool {
    if loc == "/dev/null"@ { p is None }
    else {
        &&& p.policy() is Terminate && p.jn() is Some && p.jn().unwrap().src == j.src && p.jn().unwrap().dst == j.dst && p.key() is Some && p.key().unwrap() is Sink && p.kind() == 2
        &&& place(p.key().unwrap()->Sink_0) == if loc == "-"@ { Place::Stdout } else if loc == "_"@ { Place::Stderr } else { Place::Create(loc) }
    }
}
/// what a drain has done
pub open spec fn drained(pull: Pull, push: Push, w0: WV, r: MotionResult<usize>, w1: WV) -> bool {
    match r {
        Ok(n) => exists|rs: Seq<IODataWrapper>, pull1: Pull, push1: Push| #[trigger] life(rs, pull1, push1) && link_ok(pull, no_notes(), None, push, w0, n as int, rs, pull1, push1, w1),
        Err(e) => exists|rs: Seq<IODataWrapper>, data: IODataWrapper, h: Seq<Att>, pull1: Pull, push1: Push| #[trigger] life_err(rs, data, h, pull1, push1)
            && link_err(pull, push, w0, e, rs, data, h, pull1, push1, w1),
    }
}
//@item src/drain.rs :: impl StartableControl for Drain > fn start [eff, wrap=impl Drain]
    async fn start(&mut self, spy: Option<Sender<crate::motion::SpyMessage>>) -> /*@ (r: @*/ MotionResult<usize> /*@ )
        requires spy is None, old(self).v().inp is Some ==> old(self).v().inp->Some_0.wf(), old(self).v().loc is Some,
        ensures
            match old(self).v().inp {
                None => r is Err && r->Err_0 is NoneError && final(w).v() == old(w).v(),
                Some(pull) => match pull.jn() {
                    None => drained(pull, Push::None, old(w).v(), r, final(w).v()),
                    Some(j) => {
                        ||| r is Err && r->Err_0 is OpenIOError && r->Err_0->OpenIOError_0 == j && final(w).v() == old(w).v()
                            && old(self).v().loc->Some_0@ != "-"@ && old(self).v().loc->Some_0@ != "_"@ && old(self).v().loc->Some_0@ != "/dev/null"@
                        ||| exists|push: Push| #[trigger] directed(j, old(self).v().loc->Some_0@, push) && drained(pull, push, old(w).v(), r, final(w).v())
                    },
                },
            }, @*/ {

        assert!(spy.is_none());

        /*@ let ghost inp0 = self.stdin; let ghost loc0 = self.write_location->Some_0@; let ghost w0 = w.v(); proof { crate::fmt::axiom_string_eq(); reveal(Push::jn); reveal(Push::key); reveal(Push::kind); } @*/
        self.started = true;
        if let Some(pull) = std::mem::take(&mut self.stdin) {

            let push = match (pull.journey(), std::mem::take(&mut self.write_location)) {
                (Some(PullJourney { .. }), Some(f)) if f == "/dev/null" => Push::None,
                (Some(PullJourney { src, dst }), Some(f)) if f == "-" => Push::Stdout(Journey { src: *src, src_port: None, dst: *dst, breakable: Breakable::Terminate }, async_std::io::stdout()),
                (Some(PullJourney { src, dst }), Some(f)) if f == "_" => Push::Stderr(Journey { src: *src, src_port: None, dst: *dst, breakable: Breakable::Terminate }, async_std::io::stderr()),
                (Some(PullJourney { src, dst }), Some(filename)) => {
                    let breakable = Breakable::Terminate;
                    let file = async_std::fs::File::create(filename).await
                        .map_err(|e /*@: std::io::Error@*/| /*@ -> (o: MotionError) ensures o is OpenIOError && o->OpenIOError_0 == (PullJourney { src: *src, dst: *dst }) { @*/ MotionError::OpenIOError(PullJourney { src: *src, dst: *dst }, Instant::now(), e) /*@ } @*/)?;
                    Push::File(Journey { src: *src, src_port: None, dst: *dst, breakable }, async_std::io::BufWriter::new(file))
                },
                _ => Push::None,
            };

            /*@ assert(pull == inp0->Some_0 && w.v() == w0); assert(match pull.jn() { Some(j) => directed(j, loc0, push), None => push == Push::None }); @*/
            return motion(pull, MotionNotifications::empty(), None, push).await
        }
        MotionResult::Err(MotionError::NoneError)
    }
//@end
}
}
