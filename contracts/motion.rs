pub mod motion {
use vstd::prelude::*;
use crate::connectable::Breakable;
use crate::connectable::OutputPort;
use std::time::Instant;
use crate::async_std;
use crate::world::*;
use crate::async_std::channel::{Receiver, RecvError, SendError, Sender, TryRecvError};
use crate::async_std::io as aio;
use crate::async_std::process as aip;
use crate::async_std::io::ByteIo;
use std::collections::VecDeque;
verus!{

//@item src/motion.rs :: struct IOData
pub struct IOData(pub Vec<u8>);
//@end
//@item src/motion.rs :: enum MonitorMessage
pub enum MonitorMessage {
    Read(usize),
    Wrote(usize),
}
//@end
//@item src/motion.rs :: enum IODataWrapper
pub enum IODataWrapper {
   IOData(IOData),
   Finished,
   Skipped,
}
//@end
//@item src/motion.rs :: struct ReadSplitControl
pub struct ReadSplitControl {
    split_at: Vec<Vec<u8>>,
    overflow: Vec<u8>,
}
//@end
//@item src/motion.rs :: struct SpyMessage
pub struct SpyMessage {
    pub src: usize,
    pub dst: usize,
    pub src_port: OutputPort,
    pub msg: IODataWrapper,
}
//@end
//@item src/motion.rs :: struct Journey
pub struct Journey {
    pub src: usize,
    pub src_port: Option<OutputPort>,
    pub dst: usize,
    pub breakable: Breakable,
}
//@end
//@item src/motion.rs :: struct PullJourney
pub struct PullJourney {
    pub src: usize,
    pub dst: usize,
}
//@end
//@item src/motion.rs :: struct JourneySource
pub struct JourneySource {
    pub src: usize,
}
//@end
//@item src/motion.rs :: enum Pull
pub enum Pull {
    CmdStdout(PullJourney, aip::ChildStdout, ReadSplitControl),
    CmdStderr(PullJourney, aip::ChildStderr, ReadSplitControl),
    Stdin(PullJourney, aio::Stdin, ReadSplitControl),
    File(PullJourney, async_std::fs::File, ReadSplitControl),
    Receiver(PullJourney, Receiver<IOData>),
    Mock(PullJourney, VecDeque<IOData>),
    None,
}
//@end
//@item src/motion.rs :: enum Push
pub enum Push {
    IoMock(Journey, VecDeque<IOData>),
    CmdStdin(Journey, aip::ChildStdin),
    Stdout(Journey, aio::Stdout),
    Stderr(Journey, aio::Stderr),
    File(Journey, aio::BufWriter<async_std::fs::File>),
    Sender(Journey, Sender<IOData>),
    IoSender(Journey, Sender<IOData>),
    None,
}
//@end
//@item src/motion.rs :: enum OutputClosedReason
pub enum OutputClosedReason {
    BrokenPipe,
    ChannelClosed
}
//@end
//@item src/motion.rs :: enum MotionError
pub enum MotionError {
    ReadIOError(PullJourney, Instant, std::io::Error),
    CloseIOError(Journey, Instant, std::io::Error),
    OpenIOError(PullJourney, Instant, std::io::Error),
    WriteIOError(Journey, Instant, std::io::Error, IOData),
    RecvError(Journey, Instant, RecvError),
    SendError(Journey, Instant, SendError<IOData>),
    OutputClosed(Journey, Instant, OutputClosedReason, IOData),
    MonitorReadError(JourneySource, Instant, SendError<MonitorMessage>),
    MonitorWriteError(PullJourney, Instant, SendError<MonitorMessage>),
    SpyWriteError(Instant, SendError<SpyMessage>),
    LaunchSpawnError(Option<String>),
    NoneError,
}
//@end
impl MotionError {
    /// when it happened, as far as an error knows
    pub open spec fn when(&self) -> Option<Instant> {
        match self {
            MotionError::ReadIOError(_, i, _) => Some(*i), MotionError::CloseIOError(_, i, _) => Some(*i), MotionError::OpenIOError(_, i, _) => Some(*i),
            MotionError::WriteIOError(_, i, _, _) => Some(*i), MotionError::RecvError(_, i, _) => Some(*i), MotionError::SendError(_, i, _) => Some(*i),
            MotionError::OutputClosed(_, i, _, _) => Some(*i), MotionError::MonitorReadError(_, i, _) => Some(*i), MotionError::MonitorWriteError(_, i, _) => Some(*i),
            MotionError::SpyWriteError(i, _) => Some(*i), MotionError::LaunchSpawnError(_) => None, MotionError::NoneError => None,
        }
    }
    /// the connection whose sending end it happened on
    pub open spec fn on(&self) -> Option<Journey> {
        match self {
            MotionError::CloseIOError(j, _, _) => Some(*j), MotionError::WriteIOError(j, _, _, _) => Some(*j), MotionError::RecvError(j, _, _) => Some(*j),
            MotionError::SendError(j, _, _) => Some(*j), MotionError::OutputClosed(j, _, _, _) => Some(*j),
            MotionError::MonitorWriteError(j, _, _) => Some(Journey { src: j.src, src_port: None, dst: j.dst, breakable: Breakable::Terminate }),
            MotionError::SpyWriteError(_, e) => Some(Journey { src: e.0.src, src_port: Some(e.0.src_port), dst: e.0.dst, breakable: Breakable::Terminate }),
            _ => None,
        }
    }
    /// the connection whose receiving end it happened on
    pub open spec fn ends(&self) -> Option<PullJourney> {
        match self {
            MotionError::ReadIOError(j, _, _) => Some(*j), MotionError::OpenIOError(j, _, _) => Some(*j), MotionError::MonitorWriteError(j, _, _) => Some(*j),
            MotionError::SpyWriteError(_, e) => Some(PullJourney { src: e.0.src, dst: e.0.dst }),
            _ => None,
        }
    }
    /// the component the connection comes from
    pub open spec fn source(&self) -> Option<usize> {
        match self { MotionError::MonitorReadError(j, _, _) => Some(j.src), _ => match (self.on(), self.ends()) { (Some(j), _) => Some(j.src), (_, Some(j)) => Some(j.src), _ => None } }
    }
}
//@item src/motion.rs :: impl MotionError > fn instant
    pub fn instant(&self) -> /*@ (r: @*/ Option<&Instant> /*@ ) ensures match r { Some(i) => self.when() == Some(*i), None => self.when() is None }, @*/ {
        match self {
            MotionError::ReadIOError(_, i, ..) => Some(i),
            MotionError::CloseIOError(_, i, ..) => Some(i),
            MotionError::OpenIOError(_, i, ..) => Some(i),
            MotionError::WriteIOError(_, i, ..) => Some(i),
            MotionError::RecvError(_, i, ..) => Some(i),
            MotionError::SendError(_, i, ..) => Some(i),
            MotionError::OutputClosed(_, i, ..) => Some(i),
            MotionError::MonitorReadError(_, i, ..) => Some(i),
            MotionError::MonitorWriteError(_, i, ..) => Some(i),
            MotionError::SpyWriteError(i, ..) => Some(i),
            MotionError::LaunchSpawnError(_) => None,
            MotionError::NoneError => None
        }
    }
//@end

//@item src/motion.rs :: impl MotionError > fn journey
    pub fn journey(&self) -> /*@ (r: @*/ Option<Journey> /*@ ) ensures r == self.on(), @*/ {
        match self {
            MotionError::ReadIOError(_j, ..) => None,
            MotionError::CloseIOError(j, ..) => Some(j.clone()),
            MotionError::OpenIOError(_j, ..) => None,
            MotionError::WriteIOError(j, ..) => Some(j.clone()),
            MotionError::RecvError(j, ..) => Some(j.clone()),
            MotionError::SendError(j, ..) => Some(j.clone()),
            MotionError::OutputClosed(j, ..) => Some(j.clone()),
            MotionError::MonitorReadError(..) => None,
            MotionError::MonitorWriteError(j, ..) => Some(j.as_journey(Breakable::Terminate, None)),
            MotionError::SpyWriteError(_i, SendError(e)) => {
                return Some(Journey { src: e.src, src_port: Some(e.src_port), dst: e.dst, breakable: Breakable::Terminate })
            },
            MotionError::LaunchSpawnError(_) => None,
            MotionError::NoneError => None
        }
    }
//@end

//@item src/motion.rs :: impl MotionError > fn pull_journey
    pub fn pull_journey(&self) -> /*@ (r: @*/ Option<PullJourney> /*@ ) ensures r == self.ends(), @*/ {
        match self {
            MotionError::ReadIOError(j, ..) => Some(j.clone()),
            MotionError::CloseIOError(_j, ..) => None,
            MotionError::OpenIOError(j, ..) => Some(j.clone()),
            MotionError::WriteIOError(_j, ..) => None,
            MotionError::RecvError(_j, ..) => None,
            MotionError::SendError(_j, ..) => None,
            MotionError::OutputClosed(_j, ..) => None,
            MotionError::MonitorReadError(..) => None,
            MotionError::MonitorWriteError(j, ..) => Some(j.clone()),
            MotionError::SpyWriteError(_i, SendError(e)) => {
                Some(PullJourney { src: e.src, dst: e.dst })
            },
            MotionError::LaunchSpawnError(_) => None,
            MotionError::NoneError => None
        }
    }
//@end

//@item src/motion.rs :: impl MotionError > fn journey_source
    pub fn journey_source(&self) -> /*@ (r: @*/ Option<&usize> /*@ ) ensures match r { Some(i) => self.source() == Some(*i), None => self.source() is None }, @*/ {
        match self {
            MotionError::ReadIOError(PullJourney { src, .. }, ..) => Some(src),
            MotionError::CloseIOError(Journey { src, .. }, ..) => Some(src),
            MotionError::OpenIOError(PullJourney { src, .. }, ..) => Some(src),
            MotionError::WriteIOError(Journey { src, .. }, ..) => Some(src),
            MotionError::RecvError(Journey { src, .. }, ..) => Some(src),
            MotionError::SendError(Journey { src, .. }, ..) => Some(src),
            MotionError::OutputClosed(Journey { src, .. }, ..) => Some(src),
            MotionError::MonitorReadError(JourneySource { src }, ..) => Some(src),
            MotionError::MonitorWriteError(PullJourney { src, .. }, ..) => Some(src),
            MotionError::SpyWriteError(_i, SendError(SpyMessage { src, .. })) => Some(&src),
            MotionError::LaunchSpawnError(_) => None,
            MotionError::NoneError => None
        }
    }
//@end
//@item src/motion.rs :: type MotionResult
pub type MotionResult<T> = Result<T, MotionError>;
//@end
//@item src/motion.rs :: struct MotionNotifications
pub struct MotionNotifications {
    read: Option<Sender<MonitorMessage>>,
    written: Option<Sender<MonitorMessage>>,
}
//@end
//@item src/motion.rs :: struct MotionWorkerResult
pub struct MotionWorkerResult {
    pub finished: bool,
    pub read: bool,
}
//@end

// ---- assumed: what the derived Clone / PartialEq implementations compute -----------------------
impl Clone for IOData { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for IODataWrapper { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Journey { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Journey {}
impl Clone for PullJourney { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@item src/motion.rs :: impl PullJourney > fn as_journey
    pub fn as_journey(&self, breakable: Breakable, src_port: Option<OutputPort>) -> /*@ (r: @*/ Journey /*@ ) ensures r == (Journey { src: self.src, src_port, dst: self.dst, breakable }), @*/ {
        Journey { src: self.src, src_port, dst: self.dst, breakable }
    }
//@end
impl Copy for PullJourney {}
impl PartialEq for IODataWrapper { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for IODataWrapper {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { same_msg(*self, *o) }
}
pub open spec fn same_msg(a: IODataWrapper, b: IODataWrapper) -> bool {
    match (a, b) {
        (IODataWrapper::IOData(x), IODataWrapper::IOData(y)) => x.0@ == y.0@,
        (IODataWrapper::Finished, IODataWrapper::Finished) => true,
        (IODataWrapper::Skipped, IODataWrapper::Skipped) => true,
        _ => false,
    }
}

// ---- specification vocabulary ----------------------------------------------------------------
pub open spec fn nl() -> u8 { 10u8 }

/// `b` contains no line terminator
pub open spec fn no_nl(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() ==> b[i] != nl() }

/// `b` is one complete line: it ends with a line feed and contains no other one
pub open spec fn is_line(b: Seq<u8>) -> bool { b.len() > 0 && b[b.len() - 1] == nl() && no_nl(b.drop_last()) }

impl ReadSplitControl {
    /// every separator ends a line, and a bare line feed is one of them
    pub closed spec fn wf(&self) -> bool { seps_ok(self.split_at@) }
    /// bytes read from the source and not handed out yet
    pub closed spec fn kept(&self) -> Seq<u8> { self.overflow@ }
    /// the configured separators
    pub closed spec fn seps(&self) -> Vec<Vec<u8>> { self.split_at }
}

//@item src/motion.rs :: impl ReadSplitControl > fn new
    pub fn new() -> /*@ (r: @*/ ReadSplitControl /*@ ) ensures r.wf(), r.kept() == Seq::<u8>::empty() @*/ {
        /*@ proof { reveal_strlit("\r\n"); reveal_strlit("\n"); reveal_with_fuel(vstd::utf8::encode_utf8, 3);
            assert("\r\n"@.drop_first() =~= "\n"@); assert("\n"@.drop_first() =~= Seq::<char>::empty());
            assert("\r\n".is_ascii()); assert("\n".is_ascii()); vstd::utf8::is_ascii_chars_encode_utf8("\n"@); vstd::utf8::is_ascii_chars_encode_utf8("\r\n"@);
            assert(vstd::utf8::encode_utf8("\n"@) =~= seq![10u8]);
            let a = vstd::utf8::encode_utf8("\r\n"@); assert(a.len() == 2); assert(a[0] == 13u8); assert(a[1] == 10u8); assert(a =~= seq![13u8, 10u8]); } @*/
        /*! let r0 = !*/ ReadSplitControl {
            split_at: vec![
                "\r\n".as_bytes().iter().copied().collect(),
                "\n".as_bytes().iter().copied().collect()
            ],
            overflow: vec![]
        } /*! ; !*/ /*@ proof {
            assert(r0.split_at@[0]@ =~= seq![13u8, 10u8]);
            assert(r0.split_at@[1]@ =~= seq![10u8]);
            assert(r0.overflow@ =~= Seq::<u8>::empty());
            assert(seq![13u8, 10u8].drop_last() =~= seq![13u8]);
            assert(seq![10u8].drop_last() =~= Seq::<u8>::empty());
        } @*/ /*! r0 !*/
    }
//@end
pub closed spec fn seps_ok(s: Seq<Vec<u8>>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> is_line(#[trigger] s[i]@)
    &&& exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == seq![nl()]
}
impl Pull {
    pub open spec fn jn(self) -> Option<PullJourney> {
        match self {
            Pull::CmdStdout(j, _, _) => Some(j),
            Pull::CmdStderr(j, _, _) => Some(j),
            Pull::Stdin(j, _, _) => Some(j),
            Pull::File(j, _, _) => Some(j),
            Pull::Receiver(j, _) => Some(j),
            Pull::Mock(j, _) => Some(j),
            Pull::None => None,
        }
    }
    /// the reading state of a byte source
    pub open spec fn byte(self) -> Option<(ByteIo, ReadSplitControl)> {
        match self {
            Pull::CmdStdout(_, b, c) => Some((b, c)),
            Pull::CmdStderr(_, b, c) => Some((b, c)),
            Pull::Stdin(_, b, c) => Some((b, c)),
            Pull::File(_, b, c) => Some((b, c)),
            _ => None,
        }
    }
    pub open spec fn wf(self) -> bool {
        match self.byte() { Some((b, c)) => c.wf(), None => true }
    }
    /// sources that can be polled without waiting
    pub open spec fn pollable(self) -> bool { self is Receiver || self is Mock }
}

/// p1/w1 follow p0/w0 by one read that returned `r`; nothing but the source changed
pub open spec fn read_step(p0: Pull, w0: WV, r: IODataWrapper, p1: Pull, w1: WV) -> bool {
    &&& p1.jn() == p0.jn()
    &&& p1.wf()
    &&& match p0 {
        Pull::None => r is Finished && p1 == p0 && w1 == w0,
        Pull::Mock(_, q) => p1 is Mock && w1 == w0 && (
            if q@.len() == 0 { r is Finished && p1->Mock_1@ == q@ }
            else { r == IODataWrapper::IOData(q@[0]) && p1->Mock_1@ == q@.drop_first() }),
        Pull::Receiver(_, c) => p1 == p0 && match r {
            IODataWrapper::IOData(d) => w1 == w0.recv(c.key(), Payload::Data(d.0@)),
            IODataWrapper::Finished => w1 == w0.end(c.key()),
            IODataWrapper::Skipped => w1 == w0.empty(c.key()),
        },
        _ => p1.byte() is Some && same_variant(p0, p1) && match r {
            IODataWrapper::IOData(d) => d.0@.len() > 0 && frame_post(p0.byte().unwrap().0, p0.byte().unwrap().1, w0, d.0@, p1.byte().unwrap().0, p1.byte().unwrap().1, w1),
            IODataWrapper::Finished => frame_post(p0.byte().unwrap().0, p0.byte().unwrap().1, w0, Seq::empty(), p1.byte().unwrap().0, p1.byte().unwrap().1, w1),
            IODataWrapper::Skipped => false,
        },
    }
}
pub open spec fn same_variant(p0: Pull, p1: Pull) -> bool {
    (p0 is CmdStdout <==> p1 is CmdStdout) && (p0 is CmdStderr <==> p1 is CmdStderr) && (p0 is Stdin <==> p1 is Stdin) && (p0 is File <==> p1 is File)
}

/// Bytes `d` were read from the source by this step (and nothing else happened); `end`: the source has reported its end.
pub open spec fn read_bytes(b: ByteIo, w0: WV, d: Seq<u8>, end: bool, w1: WV) -> bool {
    &&& w1.read(b.source()) == w0.read(b.source()) + d
    &&& w1 == (WV { bytes: w1.bytes, ended: if end { w0.ended.insert(b.source()) } else { w0.ended }, ..w0 })
    &&& forall|k: Key| k != b.source() ==> w1.read(k) == w0.read(k)
}

/// Line framing: the returned bytes followed by the bytes kept back are exactly the bytes kept back before followed by
/// those read now; what is returned is one line, or - only at the end of the source - all that was left.
pub open spec fn frame_post(b0: ByteIo, c0: ReadSplitControl, w0: WV, v: Seq<u8>, b1: ByteIo, c1: ReadSplitControl, w1: WV) -> bool {
    &&& b1.id() == b0.id()
    &&& c1.wf() && c1.seps() == c0.seps()
    &&& exists|d: Seq<u8>| #![trigger read_bytes(b0, w0, d, true, w1)] #![trigger read_bytes(b0, w0, d, false, w1)] v + c1.kept() == c0.kept() + d && (
            (is_line(v) && read_bytes(b0, w0, d, false, w1))
            || (no_nl(v) && c1.kept().len() == 0 && read_bytes(b0, w0, d, true, w1)))
}

/// a separator found at `p`, with no line feed before it, ends the first line of `k`
pub proof fn lemma_line_at(k: Seq<u8>, p: int, sep: Seq<u8>)
    requires 0 <= p, p + sep.len() <= k.len(), no_nl(k.take(p)), is_line(sep), sep == k.subrange(p, k.len() as int).take(sep.len() as int),
    ensures is_line(k.take(p + sep.len())), sep.len() > 0,
{
    let l = k.take(p + sep.len());
    assert forall|i: int| 0 <= i < sep.len() implies #[trigger] l[p + i] == sep[i] by {
        assert(k.subrange(p, k.len() as int).take(sep.len() as int)[i] == k[p + i]);
    }
    assert(l[l.len() - 1] == l[p + (sep.len() - 1)]);
    assert forall|i: int| 0 <= i < l.drop_last().len() implies #[trigger] l.drop_last()[i] != nl() by {
        if i < p { assert(k.take(p)[i] == l[i]); } else { assert(l[p + (i - p)] == sep[i - p]); assert(sep.drop_last()[i - p] == sep[i - p]); }
    }
}
pub proof fn lemma_no_nl_step(k: Seq<u8>, p: int)
    requires 0 <= p < k.len(), no_nl(k.take(p)), !seq![nl()].is_prefix_of(k.subrange(p, k.len() as int)),
    ensures no_nl(k.take(p + 1)),
{
    let t = k.subrange(p, k.len() as int);
    assert(k[p] != nl()) by { if k[p] == nl() { assert(seq![nl()] =~= t.take(1)); assert(seq![nl()].is_prefix_of(t)); } }
    assert forall|i: int| 0 <= i < p + 1 implies #[trigger] k.take(p + 1)[i] != nl() by { if i < p { assert(k.take(p)[i] == k[i]); } }
}

/// A failed read: bytes already taken from the source are kept for the next read.
pub open spec fn read_failed(b0: ByteIo, c0: ReadSplitControl, w0: WV, c1: ReadSplitControl, w1: WV) -> bool {
    exists|d: Seq<u8>| #[trigger] read_bytes(b0, w0, d, false, w1) && c1.kept() == c0.kept() + d
}

impl Push {
    #[verifier::opaque]
    pub open spec fn jn(self) -> Option<Journey> {
        match self {
            Push::IoMock(j, _) => Some(j),
            Push::CmdStdin(j, _) => Some(j),
            Push::Stdout(j, _) => Some(j),
            Push::Stderr(j, _) => Some(j),
            Push::File(j, _) => Some(j),
            Push::Sender(j, _) => Some(j),
            Push::IoSender(j, _) => Some(j),
            Push::None => None,
        }
    }
    /// the endpoint of the outside world behind this output
    #[verifier::opaque]
    pub open spec fn key(self) -> Option<Key> {
        match self {
            Push::CmdStdin(_, s) => Some(s.sink()),
            Push::Stdout(_, s) => Some(s.sink()),
            Push::Stderr(_, s) => Some(s.sink()),
            Push::File(_, s) => Some(s.sink()),
            Push::Sender(_, s) => Some(s.key()),
            Push::IoSender(_, s) => Some(s.key()),
            Push::IoMock(_, _) => None,
            Push::None => None,
        }
    }
    /// everything ever attempted on this output
    #[verifier::opaque]
    pub open spec fn hist(self, w: WV) -> Seq<Att> {
        match self.key() {
            Some(k) => w.hist(k),
            None => match self { Push::IoMock(_, v) => att_seq(v@), _ => Seq::empty() },
        }
    }
    pub open spec fn policy(self) -> Breakable { match self.jn() { Some(j) => j.breakable, None => Breakable::Terminate } }
    /// 0: discards everything, 1: in-memory queue, 2: byte sink, 3: channel
    #[verifier::opaque]
    pub open spec fn kind(self) -> int {
        match self { Push::None => 0, Push::IoMock(_, _) => 1, Push::Sender(_, _) => 3, Push::IoSender(_, _) => 3, _ => 2 }
    }
    pub open spec fn is_chan(self) -> bool { self.kind() == 3 }
    pub open spec fn is_none(self) -> bool { self.kind() == 0 }
    /// same output, possibly after having been used
    pub open spec fn same(self, o: Push) -> bool { self.jn() == o.jn() && self.key() == o.key() && self.kind() == o.kind() }
}
/// at most the attempts logged for endpoint k changed
pub open spec fn touch(w0: WV, w1: WV, k: Option<Key>) -> bool {
    only_log(w0, w1) && forall|x: Key| Some(x) != k ==> #[trigger] w1.hist(x) == w0.hist(x)
}
pub open spec fn only_log(w0: WV, w1: WV) -> bool { w1 == (WV { log: w1.log, ..w0 }) }

pub broadcast proof fn lemma_hist_frame(p: Push, w0: WV, w1: WV, k: Option<Key>)
    requires #[trigger] touch(w0, w1, k), p.key() is None || p.key() != k,
    ensures #[trigger] p.hist(w1) == p.hist(w0)
{ reveal(Push::hist); reveal(Push::key); }
pub broadcast proof fn lemma_key_kind(p: Push)
    ensures (#[trigger] p.key()) is Some ==> (p.key()->0 is Data || p.key()->0 is Sink) && p.jn() is Some, p.is_none() ==> p.key() is None && p.jn() is None
{ reveal(Push::hist); reveal(Push::key); reveal(Push::kind); reveal(Push::jn); }
pub broadcast proof fn lemma_touch_att(w0: WV, k: Key, a: Att)
    ensures touch(w0, #[trigger] w0.att(k, a), Some(k)), w0.att(k, a).hist(k) == w0.hist(k).push(a)
{ }
pub open spec fn att_seq(v: Seq<IOData>) -> Seq<Att> { v.map_values(|d: IOData| Att { p: Payload::Data(d.0@), r: Res::Accepted }) }
pub broadcast proof fn lemma_att_seq_push(v: Seq<IOData>, d: IOData)
    ensures #[trigger] att_seq(v.push(d)) == att_seq(v).push(Att { p: Payload::Data(d.0@), r: Res::Accepted })
{ assert(att_seq(v.push(d)) =~= att_seq(v).push(Att { p: Payload::Data(d.0@), r: Res::Accepted })); }

/// the single attempt to hand `d` to the output p0 ended with `res`
pub open spec fn attempted(p0: Push, w0: WV, d: Seq<u8>, res: Res, p1: Push, w1: WV) -> bool {
    &&& p1.same(p0)
    &&& touch(w0, w1, p0.key())
    &&& p1.hist(w1) == if p0.is_none() { p0.hist(w0) } else { p0.hist(w0).push(Att { p: Payload::Data(d), r: res }) }
    &&& p0.key() is None ==> w1 == w0
}

//@item src/motion.rs :: impl Pull > fn journey
    pub fn journey(&self) -> /*@ (r: @*/ Option<&PullJourney> /*@ ) ensures match r { Some(j) => self.jn() == Some(*j), None => self.jn() is None } @*/ {
        match self {
            Pull::CmdStdout(j, ..) => Some(j),
            Pull::CmdStderr(j, ..) => Some(j),
            Pull::Stdin(j, ..) => Some(j),
            Pull::File(j, ..) => Some(j),
            Pull::Receiver(j, ..) => Some(j),
            Pull::Mock(j, ..) => Some(j),
            Pull::None => None
        }
    }
//@end
//@item src/motion.rs :: impl Push > fn journey
    pub fn journey(&self) -> /*@ (r: @*/ Option<&Journey> /*@ ) ensures match r { Some(j) => self.jn() == Some(*j), None => self.jn() is None } @*/ {
        /*@ proof { reveal(Push::jn); } @*/
        match self {
            Push::IoMock(j, ..) => Some(j),
            Push::CmdStdin(j, ..) => Some(j),
            Push::Stdout(j, ..) => Some(j),
            Push::Stderr(j, ..) => Some(j),
            Push::File(j, ..) => Some(j),
            Push::Sender(j, ..) => Some(j),
            Push::IoSender(j, ..) => Some(j),
            Push::None => None,
        }
    }
//@end
//@item src/motion.rs :: impl Journey > fn as_pull_journey
    pub fn as_pull_journey(&self) -> /*@ (r: @*/ PullJourney /*@ ) ensures r.src == self.src, r.dst == self.dst @*/ {
        PullJourney { src: self.src, dst: self.dst }
    }
//@end
pub closed spec fn no_notes() -> MotionNotifications { MotionNotifications { read: None, written: None } }
//@item src/motion.rs :: impl MotionNotifications > fn empty
    pub fn empty() -> /*@ (r: @*/ MotionNotifications /*@ ) ensures r.rd() is None, r.wr() is None, r == no_notes() @*/ {
        MotionNotifications { read: None, written: None }
    }
//@end
//@item src/motion.rs :: impl MotionNotifications > fn read
    pub fn read(s: Sender<MonitorMessage>) -> /*@ (r: @*/ MotionNotifications /*@ ) ensures r.rd() == Some(s), r.wr() is None, r == notes_of(Some(s), None) @*/ {
        MotionNotifications { read: Some(s), written: None }
    }
//@end
//@item src/motion.rs :: impl MotionNotifications > fn written
    pub fn written(s: Sender<MonitorMessage>) -> /*@ (r: @*/ MotionNotifications /*@ ) ensures r.rd() is None, r.wr() == Some(s), r == notes_of(None, Some(s)) @*/ {
        MotionNotifications { read: None, written: Some(s) }
    }
//@end
pub closed spec fn notes_of(rd: Option<Sender<MonitorMessage>>, wr: Option<Sender<MonitorMessage>>) -> MotionNotifications { MotionNotifications { read: rd, written: wr } }
impl MotionNotifications {
    pub closed spec fn rd(self) -> Option<Sender<MonitorMessage>> { self.read }
    pub closed spec fn wr(self) -> Option<Sender<MonitorMessage>> { self.written }
}

//@item src/motion.rs :: fn is_split
fn is_split(buf: &[u8], splits: &[Vec<u8>]) -> /*@ (r: @*/ Option<usize> /*@ )
    ensures match r {
        Some(n) => n <= buf@.len() && exists|i: int| 0 <= i < splits@.len() && #[trigger] splits@[i]@ == buf@.take(n as int),
        None => forall|i: int| 0 <= i < splits@.len() ==> !(#[trigger] splits@[i])@.is_prefix_of(buf@),
    } @*/
{
    for v in /*@ it: @*/ splits
        /*@ invariant forall|i: int| 0 <= i < it.index() ==> !(#[trigger] splits@[i])@.is_prefix_of(buf@), @*/
    {
        /*@ proof { axiom_slice_vec_eq(); } let ghost sep = v@; assert(sep == splits@[it.index()]@); @*/
        if v.len() > buf.len() {
            continue;
        }
        let (pre, _) = buf.split_at(v.len());
        if pre == v {
            return Some(v.len());
        }
        /*@ assert(!sep.is_prefix_of(buf@)); @*/
    }
    None
}
//@end

//@item src/motion.rs :: fn motion_read_buffer [eff]
async fn motion_read_buffer(rd: &mut /*!ByteIo!*/ /*!del 8!*/ (dyn AsyncRead + Unpin + Send), overflow: &mut ReadSplitControl) -> /*@ (r: @*/ Result<Vec<u8>, std::io::Error> /*@ )
    requires old(overflow).wf(),
    ensures
        final(rd).id() == old(rd).id(),
        final(overflow).wf(), final(overflow).seps() == old(overflow).seps(),
        match r {
            Ok(v) => frame_post(*old(rd), *old(overflow), old(w).v(), v@, *final(rd), *final(overflow), final(w).v()),
            Err(_) => read_failed(*old(rd), *old(overflow), old(w).v(), *final(overflow), final(w).v()),
        }, @*/ {
    let mut start_from = 0;
    /*@ let ghost rd0 = *rd; let ghost w0 = w.v(); let ghost c0 = *overflow; let ghost mut d: Seq<u8> = Seq::empty();
        proof { assert(w0.read(rd0.source()) + d =~= w0.read(rd0.source())); assert(c0.kept() + d =~= c0.kept()); } @*/
    loop
        /*@ invariant
            rd.id() == rd0.id(), overflow.wf(), overflow.seps() == c0.seps(),
            read_bytes(rd0, w0, d, false, w.v()),
            overflow.kept() == c0.kept() + d,
            start_from <= overflow.kept().len(),
            no_nl(overflow.kept().take(start_from as int)), @*/
    {

        // It might already have been read into the buffer
        /*@ let ghost ov0 = *overflow; @*/
        for overflow_pos in /*@ it: @*/ start_from..overflow.overflow.len()
            /*@ invariant
                *overflow == ov0,
                start_from <= overflow_pos <= overflow.kept().len(),
                no_nl(overflow.kept().take(overflow_pos as int)), @*/
        {
            start_from = overflow_pos;
            /*@ let ghost kept = overflow.kept(); let ghost tail = kept.subrange(overflow_pos as int, kept.len() as int); let ghost mut nlat: int = 0;
                proof { nlat = choose|i: int| 0 <= i < overflow.split_at@.len() && (#[trigger] overflow.split_at@[i])@ == seq![nl()]; } @*/
            if let Some(split_length) = is_split(overflow.overflow.split_at(overflow_pos).1, &overflow.split_at) {
                /*@ proof { let j = choose|j: int| 0 <= j < overflow.split_at@.len() && #[trigger] overflow.split_at@[j]@ == tail.take(split_length as int);
                    lemma_line_at(kept, overflow_pos as int, overflow.split_at@[j]@); } @*/
                let mut new_overflow = overflow.overflow.split_off(overflow_pos + split_length);
                std::mem::swap(&mut new_overflow, &mut overflow.overflow);
                /*@ proof { assert(new_overflow@ + overflow.kept() =~= kept); } @*/
                return Ok(new_overflow)
            }
            /*@ proof { assert(!overflow.split_at@[nlat]@.is_prefix_of(tail)); lemma_no_nl_step(kept, overflow_pos as int); } @*/
        }

        let mut buf: [u8; 255] = [0; 255];
        let bytes_read = rd.read(&mut buf).await?;

        // If end of stream
        if bytes_read == 0
        {
            /*@ proof { assert(overflow.kept().take(overflow.kept().len() as int) =~= overflow.kept()); assert(overflow.kept() + Seq::<u8>::empty() =~= overflow.kept());
                assert(read_bytes(rd0, w0, d, true, w.v())); } @*/
            return Ok(std::mem::take(&mut overflow.overflow));
        }

        /*@ let ghost k1 = overflow.kept(); @*/
        overflow.overflow.extend_from_slice(buf.split_at(bytes_read).0);
        /*@ proof { let got = buf@.take(bytes_read as int); assert(w0.read(rd0.source()) + (d + got) =~= (w0.read(rd0.source()) + d) + got);
            assert(overflow.kept() =~= k1 + got); assert(c0.kept() + (d + got) =~= (c0.kept() + d) + got); d = d + got;
            assert(overflow.kept().take(start_from as int) =~= k1.take(start_from as int)); } @*/
    }

}
//@end

//@item src/motion.rs :: fn motion_read [eff, eff+motion_read_buffer_wrapper]
pub async fn motion_read(stdin: &mut Pull, do_try: bool) -> /*@ (r: @*/ MotionResult<IODataWrapper> /*@ )
    requires old(stdin).wf(), do_try ==> old(stdin).pollable(),
    ensures match r {
        Ok(d) => read_step(*old(stdin), old(w).v(), d, *final(stdin), final(w).v()) && (d is Skipped ==> do_try),
        Err(e) => e is ReadIOError && Some(e->ReadIOError_0) == old(stdin).jn() && final(stdin).wf() && only_read(*old(stdin), old(w).v(), *final(stdin), final(w).v()),
    }, @*/ {

    fn do_match_stuff(v: Vec<u8>) -> /*@ (r: @*/ IODataWrapper /*@ ) ensures v@.len() == 0 ==> r is Finished, v@.len() > 0 ==> r == IODataWrapper::IOData(IOData(v)) @*/ {
        if v.is_empty() {
            return IODataWrapper::Finished;
        }
        IODataWrapper::IOData(IOData(v))
    }

    async fn motion_read_buffer_wrapper(rd: &mut /*!ByteIo!*/ /*!del 8!*/ (dyn AsyncRead + Unpin + Send), overflow: &mut ReadSplitControl, j: PullJourney) -> /*@ (r: @*/ MotionResult<IODataWrapper> /*@ )
        requires old(overflow).wf(),
        ensures
            final(rd).id() == old(rd).id(), final(overflow).wf(),
            match r {
                Ok(IODataWrapper::IOData(v)) => v.0@.len() > 0 && frame_post(*old(rd), *old(overflow), old(w).v(), v.0@, *final(rd), *final(overflow), final(w).v()),
                Ok(IODataWrapper::Finished) => frame_post(*old(rd), *old(overflow), old(w).v(), Seq::empty(), *final(rd), *final(overflow), final(w).v()),
                Ok(IODataWrapper::Skipped) => false,
                Err(e) => e is ReadIOError && e->ReadIOError_0 == j && read_failed(*old(rd), *old(overflow), old(w).v(), *final(overflow), final(w).v()),
            }, @*/ {
        motion_read_buffer(rd, overflow).await.map(do_match_stuff).map_err(|e /*@: std::io::Error@*/| /*@ -> (o: MotionError) ensures o is ReadIOError && o->ReadIOError_0 == j { @*/ MotionError::ReadIOError(j, Instant::now(), e) /*@ } @*/)
    }

    match (stdin, do_try) {
        (Pull::None, false) => Ok(IODataWrapper::Finished),
        (Pull::Mock(_j, v), _) => Ok(v.pop_front().map(/*!|d: IOData| -> (o: IODataWrapper) ensures o == IODataWrapper::IOData(d) { !*/IODataWrapper::IOData/*! (d) } !*/).unwrap_or(IODataWrapper::Finished)),
        (Pull::Receiver(_j, rd), false) => match rd.recv().await {
            Ok(d) => Ok(IODataWrapper::IOData(d)),
            Err(RecvError) => Ok(IODataWrapper::Finished)
        },
        (Pull::Receiver(_j, rd), true) => match rd.try_recv() {
            Ok(d) => Ok(IODataWrapper::IOData(d)),
            Err(TryRecvError::Empty) => Ok(IODataWrapper::Skipped),
            Err(TryRecvError::Closed) => Ok(IODataWrapper::Finished),
        },
        (Pull::CmdStderr(j, rd, overflow), false) => motion_read_buffer_wrapper(rd, overflow, *j).await,
        (Pull::CmdStdout(j, rd, overflow), false) => motion_read_buffer_wrapper(rd, overflow, *j).await,
        (Pull::Stdin(j, rd, overflow), false) => motion_read_buffer_wrapper(rd, overflow, *j).await,
        (Pull::File(j, rd, overflow), false) => motion_read_buffer_wrapper(rd, overflow, *j).await,
        (_, true) => panic!("Only Pull::Receiver and Pull::Mock can do a motion_read with do_try")
    }

}
//@end

/// reading failed: at most bytes were taken from this source, nothing else changed
pub open spec fn only_read(p0: Pull, w0: WV, p1: Pull, w1: WV) -> bool {
    p0.byte() is Some && p1.byte() is Some && p1.jn() == p0.jn() && read_failed(p0.byte().unwrap().0, p0.byte().unwrap().1, w0, p1.byte().unwrap().1, w1)
}

/// `e` says that the output with journey `j` did not take the data `d`
pub open spec fn closed_err(e: MotionError, j: Journey, d: IOData) -> bool {
    e is OutputClosed && e->OutputClosed_0 == j && e->OutputClosed_3 == d
}
pub open spec fn write_err(e: MotionError, j: Journey, d: IOData) -> bool {
    e is WriteIOError && e->WriteIOError_0 == j && e->WriteIOError_3 == d
}

//@item src/motion.rs :: fn motion_write [eff]
pub async fn motion_write(stdout: &mut Push, data: IOData) -> /*@ (r: @*/ MotionResult<()> /*@ )
    ensures match r {
        Ok(_) => attempted(*old(stdout), old(w).v(), data.0@, Res::Accepted, *final(stdout), final(w).v()),
        Err(e) => old(stdout).key() is Some && (
            (closed_err(e, old(stdout).jn().unwrap(), data) && attempted(*old(stdout), old(w).v(), data.0@, Res::Closed, *final(stdout), final(w).v()))
            || (write_err(e, old(stdout).jn().unwrap(), data) && !old(stdout).is_chan() && attempted(*old(stdout), old(w).v(), data.0@, Res::Failed, *final(stdout), final(w).v()))),
    }, @*/ {
    /*@ broadcast use lemma_att_seq_push; proof { reveal(Push::hist); reveal(Push::key); reveal(Push::kind); reveal(Push::jn); } @*/

    fn e_map_io(j: Journey, x: std::io::Error, d: IOData) -> /*@ (r: @*/ MotionError /*@ ) ensures
        io_kind(x) == std::io::ErrorKind::BrokenPipe ==> closed_err(r, j, d), io_kind(x) != std::io::ErrorKind::BrokenPipe ==> write_err(r, j, d), @*/ {
        match x.kind() {
            std::io::ErrorKind::BrokenPipe => MotionError::OutputClosed(j, Instant::now(), OutputClosedReason::BrokenPipe, d),
            _ => MotionError::WriteIOError(j, Instant::now(), x, d)
        }
    }

    fn e_map_chan(j: Journey, e: SendError<IOData>) -> /*@ (r: @*/ MotionError /*@ ) ensures closed_err(r, j, e.0) @*/ {
        MotionError::OutputClosed(j, Instant::now(), OutputClosedReason::ChannelClosed, e.0)
    }

    match (stdout, data) {
        (Push::None, IOData(_data)) => MotionResult::Ok(()),
        (Push::IoMock(_, v), IOData(data)) => { v.push_back(IOData(data)); Ok(()) },
        (Push::Sender(j, wr), IOData(data)) => Ok(wr.send(IOData(data)).await.map_err(|e /*@: SendError<IOData>@*/| /*@ -> (o: MotionError) ensures closed_err(o, *j, e.0) { @*/ e_map_chan(*j, e) /*@ } @*/)?),
        (Push::IoSender(j, wr), IOData(data)) => Ok(wr.send(IOData(data)).await.map_err(|e /*@: SendError<IOData>@*/| /*@ -> (o: MotionError) ensures closed_err(o, *j, e.0) { @*/ e_map_chan(*j, e) /*@ } @*/)?),
        (Push::CmdStdin(j, wr), IOData(data)) => Ok(wr.write_all(&data).await.map_err(|e /*@: std::io::Error@*/| /*@ -> (o: MotionError) ensures io_err(o, e, *j, data) { @*/ e_map_io(*j, e, IOData(data)) /*@ } @*/)?),
        (Push::Stdout(j, wr), IOData(data)) => Ok(wr.write_all(&data).await.map_err(|e /*@: std::io::Error@*/| /*@ -> (o: MotionError) ensures io_err(o, e, *j, data) { @*/ e_map_io(*j, e, IOData(data)) /*@ } @*/)?),
        (Push::File(j, wr), IOData(data)) => Ok(wr.write_all(&data).await.map_err(|e /*@: std::io::Error@*/| /*@ -> (o: MotionError) ensures io_err(o, e, *j, data) { @*/ e_map_io(*j, e, IOData(data)) /*@ } @*/)?),
        (Push::Stderr(j, wr), IOData(data)) => Ok(wr.write_all(&data).await.map_err(|e /*@: std::io::Error@*/| /*@ -> (o: MotionError) ensures io_err(o, e, *j, data) { @*/ e_map_io(*j, e, IOData(data)) /*@ } @*/)?),
    }

}
//@end
pub open spec fn io_err(o: MotionError, e: std::io::Error, j: Journey, d: Vec<u8>) -> bool {
    if io_kind(e) == std::io::ErrorKind::BrokenPipe { closed_err(o, j, IOData(d)) } else { write_err(o, j, IOData(d)) }
}

/// the output has been told that no more will come: channels are closed, byte sinks flushed
pub open spec fn closing(p: Push, w0: WV, w1: WV) -> bool {
    match p.key() {
        Some(k) => if p.is_chan() { w1 == w0.close(k) } else { w1 == w0.flush(k) },
        None => w1 == w0,
    }
}

//@item src/motion.rs :: fn motion_close [eff]
pub async fn motion_close(stdout: &mut Push) -> /*@ (r: @*/ MotionResult<()> /*@ )
    ensures final(stdout).same(*old(stdout)), final(stdout).hist(final(w).v()) == old(stdout).hist(old(w).v()),
        match r {
            Ok(_) => closing(*old(stdout), old(w).v(), final(w).v()),
            Err(e) => final(w).v() == old(w).v() && e is CloseIOError && Some(e->CloseIOError_0) == old(stdout).jn() && !old(stdout).is_chan(),
        }, @*/ {
    /*@ proof { reveal(Push::hist); reveal(Push::key); reveal(Push::kind); reveal(Push::jn); } @*/

    fn e_map(j: Journey, x: std::io::Error) -> /*@ (r: @*/ MotionError /*@ ) ensures r is CloseIOError && r->CloseIOError_0 == j @*/ {
        MotionError::CloseIOError(j, Instant::now(), x)
    }

    match stdout {
        Push::None => MotionResult::Ok(()),
        Push::IoMock(_, _v) => MotionResult::Ok(()),
        Push::Sender(_, wr) => { wr.close(); Ok(()) },
        Push::IoSender(_, wr) => { wr.close(); Ok(()) },
        Push::CmdStdin(j, wr) => Ok(wr.flush().await.map_err(|e /*@: std::io::Error@*/| /*@ -> (o: MotionError) ensures o is CloseIOError && o->CloseIOError_0 == *j { @*/ e_map(*j, e) /*@ } @*/)?),
        Push::Stdout(j, wr) => Ok(wr.flush().await.map_err(|e /*@: std::io::Error@*/| /*@ -> (o: MotionError) ensures o is CloseIOError && o->CloseIOError_0 == *j { @*/ e_map(*j, e) /*@ } @*/)?),
        Push::Stderr(j, wr) => Ok(wr.flush().await.map_err(|e /*@: std::io::Error@*/| /*@ -> (o: MotionError) ensures o is CloseIOError && o->CloseIOError_0 == *j { @*/ e_map(*j, e) /*@ } @*/)?),
        Push::File(j, wr) => Ok(wr.flush().await.map_err(|e /*@: std::io::Error@*/| /*@ -> (o: MotionError) ensures o is CloseIOError && o->CloseIOError_0 == *j { @*/ e_map(*j, e) /*@ } @*/)?),
    }
}
//@end

// ---- one step of moving a message from a source to a set of outputs ---------------------------
/// no two outputs lead to the same endpoint
pub open spec fn distinct(p: Seq<Push>) -> bool {
    forall|i: int, j: int| 0 <= i < j < p.len() && (#[trigger] p[i]).key() is Some ==> p[i].key() != (#[trigger] p[j]).key()
}
pub open spec fn msg_att(d: IODataWrapper, r: Res) -> Att { Att { p: Payload::Data(d->IOData_0.0@), r } }

/// what the step may do to one output: the end of input is not written; a message is attempted exactly once,
/// and a refusal is tolerated only on outputs whose policy is Consume or Finish
pub open spec fn delivered(p0: Push, h0: Seq<Att>, data: IODataWrapper, p1: Push, h1: Seq<Att>) -> bool {
    &&& p1.same(p0)
    &&& if data is IOData && !p0.is_none() {
            h1 == h0.push(msg_att(data, Res::Accepted))
            || (h1 == h0.push(msg_att(data, Res::Closed)) && p0.key() is Some && p0.policy() != Breakable::Terminate)
        } else { h1 == h0 }
}
/// the output refused this message and its policy is Finish
pub open spec fn gave_up(p0: Push, h0: Seq<Att>, data: IODataWrapper, h1: Seq<Att>) -> bool {
    data is IOData && p0.key() is Some && p0.policy() == Breakable::Finish && h1 == h0.push(msg_att(data, Res::Closed))
}
/// the first n outputs have been served, the others not touched
pub open spec fn served(p0: Seq<Push>, w0: WV, data: IODataWrapper, p1: Seq<Push>, w1: WV, n: int) -> bool {
    &&& p1.len() == p0.len()
    &&& forall|i: int| 0 <= i < n ==> delivered(p0[i], (#[trigger] p0[i]).hist(w0), data, p1[i], p1[i].hist(w1))
    &&& forall|i: int| n <= i < p0.len() ==> (#[trigger] p0[i]).hist(w1) == p0[i].hist(w0)
}
/// the copies the spy sees: one per output that is an output port of a component
pub open spec fn spy_copy(h: Seq<Att>, p: Push, data: IODataWrapper) -> Seq<Att> {
    match p.jn() {
        Some(Journey { src, src_port: Some(src_port), dst, .. }) => h.push(Att { p: Payload::Spy(SpyMessage { src, dst, src_port, msg: data }), r: Res::Accepted }),
        _ => h,
    }
}
pub open spec fn spy_copies(h: Seq<Att>, p: Seq<Push>, data: IODataWrapper, n: int) -> Seq<Att> decreases n {
    if n <= 0 { h } else { spy_copy(spy_copies(h, p, data, n - 1), p[n - 1], data) }
}
pub open spec fn note(h: Seq<Att>, m: Option<Sender<MonitorMessage>>, k: int, msg: MonitorMessage) -> Seq<Att> {
    match m { Some(s) if s.key() == Key::Mon(k) => h.push(Att { p: Payload::Mon(msg), r: Res::Accepted }), _ => h }
}
pub open spec fn spied(h: Seq<Att>, spy: Option<Sender<SpyMessage>>, k: int, p: Seq<Push>, data: IODataWrapper, n: int) -> Seq<Att> {
    match spy { Some(s) if s.key() == Key::Spy(k) => spy_copies(h, p, data, n), _ => h }
}
/// endpoints other than the given outputs, monitor and spy channels saw nothing
pub open spec fn others_same(p: Seq<Push>, w0: WV, w1: WV) -> bool {
    forall|k: Key| !(k is Mon) && !(k is Spy) && (forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).key() != Some(k)) ==> #[trigger] w1.hist(k) == w0.hist(k)
}

/// the whole effect of a successful step that was not skipped; wr is the world right after the read
pub open spec fn worker_done(p0: Seq<Push>, m: MotionNotifications, spy: Option<Sender<SpyMessage>>, data: IODataWrapper, wr: WV, p1: Seq<Push>, w1: WV) -> bool {
    &&& served(p0, wr, data, p1, w1, p0.len() as int)
    &&& forall|k: int| #[trigger] w1.hist(Key::Mon(k)) == note(note(wr.hist(Key::Mon(k)), m.rd(), k, MonitorMessage::Read(0)), m.wr(), k, MonitorMessage::Wrote(0))
    &&& forall|k: int| #[trigger] w1.hist(Key::Spy(k)) == spied(wr.hist(Key::Spy(k)), spy, k, p0, data, p0.len() as int)
    &&& others_same(p0, wr, w1)
    &&& only_log(wr, w1)
}
pub open spec fn worker_ok(pull0: Pull, m: MotionNotifications, p0: Seq<Push>, spy: Option<Sender<SpyMessage>>, w0: WV, res: MotionWorkerResult, data: IODataWrapper, wr: WV, pull1: Pull, p1: Seq<Push>, w1: WV) -> bool {
    &&& exists|wx: WV| #[trigger] after_read(wx, wr) && read_step(pull0, w0, data, pull1, wx)
    &&& res.read == !(data is Skipped)
    &&& data is Skipped ==> !res.finished && p1 == p0 && w1 == wr
    &&& !(data is Skipped) ==> worker_done(p0, m, spy, data, wr, p1, w1)
    &&& !(data is Skipped) ==> res.finished == (data is Finished || forall|i: int| 0 <= i < p0.len() ==> gave_up(p0[i], (#[trigger] p0[i]).hist(wr), data, p1[i].hist(w1)))
}
pub open spec fn after_read(wx: WV, wr: WV) -> bool { wr == (WV { steps: wx.steps + 1, ..wx }) && wr.steps < 0x4000_0000_0000_0000 }
/// names the message, the world after the read and the number of outputs served (instantiation hint; always true)
pub open spec fn at(data: IODataWrapper, wr: WV, n: int) -> bool { true }
/// a failed step: which message failed where, and what the outputs had received until then
pub open spec fn worker_err(pull0: Pull, p0: Seq<Push>, w0: WV, e: MotionError, data: IODataWrapper, wr: WV, n: int, pull1: Pull, p1: Seq<Push>, w1: WV) -> bool {
    &&& exists|wx: WV| #[trigger] after_read(wx, wr) && read_step(pull0, w0, data, pull1, wx)
    &&& !(data is Skipped)
    &&& 0 <= n <= p0.len() && p1.len() == p0.len()
    &&& others_same(p0, wr, w1) && only_log(wr, w1)
    &&& match e {
        MotionError::OutputClosed(j, _, _, d) => n < p0.len() && p0[n].policy() is Terminate && p0[n].jn() == Some(j) && data is IOData && d.0@ == data->IOData_0.0@
            && p1[n].same(p0[n]) && p1[n].hist(w1) == p0[n].hist(wr).push(msg_att(data, Res::Closed))
            && served_but(p0, wr, data, p1, w1, n),
        MotionError::WriteIOError(j, _, _, d) => n < p0.len() && p0[n].jn() == Some(j) && data is IOData && d.0@ == data->IOData_0.0@
            && p1[n].same(p0[n]) && p1[n].hist(w1) == p0[n].hist(wr).push(msg_att(data, Res::Failed))
            && served_but(p0, wr, data, p1, w1, n),
        MotionError::MonitorReadError(_, _, _) => n == 0 && served(p0, wr, data, p1, w1, 0),
        MotionError::SpyWriteError(_, _) => n > 0 && served(p0, wr, data, p1, w1, n),
        MotionError::MonitorWriteError(_, _, _) => n == p0.len() && served(p0, wr, data, p1, w1, n),
        _ => false,
    }
}
/// the outputs before n served, those after n untouched
pub open spec fn served_but(p0: Seq<Push>, w0: WV, data: IODataWrapper, p1: Seq<Push>, w1: WV, n: int) -> bool {
    &&& forall|i: int| 0 <= i < n ==> delivered(p0[i], (#[trigger] p0[i]).hist(w0), data, p1[i], p1[i].hist(w1))
    &&& forall|i: int| n < i < p0.len() ==> (#[trigger] p0[i]).hist(w1) == p0[i].hist(w0)
}

//@item src/motion.rs :: fn motion_worker [eff]
pub async fn motion_worker(pull: &mut Pull, monitor: &mut MotionNotifications, pushs: &mut Vec<Push>, spy: &mut Option<Sender<SpyMessage>>, do_try_read: bool) -> /*@ (r: @*/ MotionResult<MotionWorkerResult> /*@ )
    requires
        old(pull).wf(), do_try_read ==> old(pull).pollable(), distinct(old(pushs)@),
        old(monitor).rd() is Some || old(monitor).wr() is Some ==> old(pull).jn() is Some,
    ensures
        *final(monitor) == *old(monitor), *final(spy) == *old(spy), final(pull).wf(), final(pull).pollable() == old(pull).pollable(),
        final(pull).jn() == old(pull).jn(),
        match r {
            Ok(res) => exists|data: IODataWrapper, wr: WV| #[trigger] at(data, wr, 0) && worker_ok(*old(pull), *old(monitor), old(pushs)@, *old(spy), old(w).v(), res, data, wr, *final(pull), final(pushs)@, final(w).v()) && (data is Skipped ==> do_try_read),
            Err(e) => mon_part(*old(monitor), old(w).v(), final(w).v()) && (e is MonitorReadError ==> old(monitor).rd() is Some) && (e is MonitorWriteError ==> old(monitor).wr() is Some) && ((e is ReadIOError && old(pull).jn() == Some(e->ReadIOError_0) && final(pushs)@ == old(pushs)@ && only_read(*old(pull), old(w).v(), *final(pull), final(w).v()))
                || exists|data: IODataWrapper, wr: WV, n: int| #[trigger] at(data, wr, n) && worker_err(*old(pull), old(pushs)@, old(w).v(), e, data, wr, n, *final(pull), final(pushs)@, final(w).v())),
        }, @*/ {

    /*@ broadcast use lemma_hist_frame, lemma_key_kind, lemma_touch_att; @*/
    let data = motion_read(pull, do_try_read).await?;
    /*@ let ghost wx = w.v(); proof { tick(w); } let ghost wr = w.v(); let ghost p0 = pushs@; proof { assert(after_read(wx, wr)); assert(at(data, wr, 0)); } @*/
    if data == IODataWrapper::Skipped {
        return MotionResult::Ok(MotionWorkerResult { finished: false, read: false })
    }

    match &monitor.read {
        Some(m) => m.send(MonitorMessage::Read(0)).await,
        None => Ok(()),
    }.map_err(|e /*@: SendError<MonitorMessage>@*/| /*@ -> (o: MotionError) requires pull.jn() is Some ensures o is MonitorReadError @*/ {
        MotionError::MonitorReadError(
            JourneySource {
                src: (
                    *pull.journey().unwrap_or_else(|| /*@ -> (o: &PullJourney) requires false { @*/ panic!("motion::motion_worker monitor.read for pull {:?} had no journey", pull) /*@ } @*/)
                    ).src
            },
            Instant::now(),
            e
        )
    })?;

    let was_finished = data == IODataWrapper::Finished;

    let mut unfinished_push_count = pushs.len();
    /*@ let ghost mut refused: int = 0; @*/

    for push in /*@ it: @*/ pushs /*! .iter_mut() !*/
        /*@ invariant
            it.seq().len() == p0.len(),
            forall|i: int| #![trigger p0[i]] #![trigger it.seq()[i]] 0 <= i < p0.len() ==> *it.seq()[i] == p0[i],
            forall|i: int| 0 <= i < it.index() ==> delivered(p0[i], (#[trigger] p0[i]).hist(wr), data, *final(it.seq()[i]), (*final(it.seq()[i])).hist(w.v())),
            forall|i: int| it.index() <= i < p0.len() ==> (#[trigger] p0[i]).hist(w.v()) == p0[i].hist(wr),
            0 <= refused <= it.index(), unfinished_push_count == p0.len() - refused,
            refused == it.index() <==> forall|i: int| 0 <= i < it.index() ==> gave_up(p0[i], (#[trigger] p0[i]).hist(wr), data, (*final(it.seq()[i])).hist(w.v())),
            forall|k: int| #[trigger] w.v().hist(Key::Mon(k)) == note(wr.hist(Key::Mon(k)), monitor.rd(), k, MonitorMessage::Read(0)),
            forall|k: int| #[trigger] w.v().hist(Key::Spy(k)) == spied(wr.hist(Key::Spy(k)), *spy, k, p0, data, it.index() as int),
            others_same(p0, wr, w.v()), only_log(wr, w.v()), @*/
    {
        /*@ let ghost g0 = refused; let ghost idx = it.index() as int; let ghost w1 = w.v(); let ghost push0 = *push; proof { assert(at(data, wr, idx)); assert(at(data, wr, idx + 1)); } @*/
        /*! let res1 = !*/ match (push.journey().map(|j /*@: &Journey@*/| /*@ -> (o: Breakable) ensures o == j.breakable { @*/ j.breakable /*@ } @*/).unwrap_or(Breakable::Terminate), data.clone()) {
            (_, IODataWrapper::Finished) => Ok(()),
            (_, IODataWrapper::Skipped) => MotionResult::Ok(()),
            (Breakable::Terminate, IODataWrapper::IOData(iodata)) => motion_write(push, iodata).await,
            (breakable, IODataWrapper::IOData(iodata)) => {
                match motion_write(push, iodata).await {
                    Err(MotionError::OutputClosed(_, _, _, _)) => {
                        if breakable == Breakable::Finish {
                            unfinished_push_count -= 1;
                            /*@ proof { refused = refused + 1; } @*/
                        }
                        Ok(())
                    },
                    x => x,
                }
            },
        } /*! ; !*/ /*@ let ghost w2 = w.v(); proof {
            assert(touch(w1, w2, p0[idx].key()));
            assert forall|i: int| 0 <= i < p0.len() && i != idx implies (#[trigger] p0[i]).hist(w2) == p0[i].hist(w1) by { }
            assert(others_same(p0, wr, w2));
            if res1 is Err {
                let e = res1->Err_0;
                assert(push0 == p0[idx]);
                assert(data is IOData);
                assert(attempted(push0, w1, data->IOData_0.0@, if e is OutputClosed { Res::Closed } else { Res::Failed }, *push, w2));
                assert(e is OutputClosed ==> p0[idx].policy() == Breakable::Terminate && p0[idx].jn() == Some(e->OutputClosed_0) && e->OutputClosed_3.0@ == data->IOData_0.0@);
                assert(e is WriteIOError ==> p0[idx].jn() == Some(e->WriteIOError_0) && e->WriteIOError_3.0@ == data->IOData_0.0@);
                assert(e is OutputClosed || e is WriteIOError);
                assert(push.hist(w2) == p0[idx].hist(wr).push(msg_att(data, if e is OutputClosed { Res::Closed } else { Res::Failed })));
            } else {
                assert(delivered(p0[idx], p0[idx].hist(wr), data, *push, push.hist(w2)));
                assert(p0[idx].hist(wr).push(msg_att(data, Res::Accepted))[p0[idx].hist(wr).len() as int].r is Accepted);
                assert(p0[idx].hist(wr).push(msg_att(data, Res::Closed))[p0[idx].hist(wr).len() as int].r is Closed);
                assert(gave_up(p0[idx], p0[idx].hist(wr), data, push.hist(w2)) == (refused == g0 + 1));
            }
        } @*/ /*! res1 !*/ ?;

        let journey_details = match &push.journey().map(|j /*@: &Journey@*/| /*@ -> (o: (usize, usize, Option<OutputPort>)) ensures o == (j.src, j.dst, j.src_port) { @*/ (j.src, j.dst, j.src_port) /*@ } @*/) {
            Some((s, d, Some(p))) => Some((*s, *d, *p)),
            _ => None,
        };

        if let (iow, Some(spy), Some((src, dst, src_port))) = (data.clone(), &spy, journey_details) {
            // println!("HAVE SPY: {:?} {:?} {:?}", spy, &r, journey_src);
            let spy_msg = SpyMessage { src, msg: iow.clone(), dst, src_port };
            /*! let res2 = !*/ spy.send(spy_msg).await.map_err(|e /*@: SendError<SpyMessage>@*/| /*@ -> (o: MotionError) ensures o is SpyWriteError { @*/ MotionError::SpyWriteError(Instant::now(), e) /*@ } @*/) /*! ; !*/ /*@ proof {
                assert forall|i: int| 0 <= i < p0.len() implies (#[trigger] p0[i]).hist(w.v()) == p0[i].hist(w2) by { }
                assert(push.hist(w.v()) == push.hist(w2));
                assert(others_same(p0, wr, w.v()));
            } @*/ /*! res2 !*/ ?;
        }
        /*@ proof {
            assert forall|k: int| #[trigger] w.v().hist(Key::Mon(k)) == note(wr.hist(Key::Mon(k)), monitor.rd(), k, MonitorMessage::Read(0)) by { assert(w2.hist(Key::Mon(k)) == w1.hist(Key::Mon(k))); }
        } @*/

    }

    /*@ let ghost w3 = w.v(); proof { assert(at(data, wr, p0.len() as int));
        assert(pushs@.len() == p0.len());
        assert forall|i: int| 0 <= i < p0.len() implies delivered(p0[i], (#[trigger] p0[i]).hist(wr), data, pushs@[i], pushs@[i].hist(w3)) by { }
        assert(served(p0, wr, data, pushs@, w3, p0.len() as int));
        assert(refused == p0.len() <==> forall|i: int| 0 <= i < p0.len() ==> gave_up(p0[i], (#[trigger] p0[i]).hist(wr), data, pushs@[i].hist(w3)));
    } @*/
    if let Some(m) = monitor.written.as_ref() {
        m.send(MonitorMessage::Wrote(0)).await
            .map_err(|e /*@: SendError<MonitorMessage>@*/| /*@ -> (o: MotionError) requires pull.jn() is Some ensures o is MonitorWriteError @*/ { MotionError::MonitorWriteError(
                *pull.journey().unwrap_or_else(|| /*@ -> (o: &PullJourney) requires false { @*/ panic!("motion::motion_worker monitor.read for pull {:?} had no journey", pull) /*@ } @*/),
                Instant::now(),
                e
            ) })?;
    }

    if unfinished_push_count == 0 {
        return MotionResult::Ok(MotionWorkerResult { finished: true, read: true })
    }

    MotionResult::Ok(MotionWorkerResult { finished: was_finished, read: true })
}
//@end


// ---- the whole life of a link -----------------------------------------------------------------
pub open spec fn pays(ds: Seq<IODataWrapper>) -> Seq<Payload> { ds.map_values(|d: IODataWrapper| Payload::Data(d->IOData_0.0@)) }
/// the bytes of a sequence of messages
pub open spec fn flat(ds: Seq<IODataWrapper>) -> Seq<u8> decreases ds.len() {
    if ds.len() == 0 { Seq::empty() } else { flat(ds.drop_last()) + ds.last()->IOData_0.0@ }
}
pub open spec fn all_data(ds: Seq<IODataWrapper>) -> bool { forall|i: int| 0 <= i < ds.len() ==> (#[trigger] ds[i]) is IOData }
pub open spec fn gained(b: ByteIo, w0: WV, d: Seq<u8>, w1: WV) -> bool { w1.read(b.source()) == w0.read(b.source()) + d }
/// Line framing over the whole life of a source: the messages are the bytes read, cut after each line feed; only a source that has
/// reported its end yields anything else than whole lines, and its end is passed on only when nothing is kept back.
pub open spec fn bytes_taken(b0: ByteIo, c0: ReadSplitControl, w0: WV, ds: Seq<IODataWrapper>, ended: bool, b1: ByteIo, c1: ReadSplitControl, w1: WV) -> bool {
    &&& b1.id() == b0.id()
    &&& exists|d: Seq<u8>| #[trigger] gained(b0, w0, d, w1) && flat(ds) + c1.kept() == c0.kept() + d
    &&& forall|i: int| 0 <= i < ds.len() ==> is_line((#[trigger] ds[i])->IOData_0.0@) || (no_nl(ds[i]->IOData_0.0@) && w1.ended.contains(b0.source()))
    &&& ended ==> c1.kept().len() == 0 && w1.ended.contains(b0.source())
}
/// exactly the messages `ds` were taken from the source p0, in order (and then its end, if `ended`)
pub open spec fn taken(p0: Pull, w0: WV, ds: Seq<IODataWrapper>, ended: bool, p1: Pull, w1: WV) -> bool {
    &&& all_data(ds) && p1.jn() == p0.jn() && p1.wf()
    &&& match p0 {
        Pull::None => ds.len() == 0 && p1 == p0,
        Pull::Mock(_, q) => p1 is Mock && ds.len() <= q@.len() && p1->Mock_1@ == q@.skip(ds.len() as int)
            && (forall|i: int| 0 <= i < ds.len() ==> (#[trigger] ds[i]) == IODataWrapper::IOData(q@[i])) && (ended ==> ds.len() == q@.len()),
        Pull::Receiver(_, c) => p1 == p0 && w1.recvd(c.key()) == w0.recvd(c.key()) + pays(ds) && (ended ==> w1.ended.contains(c.key())),
        _ => p1.byte() is Some && same_variant(p0, p1) && bytes_taken(p0.byte().unwrap().0, p0.byte().unwrap().1, w0, ds, ended, p1.byte().unwrap().0, p1.byte().unwrap().1, w1),
    }
}
pub open spec fn same_input(w0: WV, w1: WV) -> bool { w1.got == w0.got && w1.bytes == w0.bytes && w1.ended == w0.ended }
pub proof fn lemma_flat_push(ds: Seq<IODataWrapper>, d: IODataWrapper)
    ensures flat(ds.push(d)) == flat(ds) + d->IOData_0.0@
{ assert(ds.push(d).drop_last() =~= ds); }
pub proof fn lemma_taken_none(p: Pull, w: WV)
    requires p.wf()
    ensures taken(p, w, Seq::empty(), false, p, w)
{
    match p {
        Pull::Mock(_, q) => { assert(q@.skip(0) =~= q@); },
        Pull::Receiver(_, c) => { assert(pays(Seq::empty()) =~= Seq::empty()); assert(w.recvd(c.key()) + pays(Seq::empty()) =~= w.recvd(c.key())); },
        Pull::None => {},
        _ => { let (b, c) = p.byte().unwrap(); assert(gained(b, w, Seq::empty(), w)) by { assert(w.read(b.source()) + Seq::<u8>::empty() =~= w.read(b.source())); }
            assert(flat(Seq::empty()) + c.kept() =~= c.kept() + Seq::<u8>::empty()); },
    }
}
#[verifier::spinoff_prover]
pub proof fn lemma_taken_step(p0: Pull, w0: WV, ds: Seq<IODataWrapper>, p1: Pull, w1: WV, data: IODataWrapper, p2: Pull, wx: WV, w2: WV)
    requires taken(p0, w0, ds, false, p1, w1), read_step(p1, w1, data, p2, wx), same_input(wx, w2), !(data is Skipped),
    ensures data is IOData ==> taken(p0, w0, ds.push(data), false, p2, w2), data is Finished ==> taken(p0, w0, ds, true, p2, w2),
{
    match p0 {
        Pull::Mock(_, q) => { if ds.len() < q@.len() { assert(q@.skip(ds.len() as int).drop_first() =~= q@.skip(ds.len() as int + 1)); } },
        Pull::Receiver(_, c) => { if data is IOData {
            assert(w0.recvd(c.key()) + pays(ds.push(data)) =~= (w0.recvd(c.key()) + pays(ds)).push(Payload::Data(data->IOData_0.0@))); } },
        Pull::None => {},
        _ => {
            let (b0, c0) = p0.byte().unwrap(); let (b1, c1) = p1.byte().unwrap(); let (b2, c2) = p2.byte().unwrap();
            assert(b1.source() == b0.source());
            let v = if data is IOData { data->IOData_0.0@ } else { Seq::empty() };
            assert(frame_post(b1, c1, w1, v, b2, c2, wx));
            let d2 = choose|d: Seq<u8>| #![trigger read_bytes(b1, w1, d, true, wx)] #![trigger read_bytes(b1, w1, d, false, wx)] v + c2.kept() == c1.kept() + d && (
                (is_line(v) && read_bytes(b1, w1, d, false, wx)) || (no_nl(v) && c2.kept().len() == 0 && read_bytes(b1, w1, d, true, wx)));
            let d1 = choose|d: Seq<u8>| #[trigger] gained(b0, w0, d, w1) && flat(ds) + c1.kept() == c0.kept() + d;
            assert(w2.read(b0.source()) == wx.read(b0.source()));
            assert(gained(b0, w0, d1 + d2, w2)) by { assert(w0.read(b0.source()) + (d1 + d2) =~= (w0.read(b0.source()) + d1) + d2); }
            lemma_flat_push(ds, data);
            assert(flat(ds) + v + c2.kept() =~= c0.kept() + (d1 + d2)) by {
                assert((flat(ds) + v) + c2.kept() =~= flat(ds) + (v + c2.kept()));
                assert(flat(ds) + (c1.kept() + d2) =~= (flat(ds) + c1.kept()) + d2);
                assert((c0.kept() + d1) + d2 =~= c0.kept() + (d1 + d2));
            }
            assert(flat(ds) + Seq::<u8>::empty() =~= flat(ds));
            assert(!is_line(Seq::empty()));
        },
    }
}
/// one message handed to an output: taken, or refused where the policy tolerates it
pub open spec fn handed(p: Push, d: IODataWrapper, a: Att) -> bool {
    a == msg_att(d, Res::Accepted) || (a == msg_att(d, Res::Closed) && p.key() is Some && p.policy() != Breakable::Terminate)
}
/// exactly the messages `ds` were handed to the output, in order
pub open spec fn wrote(p: Push, h0: Seq<Att>, ds: Seq<IODataWrapper>, h1: Seq<Att>) -> bool {
    if p.is_none() { h1 == h0 } else {
        &&& h1.len() == h0.len() + ds.len() && h1.take(h0.len() as int) == h0
        &&& forall|i: int| 0 <= i < ds.len() ==> handed(p, #[trigger] ds[i], h1[h0.len() + i])
    }
}
pub proof fn lemma_wrote_none(p: Push, h: Seq<Att>)
    ensures wrote(p, h, Seq::empty(), h)
{ assert(h.take(h.len() as int) =~= h); }
pub proof fn lemma_wrote_step(p: Push, h0: Seq<Att>, ds: Seq<IODataWrapper>, h1: Seq<Att>, d: IODataWrapper, a: Att)
    requires wrote(p, h0, ds, h1), handed(p, d, a), !p.is_none()
    ensures wrote(p, h0, ds.push(d), h1.push(a))
{ assert(h1.push(a).take(h0.len() as int) =~= h1.take(h0.len() as int));
  assert forall|i: int| 0 <= i < ds.push(d).len() implies handed(p, #[trigger] ds.push(d)[i], h1.push(a)[h0.len() + i]) by { if i < ds.len() { assert(ds.push(d)[i] == ds[i]); } } }
/// the notifications of n reads
pub open spec fn notes(h: Seq<Att>, m: MotionNotifications, k: int, n: nat) -> Seq<Att> decreases n {
    if n == 0 { h } else { note(note(notes(h, m, k, (n - 1) as nat), m.rd(), k, MonitorMessage::Read(0)), m.wr(), k, MonitorMessage::Wrote(0)) }
}
/// what the spy saw of the reads `ds`
pub open spec fn spy_run(h: Seq<Att>, spy: Option<Sender<SpyMessage>>, k: int, p: Push, ds: Seq<IODataWrapper>) -> Seq<Att> decreases ds.len() {
    if ds.len() == 0 { h } else {
        match spy { Some(s) if s.key() == Key::Spy(k) => spy_copy(spy_run(h, spy, k, p, ds.drop_last()), p, ds.last()), _ => h } }
}
/// the notification channels that have been closed
pub open spec fn mon_closed(m: MotionNotifications, c: Set<Key>) -> Set<Key> {
    let c1 = match m.rd() { Some(s) => c.insert(s.key()), None => c };
    match m.wr() { Some(s) => c1.insert(s.key()), None => c1 }
}
pub open spec fn push_done(p: Push, w0: WV, w1: WV) -> bool {
    match p.key() {
        Some(k) => if p.is_chan() { w1.closed == w0.closed.insert(k) && w1.flushed == w0.flushed } else { w1.closed == w0.closed && w1.flushed == w0.flushed.insert(k, w1.hist(k).len()) },
        None => w1.closed == w0.closed && w1.flushed == w0.flushed,
    }
}
pub open spec fn rest(p: Push, w0: WV, w1: WV) -> bool {
    forall|k: Key| !(k is Mon) && !(k is Spy) && p.key() != Some(k) ==> #[trigger] w1.hist(k) == w0.hist(k)
}
/// where a source's messages come from
pub open spec fn own_in(p: Pull) -> Option<Key> {
    match p { Pull::Receiver(_, c) => Some(c.key()), _ => match p.byte() { Some((b, _)) => Some(b.source()), None => None } }
}
/// nothing was taken from anywhere else (control channels aside), no channel was made
pub open spec fn in_frame(p: Pull, w0: WV, w1: WV) -> bool {
    &&& forall|k: Key| !(k is Ctl) && own_in(p) != Some(k) ==> #[trigger] w1.recvd(k) == w0.recvd(k)
    &&& forall|k: Key| !(k is Ctl) && own_in(p) != Some(k) ==> (#[trigger] w1.ended.contains(k)) == w0.ended.contains(k)
    &&& w1.chans == w0.chans
}
pub open spec fn note_att(a: Att, m: MotionNotifications, k: int) -> bool {
    ||| a.p == Payload::Mon(MonitorMessage::Read(0)) && m.rd() is Some && m.rd().unwrap().key() == Key::Mon(k)
    ||| a.p == Payload::Mon(MonitorMessage::Wrote(0)) && m.wr() is Some && m.wr().unwrap().key() == Key::Mon(k)
}
pub open spec fn mon_ext(h0: Seq<Att>, h1: Seq<Att>, m: MotionNotifications, k: int) -> bool {
    &&& h1.len() >= h0.len() && forall|i: int| 0 <= i < h0.len() ==> h1[i] == h0[i]
    &&& forall|i: int| h0.len() <= i < h1.len() ==> note_att(#[trigger] h1[i], m, k)
}
/// the notification channels carried notifications of the kind asked for, and nothing else
pub open spec fn mon_part(m: MotionNotifications, w0: WV, w1: WV) -> bool {
    forall|k: int| mon_ext(w0.hist(Key::Mon(k)), #[trigger] w1.hist(Key::Mon(k)), m, k)
}
pub proof fn lemma_notes_ext(h: Seq<Att>, m: MotionNotifications, k: int, n: nat)
    ensures mon_ext(h, notes(h, m, k, n), m, k), notes(h, m, k, n).len() >= h.len()
    decreases n
{ if n > 0 { lemma_notes_ext(h, m, k, (n - 1) as nat); } }
pub proof fn lemma_mon_part(m: MotionNotifications, w0: WV, n: nat, wx: WV, w1: WV)
    requires forall|k: int| #[trigger] wx.hist(Key::Mon(k)) == notes(w0.hist(Key::Mon(k)), m, k, n), mon_part(m, wx, w1)
    ensures mon_part(m, w0, w1)
{
    assert forall|k: int| mon_ext(w0.hist(Key::Mon(k)), #[trigger] w1.hist(Key::Mon(k)), m, k) by {
        lemma_notes_ext(w0.hist(Key::Mon(k)), m, k, n); assert(wx.hist(Key::Mon(k)) == notes(w0.hist(Key::Mon(k)), m, k, n));
    }
}
pub proof fn lemma_in_frame_step(p0: Pull, w0: WV, p: Pull, wk: WV, data: IODataWrapper, p1: Pull, wx: WV, wr: WV, w1: WV)
    requires in_frame(p0, w0, wk), own_in(p) == own_in(p0), read_step(p, wk, data, p1, wx), after_read(wx, wr), only_log(wr, w1)
    ensures in_frame(p0, w0, w1), own_in(p1) == own_in(p0)
{
    assert forall|k: Key| !(k is Ctl) && own_in(p0) != Some(k) implies #[trigger] w1.recvd(k) == w0.recvd(k) by { assert(wk.recvd(k) == w0.recvd(k)); assert(wx.recvd(k) == wk.recvd(k)); }
    assert forall|k: Key| !(k is Ctl) && own_in(p0) != Some(k) implies (#[trigger] w1.ended.contains(k)) == w0.ended.contains(k) by { assert(wk.ended.contains(k) == w0.ended.contains(k)); assert(wx.ended.contains(k) == wk.ended.contains(k)); }
}
/// the messages among the reads
pub open spec fn datas(rs: Seq<IODataWrapper>) -> Seq<IODataWrapper> { if rs.len() > 0 && rs.last() is Finished { rs.drop_last() } else { rs } }

/// what a link that returned normally has done; rs is what each of its reads gave
pub open spec fn link_ok(pull0: Pull, m: MotionNotifications, spy: Option<Sender<SpyMessage>>, push0: Push, w0: WV, n: int, rs: Seq<IODataWrapper>, pull1: Pull, push1: Push, w1: WV) -> bool {
    let ds = datas(rs);
    &&& n == rs.len() && rs.len() > 0
    &&& taken(pull0, w0, ds, rs.last() is Finished, pull1, w1)
    &&& push1.same(push0) && wrote(push0, push0.hist(w0), ds, push1.hist(w1))
    // it ends only when the input has ended, or when a finish output has refused
    &&& rs.last() is Finished || (push0.key() is Some && push0.policy() == Breakable::Finish && push1.hist(w1).last() == msg_att(rs.last(), Res::Closed))
    &&& forall|k: int| #[trigger] w1.hist(Key::Mon(k)) == notes(w0.hist(Key::Mon(k)), m, k, rs.len())
    &&& forall|k: int| #[trigger] w1.hist(Key::Spy(k)) == spy_run(w0.hist(Key::Spy(k)), spy, k, push0, rs)
    &&& rest(push0, w0, w1) && in_frame(pull0, w0, w1)
    // and then it closes
    &&& exists|wc: WV| #[trigger] push_done(push0, w0, wc) && w1.closed == mon_closed(m, wc.closed) && w1.flushed == wc.flushed && wc.log == w1.log
}
/// what a link that failed has done
pub open spec fn link_err(pull0: Pull, push0: Push, w0: WV, e: MotionError, rs: Seq<IODataWrapper>, data: IODataWrapper, h: Seq<Att>, pull1: Pull, push1: Push, w1: WV) -> bool {
    &&& push1.same(push0) && all_data(rs) && wrote(push0, push0.hist(w0), rs, h)
    &&& rest(push0, w0, w1) && in_frame(pull0, w0, w1)
    &&& match e {
        MotionError::ReadIOError(j, _, _) => pull0.jn() == Some(j) && push1.hist(w1) == h,
        MotionError::OutputClosed(j, _, _, d) => data is IOData && d.0@ == data->IOData_0.0@ && push0.policy() is Terminate && push0.jn() == Some(j)
            && taken(pull0, w0, rs.push(data), false, pull1, w1) && push1.hist(w1) == h.push(msg_att(data, Res::Closed)),
        MotionError::WriteIOError(j, _, _, d) => data is IOData && d.0@ == data->IOData_0.0@ && push0.jn() == Some(j)
            && taken(pull0, w0, rs.push(data), false, pull1, w1) && push1.hist(w1) == h.push(msg_att(data, Res::Failed)),
        MotionError::CloseIOError(j, _, _) => push0.jn() == Some(j) && !push0.is_chan() && push1.hist(w1) == h && (data is Finished || push0.policy() == Breakable::Finish) && taken(pull0, w0, rs, data is Finished, pull1, w1),
        MotionError::MonitorReadError(_, _, _) => push1.hist(w1) == h,
        MotionError::MonitorWriteError(_, _, _) => push1.hist(w1) == h,
        MotionError::SpyWriteError(_, _) => push1.hist(w1) == h,
        _ => false,
    }
}
pub open spec fn life(rs: Seq<IODataWrapper>, pull1: Pull, push1: Push) -> bool { true }
pub open spec fn life_err(rs: Seq<IODataWrapper>, data: IODataWrapper, h: Seq<Att>, pull1: Pull, push1: Push) -> bool { true }

pub proof fn lemma_taken_frame(p0: Pull, w0: WV, ds: Seq<IODataWrapper>, ended: bool, p1: Pull, wx: WV, w1: WV)
    requires taken(p0, w0, ds, ended, p1, wx), same_input(wx, w1)
    ensures taken(p0, w0, ds, ended, p1, w1)
{
    if p0.byte() is Some {
        let (b0, c0) = p0.byte().unwrap(); let c1 = p1.byte().unwrap().1;
        let d = choose|d: Seq<u8>| #[trigger] gained(b0, w0, d, wx) && flat(ds) + c1.kept() == c0.kept() + d;
        assert(gained(b0, w0, d, w1));
    }
}
pub proof fn lemma_same_refl(p: Push) ensures p.same(p) { }
pub proof fn lemma_one(p: Push) ensures distinct(seq![p]) { }
#[verifier::spinoff_prover]
pub proof fn lemma_link_step(pull0: Pull, m: MotionNotifications, spy: Option<Sender<SpyMessage>>, push0: Push, w0: WV, rs: Seq<IODataWrapper>, pk: Pull, pushk: Push, wk: WV,
    res: MotionWorkerResult, data: IODataWrapper, wr: WV, p1: Pull, pushs: Seq<Push>, w1: WV)
    requires
        link_inv(pull0, m, spy, push0, w0, rs, pk, pushk, wk),
        worker_ok(pk, m, seq![pushk], spy, wk, res, data, wr, p1, pushs, w1), !(data is Skipped),
    ensures
        pushs.len() == 1, pushs[0].same(push0), res.read, w1.steps < 0x4000_0000_0000_0000,
        data is IOData ==> link_inv(pull0, m, spy, push0, w0, rs.push(data), p1, pushs[0], w1),
        link_mid(pull0, m, spy, push0, w0, rs.push(data), p1, pushs[0], w1),
        res.finished <==> (data is Finished || gave_up(pushk, pushk.hist(wk), data, pushs[0].hist(w1))),
{
    let wx = choose|wx: WV| #[trigger] after_read(wx, wr) && read_step(pk, wk, data, p1, wx);
    lemma_taken_step(pull0, w0, rs, pk, wk, data, p1, wx, w1);
    lemma_in_frame_step(pull0, w0, pk, wk, data, p1, wx, wr, w1);
    let p = seq![pushk];
    assert(p[0] == pushk);
    assert(delivered(p[0], p[0].hist(wr), data, pushs[0], pushs[0].hist(w1)));
    lemma_hist_same_log(pushk, wk, wr);
    let rs1 = rs.push(data);
    assert(rs1.drop_last() =~= rs);
    assert(datas(rs1) =~= if data is Finished { rs } else { rs1 });
    if data is IOData && !pushk.is_none() {
        let a = pushs[0].hist(w1).last();
        assert(pushs[0].hist(w1) == pushk.hist(wk).push(a));
        lemma_wrote_step(push0, push0.hist(w0), rs, pushk.hist(wk), data, a);
    }
    assert forall|k: int| #[trigger] w1.hist(Key::Spy(k)) == spy_run(w0.hist(Key::Spy(k)), spy, k, push0, rs1) by {
        assert(wr.hist(Key::Spy(k)) == wk.hist(Key::Spy(k)));
        let h = wr.hist(Key::Spy(k));
        assert(spy_copies(h, p, data, 1) == spy_copy(spy_copies(h, p, data, 0), p[0], data));
        assert(spy_copies(h, p, data, 0) == h);
    }
    assert forall|k: int| #[trigger] w1.hist(Key::Mon(k)) == notes(w0.hist(Key::Mon(k)), m, k, rs1.len()) by {
        assert(wr.hist(Key::Mon(k)) == wk.hist(Key::Mon(k)));
    }
    assert forall|k: Key| !(k is Mon) && !(k is Spy) && push0.key() != Some(k) implies #[trigger] w1.hist(k) == w0.hist(k) by {
        assert(wr.hist(k) == wk.hist(k));
    }
    assert(res.finished <==> (data is Finished || forall|i: int| 0 <= i < p.len() ==> gave_up(p[i], (#[trigger] p[i]).hist(wr), data, pushs[i].hist(w1))));
    if gave_up(pushk, pushk.hist(wk), data, pushs[0].hist(w1)) {
        assert forall|i: int| 0 <= i < p.len() implies gave_up(p[i], (#[trigger] p[i]).hist(wr), data, pushs[i].hist(w1)) by { }
    }
    if res.finished && !(data is Finished) { assert(gave_up(p[0], p[0].hist(wr), data, pushs[0].hist(w1))); }
}
pub proof fn lemma_in_frame_read(p0: Pull, w0: WV, p: Pull, wk: WV, p1: Pull, w1: WV)
    requires in_frame(p0, w0, wk), own_in(p) == own_in(p0), only_read(p, wk, p1, w1)
    ensures in_frame(p0, w0, w1)
{
    assert forall|k: Key| !(k is Ctl) && own_in(p0) != Some(k) implies #[trigger] w1.recvd(k) == w0.recvd(k) by { assert(wk.recvd(k) == w0.recvd(k)); }
    assert forall|k: Key| !(k is Ctl) && own_in(p0) != Some(k) implies (#[trigger] w1.ended.contains(k)) == w0.ended.contains(k) by { assert(wk.ended.contains(k) == w0.ended.contains(k)); }
}
pub proof fn lemma_hist_same_log(p: Push, w0: WV, w1: WV)
    requires w1.log == w0.log
    ensures p.hist(w1) == p.hist(w0)
{ reveal(Push::hist); reveal(Push::key); }
#[verifier::spinoff_prover]
pub proof fn lemma_link_err(pull0: Pull, m: MotionNotifications, spy: Option<Sender<SpyMessage>>, push0: Push, w0: WV, rs: Seq<IODataWrapper>, pk: Pull, pushk: Push, wk: WV,
    e: MotionError, p1: Pull, pushs: Seq<Push>, w1: WV)
    requires
        link_inv(pull0, m, spy, push0, w0, rs, pk, pushk, wk),
        (e is ReadIOError && pushs == seq![pushk] && only_read(pk, wk, p1, w1) && pk.jn() == Some(e->ReadIOError_0))
            || exists|data: IODataWrapper, wr: WV, n: int| #[trigger] at(data, wr, n) && worker_err(pk, seq![pushk], wk, e, data, wr, n, p1, pushs, w1),
    ensures
        exists|rs1: Seq<IODataWrapper>, data: IODataWrapper, h: Seq<Att>, pull1: Pull, push1: Push| #[trigger] life_err(rs1, data, h, pull1, push1)
            && link_err(pull0, push0, w0, e, rs1, data, h, pull1, push1, w1),
{
    if e is ReadIOError {
        lemma_hist_same_log(pushk, wk, w1);
        lemma_in_frame_read(pull0, w0, pk, wk, p1, w1);
        assert(life_err(rs, IODataWrapper::Finished, pushk.hist(wk), p1, pushk));
        assert forall|k: Key| !(k is Mon) && !(k is Spy) && push0.key() != Some(k) implies #[trigger] w1.hist(k) == w0.hist(k) by { assert(wk.hist(k) == w0.hist(k)); assert(w1.hist(k) == wk.hist(k)); }
        assert(link_err(pull0, push0, w0, e, rs, IODataWrapper::Finished, pushk.hist(wk), p1, pushk, w1));
    } else {
        let (data, wr, n) = choose|data: IODataWrapper, wr: WV, n: int| #[trigger] at(data, wr, n) && worker_err(pk, seq![pushk], wk, e, data, wr, n, p1, pushs, w1);
        let wx = choose|wx: WV| #[trigger] after_read(wx, wr) && read_step(pk, wk, data, p1, wx);
        lemma_taken_step(pull0, w0, rs, pk, wk, data, p1, wx, w1);
        lemma_in_frame_step(pull0, w0, pk, wk, data, p1, wx, wr, w1);
        lemma_hist_same_log(pushk, wk, wr);
        let p = seq![pushk];
        assert(p[0] == pushk);
        let h0 = pushk.hist(wk);
        assert forall|k: Key| !(k is Mon) && !(k is Spy) && push0.key() != Some(k) implies #[trigger] w1.hist(k) == w0.hist(k) by { assert(wk.hist(k) == w0.hist(k)); assert(wr.hist(k) == wk.hist(k)); }
        match e {
            MotionError::OutputClosed(_, _, _, _) => {
                assert(life_err(rs, data, h0, p1, pushs[0]));
                assert(link_err(pull0, push0, w0, e, rs, data, h0, p1, pushs[0], w1));
            },
            MotionError::WriteIOError(_, _, _, _) => {
                assert(life_err(rs, data, h0, p1, pushs[0]));
                assert(link_err(pull0, push0, w0, e, rs, data, h0, p1, pushs[0], w1));
            },
            MotionError::MonitorReadError(_, _, _) => {
                assert(p[0].hist(w1) == p[0].hist(wr));
                assert(life_err(rs, data, h0, p1, pushk));
                assert(link_err(pull0, push0, w0, e, rs, data, h0, p1, pushk, w1));
            },
            _ => {
                assert(n == 1);
                assert(delivered(p[0], p[0].hist(wr), data, pushs[0], pushs[0].hist(w1)));
                if data is IOData && !pushk.is_none() {
                    let a = pushs[0].hist(w1).last();
                    assert(pushs[0].hist(w1) == h0.push(a));
                    lemma_wrote_step(push0, push0.hist(w0), rs, h0, data, a);
                    assert(life_err(rs.push(data), data, h0.push(a), p1, pushs[0]));
                    assert(link_err(pull0, push0, w0, e, rs.push(data), data, h0.push(a), p1, pushs[0], w1));
                } else {
                    assert(life_err(rs, data, h0, p1, pushs[0]));
                    assert(link_err(pull0, push0, w0, e, rs, data, h0, p1, pushs[0], w1));
                }
            },
        }
    }
}
/// the state of a link whose input has not ended
pub open spec fn link_inv(pull0: Pull, m: MotionNotifications, spy: Option<Sender<SpyMessage>>, push0: Push, w0: WV, rs: Seq<IODataWrapper>, pull: Pull, push: Push, w: WV) -> bool {
    all_data(rs) && link_mid(pull0, m, spy, push0, w0, rs, pull, push, w)
}
pub open spec fn link_mid(pull0: Pull, m: MotionNotifications, spy: Option<Sender<SpyMessage>>, push0: Push, w0: WV, rs: Seq<IODataWrapper>, pull: Pull, push: Push, w: WV) -> bool {
    &&& push.same(push0)
    &&& taken(pull0, w0, datas(rs), rs.len() > 0 && rs.last() is Finished, pull, w)
    &&& wrote(push0, push0.hist(w0), datas(rs), push.hist(w))
    &&& forall|k: int| #[trigger] w.hist(Key::Mon(k)) == notes(w0.hist(Key::Mon(k)), m, k, rs.len())
    &&& forall|k: int| #[trigger] w.hist(Key::Spy(k)) == spy_run(w0.hist(Key::Spy(k)), spy, k, push0, rs)
    &&& rest(push0, w0, w) && in_frame(pull0, w0, w) && own_in(pull) == own_in(pull0) && w.closed == w0.closed && w.flushed == w0.flushed
    &&& rs.len() <= w.steps
}

//@item src/motion.rs :: fn motion [eff]
pub async fn motion(mut pull: Pull, mut monitor: MotionNotifications, mut spy: Option<Sender<SpyMessage>>, push: Push) -> /*@ (r: @*/ MotionResult<usize> /*@ )
    requires pull.wf(), monitor.rd() is Some || monitor.wr() is Some ==> pull.jn() is Some,
    ensures match r {
        Ok(n) => exists|rs: Seq<IODataWrapper>, pull1: Pull, push1: Push| #[trigger] life(rs, pull1, push1) && link_ok(pull, monitor, spy, push, old(w).v(), n as int, rs, pull1, push1, final(w).v()),
        Err(e) => exists|rs: Seq<IODataWrapper>, data: IODataWrapper, h: Seq<Att>, pull1: Pull, push1: Push| #[trigger] life_err(rs, data, h, pull1, push1)
            && link_err(pull, push, old(w).v(), e, rs, data, h, pull1, push1, final(w).v()) && mon_part(monitor, old(w).v(), final(w).v()),
    }, @*/ {
    let mut read_count = 0;
    /*@ let ghost pull0 = pull; let ghost push0 = push; let ghost w0 = w.v(); let ghost m0 = monitor; let ghost spy0 = spy; let ghost mut rs: Seq<IODataWrapper> = Seq::empty(); @*/
    let mut pushs = vec![push];
    /*@ proof { lemma_taken_none(pull0, w0); lemma_wrote_none(push0, push0.hist(w0)); } @*/

    loop
        /*@ invariant
            monitor == m0, spy == spy0, pull.wf(), pull.jn() == pull0.jn(), read_count == rs.len(),
            m0.rd() is Some || m0.wr() is Some ==> pull0.jn() is Some,
            pushs@.len() == 1, link_inv(pull0, m0, spy0, push0, w0, rs, pull, pushs@[0], w.v()), @*/
    {

        /*@ assert(pushs@ =~= seq![pushs@[0]]); let ghost pk = pull; let ghost wk = w.v(); let ghost pushk = pushs@[0]; let ghost hk = pushk.hist(wk); @*/
        let motion_one_result = /*! { let res0 = !*/ motion_worker(&mut pull, &mut monitor, &mut pushs, &mut spy, false).await /*! ; !*/ /*@ proof {
            lemma_one(pushk);
            if res0 is Ok {
                let res = res0->Ok_0;
                let (data, wr) = choose|data: IODataWrapper, wr: WV| #[trigger] at(data, wr, 0) && worker_ok(pk, m0, seq![pushk], spy0, wk, res, data, wr, pull, pushs@, w.v()) && (data is Skipped ==> false);
                lemma_link_step(pull0, m0, spy0, push0, w0, rs, pk, pushk, wk, res, data, wr, pull, pushs@, w.v());
                rs = rs.push(data);
            } else {
                lemma_link_err(pull0, m0, spy0, push0, w0, rs, pk, pushk, wk, res0->Err_0, pull, pushs@, w.v());
                lemma_mon_part(m0, w0, rs.len(), wk, w.v());
            }
        } @*/ /*! res0 !*/ ? /*! } !*/;
        if motion_one_result.read {
            read_count += 1;
        }

        if motion_one_result.finished {
            /*@ let ghost wx = w.v(); let ghost push1 = pushs@[0]; let ghost hx = push1.hist(wx); let ghost last = rs.last();
                proof { assert(life(rs, pull, push1)); assert(life_err(datas(rs), last, hx, pull, push1)); lemma_same_refl(push1); } @*/
            for mut push in /*@ it: @*/ pushs
                /*@ invariant
                    it.seq() == pushs@,
                    it.index() == 0 ==> w.v() == wx,
                    it.index() == 1 ==> closing(push1, wx, w.v()), @*/
            {
                /*! let res3 = !*/ motion_close(&mut push).await /*! ; !*/ /*@ proof {
                    if res3 is Err { lemma_mon_part(m0, w0, rs.len(), wx, w.v()); assert(link_err(pull0, push0, w0, res3->Err_0, datas(rs), last, hx, pull, push1, w.v())); }
                } @*/ /*! res3 !*/ ?;
            }
            /*@ let ghost wc = w.v(); proof { assert(push_done(push0, w0, wc)); } @*/
            monitor.read.map(|m| m.close());
            monitor.written.map(|m| m.close());
            /*@ proof { lemma_hist_same_log(push1, wx, w.v());
                assert forall|k: Key| #[trigger] w.v().hist(k) == wx.hist(k) by { }
                let w1 = w.v(); let ds = datas(rs);
                lemma_taken_frame(pull0, w0, ds, rs.last() is Finished, pull, wx, w1);
                assert(wrote(push0, push0.hist(w0), ds, push1.hist(w1)));
                assert(rs.last() is Finished || (push0.key() is Some && push0.policy() == Breakable::Finish && push1.hist(w1).last() == msg_att(rs.last(), Res::Closed)));
                assert(rest(push0, w0, w1));
                assert(push_done(push0, w0, wc) && w1.closed == mon_closed(m0, wc.closed) && w1.flushed == wc.flushed && wc.log == w1.log);
                assert forall|k: Key| !(k is Ctl) && own_in(pull0) != Some(k) implies #[trigger] w1.recvd(k) == w0.recvd(k) by { assert(wx.recvd(k) == w0.recvd(k)); }
                assert(in_frame(pull0, w0, w1));
                assert(link_ok(pull0, m0, spy0, push0, w0, read_count as int, rs, pull, push1, w.v())); } @*/
            return MotionResult::Ok(read_count);
        }
    }

}
//@end
}
}
