// ---------------------------------------------------------------------------------------------
// Trusted contracts of the world outside the functions under proof.  Everything in this file that
// is `external_body`, `uninterp` or `assume_specification` is assumed, never proved.
// ---------------------------------------------------------------------------------------------
macro_rules! panic { ($($t:tt)*) => { crate::world::vpanic() } }
macro_rules! println { ($($t:tt)*) => { crate::world::vprintln() } }
macro_rules! print { ($($t:tt)*) => { crate::world::vprintln() } }
macro_rules! eprintln { ($($t:tt)*) => { crate::world::veprintln() } }
macro_rules! assert_rt { ($e:expr) => { crate::world::vassert($e) }; ($e:expr, $($t:tt)*) => { crate::world::vassert($e) } }
pub mod world {
use vstd::prelude::*;
use crate::motion::{IOData, MonitorMessage, SpyMessage};
use crate::buffer_msgs::BufferSizeMessage;
verus!{

/// Names of the endpoints of the outside world.  Channels of different message types never alias.
pub enum Key { Data(int), Mon(int), Spy(int), Size(int), Ctl(int), Sink(int), Source(int), Program(int) }

/// The messages that travel over channels and sinks.
pub ghost enum Payload {
    Data(Seq<u8>),
    Mon(MonitorMessage),
    Spy(SpyMessage),
    Size(usize),
    Unit,
    Cmd(CmdV),
}

/// where the bytes of an endpoint come from or go to
pub ghost enum Place { Stdin, Stdout, Stderr, Read(Seq<char>), Create(Seq<char>), ChildIn(int), ChildOut(int), ChildErr(int) }
/// what a program is started with
pub ghost enum Stream { Inherit, Piped, Null }
pub ghost struct CmdV { pub prog: OsV, pub dir: Option<PathV>, pub env: Map<OsV, OsV>, pub args: Seq<OsV>, pub sin: Stream, pub sout: Stream, pub serr: Stream }
pub ghost struct OsV { pub id: int }
pub ghost struct PathV { pub id: int }
pub uninterp spec fn place(id: int) -> Place;
pub trait PathLike: Sized { spec fn path(self) -> Seq<char>; }
impl PathLike for String { open spec fn path(self) -> Seq<char> { self@ } }
impl PathLike for &String { open spec fn path(self) -> Seq<char> { self@ } }
impl PathLike for &str { open spec fn path(self) -> Seq<char> { self@ } }
pub enum Res { Accepted, Closed, Failed }

/// One attempt to hand a message to an endpoint, and what the endpoint answered.
pub ghost struct Att { pub p: Payload, pub r: Res }

/// History of the outside world as seen by one task.
pub ghost struct WV {
    pub log: Map<Key, Seq<Att>>,       // attempts to send / write, per endpoint
    pub got: Map<Key, Seq<Payload>>,   // messages received, per endpoint
    pub bytes: Map<Key, Seq<u8>>,      // bytes read, per byte source
    pub ended: Set<Key>,               // sources that have reported their end
    pub closed: Set<Key>,              // channels this task has closed
    pub flushed: Map<Key, nat>,        // number of attempts covered by the last successful flush
    pub idle: Map<Key, nat>,           // number of times a channel was found empty
    pub waits: Seq<nat>,               // sleeps (milliseconds)
    pub chans: Set<Key>,               // channels created so far
    pub steps: nat,
}

impl WV {
    pub open spec fn hist(self, k: Key) -> Seq<Att> { if self.log.contains_key(k) { self.log[k] } else { Seq::empty() } }
    pub open spec fn recvd(self, k: Key) -> Seq<Payload> { if self.got.contains_key(k) { self.got[k] } else { Seq::empty() } }
    pub open spec fn read(self, k: Key) -> Seq<u8> { if self.bytes.contains_key(k) { self.bytes[k] } else { Seq::empty() } }
    pub open spec fn idles(self, k: Key) -> nat { if self.idle.contains_key(k) { self.idle[k] } else { 0 } }
    /// nothing was ever sent or received there
    pub open spec fn fresh(self, k: Key) -> bool { self.hist(k).len() == 0 && self.recvd(k).len() == 0 && !self.ended.contains(k) && !self.closed.contains(k) }
    pub open spec fn empty(self, k: Key) -> WV { WV { idle: self.idle.insert(k, self.idles(k) + 1), ..self } }
    pub open spec fn new_chan(self, k: Key) -> WV { WV { chans: self.chans.insert(k), ..self } }
    pub open spec fn spawn(self, id: int, c: CmdV) -> WV { self.att(Key::Program(id), Att { p: Payload::Cmd(c), r: Res::Accepted }) }
    pub open spec fn wait(self, ms: nat) -> WV { WV { waits: self.waits.push(ms), ..self } }
    pub open spec fn att(self, k: Key, a: Att) -> WV { WV { log: self.log.insert(k, self.hist(k).push(a)), ..self } }
    pub open spec fn recv(self, k: Key, p: Payload) -> WV { WV { got: self.got.insert(k, self.recvd(k).push(p)), ..self } }
    pub open spec fn end(self, k: Key) -> WV { WV { ended: self.ended.insert(k), ..self } }
    pub open spec fn close(self, k: Key) -> WV { WV { closed: self.closed.insert(k), ..self } }
    pub open spec fn flush(self, k: Key) -> WV { WV { flushed: self.flushed.insert(k, self.hist(k).len()), ..self } }
    pub open spec fn consume(self, k: Key, b: Seq<u8>) -> WV { WV { bytes: self.bytes.insert(k, self.read(k) + b), ..self } }
}

#[verifier::external_body]
pub tracked struct World { x: int }
impl World { pub uninterp spec fn v(&self) -> WV; }

/// ASSUMED: a task handles fewer than 2^62 messages in its life (so counters do not wrap).
pub axiom fn tick(tracked w: &mut World)
    ensures final(w).v() == (WV { steps: old(w).v().steps + 1, ..old(w).v() }), final(w).v().steps < 0x4000_0000_0000_0000;

/// the messages that were offered
pub open spec fn offered(h: Seq<Att>) -> Seq<Payload> { h.map_values(|a: Att| a.p) }
/// what was received are the first messages that were offered, all of which were accepted; who has seen the end has received all
pub open spec fn fifo(h: Seq<Att>, got: Seq<Payload>, ended: bool) -> bool {
    &&& got.is_prefix_of(offered(h)) && (ended ==> got == offered(h))
    &&& forall|i: int| 0 <= i < got.len() ==> (#[trigger] h[i]).r is Accepted
}
/// ASSUMED (a channel with one sender and one receiver is first in, first out, loses nothing, and refuses for good once it has refused;
/// nobody but the sender closes it while its receiver still reads): applied only to channels both ends of which are used by the
/// functions between whose histories it is applied.
pub axiom fn axiom_fifo(tracked w: &World, k: Key)
    requires w.v().chans.contains(k)
    ensures fifo(w.v().hist(k), w.v().recvd(k), w.v().ended.contains(k));
/// whether a channel is empty / closed, as the one who asks sees it
pub uninterp spec fn quiet(k: Key, w: WV) -> bool;
pub uninterp spec fn shut(k: Key, w: WV) -> bool;
/// ASSUMED: two channels found empty and, before anyone else could run, closed yield nothing more.
pub axiom fn axiom_over(tracked w: &mut World, a: Key, b: Key)
    requires quiet(a, old(w).v()), shut(a, old(w).v()), quiet(b, old(w).v()), shut(b, old(w).v())
    ensures final(w).v() == old(w).v().end(a).end(b);

pub trait Msg: Sized {
    spec fn pay(self) -> Payload;
    spec fn chan(id: int) -> Key;
}
impl Msg for IOData { open spec fn pay(self) -> Payload { Payload::Data(self.0@) } open spec fn chan(id: int) -> Key { Key::Data(id) } }
impl Msg for MonitorMessage { open spec fn pay(self) -> Payload { Payload::Mon(self) } open spec fn chan(id: int) -> Key { Key::Mon(id) } }
impl Msg for SpyMessage { open spec fn pay(self) -> Payload { Payload::Spy(self) } open spec fn chan(id: int) -> Key { Key::Spy(id) } }
impl Msg for BufferSizeMessage { open spec fn pay(self) -> Payload { Payload::Size(self.0) } open spec fn chan(id: int) -> Key { Key::Size(id) } }
impl Msg for () { open spec fn pay(self) -> Payload { Payload::Unit } open spec fn chan(id: int) -> Key { Key::Ctl(id) } }

#[verifier::external_body]
pub fn vpanic() -> ! requires false { loop {} }
#[verifier::external_body]
pub fn vprintln() requires false {}
#[verifier::external_body]
pub fn veprintln() {}
#[verifier::external_body]
pub fn vassert(b: bool) requires b {}

#[verifier::external_type_specification] #[verifier::external_body] pub struct ExIoError(std::io::Error);
#[verifier::external_type_specification] pub struct ExIoErrorKind(std::io::ErrorKind);
pub uninterp spec fn io_kind(e: std::io::Error) -> std::io::ErrorKind;
pub assume_specification[ std::io::Error::kind ](e: &std::io::Error) -> (r: std::io::ErrorKind) ensures r == io_kind(*e);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExInstant(std::time::Instant);
pub assume_specification[ std::time::Instant::now ]() -> std::time::Instant;
/// ASSUMED: `==` between a byte slice and a byte vector compares the bytes.
pub axiom fn axiom_slice_vec_eq()
    ensures <[u8] as vstd::std_specs::cmp::PartialEqSpec<Vec<u8>>>::obeys_eq_spec(),
        forall|a: &[u8], b: Vec<u8>| #[trigger] <[u8] as vstd::std_specs::cmp::PartialEqSpec<Vec<u8>>>::eq_spec(a, &b) == (a@ == b@);
/// ASSUMED: `to_vec` clones each element.
pub assume_specification<T: Clone>[ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> vstd::pervasive::cloned(#[trigger] s@[i], r@[i]);
pub assume_specification[ std::string::String::as_bytes ](s: &String) -> (r: &[u8]) ensures r@ == vstd::utf8::encode_utf8(s@);
pub uninterp spec fn millis(d: std::time::Duration) -> nat;
pub assume_specification[ std::time::Duration::from_millis ](n: u64) -> (r: std::time::Duration) ensures millis(r) == n;
/// ASSUMED: `contains` on a slice uses `==`.
pub assume_specification<T: PartialEq>[ <[T]>::contains ](s: &[T], x: &T) -> (r: bool)
    ensures <T as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec() ==> r == exists|i: int| 0 <= i < s@.len() && <T as vstd::std_specs::cmp::PartialEqSpec>::eq_spec(x, &#[trigger] s@[i]);
/// ASSUMED: `sort_by` rearranges, orders by the comparison, and keeps elements that compare equal in order.
pub assume_specification<T, F: FnMut(&T, &T) -> std::cmp::Ordering>[ <[T]>::sort_by::<F> ](s: &mut [T], f: F)
    ensures sorted_by(old(s)@, final(s)@, |a: T, b: T, o: std::cmp::Ordering| f.ensures((&a, &b), o));
/// r is v rearranged by p
pub open spec fn rearranged<T>(v: Seq<T>, r: Seq<T>, p: Seq<int>) -> bool {
    &&& r.len() == v.len() && p.len() == v.len()
    &&& forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < v.len() && r[i] == v[p[i]]
    &&& forall|i: int, j: int| 0 <= i < j < p.len() ==> p[i] != p[j]
    &&& forall|j: int| 0 <= j < v.len() ==> #[trigger] p.contains(j)
}
pub open spec fn sorted_by<T>(v: Seq<T>, r: Seq<T>, f: spec_fn(T, T, std::cmp::Ordering) -> bool) -> bool {
    exists|p: Seq<int>| #[trigger] rearranged(v, r, p)
        && (forall|i: int, j: int| 0 <= i < j < r.len() ==> cmp_ok(f, #[trigger] r[i], #[trigger] r[j], p[i] > p[j]))
}
pub open spec fn cmp_ok<T>(f: spec_fn(T, T, std::cmp::Ordering) -> bool, a: T, b: T, strict: bool) -> bool {
    exists|o: std::cmp::Ordering| #[trigger] f(a, b, o) && (if strict { o == std::cmp::Ordering::Less } else { o != std::cmp::Ordering::Greater })
}
pub assume_specification<T, E, F>[ std::result::Result::<T, E>::or ](a: std::result::Result<T, E>, b: std::result::Result<T, F>) -> (r: std::result::Result<T, F>)
    ensures match a { Ok(x) => r == Ok::<T, F>(x), Err(_) => r == b };
pub assume_specification<T: Default>[ std::mem::take::<T> ](x: &mut T) -> (r: T) ensures r == *old(x), T::default.ensures((), *final(x));
}
}

pub mod async_std {
pub mod channel {
use vstd::prelude::*;
use crate::world::*;
verus!{
pub struct SendError<T>(pub T);
pub struct RecvError;
pub enum TryRecvError { Empty, Closed }

#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct Sender<T> { t: std::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct Receiver<T> { t: std::marker::PhantomData<T> }

impl<T> Sender<T> { pub uninterp spec fn id(&self) -> int; pub uninterp spec fn cap(&self) -> Option<usize>; }
impl<T> Receiver<T> { pub uninterp spec fn id(&self) -> int; pub uninterp spec fn cap(&self) -> Option<usize>; }

/// a new channel; a capacity of zero panics
#[verifier::external_body]
pub fn bounded<T: Msg>(n: usize, Tracked(w): Tracked<&mut World>) -> (r: (Sender<T>, Receiver<T>))
    requires n > 0
    ensures r.0.id() == r.1.id(), !old(w).v().chans.contains(r.0.key()), final(w).v() == old(w).v().new_chan(r.0.key()), r.0.cap() == Some(n), r.1.cap() == r.0.cap(), old(w).v().fresh(r.0.key())
{ unimplemented!() }
#[verifier::external_body]
pub fn unbounded<T: Msg>(Tracked(w): Tracked<&mut World>) -> (r: (Sender<T>, Receiver<T>))
    ensures r.0.id() == r.1.id(), !old(w).v().chans.contains(r.0.key()), final(w).v() == old(w).v().new_chan(r.0.key()), r.0.cap() is None, r.1.cap() == r.0.cap(), old(w).v().fresh(r.0.key())
{ unimplemented!() }
/// a clone is another handle of the same channel
impl<T> Clone for Sender<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }

impl<T: Msg> Sender<T> {
    pub open spec fn key(&self) -> Key { T::chan(self.id()) }
    #[verifier::external_body]
    pub async fn send(&self, m: T, Tracked(w): Tracked<&mut World>) -> (r: Result<(), SendError<T>>)
        ensures match r {
            Ok(_) => final(w).v() == old(w).v().att(self.key(), Att { p: m.pay(), r: Res::Accepted }),
            Err(e) => e.0 == m && final(w).v() == old(w).v().att(self.key(), Att { p: m.pay(), r: Res::Closed }),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn close(&self, Tracked(w): Tracked<&mut World>) -> (r: bool)
        ensures final(w).v() == old(w).v().close(self.key())
    { unimplemented!() }
}
impl<T: Msg> Receiver<T> {
    pub open spec fn key(&self) -> Key { T::chan(self.id()) }
    #[verifier::external_body]
    pub fn is_empty(&self, Tracked(w): Tracked<&mut World>) -> (r: bool)
        ensures final(w).v() == old(w).v(), r == quiet(self.key(), old(w).v())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_closed(&self, Tracked(w): Tracked<&mut World>) -> (r: bool)
        ensures final(w).v() == old(w).v(), r == shut(self.key(), old(w).v())
    { unimplemented!() }
    #[verifier::external_body]
    pub async fn recv(&self, Tracked(w): Tracked<&mut World>) -> (r: Result<T, RecvError>)
        ensures match r {
            Ok(m) => final(w).v() == old(w).v().recv(self.key(), m.pay()),
            Err(_) => final(w).v() == old(w).v().end(self.key()),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn try_recv(&self, Tracked(w): Tracked<&mut World>) -> (r: Result<T, TryRecvError>)
        ensures match r {
            Ok(m) => final(w).v() == old(w).v().recv(self.key(), m.pay()),
            Err(TryRecvError::Closed) => final(w).v() == old(w).v().end(self.key()),
            Err(TryRecvError::Empty) => final(w).v() == old(w).v().empty(self.key()),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn close(&self, Tracked(w): Tracked<&mut World>) -> (r: bool)
        ensures final(w).v() == old(w).v().close(self.key())
    { unimplemented!() }
}
}
}
pub mod io {
use vstd::prelude::*;
use crate::world::*;
verus!{
/// Any asynchronous byte source or sink (child pipes, stdin, stdout, stderr, files, `dyn AsyncRead`).
#[verifier::external_body]
pub struct ByteIo { }
impl ByteIo {
    pub uninterp spec fn id(&self) -> int;
    pub open spec fn source(&self) -> Key { Key::Source(self.id()) }
    pub open spec fn sink(&self) -> Key { Key::Sink(self.id()) }
    #[verifier::external_body]
    pub async fn read<const N: usize>(&mut self, buf: &mut [u8; N], Tracked(w): Tracked<&mut World>) -> (r: Result<usize, std::io::Error>)
        ensures
            final(self).id() == old(self).id(),
            match r {
                Ok(n) => n <= N
                    && (n > 0 ==> final(w).v() == old(w).v().consume(final(self).source(), final(buf)@.take(n as int)))
                    && (n == 0 ==> final(w).v() == old(w).v().end(final(self).source())),
                Err(_) => final(w).v() == old(w).v(),
            }
    { unimplemented!() }
    #[verifier::external_body]
    pub async fn write_all(&mut self, data: &Vec<u8>, Tracked(w): Tracked<&mut World>) -> (r: Result<(), std::io::Error>)
        ensures
            final(self).id() == old(self).id(),
            write_all_post(old(w).v(), final(w).v(), final(self).sink(), data@, r),
    { unimplemented!() }
    #[verifier::external_body]
    pub async fn flush(&mut self, Tracked(w): Tracked<&mut World>) -> (r: Result<(), std::io::Error>)
        ensures
            final(self).id() == old(self).id(),
            flush_post(old(w).v(), final(w).v(), final(self).sink(), r),
    { unimplemented!() }
}
pub open spec fn write_all_post(w0: WV, w1: WV, k: Key, data: Seq<u8>, r: Result<(), std::io::Error>) -> bool {
    match r {
        Ok(_) => w1 == w0.att(k, Att { p: Payload::Data(data), r: Res::Accepted }),
        Err(e) => w1 == w0.att(k, Att { p: Payload::Data(data),
            r: if io_kind(e) == std::io::ErrorKind::BrokenPipe { Res::Closed } else { Res::Failed } }),
    }
}
pub open spec fn flush_post(w0: WV, w1: WV, k: Key, r: Result<(), std::io::Error>) -> bool {
    match r {
        Ok(_) => w1 == w0.flush(k),
        Err(_) => w1 == w0,
    }
}
#[verifier::external_body]
pub fn stdin() -> (r: ByteIo) ensures place(r.id()) == Place::Stdin { unimplemented!() }
#[verifier::external_body]
pub fn stdout() -> (r: ByteIo) ensures place(r.id()) == Place::Stdout { unimplemented!() }
#[verifier::external_body]
pub fn stderr() -> (r: ByteIo) ensures place(r.id()) == Place::Stderr { unimplemented!() }
impl ByteIo {
    /// a file opened for reading at its beginning
    #[verifier::external_body]
    pub async fn open<P: PathLike>(p: P) -> (r: Result<ByteIo, std::io::Error>) ensures r is Ok ==> place(r->Ok_0.id()) == Place::Read(p.path()) { unimplemented!() }
    /// a file created, or truncated, for writing
    #[verifier::external_body]
    pub async fn create<P: PathLike>(p: P) -> (r: Result<ByteIo, std::io::Error>) ensures r is Ok ==> place(r->Ok_0.id()) == Place::Create(p.path()) { unimplemented!() }
}
pub type Stdin = ByteIo;
pub type Stdout = ByteIo;
pub type Stderr = ByteIo;
pub struct BufWriter<T> { pub inner: T }
impl BufWriter<ByteIo> {
    pub open spec fn sink(&self) -> Key { self.inner.sink() }
    #[verifier::external_body]
    pub fn new(f: ByteIo) -> (r: Self) ensures r.inner == f { unimplemented!() }
    #[verifier::external_body]
    pub async fn write_all(&mut self, data: &Vec<u8>, Tracked(w): Tracked<&mut World>) -> (r: Result<(), std::io::Error>)
        ensures
            final(self).inner.id() == old(self).inner.id(),
            write_all_post(old(w).v(), final(w).v(), final(self).sink(), data@, r),
    { unimplemented!() }
    #[verifier::external_body]
    pub async fn flush(&mut self, Tracked(w): Tracked<&mut World>) -> (r: Result<(), std::io::Error>)
        ensures
            final(self).inner.id() == old(self).inner.id(),
            flush_post(old(w).v(), final(w).v(), final(self).sink(), r),
    { unimplemented!() }
}
}
}
pub mod fs {
pub type File = crate::async_std::io::ByteIo;
}
pub mod process {
use vstd::prelude::*;
use crate::world::*;
use crate::os::*;
verus!{
pub type ChildStdout = crate::async_std::io::ByteIo;
pub type ChildStderr = crate::async_std::io::ByteIo;
pub type ChildStdin = crate::async_std::io::ByteIo;
pub use crate::std_shim::process::Stdio;
#[verifier::external_body]
pub struct Command { }
impl Command {
    pub uninterp spec fn v(&self) -> CmdV;
    /// ASSUMED: a program gets no arguments, pipeawesome2's own directory, environment and streams unless told otherwise
    #[verifier::external_body]
    pub fn new<O: AsRef<OsStr>>(o: O) -> (r: Self)
        ensures r.v() == (CmdV { prog: o.aref().v(), dir: None, env: own_env(), args: Seq::empty(), sin: Stream::Inherit, sout: Stream::Inherit, serr: Stream::Inherit })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn current_dir<P: AsRef<Path>>(&mut self, p: P) ensures final(self).v() == (CmdV { dir: Some(p.aref().v()), ..old(self).v() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn envs<K: AsRef<OsStr>, V: AsRef<OsStr>, I: IntoIterator<Item = (K, V)>>(&mut self, i: I)
        ensures final(self).v() == (CmdV { env: merged(old(self).v().env, os_pairs(i.items())), ..old(self).v() })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn args<R: AsRef<OsStr>, I: IntoIterator<Item = R>>(&mut self, i: I)
        ensures final(self).v() == (CmdV { args: old(self).v().args + os_items(i.items()), ..old(self).v() })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn arg<R: AsRef<OsStr>>(&mut self, r: R)
        ensures final(self).v() == (CmdV { args: old(self).v().args.push(r.aref().v()), ..old(self).v() })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn env_clear(&mut self) ensures final(self).v() == (CmdV { env: Map::empty(), ..old(self).v() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn stdin(&mut self, s: Stdio) ensures final(self).v() == (CmdV { sin: s.stream(), ..old(self).v() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn stdout(&mut self, s: Stdio) ensures final(self).v() == (CmdV { sout: s.stream(), ..old(self).v() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn stderr(&mut self, s: Stdio) ensures final(self).v() == (CmdV { serr: s.stream(), ..old(self).v() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn spawn(&mut self, Tracked(w): Tracked<&mut World>) -> (r: Result<Child, std::io::Error>)
        ensures final(self).v() == old(self).v(), match r {
            Ok(c) => old(w).v().fresh(Key::Program(c.id())) && final(w).v() == old(w).v().spawn(c.id(), old(self).v()) && c.fresh() && c.piped(old(self).v()),
            Err(_) => final(w).v() == old(w).v(),
        }
    { unimplemented!() }
}
#[verifier::external_body]
pub struct ExitStatus { }
impl ExitStatus {
    /// None: ended by a signal
    pub uninterp spec fn exit(&self) -> Option<i32>;
    #[verifier::external_body]
    pub fn code(&self) -> (r: Option<i32>) ensures r == self.exit() { unimplemented!() }
}
#[verifier::external_body]
pub struct ChildId { }
impl ChildId { pub uninterp spec fn id(&self) -> int; }
/// how a program ends: its exit code, or None if a signal ended it
pub uninterp spec fn exit_of(id: int) -> Option<i32>;
pub struct Child { pub stdin: Option<ChildStdin>, pub stdout: Option<ChildStdout>, pub stderr: Option<ChildStderr>, pub it: ChildId }
impl Child {
    pub open spec fn id(&self) -> int { self.it.id() }
    pub open spec fn exit(&self) -> Option<i32> { exit_of(self.id()) }
    pub open spec fn fresh(&self) -> bool {
        &&& self.stdin is Some ==> place(self.stdin->Some_0.id()) == Place::ChildIn(self.id())
        &&& self.stdout is Some ==> place(self.stdout->Some_0.id()) == Place::ChildOut(self.id())
        &&& self.stderr is Some ==> place(self.stderr->Some_0.id()) == Place::ChildErr(self.id())
    }
    pub open spec fn piped(&self, c: CmdV) -> bool {
        (self.stdin is Some) == (c.sin is Piped) && (self.stdout is Some) == (c.sout is Piped) && (self.stderr is Some) == (c.serr is Piped)
    }
    /// waits until the program has ended
    #[verifier::external_body]
    pub async fn status(&mut self) -> (r: Result<ExitStatus, std::io::Error>)
        ensures final(self).it == old(self).it, final(self).stdout == old(self).stdout, final(self).stderr == old(self).stderr, r is Ok ==> r->Ok_0.exit() == old(self).exit()
    { unimplemented!() }
}
}
}
pub mod prelude {}
pub mod task {
use vstd::prelude::*;
use crate::world::*;
verus!{
#[verifier::external_body]
pub async fn sleep(d: std::time::Duration, Tracked(w): Tracked<&mut World>) -> (r: ())
    ensures final(w).v() == old(w).v().wait(millis(d))
{ unimplemented!() }
}
}
}
pub mod buffer_msgs {
use vstd::prelude::*;
verus!{
//@item src/buffer.rs :: struct BufferSizeMessage
pub struct BufferSizeMessage(pub usize);
//@end
}
}

/// Operating system strings, paths, and iterations over them, as the standard library has them; only what they denote is modelled.
pub mod os {
use vstd::prelude::*;
use crate::world::*;
verus!{
#[verifier::external_body] pub struct OsStr { }
#[verifier::external_body] pub struct Path { }
impl OsStr { pub uninterp spec fn v(&self) -> OsV;
    pub uninterp spec fn utf8(&self) -> Option<Seq<char>>;
    #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&str>) ensures (r is Some) == (self.utf8() is Some), r is Some ==> r->Some_0@ == self.utf8()->Some_0 { unimplemented!() } }
impl Path { pub uninterp spec fn v(&self) -> PathV; }
pub trait AsRef<T> { spec fn aref(&self) -> T; fn as_ref(&self) -> (r: &T) ensures *r == self.aref(); }
impl<T, X: AsRef<T>> AsRef<T> for &X { open spec fn aref(&self) -> T { (**self).aref() } fn as_ref(&self) -> (r: &T) { (**self).as_ref() } }
pub trait IntoIterator: Sized { type Item; spec fn items(&self) -> Seq<Self::Item>; fn into_iter(self) -> (r: Iter<Self::Item>) ensures r.seq() == self.items(); }
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct Iter<T> { t: std::marker::PhantomData<T> }
impl<T> Iter<T> { pub uninterp spec fn seq(&self) -> Seq<T>; }
impl<T> IntoIterator for Iter<T> { type Item = T; open spec fn items(&self) -> Seq<T> { self.seq() } fn into_iter(self) -> (r: Iter<T>) { self } }
pub open spec fn os_pairs<K: AsRef<OsStr>, V: AsRef<OsStr>>(s: Seq<(K, V)>) -> Seq<(OsV, OsV)> { s.map_values(|p: (K, V)| (p.0.aref().v(), p.1.aref().v())) }
pub open spec fn os_items<R: AsRef<OsStr>>(s: Seq<R>) -> Seq<OsV> { s.map_values(|p: R| p.aref().v()) }
/// a variable set later replaces one set earlier
pub open spec fn merged(m: Map<OsV, OsV>, s: Seq<(OsV, OsV)>) -> Map<OsV, OsV> decreases s.len() { if s.len() == 0 { m } else { merged(m, s.drop_last()).insert(s.last().0, s.last().1) } }
/// pipeawesome2's own environment and directory
pub uninterp spec fn own_env() -> Map<OsV, OsV>;
pub uninterp spec fn own_dir() -> Option<PathV>;
#[verifier::external_body] pub struct OsString { }
impl OsString { pub uninterp spec fn v(&self) -> OsStr; }
impl AsRef<OsStr> for OsString { open spec fn aref(&self) -> OsStr { self.v() } #[verifier::external_body] fn as_ref(&self) -> (r: &OsStr) { unimplemented!() } }
#[verifier::external_body] pub struct PathBuf { }
impl PathBuf { pub uninterp spec fn v(&self) -> Path; }
impl AsRef<Path> for PathBuf { open spec fn aref(&self) -> Path { self.v() } #[verifier::external_body] fn as_ref(&self) -> (r: &Path) { unimplemented!() } }
}
}
/// what launch.rs uses of `std`
pub mod std_shim {
pub use ::std::mem;
pub use ::std::time;
pub mod process {
use vstd::prelude::*;
use crate::world::*;
verus!{
#[verifier::external_body] pub struct Stdio { }
impl Stdio {
    pub uninterp spec fn stream(&self) -> Stream;
    #[verifier::external_body] pub fn piped() -> (r: Stdio) ensures r.stream() == Stream::Piped { unimplemented!() }
    #[verifier::external_body] pub fn null() -> (r: Stdio) ensures r.stream() == Stream::Null { unimplemented!() }
    #[verifier::external_body] pub fn inherit() -> (r: Stdio) ensures r.stream() == Stream::Inherit { unimplemented!() }
}
}
}
pub mod env {
use vstd::prelude::*;
use crate::world::*;
use crate::os::*;
verus!{
#[verifier::external_body]
pub fn current_dir() -> (r: Result<PathBuf, std::io::Error>)
    ensures match r { Ok(p) => own_dir() == Some(p.v().v()), Err(_) => own_dir() is None } { unimplemented!() }
#[verifier::external_body]
pub fn vars_os() -> (r: Iter<(OsString, OsString)>) ensures merged(own_env(), os_pairs(r.items())) == own_env() { unimplemented!() }
}
}
}
/// text made by format!
//@include fmt.rs
