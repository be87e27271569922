// Launches: a program, the three links around it, and its exit status.
pub mod launch {
use crate::async_std;
use crate::std_shim as std;
use vstd::prelude::*;
use crate::world::*;
use crate::os::*;
use crate::async_std::channel::{bounded, Sender, Receiver, SendError};
use crate::async_std::process as aip;
use crate::connectable::*;
use crate::motion::*;
use crate::pump::made_output;
use crate::fmt::*;
use ::std::time::Instant;
verus!{
//@item src/launch.rs :: struct Launch
/*! #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] #[verifier::reject_recursive_types(R)] !*/ pub struct Launch<E, P, O, A, K, V, R>
    where E: IntoIterator<Item = (K, V)>,
          P: AsRef<Path>,
          O: AsRef<OsStr>,
          A: IntoIterator<Item = R>,
          K: AsRef<OsStr>,
          V: AsRef<OsStr>,
          R: AsRef<OsStr>
{
    id: usize,
    command: O,
    path: Option<P>,
    env: Option<E>,
    args: Option<A>,
    stdout: Option<Push>,
    stderr: Option<Push>,
    exit_status: Option<(Journey, Sender<IOData>)>,
    stdin: Option<Pull>,
    launched: bool,
}
//@end
/// a launch: its settings and its connections
pub ghost struct LV { pub id: usize, pub prog: OsStr, pub dir: Option<PathV>, pub env: Option<Seq<(OsV, OsV)>>, pub args: Option<Seq<OsV>>,
    pub out: Option<Push>, pub err: Option<Push>, pub exit: Option<(Journey, Sender<IOData>)>, pub inp: Option<Pull>, pub launched: bool }
/// the program as configured: variables on top of pipeawesome2's own, the given directory or else its own, the given arguments
pub open spec fn env_of(v: LV) -> Map<OsV, OsV> { match v.env { Some(e) => merged(own_env(), e), None => own_env() } }
pub open spec fn args_of(v: LV) -> Seq<OsV> { match v.args { Some(a) => a, None => Seq::empty() } }
pub open spec fn dir_ok(v: LV, d: Option<PathV>) -> bool { match v.dir { Some(p) => d == Some(p), None => d is None || d == own_dir() } }
pub open spec fn stream_of(connected: bool) -> Stream { if connected { Stream::Piped } else { Stream::Null } }
pub open spec fn command_of(v: LV, c: CmdV) -> bool {
    &&& c.prog == v.prog.v() && dir_ok(v, c.dir) && c.env == env_of(v) && c.args == args_of(v)
    &&& c.sin == stream_of(v.inp is Some) && c.sout == stream_of(v.out is Some) && c.serr == stream_of(v.err is Some)
}
/// what one of the three links has done
pub open spec fn linked(pull: Pull, spy: Option<Sender<SpyMessage>>, push: Push, w0: WV, r: MotionResult<usize>, w1: WV) -> bool {
    match r {
        Ok(n) => exists|rs: Seq<IODataWrapper>, pull1: Pull, push1: Push| #[trigger] life(rs, pull1, push1) && link_ok(pull, no_notes(), spy, push, w0, n as int, rs, pull1, push1, w1),
        Err(e) => exists|rs: Seq<IODataWrapper>, data: IODataWrapper, h: Seq<Att>, pull1: Pull, push1: Push| #[trigger] life_err(rs, data, h, pull1, push1)
            && link_err(pull, push, w0, e, rs, data, h, pull1, push1, w1),
    }
}
/// the link to the program's standard input: what is connected to it, or nothing
pub open spec fn in_link(v: LV, c: int, pull: Pull, push: Push) -> bool {
    match v.inp {
        Some(p) => pull == p && push is CmdStdin && push->CmdStdin_0 == (Journey { src: match p.jn() { Some(j) => j.src, None => v.id }, src_port: None, dst: v.id, breakable: Breakable::Finish })
            && place(push->CmdStdin_1.id()) == Place::ChildIn(c),
        None => pull is None && push is None,
    }
}
pub open spec fn pull_journey_of(v: LV, p: Push) -> PullJourney { PullJourney { src: v.id, dst: match p.jn() { Some(j) => j.dst, None => v.id } } }
/// the links from its standard output and standard error
pub open spec fn out_link(v: LV, c: int, pull: Pull, push: Push) -> bool {
    match v.out {
        Some(p) => push == p && pull is CmdStdout && pull->CmdStdout_0 == pull_journey_of(v, p) && place(pull->CmdStdout_1.id()) == Place::ChildOut(c) && pull->CmdStdout_2.kept() == Seq::<u8>::empty() && pull.wf(),
        None => pull is None && push is None,
    }
}
pub open spec fn err_link(v: LV, c: int, pull: Pull, push: Push) -> bool {
    match v.err {
        Some(p) => push == p && pull is CmdStderr && pull->CmdStderr_0 == pull_journey_of(v, p) && place(pull->CmdStderr_1.id()) == Place::ChildErr(c) && pull->CmdStderr_2.kept() == Seq::<u8>::empty() && pull.wf(),
        None => pull is None && push is None,
    }
}
/// the status message of a program that has ended with `code`: its decimal exit code, or "_" if a signal ended it
pub open spec fn status_text(code: Option<i32>) -> Seq<char> { match code { Some(n) => decimal(n as int), None => "_"@ } }
pub open spec fn status_bytes(code: Option<i32>) -> Seq<u8> { vstd::utf8::encode_utf8(status_text(code)) }
pub open spec fn waited(w0: WV, w1: WV) -> bool { w1 == (WV { waits: w1.waits, ..w0 }) }
/// it is sent once, and the spy sees a copy; then the connection is closed
pub open spec fn status_sent(exit: Option<(Journey, Sender<IOData>)>, spy: Option<Sender<SpyMessage>>, code: Option<i32>, w0: WV, failure: Option<MotionError>, w1: WV) -> bool {
    match exit {
        None => failure is None && w1 == w0,
        Some((j, tx)) => {
            let k = tx.key();
            exists|wd: WV, m: IOData| #[trigger] waited(w0, wd) && #[trigger] m.pay() == Payload::Data(status_bytes(code)) && {
                let ok = wd.att(k, Att { p: m.pay(), r: Res::Accepted });
                match failure {
                    Some(e) => {
                        ||| e is SendError && e->SendError_0 == j && w1 == wd.att(k, Att { p: m.pay(), r: Res::Closed })
                        ||| e is SpyWriteError && spy is Some && j.src_port is Some && w1 == ok.att(spy->Some_0.key(), Att { p: status_copy(j, m).pay(), r: Res::Closed })
                    },
                    None => if spy is Some && j.src_port is Some { w1 == ok.att(spy->Some_0.key(), Att { p: status_copy(j, m).pay(), r: Res::Accepted }).close(k) } else { w1 == ok.close(k) },
                }
            }
        },
    }
}
pub open spec fn status_copy(j: Journey, m: IOData) -> SpyMessage { SpyMessage { src: j.src, dst: j.dst, msg: IODataWrapper::IOData(m), src_port: j.src_port->Some_0 } }
/// the result of a launch: the first failure of its links, else the count of the link to the program
pub open spec fn first_failure(a: MotionResult<usize>, b: MotionResult<usize>, c: MotionResult<usize>) -> MotionResult<usize> {
    match a { Err(e) => MotionResult::<usize>::Err(e), Ok(n) => match b { Err(e) => MotionResult::<usize>::Err(e), Ok(_) => match c { Err(e) => MotionResult::<usize>::Err(e), Ok(_) => MotionResult::<usize>::Ok(n) } } }
}
/// the run of a program: three links, then the status message
pub open spec fn stages(v: LV, spy: Option<Sender<SpyMessage>>, c: int, cmd: CmdV, w0: WV, wa: WV, wb: WV, wc: WV, ra: MotionResult<usize>, rb: MotionResult<usize>, rc: MotionResult<usize>,
    ia: Pull, oa: Push, ib: Pull, ob: Push, ic: Pull, oc: Push) -> bool {
    &&& w0.fresh(Key::Program(c)) && command_of(v, cmd)
    &&& in_link(v, c, ia, oa) && out_link(v, c, ib, ob) && err_link(v, c, ic, oc)
    &&& linked(ia, None, oa, w0.spawn(c, cmd), ra, wa) && linked(ib, spy, ob, wa, rb, wb) && linked(ic, spy, oc, wb, rc, wc)
}
pub open spec fn launched(v: LV, spy: Option<Sender<SpyMessage>>, w0: WV, r: MotionResult<usize>, w1: WV) -> bool {
    exists|c: int, cmd: CmdV, wa: WV, wb: WV, wc: WV, ra: MotionResult<usize>, rb: MotionResult<usize>, rc: MotionResult<usize>, ia: Pull, oa: Push, ib: Pull, ob: Push, ic: Pull, oc: Push|
        #[trigger] stages(v, spy, c, cmd, w0, wa, wb, wc, ra, rb, rc, ia, oa, ib, ob, ic, oc) && {
            ||| r is Err && status_sent(v.exit, spy, exit_of(c), wc, Some(r->Err_0), w1)
            ||| r == first_failure(ra, rb, rc) && status_sent(v.exit, spy, exit_of(c), wc, None, w1)
        }
}
use crate::async_std::process::exit_of;

impl<E: IntoIterator<Item = (K, V)>, P: AsRef<Path>, O: AsRef<OsStr>, A: IntoIterator<Item = R>, K: AsRef<OsStr>, V: AsRef<OsStr>, R: AsRef<OsStr>> Launch<E, P, O, A, K, V, R> {
    pub closed spec fn v(&self) -> LV { LV { id: self.id, prog: self.command.aref(), dir: match self.path { Some(p) => Some(p.aref().v()), None => None },
        env: match self.env { Some(e) => Some(os_pairs(e.items())), None => None }, args: match self.args { Some(a) => Some(os_items(a.items())), None => None },
        out: self.stdout, err: self.stderr, exit: self.exit_status, inp: self.stdin, launched: self.launched } }
//@item src/launch.rs :: impl Launch > fn new [bare]
    pub fn new(
        id: usize,
        env: Option<E>,
        path: Option<P>,
        command: O,
        args: Option<A>
    ) -> /*@ (r: @*/ Launch<E, P, O, A, K, V, R> /*@ )
        ensures r.v() == (LV { id, prog: command.aref(), dir: match path { Some(p) => Some(p.aref().v()), None => None }, env: match env { Some(e) => Some(os_pairs(e.items())), None => None },
            args: match args { Some(a) => Some(os_items(a.items())), None => None }, out: None, err: None, exit: None, inp: None, launched: false }), @*/ {
        Launch {
            id,
            stdin: None,
            stdout: None,
            stderr: None,
            exit_status: None,
            command,
            launched: false,
            path,
            env,
            args
        }
    }
//@end
//@item src/launch.rs :: impl Connectable for Launch > fn add_output [eff, bare]
    fn add_output(&mut self, port: OutputPort, breakable: Breakable, src_id: usize, dst_id: usize) -> /*@ (r: @*/ Result<Pull, ConnectableAddOutputError> /*@ )
        ensures match r {
            Err(e) => *final(self) == *old(self) && final(w).v() == old(w).v() && e == ConnectableAddOutputError::AlreadyAllocated(port)
                && match port { OutputPort::Out => old(self).v().out is Some, OutputPort::Err => old(self).v().err is Some, OutputPort::Exit => old(self).v().exit is Some },
            Ok(p) => match port {
                OutputPort::Out => old(self).v().out is None && final(self).v().out is Some && final(self).v() == (LV { out: final(self).v().out, ..old(self).v() })
                    && made_output(port, breakable, src_id, dst_id, 1, p, final(self).v().out->Some_0, old(w).v(), final(w).v()),
                OutputPort::Err => old(self).v().err is None && final(self).v().err is Some && final(self).v() == (LV { err: final(self).v().err, ..old(self).v() })
                    && made_output(port, breakable, src_id, dst_id, 1, p, final(self).v().err->Some_0, old(w).v(), final(w).v()),
                OutputPort::Exit => old(self).v().exit is None && final(self).v().exit is Some && final(self).v() == (LV { exit: final(self).v().exit, ..old(self).v() })
                    && made_output(port, breakable, src_id, dst_id, 1, p, Push::IoSender(final(self).v().exit->Some_0.0, final(self).v().exit->Some_0.1), old(w).v(), final(w).v()),
            },
        }, @*/ {
        match port {
            OutputPort::Err => {
                if self.stderr.is_some() {
                    return Err(ConnectableAddOutputError::AlreadyAllocated(OutputPort::Err));
                }
                let (child_stdout_push_channel, chan_rx) = bounded(1);
                self.stderr = Some(Push::IoSender(Journey { src: src_id, src_port: Some(port), dst: dst_id, breakable }, child_stdout_push_channel));
                Ok(Pull::Receiver(PullJourney { src: src_id, dst: dst_id }, chan_rx))
            },
            OutputPort::Exit => {
                if self.exit_status.is_some() {
                    return Err(ConnectableAddOutputError::AlreadyAllocated(OutputPort::Exit));
                }
                let (child_exit_status_push_channel, chan_rx) = bounded(1);
                self.exit_status = Some((Journey { src: src_id, src_port: Some(port), dst: dst_id, breakable }, child_exit_status_push_channel));
                Ok(Pull::Receiver(PullJourney { src: src_id, dst: dst_id }, chan_rx))
            },
            OutputPort::Out => {
                if self.stdout.is_some() {
                    return Err(ConnectableAddOutputError::AlreadyAllocated(OutputPort::Out));
                }
                let (child_stdout_push_channel, chan_rx) = bounded(1);
                self.stdout = Some(Push::IoSender(Journey { src: src_id, src_port: Some(port), dst: dst_id, breakable }, child_stdout_push_channel));
                Ok(Pull::Receiver(PullJourney { src: src_id, dst: dst_id }, chan_rx))
            }
        }
    }
//@end
//@item src/launch.rs :: impl Connectable for Launch > fn add_input [bare]
    fn add_input(&mut self, pull: Pull, unused_priority: isize) -> /*@ (r: @*/ Result<(), ConnectableAddInputError> /*@ )
        ensures match r {
            Err(e) => *final(self) == *old(self)
                && (if unused_priority != 0 { e == ConnectableAddInputError::UnsupportedPriority(unused_priority) } else { old(self).v().inp is Some && e == ConnectableAddInputError::AlreadyAllocated }),
            Ok(_) => unused_priority == 0 && old(self).v().inp is None && final(self).v() == (LV { inp: Some(pull), ..old(self).v() }),
        }, @*/ {
        if unused_priority != 0 {
            return Err(ConnectableAddInputError::UnsupportedPriority(unused_priority));
        }
        if self.stdin.is_some() {
            return Err(ConnectableAddInputError::AlreadyAllocated);
        }
        self.stdin = Some(pull);
        Ok(())
    }
//@end
//@item src/launch.rs :: impl Launch > fn environment_configure [bare]
    fn environment_configure(&mut self, child_builder: &mut aip::Command)
        /*@ ensures
            final(self).v() == (LV { env: None, args: None, ..old(self).v() }),
            ({ let c0 = old(child_builder).v(); let c1 = final(child_builder).v(); let v = old(self).v();
                c1 == (CmdV { dir: c1.dir, env: c1.env, args: c0.args + args_of(v), ..c0 }) && (c0.dir is None ==> dir_ok(v, c1.dir)) && (c0.env == own_env() ==> c1.env == env_of(v)) }), @*/ {
        let current_path = std::env::current_dir();
        match (&self.path, current_path) {
            (Some(p), _) => { child_builder.current_dir(p); },
            (None, Ok(p)) => { child_builder.current_dir(p); },
            _ => (),
        };

        match &self.path {
            Some(p) => { child_builder.current_dir(p); },
            None => ()
        };

        match std::mem::take(&mut self.env) {
            Some(env) => { child_builder.envs(env.into_iter()); }
            None => { child_builder.envs(std::env::vars_os()); }
        }

        if let Some(args) = std::mem::take(&mut self.args) {
            child_builder.args(args);
        }
        /*@ assert(args_of(old(self).v()) == Seq::<OsV>::empty() ==> old(child_builder).v().args + args_of(old(self).v()) =~= old(child_builder).v().args); @*/
    }
//@end
//@item src/launch.rs :: impl Launch > fn start [eff, join, m+spawn, bare]
    pub async fn start(&mut self, spy: Option<Sender<SpyMessage>>) -> /*@ (r: @*/ MotionResult<usize> /*@ )
        requires !old(self).v().launched, old(self).v().inp is Some ==> old(self).v().inp->Some_0.wf(),
        ensures
            final(self).v().out is None && final(self).v().err is None && final(self).v().inp is None,
            ({
                // it could not be started: nothing was sent, and nothing will be
                ||| r is Err && r->Err_0 is LaunchSpawnError && final(w).v() == old(w).v() && final(self).v().exit is None
                    && match r->Err_0->LaunchSpawnError_0 { Some(s) => old(self).v().prog.utf8() == Some(s@), None => old(self).v().prog.utf8() is None }
                ||| launched(old(self).v(), spy, old(w).v(), r, final(w).v())
            }), @*/ {
        /*@ let ghost w0 = w.v(); let ghost v0 = self.v(); let ghost spy0 = spy; @*/

        assert!(!self.launched);

        let mut child_builder = aip::Command::new(&self.command);

        self.environment_configure(&mut child_builder);

        let (child_stdin_pull, child_stdin) = match std::mem::take(&mut self.stdin) {
            Some(stdin) => {
                ( stdin, std::process::Stdio::piped() )
            },
            None => {
                (
                    Pull::None,
                    std::process::Stdio::null()
                )
            }
        };
        child_builder.stdin(child_stdin);

        match self.stdout.is_some() {
            true => { child_builder.stdout(async_std::process::Stdio::piped()); }
            false => { child_builder.stdout(async_std::process::Stdio::null()); }
        }

        match self.stderr.is_some() {
            true => { child_builder.stderr(async_std::process::Stdio::piped()); }
            false => { child_builder.stderr(async_std::process::Stdio::null()); }
        }

        let mut child = match child_builder.spawn() {
            Ok(child) => child,
            Err(_c) => {
                self.stdout = None;
                self.stderr = None;
                self.exit_status = None;
                return Err(MotionError::LaunchSpawnError(self.command.as_ref().to_str().map(|s /*@: &str@*/| /*@ -> (o: String) ensures o@ == s@ { @*/ s.to_owned() /*@ } @*/)));
            }
        };

        /*@ let ghost cid = child.id(); let ghost cmd = child_builder.v(); let ghost w1 = w.v();
            assert(cmd.args =~= args_of(v0)); assert(command_of(v0, cmd)); assert(w1 == w0.spawn(cid, cmd)); @*/
        let child_stdin_push = match std::mem::take(&mut child.stdin) {
            Some(stdin) => {
                let src = child_stdin_pull.journey().map(|j /*@: &PullJourney@*/| /*@ -> (o: usize) ensures o == j.src { @*/ j.src /*@ } @*/).unwrap_or(self.id);
                Push::CmdStdin(Journey { src, dst: self.id, src_port: None, breakable: Breakable::Finish }, stdin)
            },
            None => Push::None,
        };

        /*@ let ghost ia = child_stdin_pull; let ghost oa = child_stdin_push; assert(in_link(v0, cid, ia, oa)); @*/
        let r_input = motion(child_stdin_pull, MotionNotifications::empty(), None, child_stdin_push);

        let (stdout_pull, stdout_push) = match (std::mem::take(&mut child.stdout), std::mem::take(&mut self.stdout)) {
            (Some(stdout), Some(push)) => {
                let dst = push.journey().map(|j /*@: &Journey@*/| /*@ -> (o: usize) ensures o == j.dst { @*/ j.dst /*@ } @*/).unwrap_or(self.id);
                let pull = Pull::CmdStdout(PullJourney { src: self.id, dst }, stdout, ReadSplitControl::new());
                (pull, push)
            },
            _ => {
                (
                    Pull::None,
                    Push::None
                )
            }
        };

        /*@ let ghost ib = stdout_pull; let ghost ob = stdout_push; assert(out_link(v0, cid, ib, ob)); @*/
        let r2 = motion(stdout_pull, MotionNotifications::empty(), spy.clone(), stdout_push);

        let (stderr_pull, stderr_push) = match (std::mem::take(&mut child.stderr), std::mem::take( &mut self.stderr)) {
            (Some(stderr), Some(push)) => {
                let dst = push.journey().map(|j /*@: &Journey@*/| /*@ -> (o: usize) ensures o == j.dst { @*/ j.dst /*@ } @*/).unwrap_or(self.id);
                let pull = Pull::CmdStderr(PullJourney { src: self.id, dst }, stderr, ReadSplitControl::new());
                (pull, push)
            },
            _ => {
                (
                    Pull::None,
                    Push::None
                )
            }
        };

        /*@ let ghost ic = stderr_pull; let ghost oc = stderr_push; assert(err_link(v0, cid, ic, oc));
            let ghost mut wa = w1; let ghost mut wb = w1; let ghost mut ra = MotionResult::<usize>::Ok(0); let ghost mut rb = ra; let ghost mut rc = ra; @*/
        let r3 = motion(stderr_pull, MotionNotifications::empty(), spy.clone(), stderr_push);

        let r_out_prep: ((MotionResult<usize>, MotionResult<usize>), MotionResult<usize>) = r_input /*@ proof { wa = w.v(); ra = j0__; assert(linked(ia, None, oa, w1, ra, wa)); } @*/ .join(r2 /*@ proof { wb = w.v(); rb = j1__; assert(linked(ib, spy0, ob, wa, rb, wb)); } @*/ ).join(r3 /*@ proof { rc = j2__; assert(linked(ic, spy0, oc, wb, rc, w.v())); } @*/ ).await;
        /*@ let ghost wc = w.v(); let ghost x0 = self.exit_status; assert(x0 == v0.exit); assert(r_out_prep == ((ra, rb), rc));
            assert(stages(v0, spy0, cid, cmd, w0, wa, wb, wc, ra, rb, rc, ia, oa, ib, ob, ic, oc)); assert(waited(wc, wc)); @*/

        if let Some((journey, exit_status_tx)) = &mut self.exit_status {
            /*! #[verifier::allow_complex_invariants] !*/
            loop
                /*@ invariant_except_break waited(wc, w.v()), x0 == Some((*journey, *exit_status_tx)), spy == spy0, child.id() == cid
                    ensures status_sent(v0.exit, spy0, exit_of(cid), wc, None, w.v()), @*/
            {
                /*@ let ghost wd = w.v(); @*/
                let msg = match child.status().await.ok().map(|es /*@: aip::ExitStatus@*/| /*@ -> (o: Option<i32>) ensures o == es.exit() { @*/ es.code() /*@ } @*/) {
                    Some(Some(exit_status)) => {
                        let str = format!("{:?}", exit_status);
                        let bytes = str.as_bytes();
                        /*@ assert(str@ =~= status_text(exit_of(cid))); assert(bytes@ == status_bytes(exit_of(cid))); assert(bytes@.take(bytes@.len() as int) =~= bytes@); @*/
                        Some(IOData(bytes.split_at(bytes.len()).0.iter().copied().collect()))
                    },
                    Some(None) => {
                        Some(IOData("_".as_bytes().to_vec())) // If killed, then no exit status available without using std::os::unix
                    }
                    None => None
                };
                match msg {
                    Some(m) => {
                        /*@ assert(m.0@ =~= status_bytes(exit_of(cid))) by { if exit_of(cid) is Some { assert(m.0@ =~= status_bytes(exit_of(cid))); } else { assert(m.0@ =~= vstd::utf8::encode_utf8("_"@)); } } @*/
                        exit_status_tx.send(m.clone()).await.map_err(|e /*@: SendError<IOData>@*/| /*@ -> (o: MotionError) ensures o is SendError && o->SendError_0 == *journey { @*/ MotionError::SendError(*journey, Instant::now(), e) /*@ } @*/)?;
                        if let (Some(spy), src, dst, Some(src_port)) = (spy, journey.src, journey.dst, journey.src_port) {
                            let spy_msg = SpyMessage { src, msg: IODataWrapper::IOData(m), dst, src_port };
                            spy.send(spy_msg).await.map_err(|e /*@: SendError<SpyMessage>@*/| /*@ -> (o: MotionError) ensures o is SpyWriteError { @*/ MotionError::SpyWriteError(Instant::now(), e) /*@ } @*/)?;
                        }
                        exit_status_tx.close();
                        break;
                    },
                    None => { async_std::task::sleep(std::time::Duration::from_millis(100)).await; }
                }
            }
        }

        fn structure_motion_result(input: ((MotionResult<usize>, MotionResult<usize>), MotionResult<usize>)) -> /*@ (o: @*/ MotionResult<usize> /*@ ) ensures o == first_failure(input.0.0, input.0.1, input.1) @*/ {
            match input {
                ((MotionResult::Ok(stdin_count), MotionResult::Ok(_)), MotionResult::Ok(_)) => Ok(stdin_count),
                ((MotionResult::Err(e), _), _) => Err(e),
                ((_, MotionResult::Err(e)), _) => Err(e),
                ((_, _), MotionResult::Err(e)) => Err(e),
            }
        }

        structure_motion_result(r_out_prep)

    }
//@end
}
}
}
