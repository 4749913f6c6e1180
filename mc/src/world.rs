//! The closed world around `Server::start`: virtual connections, processes, application handlers and the scheduler.
//!
//! Everything the server can observe is decided here. One execution runs on one thread; the world lives in a
//! thread-local so that the handler types are plain indices.

use crate::client::{Client, HsSpec};
use crate::explore::{Ctx, Exec};
use crate::refssh::*;
use futures::io::{AsyncRead, AsyncWrite};
use nora_ssh::auth::Auth;
use nora_ssh::server::{IoSet, Server, ServerHandlers, SpawnType};
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::future::Future;
use std::io;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub const SERVER_IDENT: &[u8] = b"SSH-2.0-nora_mc test server";

// ---------------------------------------------------------------- specification of a scenario

/// Which kinds of environment answers are enumerated (everything else takes its default answer).
#[derive(Clone, Copy, Default)]
pub struct Choices {
	/// Order of polls and events.
	pub sched: bool,
	/// Sizes of the segments in which client bytes arrive.
	pub seg: bool,
	/// Short and pending transport writes.
	pub write: bool,
	/// Short and pending process stdin writes.
	pub stdin: bool,
	/// Order in which `select!` polls its branches.
	pub select: bool,
}

impl Choices {
	pub const ALL: Choices = Choices { sched: true, seg: true, write: true, stdin: true, select: true };
	pub const NONE: Choices = Choices { sched: false, seg: false, write: false, stdin: false, select: false };
	pub const SCHED: Choices = Choices { sched: true, ..Choices::NONE };
}

/// Order of preference of the event classes.
pub const N_CLASS: usize = 8;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Class {
	Connect,
	Deliver,
	UnblockW,
	Out,
	Err,
	Exit,
	UnblockIn,
	Resume,
}
use Class as K;

#[derive(Clone, Copy, Debug)]
pub struct Policy(pub &'static str, pub [Class; N_CLASS]);

/// The client is faster than the processes.
pub const P_CLIENT: Policy =
	Policy("client-first", [K::Connect, K::Deliver, K::Resume, K::UnblockW, K::UnblockIn, K::Out, K::Err, K::Exit]);
/// Processes are faster than the client.
pub const P_PROC: Policy =
	Policy("proc-first", [K::Connect, K::Out, K::Err, K::Exit, K::Resume, K::UnblockW, K::UnblockIn, K::Deliver]);
/// Processes end before their output is read.
pub const P_EXIT: Policy =
	Policy("exit-first", [K::Connect, K::Exit, K::Err, K::Out, K::Deliver, K::Resume, K::UnblockIn, K::UnblockW]);
/// Stalled pipes and transports recover last.
pub const P_STALL: Policy =
	Policy("stall-long", [K::Connect, K::Deliver, K::Out, K::Err, K::Exit, K::Resume, K::UnblockW, K::UnblockIn]);
pub const POLICIES: [Policy; 4] = [P_CLIENT, P_PROC, P_EXIT, P_STALL];

/// What the client does, in order.
#[derive(Clone, Debug)]
pub enum Act {
	/// Send this message.
	Pay(Vec<u8>),
	/// Send a channel message to the server's number of our channel (waits until that is known).
	Ch(u32, ChMsg),
	/// Wait until this many messages have arrived in total.
	Msgs(usize),
	/// Wait until the channel is confirmed or refused.
	Opened(u32),
	/// Wait until a success or failure has arrived on the channel this many times.
	Replies(u32, usize),
	/// Wait for the server's EOF on the channel.
	GotEof(u32),
	/// Wait for the server's close of the channel.
	GotClose(u32),
	/// Wait until at least this many bytes of data have arrived on the channel.
	GotData(u32, usize),
	/// Wait until data and extended data of at least this many bytes have arrived on the channel.
	GotOutput(u32, usize),
	/// Send all of this on the channel, as fast as the server's window allows, at most so much at once; as extended data of a type.
	Feed(u32, Vec<u8>, usize, Option<u32>),
	/// Send raw bytes on the wire.
	Raw(Vec<u8>),
	/// Send a packet whose framing we make ourselves (encrypted, so authentic).
	Frame(Vec<u8>),
	/// The next message is sent with this bit of its wire bytes flipped.
	Tamper(usize),
	/// The next message is sealed but never sent.
	Omit,
	/// The next two messages are sent in the opposite order.
	Swap,
	/// Send the last encrypted packet once more.
	Again,
	/// Send the n-th encrypted packet once more.
	Replay(usize),
	/// Wait until the connections with this `late` number have been let in.
	Stage(usize),
	/// Send these messages over and over, always one more, until there is nothing left to wait for.
	Flood(Vec<Act>, Box<Act>),
	/// Wait until that connection has done all of its script.
	After(usize),
	/// Close our sending direction.
	Shut,
	/// From here on environment answers are enumerated.
	Enable,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum ChMsg {
	Request { ty: Vec<u8>, want: bool, data: Vec<u8> },
	Data(Vec<u8>),
	Ext(u32, Vec<u8>),
	Eof,
	Close,
	Window(u32),
	Success,
	Failure,
}

impl ChMsg {
	pub fn exec(want: bool, cmd: &str) -> Self {
		ChMsg::Request { ty: b"exec".to_vec(), want, data: W::default().s(cmd).done() }
	}
	pub fn shell(want: bool) -> Self {
		ChMsg::Request { ty: b"shell".to_vec(), want, data: vec![] }
	}
	pub fn encode(&self, ch: u32) -> Vec<u8> {
		match self {
			ChMsg::Request { ty, want, data } => W::new(98).u32(ch).s(ty).bool(*want).raw(data).done(),
			ChMsg::Data(d) => m::data(ch, d),
			ChMsg::Ext(t, d) => W::new(95).u32(ch).u32(*t).s(d).done(),
			ChMsg::Eof => m::eof(ch),
			ChMsg::Close => m::close(ch),
			ChMsg::Window(n) => W::new(93).u32(ch).u32(*n).done(),
			ChMsg::Success => W::new(99).u32(ch).done(),
			ChMsg::Failure => W::new(100).u32(ch).done(),
		}
	}
}

#[derive(Clone, Default)]
pub struct ConnSpec {
	pub hs: HsSpec,
	pub script: Vec<Act>,
	/// Reads fail once this many bytes have been read.
	pub read_err_at: Option<usize>,
	/// The stream ends once this many bytes have been read.
	pub read_eof_at: Option<usize>,
	/// No further bytes arrive once this many have been delivered.
	pub read_stall_at: Option<usize>,
	/// No further bytes arrive once this many have been delivered, until this stage.
	pub pause_at: Option<(usize, usize)>,
	/// Writes fail once this many bytes have been written.
	pub write_err_at: Option<usize>,
	/// Writes return 0 once this many bytes have been written.
	pub write_zero_at: Option<usize>,
	/// The transport accepts no further bytes after this many.
	pub write_stall_at: Option<usize>,
	/// Bytes never arrive together across these offsets.
	pub cuts: Vec<usize>,
	/// At most this many bytes arrive (are written) at a time.
	pub chunk: Option<usize>,
	pub wchunk: Option<usize>,
	/// Every transport write stalls once before it is accepted.
	pub wstall_each: bool,
	/// Connects only when everything else has come to rest; the number orders several such connections.
	pub late: usize,
	/// Connects only when endless things have been read this often.
	pub when: usize,
}

#[derive(Clone, Default)]
pub struct ProcSpec {
	pub out: Vec<Vec<u8>>,
	pub err: Vec<Vec<u8>>,
	pub status: u32,
	pub no_stdin: bool,
	pub no_stdout: bool,
	pub no_stderr: bool,
	/// Stdin writes fail once this many bytes have been taken.
	pub stdin_err_at: Option<usize>,
	/// Stdin takes no further bytes after this many, for ever.
	pub stdin_stall_at: Option<usize>,
	/// Stdin stalls before every write and then takes at most this many bytes.
	pub stdin_chunk: Option<usize>,
	/// Reading stdout (stderr) fails after all chunks instead of ending.
	pub out_err: bool,
	pub err_err: bool,
	/// Output only becomes available after stdin has received this many bytes (or its end).
	pub wait_stdin: usize,
	/// The process only ends after its stdin has ended.
	pub exit_after_eof: bool,
	/// The process never ends and never closes its pipes.
	pub forever: bool,
	/// There is always more to read from stdout (stderr).
	pub endless: [bool; 2],
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum AuthRec {
	None,
	Password(Vec<u8>),
	PublicKey { algorithm: Vec<u8>, key: Vec<u8>, signature: Vec<u8>, message: Vec<u8> },
}

pub type Check = Arc<dyn Fn(&World) -> Result<(), String> + Send + Sync>;

#[derive(Clone)]
pub struct Spec {
	pub name: String,
	pub choices: Choices,
	pub policy: Policy,
	pub conns: Vec<ConnSpec>,
	pub procs: Vec<ProcSpec>,
	/// Handlers (exists, authenticate, spawn) answer only after a separate event.
	pub gate: [bool; 3],
	/// Gates of calls for this user (authenticate, exists) never open.
	pub stuck_user: Option<Vec<u8>>,
	/// Spawns of this command never return.
	pub stuck_cmd: Option<Vec<u8>>,
	pub auth: fn(&[u8], &[u8], &AuthRec) -> bool,
	pub exists: fn(&[u8], &[u8], &[u8], &[u8]) -> bool,
	pub check: Check,
	/// The check verifies host signatures itself; costs time.
	pub verify_sig: bool,
	/// A server that always has something to do is run this often before something else happens.
	pub fair: Option<usize>,
	/// What failing transports and pipes fail with, if not with what is usual for each.
	pub errors: Option<io::ErrorKind>,
}

pub fn auth_default(_user: &[u8], _service: &[u8], a: &AuthRec) -> bool {
	matches!(a, AuthRec::Password(p) if p == b"good")
}

impl Default for Spec {
	fn default() -> Self {
		Self {
			name: String::new(),
			choices: Choices::NONE,
			policy: P_CLIENT,
			conns: vec![],
			procs: vec![],
			gate: [false; 3],
			stuck_user: None,
			stuck_cmd: None,
			auth: auth_default,
			exists: |_, _, _, _| true,
			check: Arc::new(|_| Ok(())),
			verify_sig: false,
			fair: None,
			errors: None,
		}
	}
}

// ---------------------------------------------------------------- the world

pub struct Conn {
	pub spec: ConnSpec,
	pub connected: bool,
	pub accepted: bool,
	/// Units sent by the client, not yet arrived.
	pub c2s: VecDeque<Vec<u8>>,
	pub shut: bool,
	pub inbox: VecDeque<u8>,
	pub delivered: usize,
	pub consumed: usize,
	read_waker: Option<Waker>,
	pub wire: usize,
	pub blocked: bool,
	stalled: bool,
	write_waker: Option<Waker>,
	pub rd_dropped: bool,
	pub wr_dropped: bool,
	pub wr_closed: bool,
	pub client: Client,
	pub msgs: Vec<SMsg>,
	/// Hash of the messages so far.
	pub mhash: u64,
	/// A read or write was answered with a fault.
	pub faulted: bool,
	/// The stage at whose end the client had done everything.
	pub done_at: Option<usize>,
}

impl Conn {
	/// The stage this connection waits for.
	fn awaits(&self) -> Option<usize> {
		match self.spec.pause_at {
			Some((at, n)) if self.delivered >= at && !self.c2s.is_empty() => Some(n),
			_ => self.client.awaits(),
		}
	}
	pub fn gone(&self) -> bool {
		self.rd_dropped && self.wr_dropped
	}
	fn limit_read(&self) -> Option<usize> {
		[self.spec.read_err_at, self.spec.read_eof_at].iter().flatten().copied().min()
	}
}

pub struct Proc {
	pub spec: ProcSpec,
	pub user: usize,
	pub cmd: Option<Vec<u8>>,
	/// Which pipes have delivered how many chunks; len + 1 after the end.
	pub out_at: usize,
	pub err_at: usize,
	out_buf: VecDeque<u8>,
	err_buf: VecDeque<u8>,
	out_waker: Option<Waker>,
	err_waker: Option<Waker>,
	pub exited: bool,
	exit_waker: Option<Waker>,
	pub stdin: Vec<u8>,
	stdin_hash: u64,
	pub stdin_blocked: bool,
	stdin_stalled: bool,
	pub stdin_failed: bool,
	stdin_waker: Option<Waker>,
	pub stdin_closed: bool,
	pub stdin_dropped: bool,
	/// How much had been taken when stdin ended, and whether the server had been told of the program's end by then.
	pub stdin_end: Option<(usize, bool)>,
	pub out_dropped: bool,
	pub err_dropped: bool,
	pub wait_dropped: bool,
	pub wait_taken: bool,
}

impl Proc {
	fn stdin_over(&mut self) {
		if self.stdin_end.is_none() {
			self.stdin_end = Some((self.stdin.len(), self.wait_taken));
		}
	}
}

pub struct Gate {
	open: bool,
	pub stuck: bool,
	waker: Option<Waker>,
	pub dropped: bool,
}

/// What happened, in order.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum H {
	Exists { user: Vec<u8>, service: Vec<u8>, algorithm: Vec<u8>, key: Vec<u8> },
	AuthCall { user: Vec<u8>, service: Vec<u8>, auth: AuthRec },
	AuthRet { user: Vec<u8>, uid: Option<usize> },
	Spawn { uid: usize, cmd: Option<Vec<u8>> },
	SpawnRet { uid: usize, proc: Option<usize> },
	/// The last byte of the server's message was written.
	Msg { conn: usize, idx: usize },
	/// The last byte of the client's n-th message arrived.
	Sent { conn: usize, payload: Vec<u8> },
}

pub struct World {
	pub spec: Arc<Spec>,
	pub ctx: Ctx,
	pub conns: Vec<Conn>,
	pub procs: Vec<Proc>,
	pub gates: Vec<Gate>,
	/// Users by uid: (name, number of the authenticate call).
	pub users: Vec<Vec<u8>>,
	pub users_dropped: Vec<bool>,
	accept_queue: VecDeque<usize>,
	accept_waker: Option<Waker>,
	pub hist: Vec<H>,
	pub enables: usize,
	pub panicked: Option<String>,
	pub ended: bool,
	pub livelock: bool,
	/// Each time all was at rest: the stage, and how much memory the server held.
	pub rests: Vec<(usize, isize)>,
	pub truncated: bool,
	/// Changes whenever anything happens outside the server.
	pub activity: u64,
	pub log_on: bool,
	pub log: Vec<String>,
	late_stage: usize,
	/// Connections whose clients have done everything.
	finished: Vec<bool>,
	/// How often something endless was read.
	pub endless: usize,
	selects: u64,
}

/// Others are served before something endless is read this often.
pub const ENOUGH: usize = 20_000;

thread_local! {
	static WORLD: RefCell<Option<World>> = RefCell::new(None);
	static ENTROPY: Cell<u64> = Cell::new(0);
	static PANIC: RefCell<Option<String>> = RefCell::new(None);
}

pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
	let _o = crate::heap::owner(false);
	WORLD.with(|w| f(w.borrow_mut().as_mut().expect("no world")))
}

fn try_with(f: impl FnOnce(&mut World)) {
	let _o = crate::heap::owner(false);
	WORLD.with(|w| {
		if let Ok(mut w) = w.try_borrow_mut() {
			if let Some(w) = w.as_mut() {
				f(w)
			}
		}
	})
}

fn select_hook(n: usize) -> usize {
	with(|w| {
		if w.spec.choices.select {
			w.ctx.choose(n, "select")
		} else if w.spec.fair.is_some() {
			// Whoever is always ready is not always first.
			w.selects = w.selects.wrapping_add(0x9e37_79b9_7f4a_7c15);
			let z = (w.selects ^ w.selects >> 30).wrapping_mul(0xbf58_476d_1ce4_e5b9);
			((z ^ z >> 27) >> 8) as usize % n
		} else {
			0
		}
	})
}

/// Remember panic messages instead of printing them.
pub fn install_panic_hook() {
	let old = std::panic::take_hook();
	std::panic::set_hook(Box::new(move |info| {
		let msg = info.to_string();
		let caught = QUIET.with(|q| q.get());
		if caught {
			PANIC.with(|p| *p.borrow_mut() = Some(msg));
		} else {
			old(info)
		}
	}));
}

thread_local! {
	static QUIET: Cell<bool> = Cell::new(false);
}

/// Run `f`; a panic becomes its message.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
	let old = QUIET.with(|q| q.replace(true));
	let r = catch_unwind(AssertUnwindSafe(f));
	QUIET.with(|q| q.set(old));
	r.map_err(|_| {
		PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()).replace('\n', " ")
	})
}

// ---------------------------------------------------------------- randomness

#[derive(Clone)]
pub struct Rng(u64);

impl rand::RngCore for Rng {
	fn next_u32(&mut self) -> u32 {
		self.next_u64() as u32
	}
	fn next_u64(&mut self) -> u64 {
		// splitmix64
		self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
		z ^ (z >> 31)
	}
	fn fill_bytes(&mut self, dest: &mut [u8]) {
		for c in dest.chunks_mut(8) {
			let v = self.next_u64().to_le_bytes();
			c.copy_from_slice(&v[..c.len()]);
		}
	}
	fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
		self.fill_bytes(dest);
		Ok(())
	}
}
impl rand::CryptoRng for Rng {}
impl rand::SeedableRng for Rng {
	type Seed = [u8; 8];
	fn from_seed(s: [u8; 8]) -> Self {
		Rng(u64::from_le_bytes(s))
	}
	/// The entropy source: a new value every time, the same ones in every execution.
	fn from_entropy() -> Self {
		let n = ENTROPY.with(|e| {
			e.set(e.get() + 1);
			e.get()
		});
		Rng(n.wrapping_mul(0xd1342543de82ef95) ^ 0x5851f42d4c957f2d)
	}
}

// ---------------------------------------------------------------- transport

pub struct Rd(usize);
pub struct Wr(usize);

impl Drop for Rd {
	fn drop(&mut self) {
		let c = self.0;
		// Whoever is gone is not woken any more.
		let mut wk = None;
		try_with(|w| {
			wk = w.conns[c].read_waker.take();
			w.conns[c].rd_dropped = true;
			w.note(|| format!("conn {c}: read half dropped"));
		});
		drop(wk)
	}
}
impl Drop for Wr {
	fn drop(&mut self) {
		let c = self.0;
		let mut wk = None;
		try_with(|w| {
			wk = w.conns[c].write_waker.take();
			w.conns[c].wr_dropped = true;
			w.note(|| format!("conn {c}: write half dropped"));
		});
		drop(wk)
	}
}

impl AsyncRead for Rd {
	fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
		let i = self.0;
		with(|w| {
			let c = &mut w.conns[i];
			if let Some(at) = c.limit_read() {
				if c.consumed >= at {
					c.faulted = true;
					w.activity += 1;
					return Poll::Ready(if w.conns[i].spec.read_err_at == Some(at) {
						Err(w.spec.errors.unwrap_or(io::ErrorKind::ConnectionReset).into())
					} else {
						Ok(0)
					});
				}
			}
			if buf.is_empty() {
				return Poll::Ready(Ok(0));
			}
			if !c.inbox.is_empty() {
				let max = c.limit_read().map_or(usize::MAX, |at| at - c.consumed);
				let n = buf.len().min(c.inbox.len()).min(max);
				for b in &mut buf[..n] {
					*b = c.inbox.pop_front().unwrap();
				}
				c.consumed += n;
				w.activity += 1;
				return Poll::Ready(Ok(n));
			}
			if c.c2s.is_empty() && w.endless < ENOUGH {
				if let Some(b) = c.client.flood() {
					w.endless += 1;
					c.inbox.extend(b);
					let n = buf.len().min(c.inbox.len());
					for b in &mut buf[..n] {
						*b = c.inbox.pop_front().unwrap();
					}
					c.consumed += n;
					c.delivered = c.consumed + c.inbox.len();
					w.activity += 1;
					return Poll::Ready(Ok(n));
				}
			}
			if c.shut && c.c2s.is_empty() {
				c.faulted = true;
				w.activity += 1;
				return Poll::Ready(Ok(0));
			}
			c.read_waker = Some(cx.waker().clone());
			Poll::Pending
		})
	}
}

impl AsyncWrite for Wr {
	fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
		let i = self.0;
		with(|w| {
			let ch = w.spec.choices.write;
			let c = &mut w.conns[i];
			if buf.is_empty() {
				return Poll::Ready(Ok(0));
			}
			let mut max = buf.len();
			if let Some(at) = c.spec.write_err_at {
				if c.wire >= at {
					c.faulted = true;
					w.activity += 1;
					return Poll::Ready(Err(w.spec.errors.unwrap_or(io::ErrorKind::BrokenPipe).into()));
				}
				max = max.min(at - c.wire);
			}
			if let Some(at) = c.spec.write_zero_at {
				if c.wire >= at {
					c.faulted = true;
					w.activity += 1;
					return Poll::Ready(Ok(0));
				}
				max = max.min(at - c.wire);
			}
			if let Some(at) = c.spec.write_stall_at {
				if c.wire >= at {
					c.write_waker = Some(cx.waker().clone());
					return Poll::Pending;
				}
				max = max.min(at - c.wire);
			}
			if let Some(k) = c.spec.wchunk {
				max = max.min(k);
			}
			if c.blocked {
				c.write_waker = Some(cx.waker().clone());
				return Poll::Pending;
			}
			if c.spec.wstall_each {
				c.stalled = !c.stalled;
				if c.stalled {
					c.blocked = true;
					c.write_waker = Some(cx.waker().clone());
					w.activity += 1;
					return Poll::Pending;
				}
			}
			let n = if ch {
				let alts: &[usize] = match max {
					0 => unreachable!(),
					1 => &[1, 0],
					2 => &[2, 1, 0],
					3 => &[3, 1, 0, 2],
					_ => &[usize::MAX, 1, 0, usize::MAX - 1, 4],
				};
				let k = w.ctx.choose(alts.len(), "write");
				match alts[k] {
					usize::MAX => max,
					x if x == usize::MAX - 1 => max - 1,
					x => x,
				}
			} else {
				max
			};
			let c = &mut w.conns[i];
			w.activity += 1;
			if n == 0 {
				c.blocked = true;
				c.write_waker = Some(cx.waker().clone());
				w.note(|| format!("conn {i}: transport write of {} stalls", buf.len()));
				return Poll::Pending;
			}
			c.wire += n;
			w.note(|| format!("conn {i}: server wrote {n} of {}", buf.len()));
			w.client_receive(i, &buf[..n]);
			Poll::Ready(Ok(n))
		})
	}
	fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
		Poll::Ready(Ok(()))
	}
	fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
		let i = self.0;
		with(|w| w.conns[i].wr_closed = true);
		Poll::Ready(Ok(()))
	}
}

// ---------------------------------------------------------------- processes

pub struct Stdin(usize);
pub struct Pipe {
	p: usize,
	err: bool,
}
pub struct Wait(usize);

impl Drop for Stdin {
	fn drop(&mut self) {
		let p = self.0;
		let mut wk = None;
		try_with(|w| {
			wk = w.procs[p].stdin_waker.take();
			w.procs[p].stdin_dropped = true;
			w.procs[p].stdin_over();
			w.activity += 1;
			w.note(|| format!("proc {p}: stdin dropped"));
		});
		drop(wk)
	}
}
impl Drop for Pipe {
	fn drop(&mut self) {
		let (p, e) = (self.p, self.err);
		let mut wk = None;
		try_with(|w| {
			if e {
				wk = w.procs[p].err_waker.take();
				w.procs[p].err_dropped = true;
			} else {
				wk = w.procs[p].out_waker.take();
				w.procs[p].out_dropped = true;
			}
		});
		drop(wk)
	}
}
impl Drop for Wait {
	fn drop(&mut self) {
		let p = self.0;
		let mut wk = None;
		try_with(|w| {
			wk = w.procs[p].exit_waker.take();
			w.procs[p].wait_dropped = true
		});
		drop(wk)
	}
}

impl AsyncWrite for Stdin {
	fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
		let i = self.0;
		with(|w| {
			let ch = w.spec.choices.stdin;
			let p = &mut w.procs[i];
			if buf.is_empty() {
				return Poll::Ready(Ok(0));
			}
			let mut max = buf.len();
			if p.stdin_closed {
				return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
			}
			if let Some(at) = p.spec.stdin_err_at {
				if p.stdin.len() >= at {
					p.stdin_failed = true;
					w.activity += 1;
					return Poll::Ready(Err(w.spec.errors.unwrap_or(io::ErrorKind::BrokenPipe).into()));
				}
				max = max.min(at - p.stdin.len());
			}
			if let Some(at) = p.spec.stdin_stall_at {
				if p.stdin.len() >= at {
					p.stdin_waker = Some(cx.waker().clone());
					return Poll::Pending;
				}
				max = max.min(at - p.stdin.len());
			}
			if p.stdin_blocked {
				p.stdin_waker = Some(cx.waker().clone());
				return Poll::Pending;
			}
			if let Some(k) = p.spec.stdin_chunk {
				p.stdin_stalled = !p.stdin_stalled;
				if p.stdin_stalled {
					p.stdin_blocked = true;
					p.stdin_waker = Some(cx.waker().clone());
					w.activity += 1;
					return Poll::Pending;
				}
				max = max.min(k);
			}
			let n = if ch {
				let alts: &[usize] = match max {
					1 => &[1, 0],
					2 => &[2, 1, 0],
					_ => &[usize::MAX, 1, 0, usize::MAX - 1],
				};
				let k = w.ctx.choose(alts.len(), "stdin");
				match alts[k] {
					usize::MAX => max,
					x if x == usize::MAX - 1 => max - 1,
					x => x,
				}
			} else {
				max
			};
			let p = &mut w.procs[i];
			w.activity += 1;
			if n == 0 {
				p.stdin_blocked = true;
				p.stdin_waker = Some(cx.waker().clone());
				w.note(|| format!("proc {i}: stdin stalls"));
				return Poll::Pending;
			}
			p.stdin.extend_from_slice(&buf[..n]);
			p.stdin_hash = fnv_from(p.stdin_hash, &buf[..n]);
			w.note(|| format!("proc {i}: stdin takes {n} of {}", buf.len()));
			Poll::Ready(Ok(n))
		})
	}
	fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
		Poll::Ready(Ok(()))
	}
	fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
		let i = self.0;
		with(|w| {
			w.procs[i].stdin_closed = true;
			w.procs[i].stdin_over();
			w.activity += 1;
		});
		Poll::Ready(Ok(()))
	}
}

impl AsyncRead for Pipe {
	fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
		let (i, err) = (self.p, self.err);
		with(|w| {
			let p = &mut w.procs[i];
			let (q, wk, end, fails) = if err {
				(&mut p.err_buf, &mut p.err_waker, p.err_at > p.spec.err.len(), p.spec.err_err)
			} else {
				(&mut p.out_buf, &mut p.out_waker, p.out_at > p.spec.out.len(), p.spec.out_err)
			};
			if buf.is_empty() {
				return Poll::Ready(Ok(0));
			}
			if !q.is_empty() {
				let n = buf.len().min(q.len());
				for b in &mut buf[..n] {
					*b = q.pop_front().unwrap();
				}
				w.activity += 1;
				w.note(|| format!("proc {i}: server read {n} bytes of {}", if err { "stderr" } else { "stdout" }));
				return Poll::Ready(Ok(n));
			}
			if p.spec.endless[usize::from(err)] && w.endless < ENOUGH {
				w.endless += 1;
				w.activity += 1;
				buf.fill(if err { b'e' } else { b'o' });
				return Poll::Ready(Ok(buf.len()));
			}
			if end {
				w.activity += 1;
				return Poll::Ready(if fails { Err(w.spec.errors.unwrap_or(io::ErrorKind::Other).into()) } else { Ok(0) });
			}
			*wk = Some(cx.waker().clone());
			Poll::Pending
		})
	}
}

impl Future for Wait {
	type Output = u32;
	fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u32> {
		let i = self.0;
		with(|w| {
			let p = &mut w.procs[i];
			if p.exited {
				p.wait_taken = true;
				w.activity += 1;
				Poll::Ready(w.procs[i].spec.status)
			} else {
				p.exit_waker = Some(cx.waker().clone());
				Poll::Pending
			}
		})
	}
}

// ---------------------------------------------------------------- handlers

struct Accept;
impl Future for Accept {
	type Output = usize;
	fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<usize> {
		with(|w| match w.accept_queue.pop_front() {
			Some(c) => {
				w.conns[c].accepted = true;
				w.activity += 1;
				Poll::Ready(c)
			}
			None => {
				w.accept_waker = Some(cx.waker().clone());
				Poll::Pending
			}
		})
	}
}

struct GateFut(Option<usize>);
impl Future for GateFut {
	type Output = ();
	fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
		match self.0 {
			None => Poll::Ready(()),
			Some(g) => with(|w| {
				let g = &mut w.gates[g];
				if g.open {
					Poll::Ready(())
				} else {
					g.waker = Some(cx.waker().clone());
					Poll::Pending
				}
			}),
		}
	}
}
impl Drop for GateFut {
	fn drop(&mut self) {
		if let Some(g) = self.0 {
			let mut wk = None;
			try_with(|w| {
				wk = w.gates[g].waker.take();
				w.gates[g].dropped = true
			});
			drop(wk)
		}
	}
}

/// The user value the application hands out; knows which authenticate call made it.
pub struct User {
	pub uid: usize,
}
impl Drop for User {
	fn drop(&mut self) {
		let u = self.uid;
		try_with(|w| w.users_dropped[u] = true)
	}
}

pub struct Handlers;

impl Handlers {
	fn gate(kind: usize, stuck: bool) -> GateFut {
		with(|w| {
			if !stuck && !w.spec.gate[kind] {
				return GateFut(None);
			}
			w.gates.push(Gate { open: false, stuck, waker: None, dropped: false });
			GateFut(Some(w.gates.len() - 1))
		})
	}
}

#[async_trait::async_trait]
impl ServerHandlers for Handlers {
	type Sign = p256::NistP256;
	type Crypt = nora_ssh_core::cipher::ChaCha20Poly1305;
	type Read = Rd;
	type Write = Wr;
	type User = User;
	type Stdin = Stdin;
	type Stdout = Pipe;
	type Stderr = Pipe;
	type Rng = Rng;

	async fn accept(&self) -> (Rd, Wr) {
		let c = Accept.await;
		(Rd(c), Wr(c))
	}

	async fn public_key_exists<'a>(
		&self,
		user: &'a [u8],
		service: &'a [u8],
		algorithm: &'a [u8],
		key: &'a [u8],
	) -> Result<(), ()> {
		let stuck = with(|w| {
			w.activity += 1;
			w.hist.push(H::Exists {
				user: user.to_vec(),
				service: service.to_vec(),
				algorithm: algorithm.to_vec(),
				key: key.to_vec(),
			});
			w.note(|| format!("public_key_exists({:?})", String::from_utf8_lossy(user)));
			w.spec.stuck_user.as_deref() == Some(user)
		});
		Handlers::gate(0, stuck).await;
		with(|w| (w.spec.exists)(user, service, algorithm, key)).then(|| ()).ok_or(())
	}

	async fn authenticate<'a>(&self, user: &'a [u8], service: &'a [u8], auth: Auth<'a>) -> Result<User, ()> {
		let rec = match auth {
			Auth::None => AuthRec::None,
			Auth::Password(p) => AuthRec::Password(p.to_vec()),
			Auth::PublicKey { algorithm, key, signature, message } => AuthRec::PublicKey {
				algorithm: algorithm.to_vec(),
				key: key.to_vec(),
				signature: signature.to_vec(),
				message: message.to_vec(),
			},
		};
		let stuck = with(|w| {
			w.activity += 1;
			w.hist.push(H::AuthCall { user: user.to_vec(), service: service.to_vec(), auth: rec.clone() });
			w.note(|| format!("authenticate({:?}, {rec:?})", String::from_utf8_lossy(user)));
			w.spec.stuck_user.as_deref() == Some(user)
		});
		Handlers::gate(1, stuck).await;
		with(|w| {
			let uid = (w.spec.auth)(user, service, &rec).then(|| {
				w.users.push(user.to_vec());
				w.users_dropped.push(false);
				w.users.len() - 1
			});
			w.hist.push(H::AuthRet { user: user.to_vec(), uid });
			uid.map(|uid| User { uid }).ok_or(())
		})
	}

	async fn spawn<'a>(
		&self,
		user: &'a mut User,
		ty: SpawnType<'a>,
		_data: &'a [u8],
	) -> Result<IoSet<Stdin, Pipe, Pipe>, ()> {
		let uid = user.uid;
		let cmd = match ty {
			SpawnType::Shell => None,
			SpawnType::Exec { command } => Some(command.to_vec()),
		};
		let stuck = with(|w| {
			w.activity += 1;
			w.hist.push(H::Spawn { uid, cmd: cmd.clone() });
			w.note(|| format!("spawn(user {uid}, {:?})", cmd.as_deref().map(String::from_utf8_lossy)));
			w.spec.stuck_cmd == cmd && cmd.is_some()
		});
		Handlers::gate(2, stuck).await;
		with(|w| {
			// "p<n>..." runs process n, a shell runs process 0, everything else fails.
			let n = match &cmd {
				None => Some(0),
				Some(c) if c.first() == Some(&b'p') => c.get(1).map(|d| d.wrapping_sub(b'0') as usize),
				_ => None,
			};
			let spec = n.and_then(|n| w.spec.procs.get(n).cloned());
			let spec = match spec {
				Some(s) => s,
				None => {
					w.hist.push(H::SpawnRet { uid, proc: None });
					return Err(());
				}
			};
			let i = w.procs.len();
			w.procs.push(Proc {
				user: uid,
				cmd: cmd.clone(),
				out_at: if spec.no_stdout { spec.out.len() + 1 } else { 0 },
				err_at: if spec.no_stderr { spec.err.len() + 1 } else { 0 },
				out_buf: VecDeque::new(),
				err_buf: VecDeque::new(),
				out_waker: None,
				err_waker: None,
				exited: false,
				exit_waker: None,
				stdin: vec![],
				stdin_hash: fnv(&[]),
				stdin_blocked: false,
				stdin_stalled: false,
				stdin_failed: false,
				stdin_waker: None,
				stdin_closed: false,
				stdin_dropped: spec.no_stdin,
				stdin_end: None,
				out_dropped: spec.no_stdout,
				err_dropped: spec.no_stderr,
				wait_dropped: false,
				wait_taken: false,
				spec: spec.clone(),
			});
			w.hist.push(H::SpawnRet { uid, proc: Some(i) });
			Ok(IoSet {
				stdin: (!spec.no_stdin).then(|| Stdin(i)),
				stdout: (!spec.no_stdout).then(|| Pipe { p: i, err: false }),
				stderr: (!spec.no_stderr).then(|| Pipe { p: i, err: true }),
				wait: Box::pin(Wait(i)),
			})
		})
	}
}

// ---------------------------------------------------------------- scheduler

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Ev {
	Connect(usize),
	Deliver(usize),
	UnblockW(usize),
	Out(usize),
	Err(usize),
	Exit(usize),
	UnblockIn(usize),
	Resume(usize),
}

impl Ev {
	fn class(&self) -> Class {
		match self {
			Ev::Connect(_) => K::Connect,
			Ev::Deliver(_) => K::Deliver,
			Ev::UnblockW(_) => K::UnblockW,
			Ev::Out(_) => K::Out,
			Ev::Err(_) => K::Err,
			Ev::Exit(_) => K::Exit,
			Ev::UnblockIn(_) => K::UnblockIn,
			Ev::Resume(_) => K::Resume,
		}
	}
}

impl World {
	pub fn note(&mut self, f: impl FnOnce() -> String) {
		if self.log_on {
			let s = f();
			self.log.push(s);
		}
	}

	fn client_receive(&mut self, i: usize, data: &[u8]) {
		let c = &mut self.conns[i];
		let before = c.msgs.len();
		c.client.receive(data, &mut c.msgs);
		let after = c.msgs.len();
		for k in before..after {
			let m = c.msgs[k].clone();
			use std::hash::{Hash, Hasher};
			let mut h = std::collections::hash_map::DefaultHasher::new();
			(c.mhash, &m).hash(&mut h);
			c.mhash = h.finish();
			self.hist.push(H::Msg { conn: i, idx: k });
			if self.log_on {
				self.log.push(format!("conn {i}: client got {}", m.brief()));
			}
		}
		self.client_act(i);
	}

	fn client_act(&mut self, i: usize) {
		let c = &mut self.conns[i];
		let r = c.client.act(&c.msgs, self.late_stage, &self.finished);
		for u in r.units {
			c.c2s.push_back(u);
		}
		if c.client.flooding() {
			if let Some(w) = c.read_waker.take() {
				w.wake()
			}
		}
		if r.shut {
			c.shut = true;
			if c.c2s.is_empty() {
				// Nothing left to arrive first.
				if let Some(w) = c.read_waker.take() {
					w.wake()
				}
			}
		}
		if r.enabled {
			self.enables += 1;
			if self.enables == self.conns.iter().filter(|c| c.spec.late == 0).count() {
				self.ctx.enabled = true;
			}
		}
		if !self.finished[i] && self.conns[i].client.left() == 0 {
			self.finished[i] = true;
			for k in 0..self.conns.len() {
				if self.conns[k].client.minds(i) {
					self.client_act(k);
				}
			}
		}
	}

	fn events(&self) -> Vec<Ev> {
		let mut v = Vec::new();
		for class in self.spec.policy.1 {
			match class {
				K::Connect => {
					for (i, c) in self.conns.iter().enumerate() {
						if !c.connected && c.spec.late <= self.late_stage && c.spec.when <= self.endless {
							v.push(Ev::Connect(i));
						}
					}
				}
				K::Deliver => {
					for (i, c) in self.conns.iter().enumerate() {
						if c.connected
							&& !c.c2s.is_empty() && !c.rd_dropped
							&& c.spec.read_stall_at.map_or(true, |at| c.delivered < at)
							&& c.spec.pause_at.map_or(true, |(at, n)| c.delivered < at || self.late_stage >= n)
						{
							v.push(Ev::Deliver(i));
						}
					}
				}
				K::UnblockW => {
					for (i, c) in self.conns.iter().enumerate() {
						if c.blocked && !c.wr_dropped {
							v.push(Ev::UnblockW(i));
						}
					}
				}
				K::Out | K::Err => {
					for (i, p) in self.procs.iter().enumerate() {
						let (at, n, dropped) = if class == K::Out {
							(p.out_at, p.spec.out.len(), p.out_dropped)
						} else {
							(p.err_at, p.spec.err.len(), p.err_dropped)
						};
						let fed = p.stdin.len() >= p.spec.wait_stdin || p.stdin_dropped || p.stdin_closed;
						let ends_ok = !p.spec.exit_after_eof || p.stdin_dropped || p.stdin_closed;
						if !dropped && fed && (at < n || (at == n && !p.spec.forever && ends_ok)) {
							v.push(if class == K::Out { Ev::Out(i) } else { Ev::Err(i) });
						}
					}
				}
				K::Exit => {
					for (i, p) in self.procs.iter().enumerate() {
						let ok = !p.spec.exit_after_eof || p.stdin_dropped || p.stdin_closed;
						if !p.exited && !p.spec.forever && !p.wait_dropped && ok {
							v.push(Ev::Exit(i));
						}
					}
				}
				K::UnblockIn => {
					for (i, p) in self.procs.iter().enumerate() {
						if p.stdin_blocked && !p.stdin_dropped {
							v.push(Ev::UnblockIn(i));
						}
					}
				}
				K::Resume => {
					for (i, g) in self.gates.iter().enumerate() {
						if !g.open && !g.stuck && !g.dropped {
							v.push(Ev::Resume(i));
						}
					}
				}
			}
		}
		v
	}

	fn apply(&mut self, e: Ev) {
		self.activity += 1;
		match e {
			Ev::Connect(i) => {
				self.note(|| format!("conn {i}: connects"));
				self.conns[i].connected = true;
				let u = self.conns[i].client.start();
				self.conns[i].c2s.extend(u);
				self.client_act(i);
				self.accept_queue.push_back(i);
				if let Some(w) = self.accept_waker.take() {
					w.wake()
				}
			}
			Ev::Deliver(i) => {
				let mut unit = self.conns[i].c2s.pop_front().unwrap();
				let l = unit.len();
				let mut n = l;
				if self.spec.choices.seg && l > 1 {
					let mut alts = vec![l];
					for a in [1, 4, 5, l / 2, l - 1] {
						if a >= 1 && a < l && !alts.contains(&a) {
							alts.push(a);
						}
					}
					n = alts[self.ctx.choose(alts.len(), "segment")];
				}
				{
					let c = &self.conns[i];
					if let Some(at) = c.spec.read_stall_at {
						n = n.min(at - c.delivered);
					}
					if let Some((at, _)) = c.spec.pause_at.filter(|(at, _)| *at > c.delivered) {
						n = n.min(at - c.delivered);
					}
					if let Some(k) = c.spec.chunk {
						n = n.min(k);
					}
					if let Some(at) = c.spec.cuts.iter().find(|at| **at > c.delivered) {
						n = n.min(at - c.delivered);
					}
				}
				let rest = unit.split_off(n);
				let c = &mut self.conns[i];
				if rest.is_empty() {
					if let Some(p) = c.client.unit_done() {
						self.hist.push(H::Sent { conn: i, payload: p });
					}
				} else {
					c.c2s.push_front(rest);
				}
				let c = &mut self.conns[i];
				c.delivered += n;
				c.inbox.extend(unit);
				let w = c.read_waker.take();
				self.note(|| format!("conn {i}: {n} of {l} bytes arrive"));
				if let Some(w) = w {
					w.wake()
				}
			}
			Ev::UnblockW(i) => {
				self.note(|| format!("conn {i}: transport writable again"));
				self.conns[i].blocked = false;
				if let Some(w) = self.conns[i].write_waker.take() {
					w.wake()
				}
			}
			Ev::Out(i) | Ev::Err(i) => {
				let p = &mut self.procs[i];
				let (at, chunks, q, wk) = if matches!(e, Ev::Out(_)) {
					(&mut p.out_at, &p.spec.out, &mut p.out_buf, &mut p.out_waker)
				} else {
					(&mut p.err_at, &p.spec.err, &mut p.err_buf, &mut p.err_waker)
				};
				if let Some(c) = chunks.get(*at) {
					q.extend(c);
				}
				*at += 1;
				if let Some(w) = wk.take() {
					w.wake()
				}
				self.note(|| format!("proc {i}: {e:?}"));
			}
			Ev::Exit(i) => {
				self.note(|| format!("proc {i}: exits"));
				self.procs[i].exited = true;
				if let Some(w) = self.procs[i].exit_waker.take() {
					w.wake()
				}
			}
			Ev::UnblockIn(i) => {
				self.note(|| format!("proc {i}: stdin writable again"));
				self.procs[i].stdin_blocked = false;
				if let Some(w) = self.procs[i].stdin_waker.take() {
					w.wake()
				}
			}
			Ev::Resume(g) => {
				self.note(|| format!("handler call {g} answers"));
				self.gates[g].open = true;
				if let Some(w) = self.gates[g].waker.take() {
					w.wake()
				}
			}
		}
	}

	fn state_hash(&self, woken: bool) -> u64 {
		use std::hash::{Hash, Hasher};
		let mut h = std::collections::hash_map::DefaultHasher::new();
		woken.hash(&mut h);
		for c in &self.conns {
			(c.connected, c.accepted, c.delivered, c.consumed, c.wire, c.blocked, c.rd_dropped, c.wr_dropped, c.mhash)
				.hash(&mut h);
			(c.c2s.len(), c.shut).hash(&mut h);
		}
		for p in &self.procs {
			(p.out_at, p.err_at, p.out_buf.len(), p.err_buf.len(), p.exited, p.stdin.len(), p.stdin_blocked).hash(&mut h);
			(p.stdin_closed, p.stdin_dropped, p.out_dropped, p.err_dropped, p.wait_dropped, p.wait_taken, p.stdin_end).hash(&mut h);
			p.stdin_hash.hash(&mut h);
		}
		for g in &self.gates {
			(g.open, g.dropped).hash(&mut h);
		}
		self.users.len().hash(&mut h);
		self.panicked.is_some().hash(&mut h);
		h.finish()
	}

	/// What the peer and the application saw, without anything random.
	fn outcome_hash(&self) -> u64 {
		use std::hash::{Hash, Hasher};
		let mut h = std::collections::hash_map::DefaultHasher::new();
		for c in &self.conns {
			(c.mhash, c.gone(), c.client.error.is_some()).hash(&mut h);
		}
		for p in &self.procs {
			(&p.stdin, p.stdin_dropped, p.stdin_end, p.wait_taken).hash(&mut h);
		}
		self.panicked.hash(&mut h);
		(self.ended, self.livelock).hash(&mut h);
		h.finish()
	}
}

struct Flag(AtomicBool);
impl Wake for Flag {
	fn wake(self: Arc<Self>) {
		self.0.store(true, Ordering::Relaxed)
	}
	fn wake_by_ref(self: &Arc<Self>) {
		self.0.store(true, Ordering::Relaxed)
	}
}

pub fn host_key() -> ecdsa::SigningKey<p256::NistP256> {
	use rand::SeedableRng;
	ecdsa::SigningKey::<p256::NistP256>::random(&mut Rng::from_seed(*b"host key"))
}

const MAX_STEPS: usize = 200_000;

/// Run one execution of a scenario and judge it.
pub fn run(spec: &Arc<Spec>, prefix: &[(u8, u8)], log_on: bool) -> Exec {
	run_with(spec, prefix, log_on, |w| w.judge())
}

impl World {
	pub fn judge(&self) -> Result<(), String> {
		(self.spec.check)(self)
	}
	/// The server is still there and came to rest.
	pub fn alive(&self) -> Result<(), String> {
		if let Some(p) = &self.panicked {
			return Err(format!("the server panicked: {p}"));
		}
		if self.ended {
			return Err("the server's main future ended".into());
		}
		if self.endless >= ENOUGH {
			return Err("there is always more from one side, and the server never gets to anything else".into());
		}
		if self.livelock {
			return Err("the server keeps running without making progress".into());
		}
		Ok(())
	}
}

pub fn run_with<R: FnOnce(&World) -> Result<(), String>>(
	spec: &Arc<Spec>,
	prefix: &[(u8, u8)],
	log_on: bool,
	judge: R,
) -> Exec {
	let conns = spec
		.conns
		.iter()
		.map(|s| Conn {
			client: Client::new(&s.hs, &s.script, spec.verify_sig),
			spec: s.clone(),
			connected: false,
			accepted: false,
			c2s: VecDeque::new(),
			shut: false,
			inbox: VecDeque::new(),
			delivered: 0,
			consumed: 0,
			read_waker: None,
			wire: 0,
			blocked: false,
			stalled: false,
			write_waker: None,
			rd_dropped: false,
			wr_dropped: false,
			wr_closed: false,
			msgs: vec![],
			mhash: 0,
			faulted: false,
			done_at: None,
		})
		.collect();
	let world = World {
		spec: spec.clone(),
		ctx: Ctx::new(prefix),
		conns,
		procs: vec![],
		gates: vec![],
		users: vec![],
		users_dropped: vec![],
		accept_queue: VecDeque::new(),
		accept_waker: None,
		hist: vec![],
		enables: 0,
		panicked: None,
		ended: false,
		livelock: false,
		rests: vec![],
		truncated: false,
		activity: 0,
		log_on,
		log: vec![],
		late_stage: 0,
		finished: vec![false; spec.conns.len()],
		endless: 0,
		selects: 0,
	};
	crate::watch::about(&spec.name, prefix);
	WORLD.with(|w| *w.borrow_mut() = Some(world));
	ENTROPY.with(|e| e.set(0));
	futures_util::__private::async_await::set_select_hook(Some(select_hook));

	let server = Server::new(nora_ssh::Identifier::new(SERVER_IDENT).unwrap(), HOST.with(|h| h.clone()), Handlers);
	let mut fut: Option<Pin<Box<dyn Future<Output = ()>>>> = Some(Box::pin(async move {
		#[allow(unreachable_code)]
		{
			server.start().await;
		}
	}));
	let flag = Arc::new(Flag(AtomicBool::new(true)));
	let waker = Waker::from(flag.clone());
	let mut states = Vec::new();
	let mut steps = 0;
	let mut idle_polls = 0;
	// How often the server has been run on end, and whose turn it is then.
	let (mut row, mut turn) = (0, 0);
	let live_before = crate::heap::live();
	loop {
		let woken = flag.0.load(Ordering::Relaxed) && fut.is_some();
		// What happens next?
		let next = with(|w| {
			let ev = w.events();
			let n = ev.len() + woken as usize;
			if n == 0 {
				return None;
			}
			if woken && !ev.is_empty() && w.spec.fair.map_or(false, |f| row >= f) {
				turn += 1;
				return Some(Some(ev[turn % ev.len()]));
			}
			let k = if w.spec.choices.sched { w.ctx.choose(n, "schedule") } else { 0 };
			Some(if woken {
				if k == 0 {
					None
				} else {
					Some(ev[k - 1])
				}
			} else {
				Some(ev[k])
			})
		});
		match next {
			None => {
				// Everything is at rest. Let late connections in, if any are left.
				let live = crate::heap::live() - live_before;
				let more = with(|w| {
					w.rests.push((w.late_stage, live));
					let stage = w.late_stage;
					for c in w.conns.iter_mut().filter(|c| c.done_at.is_none()) {
						if c.connected && c.client.left() == 0 && c.c2s.is_empty() && c.inbox.is_empty() {
							c.done_at = Some(stage);
						}
					}
					let next = w
						.conns
						.iter()
						.filter_map(|c| if c.connected { c.awaits() } else { Some(c.spec.late) })
						.filter(|l| *l > w.late_stage)
						.min();
					if let Some(l) = next {
						w.late_stage = l;
						for i in 0..w.conns.len() {
							if w.conns[i].connected {
								w.client_act(i);
							}
						}
					}
					next.is_some()
				});
				if !more {
					break;
				}
				continue;
			}
			Some(None) => {
				flag.0.store(false, Ordering::Relaxed);
				row += 1;
				let before = with(|w| w.activity);
				let mut cx = Context::from_waker(&waker);
				let r = catch(|| {
					let _w = crate::watch::poll();
					let _o = crate::heap::owner(true);
					fut.as_mut().unwrap().as_mut().poll(&mut cx)
				});
				match r {
					Ok(Poll::Pending) => {}
					Ok(Poll::Ready(())) => {
						with(|w| w.ended = true);
						fut = None;
					}
					Err(msg) => {
						with(|w| {
							w.note(|| format!("PANIC {msg}"));
							w.panicked = Some(msg);
						});
						// The future is poisoned; whatever it holds goes away.
						let f = fut.take();
						let _ = catch(|| {
							let _w = crate::watch::poll();
							drop(f)
						});
					}
				}
				if with(|w| w.activity) == before {
					idle_polls += 1;
					if idle_polls > 2000 {
						with(|w| w.livelock = true);
						break;
					}
				} else {
					idle_polls = 0;
				}
			}
			Some(Some(e)) => {
				idle_polls = 0;
				row = 0;
				with(|w| w.apply(e));
			}
		}
		states.push(with(|w| w.state_hash(flag.0.load(Ordering::Relaxed))));
		steps += 1;
		if steps > MAX_STEPS {
			with(|w| w.truncated = true);
			break;
		}
	}
	let mut exec = with(|w| {
		let mut verdict = judge(w);
		let mut error = w.ctx.error.take();
		if w.truncated {
			// An execution that does not end is a livelock with visible activity.
			verdict = Err("the server never comes to rest".into());
		}
		if error.is_none() {
			error = w.conns.iter().find_map(|c| c.client.harness_error.clone());
		}
		Exec {
			trace: std::mem::take(&mut w.ctx.trace),
			verdict,
			error,
			outcome: w.outcome_hash(),
			states: Vec::new(),
			log: std::mem::take(&mut w.log),
		}
	});
	exec.states = states;
	// Take the world away first: what is dropped now is not part of the execution.
	let world = WORLD.with(|w| w.borrow_mut().take());
	let _ = catch(|| {
		let _w = crate::watch::poll();
		drop(fut)
	});
	drop(world);
	futures_util::__private::async_await::set_select_hook(None);
	exec
}

thread_local! {
	pub static HOST: ecdsa::SigningKey<p256::NistP256> = host_key();
}
