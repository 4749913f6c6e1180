//! Watches the threads that run the code under test: code that never returns, that takes memory without end or that
//! aborts the process cannot be judged by the thread that called it.

use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicU8, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// CPU time one poll of the server may take, in seconds. Normal are microseconds.
const POLL: u64 = 20;
/// Memory of one server, in bytes.
pub const MEMORY: isize = 1 << 30;

#[derive(Default)]
pub struct Slot {
	/// Odd while the code under test runs.
	seq: AtomicU64,
	/// CPU time limit of what runs now.
	limit: AtomicU64,
	clock: AtomicU64,
	dead: AtomicBool,
	/// 1: out of memory, 2: aborted.
	lost: AtomicU8,
	/// Scenario and choices.
	what: Mutex<(String, Vec<(u8, u8)>)>,
}

static SLOTS: Mutex<Vec<Arc<Slot>>> = Mutex::new(Vec::new());

struct Own(Arc<Slot>);

impl Drop for Own {
	fn drop(&mut self) {
		self.0.dead.store(true, Ordering::SeqCst);
		RAW.with(|r| r.set(std::ptr::null()));
	}
}

thread_local! {
	static OWN: RefCell<Option<Own>> = const { RefCell::new(None) };
	/// For the allocator and the signal handler.
	static RAW: Cell<*const Slot> = const { Cell::new(std::ptr::null()) };
}

fn slot<R>(f: impl FnOnce(&Slot) -> R) -> R {
	OWN.with(|o| {
		let mut o = o.borrow_mut();
		let own = o.get_or_insert_with(|| {
			let s = Arc::new(Slot::default());
			let mut c: libc::clockid_t = 0;
			unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut c) };
			s.clock.store(c as u32 as u64, Ordering::SeqCst);
			RAW.with(|r| r.set(Arc::as_ptr(&s)));
			SLOTS.lock().unwrap().push(s.clone());
			Own(s)
		});
		f(&own.0)
	})
}

/// Says what this thread is about to run.
pub fn about(name: &str, picks: &[(u8, u8)]) {
	slot(|s| {
		let mut w = s.what.lock().unwrap();
		w.0.clear();
		w.0.push_str(name);
		w.1.clear();
		w.1.extend_from_slice(picks);
	})
}

/// While this lives the code under test runs.
pub struct Running;

pub fn poll() -> Running {
	running(POLL)
}

pub fn running(limit: u64) -> Running {
	slot(|s| {
		s.limit.store(limit, Ordering::Relaxed);
		s.seq.fetch_add(1, Ordering::Release);
	});
	Running
}

impl Drop for Running {
	fn drop(&mut self) {
		slot(|s| s.seq.fetch_add(1, Ordering::Release));
	}
}

fn park(how: u8) -> ! {
	let p = RAW.try_with(|r| r.get()).unwrap_or(std::ptr::null());
	if p.is_null() || unsafe { (*p).seq.load(Ordering::SeqCst) } % 2 == 0 {
		// Not the code under test.
		unsafe { libc::_exit(2) }
	}
	unsafe { (*p).lost.store(how, Ordering::SeqCst) };
	loop {
		unsafe { libc::usleep(1_000_000) };
	}
}

/// Called by the allocator when the server has taken too much.
pub fn too_much() -> ! {
	park(1)
}

extern "C" fn aborted(_: libc::c_int) {
	park(2)
}

fn cpu(clock: u64) -> Option<u64> {
	let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
	let r = unsafe { libc::clock_gettime(clock as u32 as libc::clockid_t, &mut t) };
	(r == 0).then_some(t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64)
}

/// Start watching. `report` gets scenario, choices and message, and ends the process.
pub fn start(report: impl Fn(&str, &[(u8, u8)], &str) + Send + 'static) {
	unsafe {
		let f: extern "C" fn(libc::c_int) = aborted;
		libc::signal(libc::SIGABRT, f as libc::sighandler_t);
	}
	std::thread::spawn(move || {
		// Slot, what it was in, CPU time then.
		let mut seen: Vec<(*const Slot, u64, u64)> = vec![];
		loop {
			std::thread::sleep(Duration::from_millis(200));
			let slots: Vec<Arc<Slot>> = {
				let mut s = SLOTS.lock().unwrap();
				s.retain(|s| !s.dead.load(Ordering::SeqCst));
				s.clone()
			};
			let mut now = vec![];
			for s in &slots {
				let fail = |m: String| {
					let w = s.what.lock().unwrap().clone();
					report(&w.0, &w.1, &m);
				};
				match s.lost.load(Ordering::SeqCst) {
					1 => fail(format!("takes more than {} MB of memory", MEMORY >> 20)),
					2 => fail("aborts the process".into()),
					_ => {}
				}
				let seq = s.seq.load(Ordering::Acquire);
				let t = match cpu(s.clock.load(Ordering::SeqCst)) {
					Some(t) if seq % 2 == 1 => t,
					_ => continue,
				};
				let key = Arc::as_ptr(s);
				let from = seen.iter().find(|x| x.0 == key && x.1 == seq).map_or(t, |x| x.2);
				let limit = s.limit.load(Ordering::Relaxed);
				if t.saturating_sub(from) > limit * 1_000_000_000 && s.seq.load(Ordering::Acquire) == seq {
					fail("never returns".into());
				}
				now.push((key, seq, from));
			}
			seen = now;
		}
	});
}
