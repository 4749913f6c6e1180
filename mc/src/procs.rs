//! Real programs, run as an unprivileged user inside a scratch directory.

use std::collections::HashMap;
use std::ffi::CString;
use std::io::{Read, Write};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::io::AsRawFd;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, ChildStdout, Command, ExitStatus, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

pub const NOBODY: u32 = 65534;
/// A program that does nothing for this long hangs.
pub const HANG: Duration = Duration::from_secs(20);

static WATCHED: OnceLock<Mutex<HashMap<u32, Instant>>> = OnceLock::new();
static CLEAN: Mutex<Vec<PathBuf>> = Mutex::new(vec![]);

fn watched() -> &'static Mutex<HashMap<u32, Instant>> {
	WATCHED.get_or_init(|| {
		std::thread::spawn(|| loop {
			std::thread::sleep(Duration::from_millis(250));
			let now = Instant::now();
			for (pid, end) in watched().lock().unwrap().iter() {
				if now > *end {
					// Our own child, not yet waited for.
					unsafe { libc::kill(*pid as i32, libc::SIGKILL) };
				}
			}
		});
		Mutex::new(HashMap::new())
	})
}

fn chown(p: &Path) -> Result<(), String> {
	let c = CString::new(p.as_os_str().as_bytes()).unwrap();
	if unsafe { libc::chown(c.as_ptr(), NOBODY, NOBODY) } != 0 {
		return Err(format!("HARNESS:chown {}: {}", p.display(), std::io::Error::last_os_error()));
	}
	Ok(())
}

static KILL: Mutex<Vec<u32>> = Mutex::new(vec![]);

/// Remove what was created; called before the check ends.
pub fn clean() {
	for p in KILL.lock().unwrap().drain(..) {
		// Our own children, not yet waited for.
		unsafe { libc::kill(p as i32, libc::SIGKILL) };
	}
	for p in CLEAN.lock().unwrap().drain(..) {
		// Directories may have been made unwritable; root does not care.
		let _ = std::fs::remove_dir_all(p);
	}
}

/// Where programs may write, and a copy of the program under test.
pub struct Bench {
	pub work: PathBuf,
	pub bin: PathBuf,
	n: AtomicUsize,
}

impl Bench {
	pub fn new(program: &str) -> Result<Self, String> {
		let h = |e: std::io::Error| format!("HARNESS:scratch directory: {e}");
		let top = std::env::temp_dir().join(format!("nora-mc-{}-{program}", std::process::id()));
		let _ = std::fs::remove_dir_all(&top);
		std::fs::create_dir_all(&top).map_err(h)?;
		CLEAN.lock().unwrap().push(top.clone());
		let bin = top.join(program);
		std::fs::copy(crate::report::root().join("target/repo/debug").join(program), &bin).map_err(h)?;
		use std::os::unix::fs::PermissionsExt;
		std::fs::set_permissions(&top, std::fs::Permissions::from_mode(0o755)).map_err(h)?;
		std::fs::set_permissions(&bin, std::fs::Permissions::from_mode(0o755)).map_err(h)?;
		let work = top.join("work");
		std::fs::create_dir(&work).map_err(h)?;
		chown(&work)?;
		Ok(Self { work, bin, n: AtomicUsize::new(0) })
	}

	/// A fresh directory that belongs to the unprivileged user.
	pub fn dir(&self) -> Result<Dir, String> {
		let p = self.work.join(self.n.fetch_add(1, Ordering::Relaxed).to_string());
		std::fs::create_dir(&p).map_err(|e| format!("HARNESS:{e}"))?;
		chown(&p)?;
		Ok(Dir(p))
	}

	pub fn command(&self, cwd: &Path, args: &[&[u8]]) -> Command {
		let mut c = Command::new(&self.bin);
		c.args(args.iter().map(|a| std::ffi::OsStr::from_bytes(a)));
		c.current_dir(cwd).env_clear().env("PATH", "/usr/local/bin:/usr/bin:/bin").env("HOME", "/nonexistent");
		c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
		c.uid(NOBODY).gid(NOBODY);
		c
	}

	pub fn start(&self, cwd: &Path, args: &[&[u8]]) -> Result<Run, String> {
		let mut child = self.command(cwd, args).spawn_alone().map_err(|e| format!("HARNESS:cannot start the program: {e}"))?;
		watched().lock().unwrap().insert(child.id(), Instant::now() + HANG);
		Ok(Run { stdin: child.stdin.take(), stdout: child.stdout.take().unwrap(), child, out: vec![], done: false })
	}

	/// Give it this input, then the end of input; returns its output and how it ended.
	pub fn feed(&self, cwd: &Path, args: &[&[u8]], input: &[u8]) -> Result<(Vec<u8>, End), String> {
		let mut r = self.start(cwd, args)?;
		r.write(input);
		r.finish()
	}
}

impl Bench {
	/// Two runs, each one's output connected to the other's input.
	pub fn connected(&self, cwd_a: &Path, a: &[&[u8]], cwd_b: &Path, b: &[&[u8]]) -> Result<(End, End), String> {
		let h = |e: std::io::Error| format!("HARNESS:cannot start the program: {e}");
		let mut second = self.command(cwd_b, b).spawn_alone().map_err(h)?;
		let (i, o) = (second.stdin.take().unwrap(), second.stdout.take().unwrap());
		let mut c = self.command(cwd_a, a);
		c.stdin(Stdio::from(o)).stdout(Stdio::from(i));
		let mut first = c.spawn_alone().map_err(h)?;
		// Our own ends of the pipes are closed with the command.
		drop(c);
		let limit = Instant::now() + HANG;
		for p in [&first, &second] {
			watched().lock().unwrap().insert(p.id(), limit);
		}
		let done = |p: &mut Child| -> Result<End, String> {
			let st = p.wait().map_err(|e| format!("HARNESS:{e}"))?;
			watched().lock().unwrap().remove(&p.id());
			Ok(end(st, Instant::now() > limit))
		};
		Ok((done(&mut first)?, done(&mut second)?))
	}

	/// A run that cannot make files larger than this: writes beyond fail.
	pub fn limited(&self, cwd: &Path, args: &[&[u8]], input: &[u8], limit: u64) -> Result<(Vec<u8>, End), String> {
		let mut c = self.command(cwd, args);
		unsafe {
			c.pre_exec(move || {
				libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
				let l = libc::rlimit { rlim_cur: limit, rlim_max: limit };
				if libc::setrlimit(libc::RLIMIT_FSIZE, &l) != 0 {
					return Err(std::io::Error::last_os_error());
				}
				Ok(())
			});
		}
		let mut child = c.spawn_alone().map_err(|e| format!("HARNESS:cannot start the program: {e}"))?;
		watched().lock().unwrap().insert(child.id(), Instant::now() + HANG);
		let mut r = Run { stdin: child.stdin.take(), stdout: child.stdout.take().unwrap(), child, out: vec![], done: false };
		r.write(input);
		r.finish()
	}

	/// A run whose output goes nowhere: every write fails.
	pub fn unwritable(&self, cwd: &Path, args: &[&[u8]], input: &[u8]) -> Result<End, String> {
		let full = std::fs::OpenOptions::new().write(true).open("/dev/full").map_err(|e| format!("HARNESS:{e}"))?;
		let mut c = self.command(cwd, args);
		c.stdout(Stdio::from(full));
		let mut p = c.spawn_alone().map_err(|e| format!("HARNESS:cannot start the program: {e}"))?;
		let limit = Instant::now() + HANG;
		watched().lock().unwrap().insert(p.id(), limit);
		if let Some(mut i) = p.stdin.take() {
			let _ = i.write_all(input);
		}
		let st = p.wait().map_err(|e| format!("HARNESS:{e}"))?;
		watched().lock().unwrap().remove(&p.id());
		Ok(end(st, Instant::now() > limit))
	}
}

pub fn executable(p: &Path) {
	use std::os::unix::fs::PermissionsExt;
	let _ = std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o755));
}

/// A program that runs until it is ended.
pub struct Daemon(pub Child);

impl Daemon {
	pub fn alive(&mut self) -> bool {
		matches!(self.0.try_wait(), Ok(None))
	}
}

impl Drop for Daemon {
	fn drop(&mut self) {
		KILL.lock().unwrap().retain(|p| *p != self.0.id());
		let _ = self.0.kill();
		let _ = self.0.wait();
	}
}

impl Bench {
	/// Run the program in the background until it listens on port 2222. To be called from the main thread.
	pub fn daemon(&self, env: &[(&str, &str)]) -> Result<Daemon, String> {
		self.daemon_limited(env, None)
	}

	/// It may have only so many descriptors.
	pub fn daemon_limited(&self, env: &[(&str, &str)], descriptors: Option<u64>) -> Result<Daemon, String> {
		const ADDR: &str = "127.0.0.1:2222";
		if std::net::TcpStream::connect(ADDR).is_ok() {
			return Err("HARNESS:port 2222 is in use".into());
		}
		let mut c = self.command(&self.work, &[]);
		c.stdin(Stdio::null()).stdout(Stdio::null()).envs(env.iter().copied());
		unsafe {
			c.pre_exec(move || {
				libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
				if let Some(n) = descriptors {
					let l = libc::rlimit { rlim_cur: n, rlim_max: n };
					if libc::setrlimit(libc::RLIMIT_NOFILE, &l) != 0 {
						return Err(std::io::Error::last_os_error());
					}
				}
				// Whatever is open here is not its.
				for f in 3..1024 {
					libc::fcntl(f, libc::F_SETFD, libc::FD_CLOEXEC);
				}
				Ok(())
			});
		}
		let p = c.spawn_alone().map_err(|e| format!("HARNESS:cannot start the daemon: {e}"))?;
		KILL.lock().unwrap().push(p.id());
		let mut d = Daemon(p);
		for _ in 0..3000 {
			if std::net::TcpStream::connect(ADDR).is_ok() {
				return Ok(d);
			}
			if !d.alive() {
				return Err("the daemon ended at once".into());
			}
			std::thread::sleep(Duration::from_millis(10));
		}
		Err("the daemon does not listen".into())
	}

	/// This program itself, where the unprivileged user can run it.
	pub fn helper(&self) -> Result<String, String> {
		let h = |e: std::io::Error| format!("HARNESS:helper: {e}");
		let to = self.bin.with_file_name("h");
		std::fs::copy(std::env::current_exe().map_err(h)?, &to).map_err(h)?;
		executable(&to);
		Ok(to.to_str().unwrap().into())
	}
}

pub struct Dir(pub PathBuf);

impl Drop for Dir {
	fn drop(&mut self) {
		let _ = std::fs::remove_dir_all(&self.0);
	}
}

impl Dir {
	/// A directory below, made by and for the unprivileged user.
	pub fn mkdir(&self, rel: &str) -> Result<PathBuf, String> {
		let mut p = self.0.clone();
		for part in rel.split('/') {
			p.push(part);
			if !p.is_dir() {
				std::fs::create_dir(&p).map_err(|e| format!("HARNESS:{e}"))?;
				chown(&p)?;
			}
		}
		Ok(p)
	}
	pub fn file(&self, rel: &str, data: &[u8]) -> Result<PathBuf, String> {
		let p = self.0.join(rel);
		std::fs::write(&p, data).map_err(|e| format!("HARNESS:{e}"))?;
		chown(&p)?;
		Ok(p)
	}
	/// Everything in it: relative path to content; directories have none.
	pub fn tree(&self) -> Result<HashMap<Vec<u8>, Option<Vec<u8>>>, String> {
		fn go(at: &Path, rel: &[u8], out: &mut HashMap<Vec<u8>, Option<Vec<u8>>>) -> std::io::Result<()> {
			for e in std::fs::read_dir(at)? {
				let e = e?;
				let mut r = rel.to_vec();
				if !r.is_empty() {
					r.push(b'/');
				}
				r.extend_from_slice(e.file_name().as_bytes());
				let t = e.file_type()?;
				if t.is_dir() {
					go(&e.path(), &r, out)?;
					out.insert(r, None);
				} else {
					out.insert(r, Some(std::fs::read(e.path())?));
				}
			}
			Ok(())
		}
		let mut out = HashMap::new();
		go(&self.0, b"", &mut out).map_err(|e| format!("HARNESS:{e}"))?;
		Ok(out)
	}
}

/// How a program ended.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End {
	Code(i32),
	Crash,
	Hang,
}

/// Between fork and exec a program holds copies of all our descriptors.
static FORKS: std::sync::RwLock<()> = std::sync::RwLock::new(());

trait SpawnAlone {
	fn spawn_alone(&mut self) -> std::io::Result<Child>;
}

impl SpawnAlone for Command {
	fn spawn_alone(&mut self) -> std::io::Result<Child> {
		let _l = FORKS.read().unwrap();
		self.spawn()
	}
}

pub struct Run {
	pub child: Child,
	stdin: Option<ChildStdin>,
	stdout: ChildStdout,
	/// Everything it wrote so far.
	pub out: Vec<u8>,
	done: bool,
}

impl Drop for Run {
	fn drop(&mut self) {
		if !self.done {
			let _ = self.child.kill();
			let _ = self.child.wait();
			watched().lock().unwrap().remove(&self.child.id());
		}
	}
}

impl Run {
	/// Errors are left for the program's end to tell.
	pub fn write(&mut self, b: &[u8]) {
		if let Some(i) = self.stdin.as_mut() {
			if i.write_all(b).is_err() {
				self.stdin = None;
			}
		}
	}

	/// Wait until everything written has been taken.
	pub fn drained(&mut self) -> bool {
		let fd = match &self.stdin {
			None => return false,
			Some(i) => i.as_raw_fd(),
		};
		let end = Instant::now() + HANG;
		loop {
			let mut n: libc::c_int = 0;
			if unsafe { libc::ioctl(fd, libc::FIONREAD, &mut n) } != 0 {
				return false;
			}
			if n == 0 {
				return true;
			}
			if Instant::now() > end || matches!(self.child.try_wait(), Ok(Some(_))) {
				return false;
			}
			std::thread::yield_now();
		}
	}

	/// Read until this many bytes of output have arrived in total; false if it ends before.
	pub fn expect(&mut self, total: usize) -> bool {
		let mut buf = [0; 4096];
		while self.out.len() < total {
			let l = buf.len().min(total - self.out.len());
			match self.stdout.read(&mut buf[..l]) {
				Ok(0) | Err(_) => return false,
				Ok(n) => self.out.extend_from_slice(&buf[..n]),
			}
		}
		true
	}

	/// Whether there is output that has not been read.
	pub fn more(&mut self) -> bool {
		let mut n: libc::c_int = 0;
		unsafe { libc::ioctl(self.stdout.as_raw_fd(), libc::FIONREAD, &mut n) };
		n > 0
	}

	/// Read one byte.
	pub fn byte(&mut self) -> Option<u8> {
		let n = self.out.len() + 1;
		self.expect(n).then(|| self.out[n - 1])
	}

	/// Close our end of its output: whatever it writes from now on fails.
	pub fn hang_up(&mut self) -> Result<(), String> {
		let null = std::fs::File::open("/dev/null").map_err(|e| format!("HARNESS:{e}"))?;
		// No copy of it may be left.
		let _l = FORKS.write().unwrap();
		if unsafe { libc::dup3(null.as_raw_fd(), self.stdout.as_raw_fd(), libc::O_CLOEXEC) } < 0 {
			return Err("HARNESS:dup3".into());
		}
		Ok(())
	}

	pub fn end_input(&mut self) {
		self.stdin = None;
	}

	pub fn finish(mut self) -> Result<(Vec<u8>, End), String> {
		self.stdin = None;
		let mut rest = vec![];
		let _ = self.stdout.read_to_end(&mut rest);
		self.out.extend(rest);
		let st = self.child.wait().map_err(|e| format!("HARNESS:{e}"))?;
		let late = watched().lock().unwrap().remove(&self.child.id()).map_or(false, |e| Instant::now() > e);
		self.done = true;
		Ok((std::mem::take(&mut self.out), end(st, late)))
	}
}

fn end(st: ExitStatus, late: bool) -> End {
	match (st.code(), st.signal()) {
		// A panic ends with 101.
		(Some(101), _) => End::Crash,
		(Some(c), _) => End::Code(c),
		(None, Some(libc::SIGKILL)) if late => End::Hang,
		_ => End::Crash,
	}
}
