//! What happened on the channels of a connection, and the oracles over it.

use crate::refssh::*;
use crate::world::*;
use std::collections::HashMap;

/// A channel message from the client, as sent.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum CMsg {
	Req { ty: Vec<u8>, want: bool, data: Vec<u8> },
	Data(Vec<u8>),
	Ext,
	Eof,
	Close,
	Other,
}

/// One channel from open to close.
#[derive(Clone, Debug)]
pub struct Inst {
	pub cc: u32,
	pub sc: Option<u32>,
	pub refused: bool,
	pub ty: Vec<u8>,
	pub sent: Vec<CMsg>,
	pub got: Vec<SMsg>,
	pub proc: Option<usize>,
	/// Expected answers: true is success.
	pub want: Vec<bool>,
	/// What the process's stdin must receive.
	pub stdin: Vec<u8>,
	pub eof: bool,
	pub closed: bool,
	/// The server closed it (in order of events).
	pub server_closed: bool,
	/// The client's close arrived before the server sent its own.
	pub closed_first: bool,
	/// How much output the client allows altogether, and at once.
	pub granted: u64,
	pub max: u32,
	/// How much output it got.
	pub used: u64,
	/// It got more than it allowed.
	pub over: bool,
}

impl Inst {
	/// The client does not let the server send all of the output.
	pub fn starved(&self, w: &World) -> bool {
		match self.proc.and_then(|p| w.procs.get(p)) {
			Some(p) => {
				let n = produced(p);
				n > 0 && (self.max == 0 || n > self.granted)
			}
			None => false,
		}
	}
}

/// How much output the process has written.
pub fn produced(p: &Proc) -> u64 {
	let n = |chunks: &[Vec<u8>], at: usize, none: bool| if none { 0 } else { chunks[..at.min(chunks.len())].iter().map(Vec::len).sum() };
	(n(&p.spec.out, p.out_at, p.spec.no_stdout) + n(&p.spec.err, p.err_at, p.spec.no_stderr)) as u64
}

pub struct Ledger {
	pub conn: usize,
	pub insts: Vec<Inst>,
	pub spawns: Vec<Option<Vec<u8>>>,
}

fn will_spawn(w: &World, cmd: &Option<Vec<u8>>) -> bool {
	match cmd {
		None => !w.spec.procs.is_empty(),
		Some(c) => {
			c.first() == Some(&b'p')
				&& c.get(1).map_or(false, |d| (d.wrapping_sub(b'0') as usize) < w.spec.procs.len())
		}
	}
}

impl Ledger {
	/// Reconstruct what the client did and saw on each of its channels.
	pub fn new(w: &World, conn: usize) -> Result<Ledger, String> {
		let mut insts: Vec<Inst> = vec![];
		let mut by_cc: HashMap<u32, usize> = HashMap::new();
		let mut by_sc: HashMap<u32, usize> = HashMap::new();
		let mut spawns = vec![];
		// Processes of this connection's users, in order of creation.
		let name = conn_user(conn);
		let mine: Vec<usize> =
			(0..w.procs.len()).filter(|p| w.users[w.procs[*p].user] == name).collect();
		let mut next_proc = 0;
		for h in &w.hist {
			match h {
				H::Sent { conn: c, payload } if *c == conn => {
					let mut r = R(payload);
					let ty = r.u8().unwrap_or(0);
					if ty == 90 {
						let kind = r.s().unwrap_or(b"").to_vec();
						let cc = r.u32().unwrap_or(0);
						let (granted, max) = (u64::from(r.u32().unwrap_or(0)), r.u32().unwrap_or(0));
						by_cc.insert(cc, insts.len());
						insts.push(Inst {
							cc,
							sc: None,
							refused: false,
							ty: kind,
							sent: vec![],
							got: vec![],
							proc: None,
							want: vec![],
							stdin: vec![],
							eof: false,
							closed: false,
							server_closed: false,
							closed_first: false,
							granted,
							max,
							used: 0,
							over: false,
						});
						continue;
					}
					if !(93..=100).contains(&ty) {
						continue;
					}
					let sc = r.u32().unwrap_or(u32::MAX);
					let i = match by_sc.get(&sc) {
						Some(i) => *i,
						None => continue,
					};
					let inst = &mut insts[i];
					let m = match ty {
						93 => {
							inst.granted += u64::from(r.u32().unwrap_or(0));
							CMsg::Other
						}
						94 => CMsg::Data(r.s().unwrap_or(b"").to_vec()),
						95 => CMsg::Ext,
						96 => CMsg::Eof,
						97 => CMsg::Close,
						98 => {
							let ty = r.s().unwrap_or(b"").to_vec();
							let want = r.u8().unwrap_or(0) != 0;
							CMsg::Req { ty, want, data: r.0.to_vec() }
						}
						_ => CMsg::Other,
					};
					match &m {
						CMsg::Data(d) => {
							if inst.proc.is_some() && !inst.eof && !inst.closed {
								inst.stdin.extend_from_slice(d);
							}
						}
						CMsg::Eof => inst.eof = true,
						CMsg::Close => {
							inst.closed = true;
							inst.closed_first = !inst.server_closed;
						}
						CMsg::Req { ty, want, data } => {
							let cmd = match &ty[..] {
								b"shell" if data.is_empty() => Some(None),
								b"exec" => {
									let mut r = R(data);
									match (r.s(), r.end()) {
										(Some(c), Some(())) => Some(Some(c.to_vec())),
										_ => None,
									}
								}
								_ => None,
							};
							let mut ok = false;
							if let Some(cmd) = cmd {
								if inst.proc.is_none() {
									spawns.push(cmd.clone());
									if will_spawn(w, &cmd) {
										ok = true;
										inst.proc = Some(mine.get(next_proc).copied().unwrap_or(usize::MAX));
										next_proc += 1;
									}
								}
							}
							if *want {
								inst.want.push(ok);
							}
						}
						_ => {}
					}
					inst.sent.push(m);
				}
				H::Msg { conn: c, idx } if *c == conn => {
					let m = &w.conns[conn].msgs[*idx];
					if let SMsg::Bad(b) = m {
						return Err(format!("undecodable message {}", hex(b)));
					}
					let to = match m.to() {
						Some(t) => t,
						None => continue,
					};
					let i = *by_cc.get(&to).ok_or_else(|| format!("{} for a channel that was never opened", m.brief()))?;
					match m {
						SMsg::OpenConfirm { from, rest, .. } => {
							if insts[i].sc.is_some() || insts[i].refused {
								return Err(format!("channel open {to} answered twice"));
							}
							if !rest.is_empty() {
								return Err("open confirmation of a session carries extra data".into());
							}
							for (k, o) in insts.iter().enumerate() {
								if k != i && o.sc == Some(*from) && !(o.closed && o.server_closed) {
									return Err(format!("channel number {from} handed out while still in use"));
								}
							}
							insts[i].sc = Some(*from);
							by_sc.insert(*from, i);
						}
						SMsg::OpenFailure { .. } => {
							if insts[i].sc.is_some() || insts[i].refused {
								return Err(format!("channel open {to} answered twice"));
							}
							insts[i].refused = true;
						}
						SMsg::Close(_) => insts[i].server_closed = true,
						SMsg::Data { data, .. } | SMsg::Ext { data, .. } => {
							let x = &mut insts[i];
							x.used += data.len() as u64;
							x.over |= x.used > x.granted || data.len() as u64 > u64::from(x.max);
						}
						_ => {}
					}
					insts[i].got.push(m.clone());
				}
				_ => {}
			}
		}
		Ok(Ledger { conn, insts, spawns })
	}
}

/// The user name connection `i` logs in with.
pub fn conn_user(i: usize) -> Vec<u8> {
	format!("u{i}").into_bytes()
}

/// The connection is still served and its packet stream is intact.
pub fn stream_ok(w: &World, i: usize) -> Result<(), String> {
	let c = &w.conns[i];
	if let Some(e) = &c.client.error {
		return Err(format!("conn {i}: {e}"));
	}
	if c.gone() || c.rd_dropped || c.wr_dropped {
		return Err(format!("conn {i}: the server dropped the connection"));
	}
	if !c.client.rx.is_empty() {
		return Err(format!("conn {i}: {} bytes of an incomplete packet at rest", c.client.rx.len()));
	}
	Ok(())
}

/// Everything the client wanted to do has been done and has reached the server.
pub fn script_done(w: &World, i: usize) -> Result<(), String> {
	let c = &w.conns[i];
	if c.client.left() != 0 {
		return Err(format!("conn {i}: the client still waits for an answer ({} steps of its script left)", c.client.left()));
	}
	if !c.c2s.is_empty() || !c.inbox.is_empty() {
		return Err(format!("conn {i}: the server does not read what has arrived"));
	}
	Ok(())
}

fn proc<'a>(w: &'a World, inst: &Inst) -> Result<Option<&'a Proc>, String> {
	match inst.proc {
		None => Ok(None),
		Some(p) => w.procs.get(p).map(Some).ok_or_else(|| format!("channel {}: no process was started", inst.cc)),
	}
}

/// C14: stdin gets exactly what was sent.
pub fn check_stdin(w: &World, l: &Ledger) -> Result<(), String> {
	for i in &l.insts {
		let p = match proc(w, i)? {
			Some(p) if !p.spec.no_stdin => p,
			_ => continue,
		};
		let ch = i.cc;
		let want = &i.stdin[..];
		let got = &p.stdin[..];
		// A process that failed its stdin, or whose channel is already over, takes only the beginning.
		let partial = p.stdin_failed || p.spec.stdin_stall_at.is_some() || i.server_closed;
		if !(if partial { want.starts_with(got) } else { want == got }) {
			return Err(format!(
				"channel {ch}: the process received {:?} on stdin, the client sent {:?}",
				String::from_utf8_lossy(&got[..got.len().min(60)]),
				String::from_utf8_lossy(&want[..want.len().min(60)])
			));
		}
		// While the program runs and takes its input, nothing but the client ends it.
		if let Some((n, false)) = p.stdin_end {
			if !p.stdin_failed && !w.conns[l.conn].gone() && (n != want.len() || !(i.eof || i.closed)) {
				return Err(format!("channel {ch}: stdin of a running program ended after {n} of {} bytes", want.len()));
			}
		}
		let ended = p.stdin_dropped || p.stdin_closed;
		if (i.eof || i.closed) && !ended && p.spec.stdin_stall_at.is_none() {
			return Err(format!("channel {ch}: the client ended its data but stdin stays open"));
		}
		if ended && !(i.eof || i.closed) && !p.stdin_failed && !i.server_closed && !w.conns[l.conn].gone() {
			return Err(format!("channel {ch}: stdin ended although the client neither sent EOF nor close"));
		}
	}
	Ok(())
}

/// C15: the client gets exactly the output.
pub fn check_output(w: &World, l: &Ledger) -> Result<(), String> {
	for i in &l.insts {
		let (mut out, mut err) = (vec![], vec![]);
		for m in &i.got {
			match m {
				SMsg::Data { data, .. } => out.extend_from_slice(data),
				SMsg::Ext { ty: 1, data, .. } => err.extend_from_slice(data),
				SMsg::Ext { ty, .. } => return Err(format!("channel {}: extended data of type {ty}", i.cc)),
				_ => {}
			}
		}
		let p = match proc(w, i)? {
			Some(p) => p,
			None => {
				if !out.is_empty() || !err.is_empty() {
					return Err(format!("channel {}: output without a process", i.cc));
				}
				continue;
			}
		};
		let fed = p.stdin.len() >= p.spec.wait_stdin || p.stdin_dropped || p.stdin_closed;
		for (name, got, chunks, none) in
			[("stdout", &out, &p.spec.out, p.spec.no_stdout), ("stderr", &err, &p.spec.err, p.spec.no_stderr)]
		{
			let want: Vec<u8> = if none { vec![] } else { chunks.concat() };
			let ok = if i.closed_first || !fed || i.starved(w) { want.starts_with(got) } else { want == *got };
			if !ok {
				return Err(format!(
					"channel {}: the client received {:?} ({} bytes) from {name}, the process wrote {:?} ({} bytes)",
					i.cc,
					String::from_utf8_lossy(&got[..got.len().min(60)]),
					got.len(),
					String::from_utf8_lossy(&want[..want.len().min(60)]),
					want.len()
				));
			}
		}
	}
	Ok(())
}

/// C29: no more than the client allows, and all of that.
pub fn check_windows(l: &Ledger, w: &World) -> Result<(), String> {
	for i in &l.insts {
		if i.over {
			return Err(format!(
				"channel {}: the client allowed {} bytes, at most {} at once, and got {} or more at once",
				i.cc, i.granted, i.max, i.used
			));
		}
		if let Some(p) = proc(w, i)? {
			let all = if i.max == 0 { 0 } else { produced(p).min(i.granted) };
			if !i.closed_first && i.used != all {
				return Err(format!("channel {}: {} bytes of output arrived, {all} can be sent", i.cc, i.used));
			}
		}
	}
	Ok(())
}

/// C16: exit status, EOF, close.
pub fn check_ending(w: &World, l: &Ledger) -> Result<(), String> {
	for i in &l.insts {
		let ch = i.cc;
		if i.refused {
			continue;
		}
		let count = |f: fn(&SMsg) -> bool| i.got.iter().filter(|m| f(m)).count();
		let n_eof = count(|m| matches!(m, SMsg::Eof(_)));
		let n_close = count(|m| matches!(m, SMsg::Close(_)));
		let status: Vec<u32> =
			i.got.iter().filter_map(|m| if let SMsg::ExitStatus { status, .. } = m { Some(*status) } else { None }).collect();
		if let Some(c) = i.got.iter().position(|m| matches!(m, SMsg::Close(_))) {
			if let Some(m) = i.got.get(c + 1) {
				return Err(format!("channel {ch}: {} after close", m.brief()));
			}
		}
		if let Some(e) = i.got.iter().position(|m| matches!(m, SMsg::Eof(_))) {
			if let Some(m) = i.got[e + 1..].iter().find(|m| matches!(m, SMsg::Data { .. } | SMsg::Ext { .. } | SMsg::Eof(_))) {
				return Err(format!("channel {ch}: {} after EOF", m.brief()));
			}
		}
		if i.got.iter().any(|m| matches!(m, SMsg::ExitStatus { want, .. } if *want != 0)) {
			return Err(format!("channel {ch}: exit status asks for a reply"));
		}
		if n_close > 1 {
			return Err(format!("channel {ch}: closed {n_close} times"));
		}
		if status.len() > 1 {
			return Err(format!("channel {ch}: {} exit statuses", status.len()));
		}
		if i.closed && n_close != 1 {
			return Err(format!("channel {ch}: the client closed it and got no close back"));
		}
		match proc(w, i)? {
			None => {
				if !status.is_empty() {
					return Err(format!("channel {ch}: exit status without a process"));
				}
				if n_close != 0 && !i.closed {
					return Err(format!("channel {ch}: closed without reason"));
				}
			}
			Some(p) => {
				let out_end = p.spec.no_stdout || p.out_at > p.spec.out.len();
				let err_end = p.spec.no_stderr || p.err_at > p.spec.err.len();
				if let Some(s) = status.first() {
					if !p.exited {
						return Err(format!("channel {ch}: exit status before the process ended"));
					}
					if *s != p.spec.status {
						return Err(format!("channel {ch}: exit status {s} instead of {}", p.spec.status));
					}
				}
				if n_eof > 0 && !(out_end && err_end) {
					return Err(format!("channel {ch}: EOF while the process can still write"));
				}
				if n_close > 0 && !i.closed_first {
					// The server closes on its own only when everything is over.
					if !(p.exited && out_end && err_end) {
						return Err(format!("channel {ch}: closed while the process is still there"));
					}
				}
				if !i.closed_first && p.exited && out_end && err_end {
					if status.len() != 1 {
						return Err(format!("channel {ch}: the process ended with {} but no exit status was sent", p.spec.status));
					}
					if i.starved(w) {
						if n_eof + n_close != 0 {
							return Err(format!("channel {ch}: ended although there is output left"));
						}
						continue;
					}
					if n_eof != 1 {
						return Err(format!("channel {ch}: the process's output ended and {n_eof} EOFs were sent"));
					}
					if n_close != 1 {
						return Err(format!("channel {ch}: the process is over and the channel was not closed"));
					}
				}
			}
		}
	}
	Ok(())
}

/// C18: replies and spawns.
pub fn check_replies(w: &World, l: &Ledger) -> Result<(), String> {
	for i in &l.insts {
		let session = i.ty == b"session";
		if i.refused && session {
			return Err(format!("channel {}: session refused", i.cc));
		}
		if i.sc.is_some() && !session {
			return Err(format!("channel {}: confirmed a channel of type {:?}", i.cc, String::from_utf8_lossy(&i.ty)));
		}
		if i.sc.is_none() && !i.refused {
			return Err(format!("channel {}: open never answered", i.cc));
		}
		let got: Vec<bool> = i
			.got
			.iter()
			.filter_map(|m| match m {
				SMsg::Success(_) => Some(true),
				SMsg::Failure(_) => Some(false),
				_ => None,
			})
			.collect();
		// Once the server has closed the channel it may no longer answer.
		let ok = if i.server_closed && !i.closed_first { i.want.starts_with(&got) } else { got == i.want };
		if !ok {
			return Err(format!("channel {}: answers {got:?} instead of {:?} (true is success)", i.cc, i.want));
		}
		if i.got.iter().any(|m| matches!(m, SMsg::Request { .. })) {
			return Err(format!("channel {}: unexpected request from the server", i.cc));
		}
	}
	let name = conn_user(l.conn);
	let got: Vec<Option<Vec<u8>>> = w
		.hist
		.iter()
		.filter_map(|h| match h {
			H::Spawn { uid, cmd } if w.users[*uid] == name => Some(cmd.clone()),
			_ => None,
		})
		.collect();
	if got != l.spawns {
		return Err(format!(
			"spawned {:?} instead of {:?}",
			got.iter().map(|c| c.as_deref().map(String::from_utf8_lossy)).collect::<Vec<_>>(),
			l.spawns.iter().map(|c| c.as_deref().map(String::from_utf8_lossy)).collect::<Vec<_>>()
		));
	}
	Ok(())
}

/// All channel properties at once: the connection was served completely and correctly.
pub fn served(w: &World, i: usize) -> Result<(), String> {
	stream_ok(w, i)?;
	script_done(w, i)?;
	let l = Ledger::new(w, i)?;
	let e = |e: String| format!("conn {i}: {e}");
	check_replies(w, &l).map_err(e)?;
	check_stdin(w, &l).map_err(e)?;
	check_output(w, &l).map_err(e)?;
	check_ending(w, &l).map_err(e)?;
	Ok(())
}

// ---------------------------------------------------------------- scripts

pub fn login(i: usize) -> Vec<Act> {
	vec![
		Act::Pay(m::service_request("ssh-userauth")),
		Act::Msgs(1),
		Act::Pay(m::auth_password(&conn_user(i), b"good")),
		Act::Msgs(2),
		Act::Enable,
	]
}

pub fn open(cc: u32) -> Act {
	Act::Pay(m::open("session", cc, 0x20_0000, 0x8000))
}

/// Log in, then do this.
pub fn script(i: usize, acts: Vec<Act>) -> Vec<Act> {
	let mut v = login(i);
	v.extend(acts);
	v
}

pub fn conn(i: usize, acts: Vec<Act>) -> ConnSpec {
	ConnSpec { script: script(i, acts), ..Default::default() }
}

/// Open a channel and run a command on it.
pub fn exec(cc: u32, cmd: &str) -> Vec<Act> {
	vec![open(cc), Act::Ch(cc, ChMsg::exec(true, cmd))]
}

pub fn bytes(n: usize, salt: u8) -> Vec<u8> {
	(0..n).map(|i| (i as u8).wrapping_mul(31).wrapping_add(salt) ^ (i >> 8) as u8).collect()
}
