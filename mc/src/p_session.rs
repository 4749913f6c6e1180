//! C14 to C18: channels and processes.

use crate::report::Rep;
use crate::refssh::SMsg;
use crate::session::*;
use crate::world::*;
use std::sync::Arc;

fn s(b: &str) -> Vec<u8> {
	b.as_bytes().to_vec()
}

fn chk(f: impl Fn(&World) -> Result<(), String> + Send + Sync + 'static) -> Check {
	Arc::new(f)
}

/// Alive, script finished, stream intact on connection 0.
fn base(w: &World) -> Result<Ledger, String> {
	w.alive()?;
	stream_ok(w, 0)?;
	script_done(w, 0)?;
	Ledger::new(w, 0)
}

/// The session scenarios: (name, client script, processes).
fn scenarios() -> Vec<(&'static str, Vec<Act>, Vec<ProcSpec>)> {
	let d = |cc, x: &str| Act::Ch(cc, ChMsg::Data(s(x)));
	let eof = |cc| Act::Ch(cc, ChMsg::Eof);
	let close = |cc| Act::Ch(cc, ChMsg::Close);
	let mut v = Vec::new();
	// Input and output at the same time.
	let mut a = exec(7, "p0 a");
	a.extend([d(7, "first "), d(7, "second "), d(7, "third"), eof(7)]);
	v.push((
		"cat",
		a,
		vec![ProcSpec { out: vec![s("out1 "), s("out2")], err: vec![s("err1")], status: 3, ..Default::default() }],
	));
	// The process answers what it reads, closes late.
	let mut a = exec(7, "p0 a");
	a.extend([d(7, "question"), Act::GotData(7, 6), d(7, "more"), eof(7), Act::GotClose(7), close(7)]);
	v.push((
		"dialogue",
		a,
		vec![ProcSpec {
			out: vec![s("answer"), s("bye")],
			wait_stdin: 8,
			exit_after_eof: true,
			status: 0,
			..Default::default()
		}],
	));
	// Two channels at once.
	let mut a = vec![open(1), open(2)];
	a.extend([
		Act::Ch(1, ChMsg::exec(true, "p0 one")),
		Act::Ch(2, ChMsg::exec(false, "p1 two")),
		d(1, "for one"),
		d(2, "for two"),
		eof(2),
		d(1, "!"),
		eof(1),
	]);
	v.push((
		"two-channels",
		a,
		vec![
			ProcSpec { out: vec![s("from one")], err: vec![s("E1")], status: 1, ..Default::default() },
			ProcSpec { out: vec![s("from two")], err: vec![], status: 255, ..Default::default() },
		],
	));
	// Chunks larger than any internal buffer.
	let mut a = exec(0, "p0 big");
	a.extend([Act::Ch(0, ChMsg::Data(bytes(1500, 3))), eof(0)]);
	v.push((
		"large",
		a,
		vec![ProcSpec { out: vec![bytes(700, 1)], err: vec![bytes(300, 2)], status: 0x8000_0001, ..Default::default() }],
	));
	// Requests and ignored messages between data.
	let mut a = exec(7, "p0 a");
	a.extend([
		d(7, "x"),
		Act::Ch(7, ChMsg::Request { ty: s("env"), want: true, data: crate::refssh::W::default().s("A").s("B").done() }),
		Act::Pay(crate::refssh::W::new(2).s("ignored").done()),
		Act::Ch(7, ChMsg::Ext(1, s("not input"))),
		d(7, "y"),
		Act::Ch(7, ChMsg::Window(1000)),
		open(8),
		close(8),
		d(7, "z"),
	]);
	v.push((
		"interleaved",
		a,
		vec![ProcSpec { out: vec![s("12"), s("34"), s("56")], err: vec![s("e")], status: 7, ..Default::default() }],
	));
	// The client closes while the process is active.
	let mut a = exec(7, "p0 a");
	a.extend([d(7, "data"), close(7)]);
	a.extend(exec(9, "p1 b"));
	v.push((
		"close-early",
		a,
		vec![
			ProcSpec { out: vec![s("o1"), s("o2")], err: vec![s("e1")], status: 9, ..Default::default() },
			ProcSpec { out: vec![s("later")], status: 4, ..Default::default() },
		],
	));
	v
}

/// Pipes that do not exist, output that fails, status values.
fn variants() -> Vec<(String, Vec<Act>, Vec<ProcSpec>)> {
	let mut v = Vec::new();
	for bits in 0..8u8 {
		for (i, status) in [0, 1, 255, 256, u32::MAX].into_iter().enumerate() {
			let mut a = exec(5, "p0 v");
			a.push(Act::Ch(5, ChMsg::Data(s("input"))));
			if i % 2 == 0 {
				a.push(Act::Ch(5, ChMsg::Eof));
			}
			v.push((
				format!("pipes {bits:03b} status {status}"),
				a,
				vec![ProcSpec {
					out: vec![s("out")],
					err: vec![s("err")],
					status,
					no_stdin: bits & 1 != 0,
					no_stdout: bits & 2 != 0,
					no_stderr: bits & 4 != 0,
					..Default::default()
				}],
			));
		}
	}
	// The client has no input from the beginning.
	for after in [false, true] {
		let mut a = vec![open(5), Act::Ch(5, ChMsg::Data(s("too early"))), Act::Ch(5, ChMsg::Eof), Act::Ch(5, ChMsg::exec(true, "p0 e"))];
		if after {
			a.push(Act::Ch(5, ChMsg::Eof));
		}
		v.push((format!("EOF before exec, again {after}"), a, vec![ProcSpec { out: vec![s("out")], exit_after_eof: true, status: 6, ..Default::default() }]));
	}
	for at in 0..=4 {
		let mut a = exec(5, "p0 f");
		a.extend(exec(6, "p1 g"));
		a.extend([Act::Ch(5, ChMsg::Data(s("ab"))), Act::Ch(6, ChMsg::Data(s("12"))), Act::Ch(5, ChMsg::Data(s("cd"))), Act::Ch(6, ChMsg::Data(s("34"))), Act::Ch(5, ChMsg::Data(s("ef"))), Act::Ch(6, ChMsg::Eof)]);
		v.push((
			format!("input refused after {at} bytes, another goes on"),
			a,
			vec![
				ProcSpec { stdin_err_at: Some(at), out: vec![s("out")], status: 2, ..Default::default() },
				ProcSpec { out: vec![s("beside")], status: 3, exit_after_eof: true, ..Default::default() },
			],
		));
	}
	for (o, e) in [(true, false), (false, true), (true, true)] {
		let mut a = exec(5, "p0 f");
		a.push(Act::Ch(5, ChMsg::Eof));
		v.push((
			format!("failing pipes out={o} err={e}"),
			a,
			vec![ProcSpec { out: vec![s("out")], err: vec![s("err")], status: 2, out_err: o, err_err: e, ..Default::default() }],
		));
	}
	v
}

fn build(check: &Check, choices: Choices, policies: &[Policy], only: &[&str]) -> Vec<Spec> {
	let mut v = Vec::new();
	for (name, acts, procs) in scenarios() {
		if !only.is_empty() && !only.contains(&name) {
			continue;
		}
		for p in policies {
			v.push(Spec {
				name: format!("{name}/{}", p.0),
				choices,
				policy: *p,
				conns: vec![conn(0, acts.clone())],
				procs: procs.clone(),
				check: check.clone(),
				..Default::default()
			});
		}
	}
	v
}

/// Every scenario with every policy at bound 1, then deeper; half of the policies of each scenario in the quick tier.
fn schedules(rep: &mut Rep, check: &Check, choices: Choices) {
	let all = build(check, choices, &POLICIES, &[]);
	if rep.quick() {
		rep.wide("every scenario and policy", all.clone(), 1);
		rep.deep(all.into_iter().enumerate().filter(|(i, _)| (i / 4 + i % 4) % 2 == 0).map(|(_, s)| s).collect(), 2);
	} else {
		rep.deep(all, 3);
	}
}

fn build_variants(check: &Check, choices: Choices) -> Vec<Spec> {
	let mut v = Vec::new();
	for (name, acts, procs) in variants() {
		for p in POLICIES {
			v.push(Spec {
				name: format!("{name}/{}", p.0),
				choices,
				policy: p,
				conns: vec![conn(0, acts.clone())],
				procs: procs.clone(),
				check: check.clone(),
				..Default::default()
			});
		}
	}
	v
}

/// Contents and amounts of input and output, one after the other; transports and pipes of several kinds.
fn amounts(rep: &mut Rep, check: &Check) {
	let mut sizes: Vec<usize> = (0..=40).collect();
	for k in 6..=15 {
		sizes.extend([(1usize << k) - 2, (1 << k) - 1, 1 << k, (1 << k) + 1, (1 << k) + 2]);
	}
	sizes.extend([96, 100, 200, 300, 500, 700, 1000, 3000, 5000, 10_000, 20_000, 30_000, 32_000]);
	sizes.extend((1..=12).map(|k| 256 * k + 128));
	if !rep.quick() {
		sizes.extend(40..=1100);
		sizes.extend((0..32_768).step_by(509));
	}
	sizes.retain(|n| *n <= 32_768);
	sizes.sort();
	sizes.dedup();
	let fills = |n: usize, k: usize| match k {
		0 => bytes(n, n as u8),
		1 => vec![0; n],
		_ => vec![0xff; n],
	};
	// How the transport and stdin behave.
	let ways: [(Option<usize>, Option<usize>, bool, Option<usize>); 4] = [(None, None, false, None), (Some(1000), Some(100), false, Some(1000)), (None, Some(300), true, Some(100)), (Some(77), None, true, None)];
	let n = sizes.len();
	let make = |name: String, acts: Vec<Act>, procs: Vec<ProcSpec>, i: usize| {
		let (chunk, wchunk, wstall_each, stdin_chunk) = ways[i / 4 % 4];
		let mut c = conn(0, acts);
		c.chunk = chunk;
		c.wchunk = wchunk;
		c.wstall_each = wstall_each;
		Spec {
			name: format!("{name}/{}/{}", POLICIES[i % 4].0, i / 4 % 4),
			policy: POLICIES[i % 4],
			conns: vec![c],
			procs: procs.into_iter().map(|p| ProcSpec { stdin_chunk, ..p }).collect(),
			check: check.clone(),
			..Default::default()
		}
	};
	let d = |x: Vec<u8>| Act::Ch(7, ChMsg::Data(x));
	rep.many("amounts of input", n * 3 * 16, 0, |i| {
		let (n, f, v) = (sizes[i / 48], i / 16 % 3, i % 16);
		let mut a = exec(7, "p0 in");
		a.extend([d(fills(n, f)), Act::Ch(7, ChMsg::Ext(1 + v as u32 % 3, fills(n, f))), d(s("x")), d(fills(n, f)), Act::Ch(7, ChMsg::Eof)]);
		make(format!("{n} bytes of input, contents {f}"), a, vec![ProcSpec { out: vec![s("out")], exit_after_eof: v % 4 != 3, ..Default::default() }], v)
	});
	rep.many("amounts of output", n * 3 * 16, 0, |i| {
		let (n, f, v) = (sizes[i / 48], i / 16 % 3, i % 16);
		let mut a = exec(7, "p0 out");
		a.push(d(s("input")));
		let (out, err) = match i / 48 % 3 {
			0 => (vec![fills(n, f), s("x"), fills(n, f)], vec![s("err")]),
			1 => (vec![s("out")], vec![fills(n, f), s("x"), fills(n, f)]),
			_ => (vec![fills(n, f), s("x")], vec![s("y"), fills(n, f)]),
		};
		make(format!("{n} bytes of output, contents {f}"), a, vec![ProcSpec { out, err, status: n as u32, ..Default::default() }], v)
	});
	rep.many("every byte of input and output", 256 * 4, 0, |i| {
		let (b, v) = ((i / 4) as u8, i % 4);
		let mut a = exec(7, "p0 byte");
		a.extend([d(vec![b]), d(vec![]), d(vec![b, b'x']), d(vec![b'x', b]), d(vec![]), d(vec![b]), Act::Ch(7, ChMsg::Eof)]);
		make(format!("byte {b}"), a, vec![ProcSpec { out: vec![vec![b], vec![b, b'y'], vec![b'y', b], vec![b]], err: vec![vec![b], vec![b'z'], vec![b]], status: b as u32, exit_after_eof: v % 2 == 0, ..Default::default() }], v)
	});
	let counts: &[usize] = if rep.quick() { &[20, 64, 255, 256, 257, 300, 1000] } else { &[20, 64, 255, 256, 257, 300, 1000, 5000] };
	rep.many("many pieces of input and output", counts.len() * 8, 0, |i| {
		let (n, v) = (counts[i / 8], i % 8);
		let mut a = exec(7, "p0 many");
		for k in 0..n {
			a.push(d(bytes(k % 9, k as u8)));
		}
		a.push(Act::Ch(7, ChMsg::Eof));
		let p = |salt| (0..n).map(|k| bytes(1 + k % 5, (k as u8).wrapping_add(salt))).collect::<Vec<_>>();
		make(format!("{n} pieces"), a, vec![ProcSpec { out: p(1), err: p(9), status: 77, exit_after_eof: v % 2 == 0, ..Default::default() }], v)
	});
	let st: Vec<u32> = (0..=256).chain((8..32).flat_map(|k| [(1u32 << k) - 1, 1 << k, (1 << k) + 1])).chain([u32::MAX]).collect();
	rep.many("every exit status", st.len() * 4, 0, |i| {
		let mut a = exec(7, "p0 status");
		a.push(Act::Ch(7, ChMsg::Eof));
		make(format!("status {}", st[i / 4]), a, vec![ProcSpec { out: vec![s("o")], err: vec![s("e")], status: st[i / 4], ..Default::default() }], i % 4)
	});
	// One command after the other on one connection.
	let counts = [10usize, 300];
	rep.many("many commands one after the other", counts.len() * 4, 0, |i| {
		let mut a = vec![];
		for k in 0..counts[i / 4] as u32 {
			a.extend(exec(k, "p0 one"));
			a.extend([Act::Ch(k, ChMsg::Data(format!("input {k}").into_bytes())), Act::Ch(k, ChMsg::Eof), Act::GotClose(k), Act::Ch(k, ChMsg::Close)]);
		}
		make(format!("{} commands", counts[i / 4]), a, vec![ProcSpec { out: vec![s("out")], err: vec![s("err")], status: 1, exit_after_eof: true, ..Default::default() }], i % 4)
	});
}

pub fn c14(rep: &mut Rep) {
	let check = chk(|w| check_stdin(w, &base(w)?));
	let ch = Choices { sched: true, seg: true, stdin: true, ..Choices::NONE };
	schedules(rep, &check, ch);
	rep.wide("pipe variants", build_variants(&check, ch), 1);
	amounts(rep, &check);
	// Every amount, in one piece, two or with a byte before or after it, and whatever comes next.
	let mut sizes: Vec<usize> = (0..=rep.by(1100, 4200)).collect();
	sizes.extend((11..=15).flat_map(|k| [(1 << k) - 1, 1 << k, (1 << k) + 1]));
	sizes.extend([1500, 2500, 3000, 5000, 6000, 7000, 8000, 9000, 10_000, 12_000, 20_000, 24_000, 30_000, 32_000]);
	sizes.retain(|n| *n <= 32_768);
	rep.many("every amount of input and what follows it", sizes.len() * 16, 0, |i| {
		let (n, how, end) = (sizes[i / 16], i / 4 % 4, i % 4);
		let d = |x: Vec<u8>| Act::Ch(7, ChMsg::Data(x));
		let mut a = exec(7, "p0 in");
		if how == 1 {
			a.push(d(s("x")));
		}
		a.push(d(bytes(n, 5)));
		match how {
			2 => a.push(d(s("y"))),
			3 => a.push(d(bytes(n, 6))),
			_ => {}
		}
		match end {
			1 => a.push(Act::Ch(7, ChMsg::Close)),
			2 => a.extend([Act::Ch(7, ChMsg::Eof), Act::Ch(7, ChMsg::Close)]),
			3 => a.push(Act::Ch(7, ChMsg::Eof)),
			_ => {}
		}
		Spec {
			name: format!("{n} bytes of input in way {how}, then {}", ["nothing", "close", "EOF and close", "EOF"][end]),
			policy: POLICIES[n % 4],
			conns: vec![conn(0, a)],
			procs: vec![ProcSpec { exit_after_eof: true, ..Default::default() }],
			check: check.clone(),
			..Default::default()
		}
	});
	// Data up to the largest packet, if the server takes that much.
	let mut sizes: Vec<usize> = vec![32_760, 32_767, 32_768, 32_769, 32_770, 33_000, 34_000, 34_500, 34_900, 34_950];
	if !rep.quick() {
		sizes.extend((32_700..34_950).step_by(7));
	}
	rep.many("data of nearly a packet", sizes.len() * 4, 0, |i| {
		let n = sizes[i / 4];
		let mut a = vec![Act::Pay(crate::refssh::m::open("session", 7, 0x20_0000, 0x10000)), Act::Ch(7, ChMsg::exec(true, "p0 in"))];
		a.extend([Act::Ch(7, ChMsg::Data(bytes(n, 5))), Act::Ch(7, ChMsg::Data(s("x"))), Act::Ch(7, ChMsg::Data(bytes(n, 6))), Act::Ch(7, ChMsg::Eof)]);
		let mut c = conn(0, a);
		c.chunk = [None, Some(1000), Some(32768), Some(7)][i % 4];
		Spec {
			name: format!("data of {n} bytes, {:?} at a time", c.chunk),
			policy: POLICIES[i % 4],
			conns: vec![c],
			procs: vec![ProcSpec { exit_after_eof: true, stdin_chunk: [None, Some(4096)][i / 4 % 2], ..Default::default() }],
			check: chk(move |w| {
				let allowed = w.conns[0].msgs.iter().find_map(|m| if let SMsg::OpenConfirm { max, .. } = m { Some(*max as usize) } else { None });
				if allowed.map_or(false, |a| a < n) {
					return Ok(());
				}
				check_stdin(w, &base(w)?)
			}),
			..Default::default()
		}
	});
	common(rep);
	rep.rules.push("Every execution within the deviation bound (order of events, segment sizes, short and pending stdin writes) of each scenario is run on the real server; the bytes and the end of each process's stdin must be those of the client's data and EOF.".into());
}

pub fn c15(rep: &mut Rep) {
	let check = chk(|w| check_output(w, &base(w)?));
	let ch = Choices { sched: true, write: true, select: true, ..Choices::NONE };
	schedules(rep, &check, ch);
	rep.wide("pipe variants", build_variants(&check, Choices::ALL), 1);
	amounts(rep, &check);
	crate::p_flow::little(rep);
	common(rep);
	rep.rules.push("Every execution within the deviation bound (order of events, short and pending transport writes, select order) of each scenario is run on the real server; data and extended data per channel must be the process's output, complete at rest.".into());
}

pub fn c16(rep: &mut Rep) {
	let check = chk(|w| check_ending(w, &base(w)?));
	let ch = Choices { sched: true, write: true, select: true, ..Choices::NONE };
	schedules(rep, &check, ch);
	rep.wide("pipe variants", build_variants(&check, Choices::ALL), 1);
	amounts(rep, &check);
	crate::p_flow::little(rep);
	common(rep);
	rep.rules.push("Every execution within the deviation bound of each scenario is run on the real server; exit status, EOF and close per channel must each appear once, in order, after all output, and nothing after close.".into());
}

pub fn c17(rep: &mut Rep) {
	let check = chk(|w| base(w).map(|_| ()));
	schedules(rep, &check, Choices::ALL);
	amounts(rep, &check);
	common(rep);
	rep.rules.push("Every execution within the deviation bound, including every split and stall of transport writes, is run on the real server; an independent client with the session keys must be able to open every packet in sequence and no byte may be left over at rest.".into());
}

// ------------------------------------------------------------------ C18

/// What a client may do next with its channels. Slots are the open channels, oldest first.
const KINDS: [&str; 15] = [
	"exec", "exec quiet", "exec fails", "exec fails quiet", "shell", "env", "bad exec", "bad shell", "unknown quiet", "data", "eof", "close", "window", "ext", "pty",
];
/// Those used in the longest sequences.
const CORE: [&str; 7] = ["exec", "exec fails", "env", "data", "eof", "close", "shell"];

fn message(kind: &str, at: usize) -> ChMsg {
	let req = |ty: &str, want, data: Vec<u8>| ChMsg::Request { ty: s(ty), want, data };
	let str = |x: &str| crate::refssh::W::default().s(x).done();
	match kind {
		"exec" => ChMsg::exec(true, &format!("p1 run {at}")),
		"exec quiet" => ChMsg::exec(false, &format!("p2 run {at}")),
		"exec fails" => ChMsg::exec(true, &format!("fail {at}")),
		"exec fails quiet" => ChMsg::exec(false, &format!("fail {at}")),
		"shell" => ChMsg::shell(true),
		"env" => req("env", true, crate::refssh::W::default().s("A").s("B").done()),
		"bad exec" => req("exec", true, [str("p1 x"), vec![0]].concat()),
		"bad shell" => req("shell", true, vec![1]),
		"unknown quiet" => req("x@y", false, s("stuff")),
		"data" => ChMsg::Data(format!("<data {at}>").into_bytes()),
		"eof" => ChMsg::Eof,
		"close" => ChMsg::Close,
		"window" => ChMsg::Window(at as u32),
		"ext" => ChMsg::Ext(1, s("ext")),
		"pty" => req("pty-req", true, crate::refssh::W::default().s("vt100").u32(80).u32(24).u32(0).u32(0).s("\0").done()),
		_ => unreachable!(),
	}
}

/// All sequences of `len` steps: 0 opens a session, 1 another type of channel, then the kinds for each slot.
fn histories(kinds: &[&str], slots: usize, len: usize) -> Vec<Vec<u8>> {
	let mut done = vec![];
	fn go(kinds: &[&str], slots: usize, len: usize, open: usize, cur: &mut Vec<u8>, out: &mut Vec<Vec<u8>>) {
		if cur.len() == len {
			out.push(cur.clone());
			return;
		}
		if open < slots {
			cur.push(0);
			go(kinds, slots, len, open + 1, cur, out);
			cur.pop();
		}
		cur.push(1);
		go(kinds, slots, len, open, cur, out);
		cur.pop();
		for slot in 0..open {
			for (k, kind) in kinds.iter().enumerate() {
				cur.push((2 + slot * kinds.len() + k) as u8);
				go(kinds, slots, len, open - usize::from(*kind == "close"), cur, out);
				cur.pop();
			}
		}
	}
	go(kinds, slots, len, 0, &mut vec![], &mut done);
	done
}

/// Client channel numbers, in order of use.
fn number(n: usize) -> u32 {
	[7, 0, u32::MAX, 1, 0x8000_0000, 2, 3].get(n).copied().unwrap_or(100 + n as u32)
}

fn history(kinds: &[&str], steps: &[u8]) -> (String, Vec<Act>) {
	let mut acts = vec![];
	let mut name = String::new();
	let mut open_now: Vec<u32> = vec![];
	let mut opened = 0;
	for (at, x) in steps.iter().enumerate() {
		let x = *x as usize;
		if !name.is_empty() {
			name += ", ";
		}
		if x < 2 {
			let cc = number(opened);
			opened += 1;
			if x == 0 {
				acts.push(open(cc));
				open_now.push(cc);
				name += &format!("open {cc}");
			} else {
				let ty = ["x11", "", "sessio", "sessionx", "direct-tcpip", "Session"][at % 6];
				acts.push(Act::Pay(crate::refssh::m::open(ty, cc, 0x1000, 0x1000)));
				name += &format!("open {ty:?} {cc}");
			}
			continue;
		}
		let (slot, kind) = ((x - 2) / kinds.len(), kinds[(x - 2) % kinds.len()]);
		let cc = open_now[slot];
		acts.push(Act::Ch(cc, message(kind, at)));
		name += &format!("{kind} {cc}");
		if kind == "close" {
			open_now.remove(slot);
		}
	}
	(name, acts)
}

fn c18_procs() -> Vec<ProcSpec> {
	vec![
		ProcSpec { out: vec![s("shell out")], err: vec![s("shell err")], status: 10, ..Default::default() },
		ProcSpec { out: vec![s("one out")], status: 11, exit_after_eof: true, ..Default::default() },
		ProcSpec { out: vec![], err: vec![s("two err")], status: 12, ..Default::default() },
	]
}

pub fn c18(rep: &mut Rep) {
	let check = chk(|w| {
		w.alive()?;
		served(w, 0)
	});
	let make = |kinds: &[&str], steps: &[u8], p: Policy| {
		let (name, acts) = history(kinds, steps);
		Spec {
			name: format!("{} ({})", name, p.0),
			policy: p,
			conns: vec![conn(0, acts)],
			procs: c18_procs(),
			check: check.clone(),
			..Default::default()
		}
	};
	for len in 1..=rep.by(4, 5) {
		let all = histories(&KINDS, 2, len);
		let pol: &[Policy] = &POLICIES[..if len > 4 { 2 } else { 4 }];
		rep.many(&format!("all histories of {len} steps on two channels"), all.len() * pol.len(), 0, |i| {
			make(&KINDS, &all[i / pol.len()], pol[i % pol.len()])
		});
	}
	let len = rep.by(5, 6);
	let all = histories(&CORE, 2, len);
	rep.many(&format!("all histories of {len} core steps on two channels"), all.len(), 0, |i| make(&CORE, &all[i], POLICIES[i % 4]));
	let few = ["exec", "close", "data"];
	let len = rep.by(6, 7);
	let all = histories(&few, 3, len);
	rep.many(&format!("all histories of {len} steps of open, exec, data and close on three channels"), all.len(), 0, |i| make(&few, &all[i], POLICIES[i % 4]));
	let few = ["close"];
	let len = rep.by(8, 10);
	let all = histories(&few, 4, len);
	rep.many(&format!("all histories of {len} opens and closes"), all.len(), 0, |i| make(&few, &all[i], P_CLIENT));
	// Many channels at once.
	for n in [5usize, 20, 300, 1100] {
		let mut acts = vec![];
		for k in 0..n {
			acts.push(open(number(k)));
		}
		for k in (0..n).rev() {
			acts.push(Act::Ch(number(k), ChMsg::exec(true, &format!("p1 ch {k}"))));
		}
		for k in 0..n {
			acts.push(Act::Ch(number(k), ChMsg::Data(format!("data {k}").into_bytes())));
		}
		for k in 0..n {
			acts.push(Act::Ch(number(k), if k % 3 == 0 { ChMsg::Close } else { ChMsg::Eof }));
		}
		for k in n..2 * n {
			acts.push(open(number(k)));
			acts.push(Act::Ch(number(k), message("env", k)));
		}
		let mut sp = make(&KINDS, &[], P_CLIENT);
		sp.name = format!("{n} channels");
		sp.conns = vec![conn(0, acts)];
		rep.wide(&format!("{n} channels at once"), vec![sp], 0);
	}
	// Commands, byte for byte.
	let mut cmds: Vec<Vec<u8>> = (0..=255u8).map(|b| vec![b'p', b'1', b, b'x']).collect();
	cmds.extend([vec![], s("p"), s("p1"), s("p9"), s("nope"), vec![0], bytes(300, 1), bytes(30000, 2), [&b"p1 "[..], &bytes(30000, 3)].concat()]);
	let mut specs = vec![];
	for c in cmds {
		for want in [true, false] {
			let d = crate::refssh::W::default().s(&c).done();
			let acts = vec![open(7), Act::Ch(7, ChMsg::Request { ty: s("exec"), want, data: d }), Act::Ch(7, message("env", 0))];
			let mut sp = make(&KINDS, &[], P_CLIENT);
			sp.name = format!("command {} want {want}", crate::refssh::hex(&c[..c.len().min(40)]));
			sp.conns = vec![conn(0, acts)];
			specs.push(sp);
		}
	}
	// Request types near the known ones, and every known one damaged.
	let str = |x: &str| crate::refssh::W::default().s(x).done();
	let u = |n: usize| vec![0u8; 4 * n];
	let known: Vec<(&str, Vec<u8>)> = vec![
		("pty-req", [str("xterm"), u(4), str("")].concat()),
		("x11-req", [vec![0], str("MIT"), str("cookie"), u(1)].concat()),
		("env", [str("N"), str("V")].concat()),
		("shell", vec![]),
		("exec", str("p1 go")),
		("subsystem", str("sftp")),
		("window-change", u(4)),
		("xon-xoff", vec![1]),
		("signal", str("TERM")),
		("exit-status", u(1)),
		("exit-signal", [str("KILL"), vec![0], str("m"), str("")].concat()),
	];
	for (ty, data) in &known {
		let mut forms: Vec<(String, Vec<u8>)> = vec![(ty.to_string(), data.clone()), (format!("{ty}x"), data.clone()), (ty.to_uppercase(), data.clone()), (ty[1..].to_string(), data.clone()), (ty[..ty.len() - 1].to_string(), data.clone())];
		for n in 0..data.len() {
			forms.push((ty.to_string(), data[..n].to_vec()));
		}
		for e in [&[0u8][..], &[1], &[0; 4], &[0; 20]] {
			forms.push((ty.to_string(), [&data[..], e].concat()));
		}
		for i in 0..data.len() {
			let mut x = data.clone();
			x[i] ^= 0x81;
			forms.push((ty.to_string(), x));
		}
		for (t, d) in forms {
			for want in [true, false] {
				for after in [false, true] {
					let mut acts = vec![open(7), open(8)];
					if after {
						acts.push(Act::Ch(7, ChMsg::exec(true, "p1 before")));
					}
					acts.push(Act::Ch(7, ChMsg::Request { ty: s(&t), want, data: d.clone() }));
					acts.push(Act::Ch(8, ChMsg::exec(true, "p1 beside")));
					acts.push(Act::Ch(7, message("env", 0)));
					let mut sp = make(&KINDS, &[], P_CLIENT);
					sp.name = format!("request {t} {} want {want} after exec {after}", crate::refssh::hex(&d));
					sp.conns = vec![conn(0, acts)];
					specs.push(sp);
				}
			}
		}
	}
	// Channel types other than session, with the data their own specifications put into the open message.
	let kinds: Vec<(&str, Vec<u8>)> = vec![
		("direct-tcpip", [str("localhost"), vec![0, 0, 0, 80], str("127.0.0.1"), vec![0, 0, 0x80, 1]].concat()),
		("forwarded-tcpip", [str("0.0.0.0"), vec![0, 0, 0, 22], str("10.0.0.1"), vec![0, 0, 0, 9]].concat()),
		("x11", [str("127.0.0.1"), vec![0, 0, 0x17, 0x70]].concat()),
		("direct-streamlocal@openssh.com", [str("/run/x.sock"), str(""), vec![0; 4]].concat()),
		("tun@openssh.com", vec![0, 0, 0, 1, 0x7f, 0xff, 0xff, 0xff]),
		("auth-agent@openssh.com", vec![]),
		("", vec![0xff]),
		("sessio", bytes(20_000, 5)),
		("session2", vec![0; 1]),
	];
	for (ty, data) in &kinds {
		let mut forms: Vec<Vec<u8>> = (0..data.len().min(80)).map(|n| data[..n].to_vec()).collect();
		forms.push(data.clone());
		forms.push([&data[..], &[0u8; 4][..]].concat());
		for d in forms {
			for at in 0..3 {
				let other = Act::Pay([crate::refssh::m::open(ty, 9, 0x20_0000, 0x8000), d.clone()].concat());
				let mut acts = vec![open(7), Act::Ch(7, ChMsg::exec(true, "p1 on")), Act::Ch(7, message("data", 1)), open(8), Act::Ch(8, message("env", 0)), Act::Ch(7, ChMsg::Eof)];
				acts.insert([0, 2, 5][at], other);
				let mut sp = make(&KINDS, &[], P_CLIENT);
				sp.name = format!("open {ty:?} with data {} after {at}", crate::refssh::hex(&d[..d.len().min(60)]));
				sp.conns = vec![conn(0, acts)];
				specs.push(sp);
			}
		}
	}
	rep.wide("commands, request types and channel types", specs, 0);
	// Numbers no open channel has: whatever the server does about them, no channel is acted on.
	let mut numbers: Vec<u32> = (0..32).flat_map(|k| [1u32 << k, (1 << k) | 1, (1 << k) ^ 2]).collect();
	numbers.extend([0, 3, 255, 257, 0xffff, 0x10002, u32::MAX, u32::MAX - 1]);
	numbers.sort();
	numbers.dedup();
	let stray: [(&str, fn(u32) -> Vec<u8>); 8] = [
		("data", |n| crate::refssh::m::data(n, b"stray")),
		("eof", crate::refssh::m::eof),
		("close", crate::refssh::m::close),
		("exec", |n| crate::refssh::m::exec(n, true, b"p1 stray")),
		("shell", |n| crate::refssh::m::request(n, "shell", false, b"")),
		("env", |n| crate::refssh::m::request(n, "env", true, &[0, 0, 0, 1, b'N', 0, 0, 0, 1, b'V'])),
		("window", |n| crate::refssh::W::new(93).u32(n).u32(1000).done()),
		("extended", |n| crate::refssh::W::new(95).u32(n).u32(1).s("stray").done()),
	];
	rep.many("messages that name no open channel", numbers.len() * stray.len() * 2, 0, |i| {
		let (number, (what, f), started) = (numbers[i / 2 % numbers.len()], stray[i / 2 / numbers.len()], i % 2 == 0);
		let mut acts = vec![open(7), open(8)];
		let run = [Act::Ch(7, ChMsg::exec(true, "p1 a")), Act::Ch(8, ChMsg::exec(true, "p1 b"))];
		if started {
			acts.extend(run.clone());
			acts.extend([Act::Replies(7, 1), Act::Replies(8, 1), Act::Ch(7, ChMsg::Data(s("a1"))), Act::Ch(8, ChMsg::Data(s("b1")))]);
		} else {
			acts.extend([Act::Opened(7), Act::Opened(8)]);
		}
		acts.push(Act::Pay(f(number)));
		if !started {
			acts.extend(run);
		}
		acts.extend([Act::Ch(7, ChMsg::Data(s("a2"))), Act::Ch(8, ChMsg::Data(s("b2"))), Act::Ch(7, ChMsg::Eof), Act::Ch(8, ChMsg::Eof)]);
		let mut sp = make(&KINDS, &[], POLICIES[i / 2 % 4]);
		sp.name = format!("{what} for channel {number}, started {started}");
		sp.conns = vec![conn(0, acts)];
		sp.check = chk(move |w| {
			w.alive()?;
			let open: Vec<u32> = w.conns[0].msgs.iter().filter_map(|m| if let SMsg::OpenConfirm { from, .. } = m { Some(*from) } else { None }).collect();
			if open.contains(&number) {
				return Ok(());
			}
			let over = w.conns[0].gone();
			for p in &w.procs {
				let all: &[u8] = match p.cmd.as_deref() {
					Some(b"p1 a") if started => b"a1a2",
					Some(b"p1 b") if started => b"b1b2",
					Some(b"p1 a") => b"a2",
					Some(b"p1 b") => b"b2",
					c => return Err(format!("{c:?} was started")),
				};
				if !(if over { all.starts_with(&p.stdin) } else { p.stdin == all }) {
					return Err(format!("a program received {:?} instead of {:?}", String::from_utf8_lossy(&p.stdin), String::from_utf8_lossy(all)));
				}
			}
			if !over && w.procs.len() != 2 {
				return Err(format!("{} programs were started", w.procs.len()));
			}
			Ok(())
		});
		sp
	});
	// Schedules, with a spawn handler that takes its time.
	let mut specs = vec![];
	let plans: Vec<Vec<Act>> = vec![
		vec![open(1), open(2), Act::Ch(1, ChMsg::exec(true, "p0 a")), Act::Ch(2, ChMsg::exec(true, "p1 b")), Act::Ch(1, message("data", 1)), Act::Ch(2, message("data", 2)), Act::Ch(1, ChMsg::Close), open(3), Act::Ch(3, ChMsg::exec(false, "p2 c"))],
		vec![open(1), Act::Ch(1, ChMsg::exec(true, "fail")), Act::Ch(1, ChMsg::exec(true, "p2 a")), Act::Ch(1, ChMsg::exec(true, "p1 again")), Act::Ch(1, message("env", 0)), open(2), Act::Ch(2, ChMsg::shell(true))],
	];
	for (k, acts) in plans.iter().enumerate() {
		for gate in [false, true] {
			for p in [P_CLIENT, P_PROC] {
				let mut sp = make(&KINDS, &[], p);
				sp.name = format!("plan {k}/{}/gated {gate}", p.0);
				sp.conns = vec![conn(0, acts.clone())];
				sp.gate = [false, false, gate];
				sp.choices = Choices { sched: true, select: true, write: true, ..Choices::NONE };
				specs.push(sp);
			}
		}
	}
	let bound = rep.by(1, 3);
	rep.deep(specs, bound);
	common(rep);
	rep.rules.push("Every history of channel operations up to the stated length is run on the real server; replies, spawns, stdin, output and channel numbers must be those the reference model derives from the history.".into());
}

fn common(rep: &mut Rep) {
	rep.assumptions.push("Transport, processes, application handlers and randomness are controlled stand-ins; the client is an independent implementation from the RFCs; one executor thread, as the server requires.".into());
	rep.assumptions.push("Clients keep to the protocol: they use channels they have opened and not closed.".into());
}
