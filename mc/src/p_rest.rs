//! C28: what has ended leaves nothing behind.

use crate::p_fault::secret;
use crate::client::HsSpec;
use crate::refssh::*;
use crate::report::Rep;
use crate::session::*;
use crate::world::*;
use std::sync::Arc;

/// Cycles until the first, second and third measurement.
const CYCLES: [usize; 3] = [16, 48, 112];
/// More than this between the first and the last measurement is growth. The smallest thing one could keep per cycle, a
/// number, takes more.
const SLACK: isize = 256;

fn s(b: &str) -> Vec<u8> {
	b.as_bytes().to_vec()
}

fn programs() -> Vec<ProcSpec> {
	let o = ProcSpec { out: vec![s("out")], err: vec![s("err")], status: 1, ..Default::default() };
	vec![
		o.clone(),
		ProcSpec { exit_after_eof: true, ..o.clone() },
		ProcSpec { no_stdin: true, no_stderr: true, ..o.clone() },
		ProcSpec { no_stdout: true, no_stdin: true, no_stderr: true, ..o.clone() },
		ProcSpec { out: vec![bytes(5000, 1)], err: vec![bytes(3000, 2)], ..o.clone() },
		ProcSpec { out_err: true, err_err: true, ..o.clone() },
		ProcSpec { stdin_err_at: Some(2), exit_after_eof: true, ..o.clone() },
		// Never ends: for the channel that stays open.
		ProcSpec { forever: true, out: vec![s("hello")], ..Default::default() },
		ProcSpec { stdin_chunk: Some(7), exit_after_eof: true, ..o },
	]
}

/// What may happen again and again on one connection, with nothing left open by it. Channel 1 stays open.
const LETTERS: [&str; 34] = [
	"run", "run and feed", "run, no pipes", "run, one pipe", "run with much output", "run with failing pipes", "run with failing input", "run with slow input", "run quietly", "close early",
	"close after data", "close at once", "refused command", "request", "shell", "two commands", "wait for window, close", "wait for window, get it", "no window, end", "end before command", "data without program", "other type", "open and two ends", "ignore", "debug",
	"unimplemented", "unknown message", "late login", "data to the open channel", "much data to the open channel", "window", "extended data", "request on the open channel", "command on the open channel",
];

/// A channel with a small window.
fn narrow(cc: u32, window: u32) -> Act {
	Act::Pay(m::open("session", cc, window, 1000))
}

fn letter(l: &str, cc: u32) -> Vec<Act> {
	let d = |n: usize| Act::Ch(cc, ChMsg::Data(bytes(n, 3)));
	let (eof, close) = (Act::Ch(cc, ChMsg::Eof), Act::Ch(cc, ChMsg::Close));
	let env = |cc| Act::Ch(cc, ChMsg::Request { ty: s("env"), want: true, data: W::default().s("A").s("B").done() });
	let run = |c: &str| {
		let mut v = exec(cc, c);
		v.extend([Act::GotClose(cc), close.clone()]);
		v
	};
	match l {
		"run" => run("p0"),
		"run, one pipe" => run("p2"),
		"run, no pipes" => run("p3"),
		"run with much output" => run("p4"),
		"run with failing pipes" => run("p5"),
		"run and feed" | "run with failing input" | "run with slow input" => {
			let mut v = exec(cc, match l { "run and feed" => "p1", "run with slow input" => "p8", _ => "p6" });
			v.extend([d(5), d(40), eof, Act::GotClose(cc), close]);
			v
		}
		"run quietly" => vec![open(cc), Act::Ch(cc, ChMsg::exec(false, "p0")), Act::GotClose(cc), close],
		"close early" => vec![open(cc), Act::Ch(cc, ChMsg::exec(true, "p0")), close, Act::GotClose(cc)],
		"close after data" => vec![open(cc), Act::Ch(cc, ChMsg::exec(true, "p1")), d(100), close, Act::GotClose(cc)],
		"close at once" => vec![open(cc), close, Act::GotClose(cc)],
		"refused command" => vec![open(cc), Act::Ch(cc, ChMsg::exec(true, "no")), close, Act::GotClose(cc)],
		"request" => vec![open(cc), env(cc), close, Act::GotClose(cc)],
		"shell" => vec![open(cc), Act::Ch(cc, ChMsg::shell(true)), Act::GotClose(cc), close],
		"wait for window, close" => vec![narrow(cc, 2), Act::Ch(cc, ChMsg::exec(true, "p0")), Act::GotOutput(cc, 2), close, Act::GotClose(cc)],
		"wait for window, get it" => {
			let more = |n| Act::Ch(cc, ChMsg::Window(n));
			vec![narrow(cc, 1), Act::Ch(cc, ChMsg::exec(true, "p4")), Act::GotOutput(cc, 1), more(0), more(600), Act::GotOutput(cc, 601), more(10_000), Act::GotClose(cc), close]
		}
		"no window, end" => vec![narrow(cc, 0), Act::Ch(cc, ChMsg::exec(true, "p1")), d(5), eof, Act::Replies(cc, 1), close, Act::GotClose(cc)],
		"two commands" => vec![open(cc), Act::Ch(cc, ChMsg::exec(true, "p1")), Act::Ch(cc, ChMsg::exec(true, "p0")), eof, Act::GotClose(cc), close],
		"end before command" => vec![open(cc), eof, Act::Ch(cc, ChMsg::exec(true, "p1")), Act::GotClose(cc), close],
		"data without program" => vec![open(cc), d(300), close, Act::GotClose(cc)],
		"other type" => vec![Act::Pay(m::open("x11", cc, 1000, 1000)), Act::Opened(cc)],
		"open and two ends" => vec![open(cc), eof.clone(), eof, close, Act::GotClose(cc)],
		"ignore" => vec![Act::Pay(W::new(2).s("something to ignore").done())],
		"debug" => vec![Act::Pay(W::new(4).bool(true).s("text").s("").done())],
		"unimplemented" => vec![Act::Pay(W::new(3).u32(7).done())],
		"unknown message" => vec![Act::Pay(vec![192, 1, 2, 3])],
		"late login" => vec![Act::Pay(m::auth_password(b"x", b"good"))],
		"data to the open channel" => vec![Act::Ch(1, ChMsg::Data(bytes(10, 1)))],
		"much data to the open channel" => vec![Act::Ch(1, ChMsg::Data(bytes(9000, 1)))],
		"window" => vec![Act::Ch(1, ChMsg::Window(1000))],
		"extended data" => vec![Act::Ch(1, ChMsg::Ext(1, bytes(10, 1)))],
		"request on the open channel" => vec![env(1)],
		"command on the open channel" => vec![Act::Ch(1, ChMsg::exec(true, "p0"))],
		_ => unreachable!(),
	}
}

/// Memory at rest does not grow with what has been and is gone.
fn bounded(w: &World, first: usize, last: usize) -> Result<(), String> {
	let at = |stage: usize| w.rests.iter().rev().find(|r| r.0 == stage).map(|r| r.1).ok_or("HARNESS:no measurement");
	let (a, b) = (at(first)?, at(last)?);
	if b - a > SLACK {
		// No exact amounts: what the server keeps of random numbers differs by a few bytes between runs.
		return Err(format!("the server keeps more and more memory: over {SLACK} bytes more at the end than after the first rounds"));
	}
	Ok(())
}

/// Nothing of these processes is held.
fn released(w: &World, keep: impl Fn(usize) -> bool) -> Result<(), String> {
	for (i, p) in w.procs.iter().enumerate() {
		if keep(i) {
			continue;
		}
		for (what, held) in [
			("input", !p.spec.no_stdin && !p.stdin_dropped),
			("output", !p.spec.no_stdout && !p.out_dropped),
			("error output", !p.spec.no_stderr && !p.err_dropped),
			("exit status", !p.wait_dropped),
		] {
			if held {
				return Err(format!("the {what} of a program is still held after its channel has ended (program {i} of {})", w.procs.len()));
			}
		}
	}
	Ok(())
}

fn cycles(word: &[usize], p: Policy, gate: bool) -> Spec {
	let names: Vec<&str> = word.iter().map(|l| LETTERS[*l]).collect();
	let mut acts = exec(1, "p7");
	acts.push(Act::Replies(1, 1));
	let mut cc = 10;
	for k in 0..CYCLES[2] {
		for (stage, n) in CYCLES.iter().enumerate().take(2) {
			if k == *n {
				acts.push(Act::Stage(stage + 1));
			}
		}
		for l in &names {
			acts.extend(letter(l, cc));
			cc += 1;
		}
	}
	Spec {
		name: format!("{} times {names:?}/{}/gates {gate}", CYCLES[2], p.0),
		policy: p,
		conns: vec![conn(0, acts)],
		procs: programs(),
		gate: [gate; 3],
		check: Arc::new(|w| {
			w.alive()?;
			stream_ok(w, 0)?;
			script_done(w, 0)?;
			bounded(w, 0, 2)?;
			released(w, |i| i == 0)
		}),
		..Default::default()
	}
}

/// Ways for a connection to end: (name, connection).
fn ends(quick: bool) -> Vec<(String, ConnSpec)> {
	let mut v: Vec<(String, ConnSpec)> = vec![];
	let full = |i: usize| {
		let mut a = exec(7, "p1");
		a.extend([Act::Ch(7, ChMsg::Data(s("input"))), Act::Ch(7, ChMsg::Eof), Act::GotClose(7), Act::Ch(7, ChMsg::Close)]);
		script(i, a)
	};
	let busy = || {
		let mut a = exec(7, "p7");
		a.extend(exec(8, "p1"));
		a.extend([Act::GotData(7, 5), Act::Ch(8, ChMsg::Data(s("input")))]);
		script(0, a)
	};
	let with = |mut a: Vec<Act>, more: Vec<Act>| {
		a.extend(more);
		ConnSpec { script: a, ..Default::default() }
	};
	v.push(("done, then shut".into(), with(full(0), vec![Act::Shut])));
	v.push(("done, then disconnect".into(), with(full(0), vec![Act::Pay(m::disconnect())])));
	v.push(("busy, then shut".into(), with(busy(), vec![Act::Shut])));
	v.push(("busy, then disconnect".into(), with(busy(), vec![Act::Pay(m::disconnect())])));
	v.push(("busy, then an unknown channel".into(), with(busy(), vec![Act::Pay(m::data(99, b"x"))])));
	v.push(("busy, then a malformed message".into(), with(busy(), vec![Act::Pay(vec![94, 0])])));
	v.push(("busy, then a message out of place".into(), with(busy(), vec![Act::Pay(vec![21])])));
	v.push(("busy, then garbage".into(), with(busy(), vec![Act::Raw(vec![9; 200])])));
	for (n, end) in [("shut", Act::Shut), ("disconnect", Act::Pay(m::disconnect())), ("an unknown channel", Act::Pay(m::data(99, b"x")))] {
		let mut a = vec![narrow(7, 2), Act::Ch(7, ChMsg::exec(true, "p0")), narrow(8, 0), Act::Ch(8, ChMsg::exec(true, "p1")), Act::GotOutput(7, 2), Act::Replies(8, 1)];
		a.push(end);
		v.push((format!("output waits for window, then {n}"), with(script(0, a), vec![])));
	}
	v.push(("shut before the login".into(), with(vec![Act::Shut], vec![])));
	v.push(("a channel before the login".into(), with(vec![open(1)], vec![])));
	v.push(("another service".into(), with(vec![Act::Pay(m::service_request("ssh-connection"))], vec![])));
	let svc = || vec![Act::Pay(m::service_request("ssh-userauth")), Act::Msgs(1)];
	v.push(("shut after refusals".into(), with(svc(), vec![Act::Pay(m::auth_none(b"u")), Act::Pay(m::auth_password(b"u", b"bad")), Act::Msgs(3), Act::Shut])));
	v.push(("malformed authentication".into(), with(svc(), vec![Act::Pay(vec![50, 0, 0])])));
	for (n, hs) in [
		("no common algorithm", { let mut h = HsSpec::default(); h.lists[0] = "x".into(); h }),
		("an old version", HsSpec { ident: s("SSH-1.5-x"), ..Default::default() }),
		("a bad key", HsSpec { ecdh: Some(W::new(30).s([0u8; 32]).done()), ..Default::default() }),
		("no NEWKEYS", HsSpec { newkeys: Some(vec![2]), ..Default::default() }),
	] {
		v.push((n.into(), ConnSpec { hs, ..Default::default() }));
	}
	let step = if quick { 23 } else { 5 };
	for n in (0..1400).step_by(step) {
		let c = with(busy(), vec![Act::Shut]);
		v.push((format!("input ends after {n} bytes"), ConnSpec { read_eof_at: Some(n), ..c.clone() }));
		v.push((format!("input fails after {n} bytes"), ConnSpec { read_err_at: Some(n), ..c.clone() }));
		v.push((format!("output fails after {n} bytes"), ConnSpec { write_err_at: Some(n), ..c.clone() }));
		v.push((format!("output ends after {n} bytes"), ConnSpec { write_zero_at: Some(n), ..c }));
	}
	v
}

pub fn c28(rep: &mut Rep) {
	// One connection, the same again and again.
	let n = LETTERS.len();
	let mut words: Vec<Vec<usize>> = (0..n).map(|l| vec![l]).collect();
	let singles = words.clone();
	for a in 0..n {
		for b in 0..n {
			if a != b {
				words.push(vec![a, b]);
			}
		}
	}
	rep.many("one kind of event repeated, every policy, slow handlers too", singles.len() * 8, 0, |i| cycles(&singles[i / 8], POLICIES[i % 4], i / 4 % 2 == 1));
	rep.many("all pairs of events repeated", words.len() - n, 0, |i| cycles(&words[n + i], POLICIES[i % 4], i / 4 % 2 == 1));
	if !rep.quick() {
		let few: Vec<usize> = (0..20).collect();
		let k = few.len();
		rep.many("all triples of channel events repeated", k * k * k, 0, |i| cycles(&[i % k, i / k % k, i / k / k], POLICIES[i % 4], false));
	}
	// Many channels at once, several times over: what the most have needed is not needed once more.
	let sizes: &[u32] = rep.by(&[3, 20, 60, 130, 300], &[3, 20, 60, 130, 300, 600, 1100]);
	let ns = sizes.len();
	rep.many("crowds of channels again and again", ns * 4 * 3, 0, |i| {
		let (size, p, what) = (sizes[i % ns], POLICIES[i / ns % 4], i / ns / 4);
		let mut acts = exec(1, "p7");
		let rounds = if size < 100 { 60 / size as usize + 8 } else { 5 };
		for round in 0..rounds {
			if round == 3 {
				acts.push(Act::Stage(1));
			}
			let cc = |k: u32| 10 + round as u32 * size + k;
			for k in 0..size {
				acts.push(open(cc(k)));
				match what {
					0 => acts.push(Act::Ch(cc(k), ChMsg::exec(true, "p1"))),
					1 => acts.push(Act::Ch(cc(k), ChMsg::exec(true, "no"))),
					_ => {}
				}
			}
			for k in 0..size {
				let k = if round % 2 == 0 { k } else { size - 1 - k };
				acts.extend([Act::Ch(cc(k), ChMsg::Eof), Act::Ch(cc(k), ChMsg::Close), Act::GotClose(cc(k))]);
			}
		}
		Spec {
			name: format!("{rounds} times {size} channels, {what}, {}", p.0),
			policy: p,
			conns: vec![conn(0, acts)],
			procs: programs(),
			check: Arc::new(|w| {
				w.alive()?;
				script_done(w, 0)?;
				bounded(w, 0, 1)?;
				released(w, |i| i == 0)
			}),
			..Default::default()
		}
	});
	// Requests before the login.
	let kb = |k: &[u8]| W::default().s("ssh-ed25519").s(k).done();
	let pk = |sig: bool| {
		let w = m::auth(b"u", b"ssh-connection", b"publickey").bool(sig).s("ssh-ed25519").s(kb(b"K"));
		if sig { w.s(kb(b"S")).done() } else { w.done() }
	};
	let refused: Vec<(&str, Vec<u8>)> = vec![
		("none", m::auth_none(b"u")),
		("password", m::auth_password(b"u", &bytes(300, 1))),
		("query", pk(false)),
		("key", pk(true)),
		("unknown method", m::auth(b"u", b"ssh-connection", b"x").done()),
	];
	let k = refused.len();
	rep.many("all pairs of refused requests repeated", k * k * 4, 0, |i| {
		let (a, b, gate) = (&refused[i % k], &refused[i / k % k], i / k / k);
		let mut script = vec![Act::Pay(m::service_request("ssh-userauth")), Act::Msgs(1)];
		for n in 0..CYCLES[1] {
			if n == CYCLES[0] {
				script.push(Act::Stage(1));
			}
			script.extend([Act::Pay(a.1.clone()), Act::Msgs(2 + 2 * n), Act::Pay(b.1.clone()), Act::Msgs(3 + 2 * n)]);
		}
		Spec {
			name: format!("{} times {} and {}, gates {gate}", CYCLES[1], a.0, b.0),
			policy: POLICIES[gate],
			conns: vec![ConnSpec { script, ..Default::default() }],
			gate: [gate % 2 == 1; 3],
			check: Arc::new(|w| {
				w.alive()?;
				script_done(w, 0)?;
				bounded(w, 0, 1)
			}),
			..Default::default()
		}
	});
	// Connections that end in every way, one after the other, beside one that stays or alone.
	let kinds = ends(rep.quick());
	let (first, last) = (6usize, 38usize);
	let make = |a: &(String, ConnSpec), b: &(String, ConnSpec), stay: bool, p: Policy| {
		let mut conns = vec![];
		if stay {
			conns.push(ConnSpec { hs: secret(0), ..conn(0, exec(1, "p7")) });
		}
		for k in 1..=last {
			let c = if k % 2 == 0 { a } else { b };
			conns.push(ConnSpec { late: k, ..c.1.clone() });
		}
		let from = usize::from(stay);
		Spec {
			name: format!("{last} connections: {} / {}, another stays {stay}, {}", a.0, b.0, p.0),
			policy: p,
			conns,
			procs: programs(),
			check: Arc::new(move |w| {
				w.alive()?;
				for i in from..w.conns.len() {
					if !w.conns[i].gone() {
						return Err(format!("connection {i} has ended, but its transport is still held"));
					}
				}
				bounded(w, first, last)?;
				released(w, |i| stay && i == 0)?;
				// The one that stays made the first user.
				if let Some(u) = (from..w.users_dropped.len()).find(|u| !w.users_dropped[*u]) {
					return Err(format!("connection has ended, but the user value {u} is still held"));
				}
				Ok(())
			}),
			..Default::default()
		}
	};
	rep.many("every way to end a connection, again and again", kinds.len() * 2, 0, |i| make(&kinds[i / 2], &kinds[i / 2], i % 2 == 0, POLICIES[i / 2 % 4]));
	let few: Vec<_> = kinds.iter().filter(|k| !k.0.ends_with("bytes")).cloned().collect();
	let k = few.len();
	rep.many("all pairs of ways to end a connection", k * k, 0, |i| make(&few[i % k], &few[i / k], i % 3 == 0, POLICIES[i % 4]));
	rep.rules.push("An execution repeats an enumerated cycle of events on the real server and measures, whenever everything is at rest, the bytes it has allocated and not freed (an allocator tags what is allocated inside the server's poll). Between the early and the late measurement there may be no growth, and every handle given to the server for an ended program, connection or user must have been dropped.".into());
	rep.assumptions.push("Transport, processes, application handlers and randomness are controlled stand-ins that drop the server's wakers with the handle.".into());
}
