//! C29: flow control in both directions.

use crate::refssh::{m, SMsg};
use crate::report::Rep;
use crate::session::*;
use crate::world::*;
use std::sync::Arc;

fn s(b: &str) -> Vec<u8> {
	b.as_bytes().to_vec()
}

fn open_with(cc: u32, window: u32, max: u32) -> Act {
	Act::Pay(m::open("session", cc, window, max))
}

fn more(cc: u32, n: u32) -> Act {
	Act::Ch(cc, ChMsg::Window(n))
}

fn run(cc: u32, window: u32, max: u32, cmd: &str) -> Vec<Act> {
	vec![open_with(cc, window, max), Act::Ch(cc, ChMsg::exec(true, cmd))]
}

/// Nothing beyond the windows, everything within, and what comes with it.
fn flow(w: &World, n: usize) -> Result<(), String> {
	w.alive()?;
	for i in 0..n {
		stream_ok(w, i)?;
		script_done(w, i)?;
		let l = Ledger::new(w, i)?;
		let e = |e: String| format!("conn {i}: {e}");
		check_windows(&l, w).map_err(e)?;
		check_replies(w, &l).map_err(e)?;
		check_stdin(w, &l).map_err(e)?;
		check_output(w, &l).map_err(e)?;
		check_ending(w, &l).map_err(e)?;
	}
	Ok(())
}

fn spec(name: String, policy: Policy, choices: Choices, acts: Vec<Act>, procs: Vec<ProcSpec>) -> Spec {
	Spec { name: format!("{name}/{}", policy.0), policy, choices, conns: vec![conn(0, acts)], procs, check: Arc::new(|w| flow(w, 1)), ..Default::default() }
}

fn prog(out: &[usize], err: &[usize], status: u32) -> ProcSpec {
	let mut k = 0;
	let mut pieces = |l: &[usize]| {
		l.iter()
			.map(|n| {
				k += 1;
				bytes(*n, k)
			})
			.collect::<Vec<_>>()
	};
	let (out, err) = (pieces(out), pieces(err));
	ProcSpec { out, err, status, ..Default::default() }
}

fn scenarios() -> Vec<(&'static str, Vec<Act>, Vec<ProcSpec>)> {
	let d = |cc, x: &str| Act::Ch(cc, ChMsg::Data(s(x)));
	let eof = |cc| Act::Ch(cc, ChMsg::Eof);
	let close = |cc| Act::Ch(cc, ChMsg::Close);
	let mut v = vec![];
	let mut a = run(7, 5, 100, "p0");
	a.extend([more(7, 2), more(7, 0), more(7, 4), d(7, "input"), more(7, 100)]);
	v.push(("grants while it writes", a, vec![prog(&[3, 5], &[4, 2], 1)]));
	let mut a = run(7, 4, 100, "p0");
	a.extend([Act::GotOutput(7, 4), more(7, 3), Act::GotOutput(7, 7), more(7, 1), Act::GotOutput(7, 8), more(7, 50), eof(7), Act::GotClose(7), close(7)]);
	v.push(("grants when all is used up", a, vec![prog(&[6, 1], &[5], 2)]));
	let mut a = run(7, 0, 2, "p0");
	a.extend([d(7, "abc"), more(7, 3), more(7, 7)]);
	v.push(("small packets", a, vec![prog(&[5], &[3], 3)]));
	let mut a = run(1, 0, 100, "p0");
	a.extend(run(2, 3, 100, "p1"));
	a.extend([d(1, "for one"), d(2, "for two"), more(2, 2), eof(2), more(2, 9)]);
	v.push(("one channel waits, another does not", a, vec![prog(&[3], &[2], 4), prog(&[4, 2], &[3], 5)]));
	let mut a = run(1, 2, 100, "p0");
	a.extend([d(1, "x"), Act::GotOutput(1, 2), close(1), Act::GotClose(1)]);
	a.extend(run(5, 3, 100, "p0"));
	a.extend([more(5, 1), Act::GotOutput(5, 4), eof(5)]);
	v.push(("closed while it waits, another opened", a, vec![prog(&[4, 1], &[3], 6)]));
	let mut a = vec![open_with(7, 1, 100), more(7, 2), Act::Ch(7, ChMsg::exec(false, "p0")), eof(7), more(7, 1), more(7, 2)];
	a.extend(run(8, 3, 1, "p0"));
	v.push(("grants before the command", a, vec![prog(&[2, 2], &[2], 7)]));
	v
}

/// Output of both streams in the small pieces that windows, packet sizes and grants allow; for C15 and C16.
pub fn little(rep: &mut Rep) {
	let (w, g) = (rep.by(5u32, 9), rep.by(4u32, 7));
	let maxes = [1u32, 2, 3, 1 << 15];
	let progs: Vec<ProcSpec> = vec![
		prog(&[6], &[5], 3),
		prog(&[1, 4], &[2, 3], 0),
		prog(&[], &[7, 1], 255),
		prog(&[3, 3, 3], &[], 1),
		ProcSpec { out_err: true, err_err: true, ..prog(&[4], &[4], 2) },
		ProcSpec { exit_after_eof: true, ..prog(&[5], &[5], 2) },
	];
	let n = [progs.len(), 4, maxes.len(), g as usize, w as usize];
	rep.many("output in small pieces", n.iter().product(), rep.by(0, 1), |i| {
		let (pr, p, max, g, w) = (i % n[0], POLICIES[i / n[0] % 4], maxes[i / n[0] / 4 % n[2]], 1 + (i / n[0] / 4 / n[2] % n[3]) as u32, (i / n[0] / 4 / n[2] / n[3]) as u32);
		let mut a = run(7, w, max, "p0");
		for _ in 0..(12 / g + 1) {
			a.push(more(7, g));
		}
		a.push(Act::Ch(7, ChMsg::Eof));
		spec(format!("window {w}, grants of {g}, packets of {max}, program {pr}"), p, Choices { sched: true, ..Choices::NONE }, a, vec![progs[pr].clone()])
	});
}

pub fn c29(rep: &mut Rep) {
	rep.rules.push("data and extended data never exceed the window of the open and its adjustments, nor one message the maximum packet size".into());
	rep.rules.push("at rest everything the windows allow has been sent; what ends a channel comes after all its output".into());
	rep.rules.push("a client that sends only within the server's windows and packet sizes can send everything".into());
	rep.assumptions.push("A client never lets its window exceed 2^32 - 1 (RFC 4254 5.2).".into());
	let all = |choices: Choices| -> Vec<Spec> {
		scenarios().into_iter().flat_map(|(n, a, p)| POLICIES.map(|q| spec(n.into(), q, choices, a.clone(), p.clone()))).collect()
	};
	let every = Choices { sched: true, write: true, select: true, ..Choices::NONE };
	if rep.quick() {
		rep.wide("every scenario and policy", all(every), 1);
		rep.deep(all(Choices::SCHED).into_iter().enumerate().filter(|(i, _)| (i / 4 + i % 4) % 2 == 0).map(|(_, s)| s).collect(), 2);
	} else {
		rep.deep(all(every), 2);
		rep.deep(all(Choices::SCHED), 3);
	}
	// All windows, packet sizes and outputs around the sizes of buffers.
	let wins: Vec<u32> = rep.by(
		&[0u32, 1, 2, 3, 100, 255, 256, 257, 300, 511, 512, 513, 600, 1000, 0x7fff_ffff, 0x8000_0000, u32::MAX][..],
		&[0, 1, 2, 3, 4, 5, 7, 8, 9, 64, 100, 127, 128, 129, 254, 255, 256, 257, 258, 300, 400, 511, 512, 513, 599, 600, 601, 700, 767, 768, 769, 1000, 1200, 32767, 32768, 0x7fff_ffff, 0x8000_0000, u32::MAX - 1, u32::MAX][..],
	)
	.to_vec();
	let maxs = [0u32, 1, 2, 100, 255, 256, 257, 1000, 32768, u32::MAX];
	let outs: [(&[usize], &[usize]); 7] = [(&[1], &[]), (&[300], &[300]), (&[256, 256], &[]), (&[], &[513]), (&[100, 100, 100], &[1, 255]), (&[512], &[1]), (&[700], &[])];
	let (nw, nm, no) = (wins.len(), maxs.len(), outs.len());
	rep.many("windows, packet sizes and outputs", nw * nm * no * 4, 0, |i| {
		let (win, max, o, p) = (wins[i % nw], maxs[i / nw % nm], outs[i / nw / nm % no], POLICIES[i / nw / nm / no]);
		spec(format!("window {win}, packets of {max}, output {o:?}"), p, Choices::NONE, run(7, win, max, "p0"), vec![prog(o.0, o.1, 9)])
	});
	// All windows up to a size, byte by byte.
	let top = rep.by(600, 1100);
	rep.many("windows of all sizes, then one more byte", top * 4, 0, |i| {
		let win = (i / 4) as u32;
		let mut a = run(7, win, 1 << 15, "p0");
		a.extend([Act::GotOutput(7, (win as usize).min(600)), more(7, 1), Act::GotOutput(7, (win as usize + 1).min(600)), more(7, 1)]);
		spec(format!("window {win}"), POLICIES[i % 4], Choices::NONE, a, vec![prog(&[400], &[200], 1)])
	});
	// One grant of every magnitude, as the first window or later.
	rep.many("every power of two", 33 * 3 * 2 * 4, 0, |i| {
		let n = (1u64 << (i % 33)).wrapping_add([0u64, 1, u64::MAX][i / 33 % 3]).min(u64::from(u32::MAX)) as u32;
		let first = i / 99 % 2 == 0;
		let mut a = run(7, if first { n } else { 0 }, if i % 2 == 0 { n } else { 1000 }, "p0");
		if !first {
			a.extend([Act::Replies(7, 1), more(7, n)]);
		}
		spec(format!("{n}, first {first}"), POLICIES[i / 198], Choices::NONE, a, vec![prog(&[300, 300], &[300, 50], 8)])
	});
	// All sequences of grants, given at once or whenever all is used up.
	let grants = [0u32, 1, 2, 255, 256, 300, 5000, 0xfff0_0000];
	let k = grants.len();
	let depth = rep.by(3, 4);
	rep.many("all sequences of grants", k.pow(depth) * 2 * 4, 0, |i| {
		let (mut j, wait, p) = (i / 8, i / 4 % 2 == 1, POLICIES[i % 4]);
		let first = grants[j % k];
		let mut a = run(7, first, [32768, 1, 200, 256][j % 4], "p0");
		let mut sum = u64::from(first);
		let total = 950u64;
		j /= k;
		for _ in 1..depth {
			let g = grants[j % k];
			j /= k;
			if sum + u64::from(g) > u64::from(u32::MAX) {
				continue;
			}
			if wait {
				a.push(Act::GotOutput(7, sum.min(total) as usize));
			}
			sum += u64::from(g);
			a.push(more(7, g));
		}
		a.push(Act::Ch(7, ChMsg::Eof));
		spec(format!("grants {} {wait}", i / 8), p, Choices::NONE, a, vec![prog(&[300, 300], &[300, 50], 8)])
	});
	// Many channels with windows of their own, granted in several orders.
	let counts: &[usize] = rep.by(&[2, 3, 10, 40], &[2, 3, 10, 40, 100]);
	let nc = counts.len();
	rep.many("many channels, windows of their own", nc * 3 * 4, 0, |i| {
		let (n, order, p) = (counts[i % nc], i / nc % 3, POLICIES[i / nc / 3]);
		let mut a = vec![];
		for c in 0..n {
			a.extend(run(c as u32, (c % 7) as u32, [1000, 3, 1][c % 3], "p0"));
		}
		let turn: Vec<usize> = match order {
			0 => (0..n).collect(),
			1 => (0..n).rev().collect(),
			_ => (0..n).map(|c| c * 7 % n).collect(),
		};
		for round in 1..=3u32 {
			for c in &turn {
				// One of them never gets anything more.
				if *c != n / 2 {
					a.push(more(*c as u32, round * 3));
				}
			}
		}
		spec(format!("{n} channels, order {order}"), p, Choices::NONE, a, vec![prog(&[5, 6], &[4], 2)])
	});
	// Waiting on one connection is nothing to another.
	rep.many("two connections", 4 * 4 * 3, 0, |i| {
		let (p, win, max) = (POLICIES[i % 4], [0u32, 1, 3, 100][i / 4 % 4], [1u32, 2, 32768][i / 16]);
		let mut a = run(7, win, max, "p0");
		a.extend([Act::Ch(7, ChMsg::Data(s("one"))), more(7, 2)]);
		let mut b = run(7, 5, 100, "p0");
		b.extend([Act::Ch(7, ChMsg::Data(s("two"))), Act::GotOutput(7, 5), more(7, 30), Act::Ch(7, ChMsg::Eof), Act::GotClose(7)]);
		Spec {
			conns: vec![conn(0, a), conn(1, b)],
			check: Arc::new(|w| flow(w, 2)),
			..spec(format!("window {win}, packets of {max}"), p, Choices::NONE, vec![], vec![prog(&[6, 7], &[8], 3)])
		}
	});
	// What the client does while output waits, and how the program ends meanwhile.
	let doings: Vec<(&str, Vec<Act>)> = vec![
		("eof", vec![Act::Ch(7, ChMsg::Eof)]),
		("close", vec![Act::Ch(7, ChMsg::Close), Act::GotClose(7)]),
		("a request", vec![Act::Ch(7, ChMsg::exec(true, "p0")), Act::Replies(7, 2)]),
		("data", vec![Act::Ch(7, ChMsg::Data(bytes(500, 1)))]),
		("extended data", vec![Act::Ch(7, ChMsg::Ext(1, bytes(500, 1)))]),
		("another channel", {
			let mut a = run(8, 1000, 1000, "p0");
			a.extend([Act::Ch(8, ChMsg::Eof), Act::GotClose(8), Act::Ch(8, ChMsg::Close)]);
			a
		}),
		("nothing", vec![]),
	];
	let nd = doings.len();
	let progs = || {
		let o = prog(&[300, 5], &[20], 4);
		vec![
			o.clone(),
			ProcSpec { exit_after_eof: true, ..o.clone() },
			ProcSpec { no_stderr: true, ..o.clone() },
			ProcSpec { no_stdout: true, ..o.clone() },
			ProcSpec { out_err: true, err_err: true, ..o.clone() },
			ProcSpec { no_stdin: true, ..o },
		]
	};
	rep.many("events while output waits", nd * nd * 6 * 3 * 4, 1, |i| {
		let (x, y, pr, win, p) = (&doings[i % nd], &doings[i / nd % nd], i / nd / nd % 6, [0u32, 1, 10][i / nd / nd / 6 % 3], POLICIES[i / nd / nd / 18]);
		let mut a = run(7, win, 1 << 15, &format!("p{pr}"));
		a.push(Act::GotOutput(7, win as usize));
		a.extend(x.1.clone());
		// A channel that is closed takes nothing more.
		if x.0 != "close" {
			a.push(more(7, 3));
			if (x.0, y.0) != ("another channel", "another channel") {
				a.extend(y.1.clone());
			}
			if y.0 != "close" {
				a.push(more(7, 9));
			}
		}
		spec(format!("{}, {}, program {pr}, window {win}", x.0, y.0), p, Choices::NONE, a, progs())
	});
	// The server's windows: any amount of input.
	let sizes: &[usize] = rep.by(
		&[0usize, 1, 1000, 32767, 32768, 32769, 100_000, 1 << 20, (1 << 20) + 1, (2 << 20) - 1, 2 << 20, (2 << 20) + 1, 5_000_000],
		&[0, 1, 1000, 32767, 32768, 32769, 100_000, 500_000, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, (2 << 20) - 1, 2 << 20, (2 << 20) + 1, 3 << 20, (4 << 20) - 1, 4 << 20, (4 << 20) + 1, 5_000_000, 10_000_000, 20_000_000],
	);
	let offers = [(0u32, 0u32), (1, 1), (1000, 100), (0x20_0000, 0x8000), (0x20_0000, 0x1_0000), (u32::MAX, u32::MAX)];
	let (ns, nf) = (sizes.len(), offers.len());
	let caps = [usize::MAX, 30_000, 1000];
	rep.many("amounts of input within the server's windows", ns * nf * caps.len(), 0, |i| {
		let (n, (win, max), cap) = (sizes[i % ns], offers[i / ns % nf], caps[i / ns / nf]);
		// Messages of moderate number.
		let cap = cap.max(n / 3000);
		let mut a = run(7, win, max, "p0");
		a.extend([Act::Feed(7, bytes(n, 1), cap, None), Act::Ch(7, ChMsg::Eof)]);
		spec(format!("{n} bytes, at most {cap} at once, offer {win} {max}"), P_CLIENT, Choices::NONE, a, vec![ProcSpec { exit_after_eof: true, ..prog(&[1], &[], 1) }])
	});
	// Enough for a window that shrinks a little with every adjustment to run out.
	let shapes = [(32767usize, 80_000_000usize), (20_000, 60_000_000), (255, 4_500_000), (128, 2_600_000)];
	rep.many("much input in pieces of one size", shapes.len() * 2, 0, |i| {
		let ((cap, n), ext) = (shapes[i % shapes.len()], (i / shapes.len() == 1).then_some(1));
		let mut a = run(7, 1000, 1000, "p0");
		a.extend([Act::Feed(7, bytes(n, 1), cap, ext), Act::Ch(7, ChMsg::Eof)]);
		spec(format!("{n} bytes, at most {cap} at once, type {ext:?}"), P_CLIENT, Choices::NONE, a, vec![ProcSpec { exit_after_eof: true, ..prog(&[1], &[], 1) }])
	});
	// Input nobody takes uses up the window as well.
	let kinds = ["no command", "refused command", "no stdin", "failing stdin", "ended program", "small pieces", "two channels", "again and again", "extended data", "no room for output"];
	let big = 3_000_000usize;
	rep.many("input within the server's windows that goes nowhere or to several", kinds.len() * 8, 0, |i| {
		let (kind, p, ext) = (kinds[i % kinds.len()], POLICIES[i / kinds.len() % 4], (i / kinds.len() / 4 == 1).then_some(1));
		let feed = |cc: u32, n: usize| Act::Feed(cc, bytes(n, cc as u8), usize::MAX, ext);
		let end = |cc: u32| Act::Ch(cc, ChMsg::Eof);
		let o = ProcSpec { exit_after_eof: true, ..prog(&[3], &[2], 1) };
		let (a, procs): (Vec<Act>, Vec<ProcSpec>) = match kind {
			"no command" => (vec![open(7), feed(7, big), end(7)], vec![o]),
			"refused command" => {
				let mut a = exec(7, "no");
				a.extend([feed(7, big), Act::Ch(7, ChMsg::exec(true, "no")), feed(7, big), end(7)]);
				(a, vec![o])
			}
			"no stdin" => {
				let mut a = exec(7, "p0");
				a.extend([feed(7, big), end(7)]);
				(a, vec![ProcSpec { no_stdin: true, forever: true, exit_after_eof: false, ..o }])
			}
			"failing stdin" => {
				let mut a = exec(7, "p0");
				a.extend([feed(7, big), end(7)]);
				(a, vec![ProcSpec { stdin_err_at: Some(1_500_000), forever: true, exit_after_eof: false, ..o }])
			}
			"ended program" => {
				let mut a = exec(7, "p0");
				a.extend([Act::GotEof(7), feed(7, big), end(7)]);
				(a, vec![ProcSpec { exit_after_eof: false, ..o }])
			}
			"small pieces" => {
				let mut a = exec(7, "p0");
				for k in 0..30 {
					a.push(feed(7, big / 30 + k));
				}
				a.push(end(7));
				(a, vec![ProcSpec { stdin_chunk: Some(10_000), ..o }])
			}
			"two channels" => {
				let mut a = exec(7, "p0");
				a.extend(exec(8, "p0"));
				for k in 0..20 {
					a.extend([feed(7, big / 20 + k), feed(8, big / 15)]);
				}
				a.extend([end(8), end(7)]);
				(a, vec![o])
			}
			"again and again" => {
				let mut a = vec![];
				for cc in 0..5 {
					a.extend(exec(cc, "p0"));
					a.extend([feed(cc, big / 2 + 7), end(cc), Act::GotClose(cc), Act::Ch(cc, ChMsg::Close)]);
				}
				(a, vec![o])
			}
			"extended data" => {
				let mut a = exec(7, "p0");
				for k in 0..100u8 {
					a.extend([Act::Feed(7, bytes(20_000, k), usize::MAX, Some(1 + u32::from(k % 2))), feed(7, 30_000)]);
				}
				a.push(end(7));
				(a, vec![o])
			}
			_ => {
				let mut a = run(7, 0, 32768, "p0");
				a.extend([feed(7, big), more(7, 2), feed(7, big), end(7)]);
				(a, vec![o])
			}
		};
		spec(kind.into(), p, Choices::NONE, a, procs)
	});
	// The largest packet the server allows, and what it says about itself.
	rep.many("the server's offer", offers.len(), 0, |i| {
		let (win, max) = offers[i];
		Spec {
			check: Arc::new(|w| {
				flow(w, 1)?;
				let offer = w.conns[0].msgs.iter().find_map(|m| match m {
					SMsg::OpenConfirm { window, max, .. } => Some((*window, *max)),
					_ => None,
				});
				match offer {
					Some((w, m)) if w > 0 && m > 0 => Ok(()),
					o => Err(format!("a channel nothing can be sent on: window and packet size {o:?}")),
				}
			}),
			..spec(format!("offer {win} {max}"), P_CLIENT, Choices::NONE, vec![open_with(7, win, max)], vec![])
		}
	});
}
