//! C19 to C21: hostile peers, faults and stalls.

use crate::client::HsSpec;
use crate::p_msg;
use crate::refssh::*;
use crate::report::Rep;
use crate::session::*;
use crate::world::*;
use std::sync::{Arc, Mutex};

fn chk(f: impl Fn(&World) -> Result<(), String> + Send + Sync + 'static) -> Check {
	Arc::new(f)
}

fn s(b: &str) -> Vec<u8> {
	b.as_bytes().to_vec()
}

// ---------------------------------------------------------------- the others

/// p0: answers after five bytes and ends with its input. p1: writes on its own. p2: writes and ends with its input.
fn procs() -> Vec<ProcSpec> {
	vec![
		ProcSpec { out: vec![s("answer "), s("done")], err: vec![s("note")], wait_stdin: 5, exit_after_eof: true, status: 3, ..Default::default() },
		ProcSpec { out: vec![s("one"), s("two")], err: vec![s("err")], status: 4, ..Default::default() },
		ProcSpec { out: vec![s("early")], err: vec![s("err")], exit_after_eof: true, status: 5, ..Default::default() },
	]
}

pub fn secret(i: usize) -> HsSpec {
	HsSpec { secret: [i as u8 + 1; 32], ..Default::default() }
}

fn dialogue(i: usize, stage: Option<usize>) -> Vec<Act> {
	let mut v = exec(3, "p0 x");
	if let Some(n) = stage {
		v.push(Act::Replies(3, 1));
		v.push(Act::Stage(n));
	}
	v.extend([
		Act::Ch(3, ChMsg::Data(s("hello"))),
		Act::GotData(3, 7),
		Act::Ch(3, ChMsg::Data(s(" there"))),
		open(4),
		Act::Ch(4, ChMsg::exec(true, "p1 y")),
		Act::Ch(3, ChMsg::Eof),
	]);
	crate::session::script(i, v)
}

/// How many bytes a client sends up to its first channel message.
const LOGIN: usize = 530;

/// Connection 0 is served before and after connection 1 does its work, connection 2 comes after that; connection 3
/// is somewhere in its handshake or login meanwhile.
fn staged(name: String, bad: ConnSpec, check: &Check) -> Spec {
	let at = name.bytes().fold(7usize, |a, b| a.wrapping_mul(31).wrapping_add(b as usize)) % LOGIN;
	staged_at(name, bad, at, check)
}

fn staged_at(name: String, bad: ConnSpec, at: usize, check: &Check) -> Spec {
	Spec {
		name: format!("{name} (in between)"),
		conns: vec![
			ConnSpec { hs: secret(0), script: dialogue(0, Some(2)), ..Default::default() },
			ConnSpec { late: 1, ..bad },
			ConnSpec { hs: secret(2), script: dialogue(2, None), late: 2, ..Default::default() },
			ConnSpec { hs: secret(3), script: dialogue(3, None), pause_at: Some((at, 2)), ..Default::default() },
		],
		procs: procs(),
		check: check.clone(),
		..Default::default()
	}
}

/// All at once; connection 2 comes later.
fn together(name: String, bad: ConnSpec, check: &Check) -> Spec {
	Spec {
		name: format!("{name} (at once)"),
		conns: vec![
			ConnSpec { hs: secret(0), script: dialogue(0, None), ..Default::default() },
			bad,
			ConnSpec { hs: secret(2), script: dialogue(2, None), late: 2, ..Default::default() },
		],
		procs: procs(),
		check: check.clone(),
		..Default::default()
	}
}

/// Connection 1 never runs out of something to send or to be sent. Connection 2 comes, is served and leaves, then
/// connection 0 goes on and is done, and only then connection 1 stops.
fn endless(rep: &mut Rep) {
	let un = |ch, want| Act::Ch(ch, ChMsg::Request { ty: s("env"), want, data: W::default().s("a").s("b").done() });
	let pay = |v: Vec<u8>| vec![Act::Pay(v)];
	let floods: Vec<(&str, Vec<Act>)> = vec![
		("ignored messages", pay(W::new(2).s("x").done())),
		("large ignored messages", pay(W::new(2).s(vec![7; 30000]).done())),
		("messages of unknown types", pay(vec![200, 1, 2, 3])),
		("unanswered requests", vec![un(9, false)]),
		("answered requests", vec![un(9, true)]),
		("refused opens", pay(m::open("x11", 99, 1, 1))),
		("window adjustments", vec![Act::Ch(9, ChMsg::Window(0))]),
		("empty data", vec![Act::Ch(9, ChMsg::Data(vec![]))]),
		("empty extended data", vec![Act::Ch(9, ChMsg::Ext(1, vec![]))]),
		("login requests once logged in", pay(m::auth_password(b"x", b"good"))),
		("messages of many kinds", vec![un(9, true), Act::Ch(9, ChMsg::Window(1)), Act::Pay(vec![4, 1, 0, 0, 0, 0, 0, 0, 0, 0]), un(9, false), Act::Ch(9, ChMsg::Data(vec![]))]),
	];
	let after = |i| Box::new(Act::After(i));
	let mut ways: Vec<(String, Vec<Act>)> = vec![];
	// Output without end.
	for (name, progs) in [("stdout", &["p3"][..]), ("stderr", &["p4"]), ("both streams", &["p5"]), ("two programs", &["p3", "p5"]), ("four programs", &["p3", "p4", "p5", "p3"])] {
		let mut a = vec![];
		for (k, p) in progs.iter().enumerate() {
			a.extend([Act::Pay(m::open("session", 10 + k as u32, u32::MAX, 0x8000)), Act::Ch(10 + k as u32, ChMsg::exec(true, p))]);
		}
		a.push(Act::GotOutput(10, 2000));
		a.extend(exec(20, "p1 y"));
		a.extend([Act::GotClose(20), Act::Ch(10, ChMsg::Data(s("input"))), Act::After(0)]);
		for k in 0..progs.len() as u32 {
			a.extend([Act::Ch(10 + k, ChMsg::Close), Act::GotClose(10 + k)]);
		}
		ways.push((format!("output without end from {name}"), crate::session::script(1, a)));
	}
	// Input without end.
	for (name, f) in &floods {
		let mut a = vec![open(9), Act::Opened(9)];
		a.extend(exec(20, "p1 y"));
		a.extend([Act::Flood(f.clone(), Box::new(Act::GotClose(20))), Act::Flood(f.clone(), after(0))]);
		a.extend(exec(21, "p1 y"));
		a.push(Act::GotClose(21));
		ways.push((format!("{name} without end"), crate::session::script(1, a)));
		// Both.
		let mut a = vec![open(9), Act::Pay(m::open("session", 10, u32::MAX, 0x8000)), Act::Ch(10, ChMsg::exec(true, "p5")), Act::Opened(9), Act::Opened(10)];
		a.extend(exec(20, "p1 y"));
		a.extend([Act::Flood(f.clone(), Box::new(Act::GotClose(20))), Act::Flood(f.clone(), after(0)), Act::Ch(10, ChMsg::Close), Act::GotClose(10)]);
		ways.push((format!("{name} and output without end"), crate::session::script(1, a)));
	}
	// Before login.
	let u = b"u1";
	for (name, p) in [("refused logins", m::auth_none(u)), ("wrong passwords", m::auth_password(u, b"bad")), ("queries for keys", m::auth(u, b"ssh-connection", b"publickey").bool(false).s("ssh-ed25519").s(W::default().s("ssh-ed25519").s([3; 32]).done()).done())] {
		let a = vec![Act::Pay(m::service_request("ssh-userauth")), Act::Msgs(1), Act::Flood(pay(p), after(0)), Act::Pay(m::auth_password(u, b"good"))];
		ways.push((format!("{name} without end"), a));
	}
	// Before the identification; how much of that is put up with is not for us to say.
	let lines = |s: &str| s.repeat(1000 / s.len()).into_bytes();
	for (name, b) in [("a line", vec![b'x'; 1000]), ("zeroes", vec![0; 1000]), ("empty lines", lines("\r\n")), ("lines", lines("hello there\r\n")), ("lines like SSH", lines("SSH 2.0\r\n")), ("line feeds", lines("\n"))] {
		ways.push((format!("{name} without end in place of an identification"), vec![Act::Flood(vec![Act::Raw(b)], after(0))]));
	}
	let check = chk(|w| {
		w.alive()?;
		for i in [0, 2] {
			served(w, i).map_err(|e| format!("another connection suffers: {e}"))?;
		}
		if w.conns[1].spec.hs.raw.is_some() {
			return Ok(());
		}
		stream_ok(w, 1)?;
		script_done(w, 1)
	});
	let fair = rep.by(&[1usize, 3][..], &[1, 2, 3, 5, 8]);
	let when = rep.by(&[0usize, 1, 40][..], &[0, 1, 2, 10, 40, 200, 700]);
	let mut specs = vec![];
	for (name, a) in &ways {
		for p in POLICIES {
			for f in fair {
				for n in when {
					let mut v = dialogue(0, None);
					let at = v.iter().position(|a| matches!(a, Act::GotData(3, 7))).unwrap();
					v.insert(at, Act::After(2));
					let mut procs = procs();
					for e in [[true, false], [false, true], [true, true]] {
						procs.push(ProcSpec { endless: e, forever: true, ..Default::default() });
					}
					specs.push(Spec {
						name: format!("{name}, a new connection at {n}, {f} at a time, {}", p.0),
						policy: p,
						fair: Some(*f),
						conns: vec![
							ConnSpec { hs: secret(0), script: v, ..Default::default() },
							ConnSpec { hs: HsSpec { raw: matches!(&a[..], [Act::Flood(..)]).then(|| vec![s("x")]), ..secret(1) }, script: a.clone(), ..Default::default() },
							ConnSpec { hs: secret(2), script: dialogue(2, None), when: *n, ..Default::default() },
						],
						procs,
						check: check.clone(),
						..Default::default()
					});
				}
			}
		}
	}
	rep.wide("others are served although one side always has more", specs, 0);
}

fn others(w: &World) -> Result<(), String> {
	w.alive()?;
	for i in (0..w.conns.len()).filter(|i| *i == 0 || *i == 2 || w.conns[*i].spec.pause_at.is_some()) {
		served(w, i).map_err(|e| format!("another connection suffers: {e}"))?;
	}
	Ok(())
}

/// Many connections that are all somewhere in their handshake or login, or logged in with a command running, while
/// one more comes and is served; then all of them go on.
fn crowds(rep: &mut Rep, check: &Check) {
	let all = check.clone();
	let check = chk(move |w| {
		all(w)?;
		// Not only when the others have gone on.
		for i in [0, 2] {
			if w.conns[i].done_at.map_or(true, |s| s > 2) {
				return Err(format!("connection {i} has to wait for others ({} of them)", w.conns.len() - 3));
			}
		}
		Ok(())
	});
	let sizes = rep.by(&[3usize, 12, 40, 70, 130, 260][..], &[3, 12, 40, 70, 130, 260, 600, 1100]);
	let at: Vec<Option<usize>> = [0, 1, 20, 100, 300, 400, 500, 560, 620].iter().map(|n| Some(*n)).chain([None]).collect();
	rep.many("crowds of connections at one point of their life", sizes.len() * at.len(), 0, |i| {
		let (n, at) = (sizes[i / at.len()], at[i % at.len()]);
		let mut conns = vec![
			ConnSpec { hs: secret(0), script: dialogue(0, Some(2)), ..Default::default() },
			ConnSpec { hs: secret(1), script: dialogue(1, Some(3)), ..Default::default() },
			ConnSpec { hs: secret(2), script: dialogue(2, None), late: 2, ..Default::default() },
		];
		for k in 3..3 + n {
			let mut c = ConnSpec { hs: HsSpec { secret: [(k % 250) as u8 + 1; 32], ..Default::default() }, late: 1, ..Default::default() };
			match at {
				Some(at) => {
					c.script = dialogue(k, None);
					c.pause_at = Some((at, 3));
				}
				None => {
					c.script = dialogue(k, Some(3));
					c.pause_at = Some((usize::MAX, 3));
				}
			}
			conns.push(c);
		}
		conns.push(ConnSpec { hs: secret(200), script: dialogue(3 + n, None), late: 3, pause_at: Some((usize::MAX, 3)), ..Default::default() });
		Spec { name: format!("{n} connections at {at:?}"), policy: POLICIES[i % 4], conns, procs: procs(), check: check.clone(), ..Default::default() }
	});
}

// ---------------------------------------------------------------- C19

/// Where in its life a connection is; the script up to there.
fn stages() -> Vec<(&'static str, Vec<Act>)> {
	let svc = Act::Pay(m::service_request("ssh-userauth"));
	let user = conn_user(1);
	let fail = Act::Pay(m::auth_password(&user, b"bad"));
	let ok = Act::Pay(m::auth_password(&user, b"good"));
	let ex = |c: &str| Act::Ch(7, ChMsg::exec(true, c));
	vec![
		("before service", vec![]),
		("before auth", vec![svc.clone()]),
		("after failure", vec![svc.clone(), fail]),
		("logged in", vec![svc.clone(), ok.clone()]),
		("channel open", vec![svc.clone(), ok.clone(), open(7), Act::Opened(7)]),
		("command running", vec![svc.clone(), ok.clone(), open(7), ex("p2 z"), Act::Replies(7, 1)]),
		("command over", vec![svc.clone(), ok.clone(), open(7), ex("p1 z"), Act::GotClose(7)]),
		("channel closed", vec![svc, ok, open(7), ex("p2 z"), Act::Ch(7, ChMsg::Close), Act::GotClose(7)]),
	]
}

fn with_acts(before: &[Act], acts: Vec<Act>) -> ConnSpec {
	let mut script = before.to_vec();
	script.extend(acts);
	ConnSpec { hs: secret(1), script, ..Default::default() }
}

/// Messages a peer may send, well-formed or not.
fn messages(deep: bool) -> Vec<Vec<u8>> {
	let mut v: Vec<Vec<u8>> = vec![vec![]];
	let bodies: Vec<Vec<u8>> = vec![vec![], vec![0; 4], vec![0; 8], vec![0; 12], vec![0xff; 4], vec![0xff; 12], W::default().u32(0).s("x").done(), W::default().s("session").u32(7).u32(1).u32(1).done()];
	for ty in 0..=255u8 {
		for b in &bodies {
			v.push([&[ty][..], b].concat());
		}
	}
	for k in p_msg::KINDS {
		for (n, val) in p_msg::values(k, usize::from(deep), false).iter().enumerate() {
			let e = p_msg::encode(k, val);
			if e.len() > 3000 {
				v.push(e);
				continue;
			}
			if n < 2 {
				for cut in 1..e.len() {
					v.push(e[..cut].to_vec());
				}
				v.push([&e[..], &[0]].concat());
				v.push([&e[..], &[0xff; 5]].concat());
			}
			v.push(e);
		}
	}
	for k in p_msg::SESSION {
		for val in p_msg::values(k, usize::from(deep), false) {
			let e = p_msg::encode(k, &val);
			if e.len() > 3000 {
				continue;
			}
			for ch in [0u32, 1, 0xffff_ffff] {
				v.push(m::request(ch, k.name, true, &e));
			}
			for cut in 0..e.len() {
				v.push(m::request(0, k.name, true, &e[..cut]));
			}
			v.push(m::request(0, k.name, true, &[&e[..], &[0]].concat()));
			v.push(m::request(0, k.name, false, &e));
		}
	}
	// Blobs inside a public-key request: cut, extended, with every length and letter changed.
	for signed in [false, true] {
		let k = W::default().s("a").s("key").done();
		let sg = W::default().s("a").s("sig").done();
		let damaged = |b: &[u8]| {
			let mut d: Vec<Vec<u8>> = (0..b.len()).map(|n| b[..n].to_vec()).collect();
			d.push([b, &[0]].concat());
			d.push([b, &[0; 4]].concat());
			for i in 0..b.len() {
				for x in [1u8, 2, 4, 0x80, 0xff] {
					let mut e = b.to_vec();
					e[i] ^= x;
					d.push(e);
				}
			}
			d
		};
		let whole = |k: &[u8], sg: &[u8]| {
			let w = m::auth(b"u", b"ssh-connection", b"publickey").bool(signed).s("a").s(k);
			if signed { w.s(sg).done() } else { w.done() }
		};
		v.push(whole(&k, &sg));
		v.extend(damaged(&k).iter().map(|k| whole(k, &sg)));
		if signed {
			v.extend(damaged(&sg).iter().map(|sg| whole(&k, sg)));
		}
	}
	// Text that is none.
	v.push(m::auth(b"\xff\xfe", b"ssh-connection", b"none").done());
	v.push(m::auth(b"u", b"\xff", b"none").done());
	v.push(m::auth(b"u", b"s", b"\xff").done());
	v.push(m::open("session", 0xffff_ffff, 0, 0));
	v.push(m::open("session", 7, 0xffff_ffff, 0xffff_ffff));
	// Channels that do not exist.
	for ch in [0u32, 1, 2, 7, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff] {
		v.push(m::data(ch, b"d"));
		v.push(m::data(ch, b""));
		v.push(m::eof(ch));
		v.push(m::close(ch));
		v.push(m::exec(ch, true, b"p1"));
		v.push(m::exec(ch, true, b""));
		v.push(m::exec(ch, true, b"\xff"));
		v.push(W::new(93).u32(ch).u32(0xffff_ffff).done());
		v.push(W::new(95).u32(ch).u32(9).s("e").done());
		v.push(W::new(99).u32(ch).done());
		v.push(W::new(100).u32(ch).done());
	}
	v.sort();
	v.dedup();
	v
}

/// Raw bytes in the place of the identification line and the plain packets.
fn plain_garbage() -> Vec<(String, HsSpec)> {
	let mut v: Vec<(String, HsSpec)> = vec![];
	let mut raw = |n: String, units: Vec<Vec<u8>>| v.push((n, HsSpec { raw: Some(units), ..Default::default() }));
	raw("nothing".into(), vec![]);
	for b in 0..=255u8 {
		raw(format!("the byte {b}"), vec![vec![b]]);
		raw(format!("the byte {b} 300 times"), vec![vec![b; 300]]);
		raw(format!("a line of the byte {b}"), vec![[&[b][..], b"\r\n"].concat()]);
	}
	let id = b"SSH-2.0-ref\r\n".to_vec();
	raw("identification only".into(), vec![id.clone()]);
	for b in 0..=255u8 {
		raw(format!("identification and the byte {b}, 100 times"), vec![id.clone(), vec![b; 100]]);
	}
	for len in [0u32, 1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 19, 20, 28, 100, 4092, 34_980, 34_988, 34_992, 34_996, 34_997, 35_000, 35_004, 40_004, 65_532, 0x7fff_ffff, 0x8000_0000, 0xffff_fffc, 0xffff_ffff] {
		for pad in [0u8, 1, 3, 4, 7, 11, 27, 99, 255] {
			for fill in [0usize, 8, 35_100] {
				let mut p = len.to_be_bytes().to_vec();
				p.push(pad);
				p.resize(5 + fill, 20);
				raw(format!("packet of length {len} padding {pad}, {fill} bytes of it"), vec![id.clone(), p]);
			}
		}
	}
	let kex = kexinit(&GOOD_LISTS, b"0123456789abcdef", 0);
	for n in 0..kex.len() {
		v.push((format!("KEXINIT cut to {n}"), HsSpec { kexinit: Some(kex[..n].to_vec()), ..Default::default() }));
	}
	for i in 0..kex.len() {
		for x in [0x01, 0x80, 0xff] {
			let mut k = kex.clone();
			k[i] ^= x;
			v.push((format!("KEXINIT byte {i} changed by {x}"), HsSpec { kexinit: Some(k), ..Default::default() }));
		}
	}
	for n in (0..=70).chain([100, 255, 256, 1000, 30_000]) {
		for fill in [0u8, 1, 9, 0xff] {
			v.push((format!("client key of {n} bytes {fill}"), HsSpec { ecdh: Some(W::new(30).s(vec![fill; n]).done()), ..Default::default() }));
		}
	}
	let ecdh = W::new(30).s([9u8; 32]).done();
	for n in 0..ecdh.len() {
		v.push((format!("key message cut to {n}"), HsSpec { ecdh: Some(ecdh[..n].to_vec()), ..Default::default() }));
	}
	for ty in 0..=255u8 {
		for body in [&[][..], &[0, 0, 0, 0], &[0, 0, 0, 1, 65], &[0xff; 40]] {
			let p = [&[ty][..], body].concat();
			v.push((format!("{} for KEXINIT", hex(&p)), HsSpec { kexinit: Some(p.clone()), ..Default::default() }));
			v.push((format!("{} for the key", hex(&p)), HsSpec { ecdh: Some(p.clone()), ..Default::default() }));
			v.push((format!("{} for NEWKEYS", hex(&p)), HsSpec { newkeys: Some(p.clone()), ..Default::default() }));
			v.push((format!("{} as guess", hex(&p)), HsSpec { follows: 1, guess: Some(p), ..Default::default() }));
		}
	}
	for (n, h) in v.iter_mut() {
		if n.len() % 2 == 0 {
			h.polite = true;
		}
	}
	v
}

/// Packets with authentic encryption but strange framing, and wire bytes that are none.
fn frames() -> Vec<(String, Act)> {
	let mut v = vec![];
	for n in (0..=48).chain([64, 100, 255, 256, 257, 1000, 34_900, 34_984, 34_992, 35_000, 35_008, 36_000, 70_000]) {
		for pad in [0u8, 1, 3, 4, 5, 7, 11, 100, 254, 255] {
			let mut f = (n as u32).to_be_bytes().to_vec();
			f.resize(4 + n, 2);
			if n > 0 {
				f[4] = pad;
			}
			v.push((format!("packet of {n} bytes, padding {pad}"), Act::Frame(f)));
		}
	}
	for b in [0u8, 1, 0x7f, 0x80, 0xff] {
		for n in [1usize, 3, 4, 5, 16, 19, 20, 21, 100, 1000, 40_000] {
			v.push((format!("{n} bytes {b} on the wire"), Act::Raw(vec![b; n])));
		}
	}
	v
}

pub fn c19(rep: &mut Rep) {
	let check = chk(others);
	let deep = !rep.quick();
	// Before encryption.
	let g = plain_garbage();
	let both = rep.by(1, 2);
	rep.many("bytes and messages before encryption", g.len() * both, 0, |i| {
		let (n, hs) = &g[i / both];
		let shut = n.len() % 3 == 0;
		let c = ConnSpec { hs: HsSpec { secret: [2; 32], ..hs.clone() }, script: if shut { vec![Act::Shut] } else { vec![] }, ..Default::default() };
		if i % 2 == 0 {
			staged(n.clone(), c, &check)
		} else {
			together(n.clone(), c, &check)
		}
	});
	// One message at each stage.
	let msgs = messages(deep);
	let st = stages();
	rep.many("one message at each stage", msgs.len() * st.len(), 0, |i| {
		let (m, (sn, before)) = (&msgs[i / st.len()], &st[i % st.len()]);
		// Whatever the first one did, a session attempt follows.
		let acts = vec![Act::Pay(m.clone()), open(9), Act::Pay(m::exec(0, true, b"p1 q")), Act::Pay(m::data(0, b"data")), Act::Pay(m::eof(0))];
		let name = format!("{} {sn}", hex(&m[..m.len().min(60)]));
		let c = with_acts(before, acts);
		if i / st.len() % 2 == 0 {
			staged(name, c, &check)
		} else {
			together(name, c, &check)
		}
	});
	// Well-formed messages with one byte changed.
	let mut flips: Vec<(usize, Vec<u8>)> = vec![];
	for k in p_msg::KINDS {
		for val in p_msg::values(k, 0, false).iter().take(if deep { 4 } else { 2 }) {
			let e = p_msg::encode(k, val);
			let at: &[usize] = match e[0] {
				50..=79 => &[1, 2],
				90..=127 => &[4, 5],
				_ => &[1, 5],
			};
			for i in 1..e.len().min(200) {
				for x in [0x01, 0x80, 0xff] {
					let mut m = e.clone();
					m[i] ^= x;
					flips.extend(at.iter().map(|at| (*at, m.clone())));
				}
			}
		}
	}
	for k in p_msg::SESSION {
		for val in p_msg::values(k, 0, false).iter().take(1) {
			let e = m::request(0, k.name, true, &p_msg::encode(k, val));
			for i in 1..e.len().min(200) {
				for x in [0x01, 0x80, 0xff] {
					let mut m = e.clone();
					m[i] ^= x;
					flips.push((4, m));
				}
			}
		}
	}
	rep.many("messages with one byte changed", flips.len(), 0, |i| {
		let (at, m) = &flips[i];
		let (sn, before) = &st[*at];
		let acts = vec![Act::Pay(m.clone()), open(9), Act::Pay(m::exec(0, true, b"p1 q")), Act::Pay(m::eof(0))];
		staged(format!("{} {sn}", hex(&m[..m.len().min(100)])), with_acts(before, acts), &check)
	});
	// Two messages: all pairs of types with plausible contents.
	let mut pair: Vec<Vec<u8>> = p_msg::KINDS.iter().map(|k| p_msg::encode(k, &p_msg::values(k, 0, false)[0])).collect();
	pair.extend([m::exec(0, true, b"p1"), m::exec(0, true, b"fail"), m::request(0, "shell", true, b""), m::data(0, b"x"), m::eof(0), m::close(0), m::open("session", 7, 1, 1), vec![255], vec![98, 0]]);
	let sel: Vec<usize> = if deep { (0..st.len()).collect() } else { vec![2, 5] };
	rep.many("two messages at each stage", pair.len() * pair.len() * sel.len(), 0, |i| {
		let (sn, before) = &st[sel[i % sel.len()]];
		let j = i / sel.len();
		let (a, b) = (&pair[j / pair.len()], &pair[j % pair.len()]);
		staged(format!("{} {} {sn}", hex(&a[..a.len().min(30)]), hex(&b[..b.len().min(30)])), with_acts(before, vec![Act::Pay(a.clone()), Act::Pay(b.clone())]), &check)
	});
	// Packets.
	let fr = frames();
	rep.many("strange packets at each stage", fr.len() * st.len(), 0, |i| {
		let ((n, f), (sn, before)) = (&fr[i / st.len()], &st[i % st.len()]);
		let mut acts = vec![f.clone(), Act::Pay(m::open("session", 9, 1, 1))];
		if i % 3 == 0 {
			acts.push(Act::Shut);
		}
		staged(format!("{n} {sn}"), with_acts(before, acts), &check)
	});
	// Messages near every buffer limit.
	let sizes: Vec<usize> = if deep { (34_880..=35_010).chain((0..35_000).step_by(97)).collect() } else { (34_900..=35_008).step_by(3).chain([32_768, 34_000, 17_000, 255, 256, 257]).collect() };
	type Big = (&'static str, usize, fn(&[u8]) -> Vec<u8>);
	let big: [Big; 14] = [
		("service name", 0, |b| W::new(5).s(b).done()),
		("user name", 1, |b| m::auth_password(b, b"bad")),
		("password", 1, |b| m::auth_password(b"u1", b)),
		("method", 1, |b| m::auth(b"u1", b"s", b).done()),
		("key query", 1, |b| m::auth(b"u1", b"s", b"publickey").bool(false).s("a").s(W::default().s("a").s(b).done()).done()),
		("query with long algorithm", 1, |b| m::auth(b"u1", b"s", b"publickey").bool(false).s(&b[..b.len() / 2]).s(W::default().s(&b[..b.len() / 2]).s("").done()).done()),
		("signed request", 1, |b| m::auth(b"u1", b"s", b"publickey").bool(true).s("a").s(W::default().s("a").s(b).done()).s(W::default().s("a").s("s").done()).done()),
		("signature", 1, |b| m::auth(b"u1", b"s", b"publickey").bool(true).s("a").s(W::default().s("a").s("k").done()).s(W::default().s("a").s(b).done()).done()),
		("channel type", 3, |b| W::new(90).s(b).u32(7).u32(1).u32(1).done()),
		("command", 4, |b| m::exec(0, true, b)),
		("request type", 4, |b| W::new(98).u32(0).s(b).bool(true).done()),
		("data", 5, |b| m::data(0, b)),
		("ignored data", 3, |b| W::new(2).s(b).done()),
		("unknown message", 3, |b| [&[222u8][..], b].concat()),
	];
	rep.many("messages of every size near the limits", big.len() * sizes.len(), 0, |i| {
		let ((n, at, f), size) = (&big[i % big.len()], sizes[i / big.len()]);
		let body = vec![b'a'; size];
		staged(format!("{n} of {size} bytes"), with_acts(&st[*at].1, vec![Act::Pay(f(&body)), Act::Pay(m::auth_none(b"u1"))]), &check)
	});
	// Many at once.
	crowds(rep, &check);
	let bad: Vec<(&str, ConnSpec)> = vec![
		("garbage", ConnSpec { hs: HsSpec { ident: vec![0; 40], ..Default::default() }, ..Default::default() }),
		("nothing", ConnSpec::default()),
		("an unknown channel", with_acts(&st[3].1, vec![Act::Pay(m::data(99, b"x"))])),
		("a malformed message", with_acts(&st[5].1, vec![Act::Pay(vec![94, 0])])),
		("refused", with_acts(&st[2].1, vec![Act::Pay(m::open("session", 1, 1, 1))])),
		("disconnect", with_acts(&st[5].1, vec![Act::Pay(m::disconnect())])),
		("shut", with_acts(&st[5].1, vec![Act::Shut])),
	];
	let sizes: &[usize] = if deep { &[5, 20, 70, 150, 300, 1030] } else { &[5, 20, 70, 150] };
	rep.many("crowds of bad peers, then a good one", bad.len() * sizes.len() * 2, 0, |i| {
		let ((n, c), size, at_once) = (&bad[i / 2 % bad.len()], sizes[i / 2 / bad.len()], i % 2 == 0);
		let mut conns = vec![ConnSpec { hs: secret(0), script: dialogue(0, Some(size + 1)), ..Default::default() }];
		let mut late = vec![];
		for k in 1..=size {
			late.push(ConnSpec { late: if at_once { 1 } else { k }, pause_at: None, ..c.clone() });
		}
		if *n == "nothing" {
			for l in &mut late {
				l.hs.ident = vec![];
				l.script = vec![];
			}
		}
		conns.push(late.remove(0));
		// The third place is that of the good one.
		conns.push(ConnSpec { hs: secret(2), script: dialogue(2, None), late: size + 1, ..Default::default() });
		conns.extend(late);
		Spec { name: format!("{size} peers with {n}, at once {at_once}"), policy: POLICIES[i % 4], conns, procs: procs(), check: check.clone(), ..Default::default() }
	});
	// What handlers answer.
	let mut specs = vec![];
	for bits in 0..32u8 {
		for (k, status) in [0u32, 1, 0xffff_ffff].into_iter().enumerate() {
			let script = crate::session::script(1, {
				let mut a = exec(7, "p3 odd");
				a.extend([Act::Ch(7, ChMsg::Data(s("input"))), Act::Ch(7, ChMsg::exec(true, "nope")), Act::Ch(7, ChMsg::exec(true, "p3 again")), open(8), Act::Ch(8, ChMsg::exec(true, ""))]);
				a
			});
			let c = ConnSpec { hs: secret(1), script, ..Default::default() };
			let mut x = if k == 0 { staged(format!("answers {bits} {status}"), c, &check) } else { together(format!("answers {bits} {status}"), c, &check) };
			x.procs.push(ProcSpec {
				out: vec![s("out"), bytes(40_000, 1)],
				err: vec![s("err")],
				status,
				no_stdin: bits & 1 != 0,
				no_stdout: bits & 2 != 0,
				no_stderr: bits & 4 != 0,
				out_err: bits & 8 != 0,
				err_err: bits & 8 != 0,
				stdin_err_at: (bits & 16 != 0).then_some(2),
				..Default::default()
			});
			x.policy = POLICIES[bits as usize % 4];
			specs.push(x);
		}
	}
	for (n, auth, exists) in [
		("refuse all", (|_, _, _| false) as fn(&[u8], &[u8], &AuthRec) -> bool, (|_, _, _, _| false) as fn(&[u8], &[u8], &[u8], &[u8]) -> bool),
		("approve all", |_, _, _| true, |_, _, _, _| true),
	] {
		for p in 0..4 {
			let u = conn_user(1);
			let acts = vec![
				Act::Pay(m::service_request("ssh-userauth")),
				Act::Pay([m::auth_none(&u), m::auth_password(&u, b"x"), m::auth(&u, b"s", b"publickey").bool(false).s("a").s(W::default().s("a").s("k").done()).done(), m::auth(&u, b"s", b"hostbased").done()][p].clone()),
				open(7),
				Act::Ch(7, ChMsg::exec(true, "p1")),
			];
			let mut x = staged(format!("{n} {p}"), ConnSpec { hs: secret(1), script: acts, ..Default::default() }, &chk(|w| w.alive()));
			x.auth = auth;
			x.exists = exists;
			specs.push(x);
		}
	}
	rep.wide("what handlers answer", specs, 0);
	// Many things at once.
	let mut specs = vec![];
	for n in [10usize, 100, 1000] {
		let acts = crate::session::script(1, (0..n).map(|k| open(k as u32)).collect());
		specs.push(together(format!("{n} channels"), ConnSpec { hs: secret(1), script: acts, ..Default::default() }, &check));
		let mut acts = login(1);
		for k in 0..n.min(300) {
			acts.extend(exec(k as u32, "p2"));
		}
		specs.push(together(format!("{n} commands"), ConnSpec { hs: secret(1), script: acts, ..Default::default() }, &check));
		let acts = (0..n).map(|_| Act::Pay(m::auth_none(b"u1"))).collect();
		specs.push(together(format!("{n} attempts"), with_acts(&st[1].1, acts), &check));
	}
	rep.wide("many channels, commands and attempts", specs, 0);
	// Under every schedule.
	let mut specs = vec![];
	let crashers: Vec<(&str, usize, Vec<Act>)> = vec![
		("unknown channel", 5, vec![Act::Pay(m::data(9, b"x"))]),
		("malformed", 5, vec![Act::Pay(vec![94, 1])]),
		("disconnect", 5, vec![Act::Pay(m::disconnect())]),
		("close and shut", 5, vec![Act::Ch(7, ChMsg::Close), Act::Shut]),
		("garbage", 3, vec![Act::Raw(vec![7; 100])]),
	];
	for (n, at, acts) in crashers {
		for p in [P_CLIENT, P_PROC] {
			let mut script = st[at].1.clone();
			script.push(Act::Enable);
			script.extend(acts.clone());
			let mut x = together(format!("{n}, schedules, {}", p.0), ConnSpec { hs: secret(1), script, ..Default::default() }, &check);
			x.conns.truncate(2);
			x.conns[0].script = {
				let mut a = dialogue(0, None);
				let at = a.iter().position(|a| matches!(a, Act::Enable)).unwrap();
				a.remove(at);
				a.insert(at + 2, Act::Replies(3, 1));
				a.insert(at + 3, Act::Enable);
				a
			};
			x.check = chk(|w| {
				w.alive()?;
				served(w, 0).map_err(|e| format!("another connection suffers: {e}"))
			});
			x.policy = p;
			x.choices = Choices { sched: true, select: true, ..Choices::NONE };
			specs.push(x);
		}
	}
	let bound = rep.by(1, 2);
	rep.deep(specs, bound);
	notes(rep);
	rep.rules.push("An execution runs the real server with three clients: one established before and used after, one that sends an enumerated hostile or odd input at an enumerated stage, and one that connects afterwards. The server must neither panic nor end, and the other two must be served completely and exactly.".into());
	crate::p_sshd::scarce(rep);
}

fn notes(rep: &mut Rep) {
	rep.assumptions.push("Transport, processes, application handlers and randomness are controlled stand-ins; the clients are an independent implementation from the RFCs; one executor thread, as the server requires.".into());
}

// ---------------------------------------------------------------- C20

/// A connection with input, output on both streams, two channels, a refused request.
fn busy(i: usize) -> Vec<Act> {
	let mut a = exec(7, "p0 f");
	a.extend([
		open(8),
		Act::Ch(8, ChMsg::exec(true, "p2 g")),
		Act::Ch(7, ChMsg::Data(s("hello"))),
		Act::Ch(8, ChMsg::Data(s("other input"))),
		Act::GotData(7, 7),
		Act::Ch(7, ChMsg::exec(true, "no")),
		Act::Ch(7, ChMsg::Data(s("more"))),
		Act::Ch(8, ChMsg::Close),
		Act::Ch(7, ChMsg::Eof),
		Act::GotClose(7),
		Act::Ch(7, ChMsg::Close),
	]);
	crate::session::script(i, a)
}

/// Bytes read and written by the server on connection 1 when nothing goes wrong.
fn totals(spec: &Spec) -> (usize, usize) {
	let r = Mutex::new((0, 0));
	run_with(&Arc::new(spec.clone()), &[], false, |w| {
		*r.lock().unwrap() = (w.conns[1].consumed, w.conns[1].wire);
		Ok(())
	});
	r.into_inner().unwrap()
}

/// After a fault everything of connection 1 is gone; without one it was served.
fn released(w: &World) -> Result<(), String> {
	let c = &w.conns[1];
	if let Some(e) = &c.client.error {
		return Err(format!("conn 1: {e}"));
	}
	if !c.faulted {
		return served(w, 1);
	}
	all_dropped(w)
}

/// Nothing of connection 1 is held any more.
fn all_dropped(w: &World) -> Result<(), String> {
	let c = &w.conns[1];
	if !c.rd_dropped || !c.wr_dropped {
		return Err("the transport failed but the connection was not dropped".into());
	}
	let name = conn_user(1);
	for (i, p) in w.procs.iter().enumerate() {
		if w.users[p.user] != name {
			continue;
		}
		let held: Vec<&str> = [
			(p.spec.no_stdin || p.stdin_dropped, "stdin"),
			(p.spec.no_stdout || p.out_dropped, "stdout"),
			(p.spec.no_stderr || p.err_dropped, "stderr"),
			(p.wait_dropped || p.wait_taken, "the wait for its end"),
		]
		.iter()
		.filter(|x| !x.0)
		.map(|x| x.1)
		.collect();
		if !held.is_empty() {
			return Err(format!("the connection is gone but the server still holds {} of process {i}", held.join(", ")));
		}
	}
	for (u, d) in w.users.iter().zip(&w.users_dropped) {
		if *u == name && !d {
			return Err("the connection is gone but its user value is still held".into());
		}
	}
	Ok(())
}

/// Interrupted and WouldBlock are not errors of an asynchronous stream.
const ERRORS: [std::io::ErrorKind; 16] = {
	use std::io::ErrorKind::*;
	[ConnectionReset, ConnectionAborted, ConnectionRefused, NotConnected, BrokenPipe, TimedOut, UnexpectedEof, WriteZero, InvalidData, InvalidInput, PermissionDenied, NotFound, OutOfMemory, AddrNotAvailable, Unsupported, Other]
};

pub fn c20(rep: &mut Rep) {
	let check = chk(|w| {
		others(w)?;
		released(w)
	});
	let base = ConnSpec { hs: secret(1), script: busy(1), ..Default::default() };
	let (rd, wr) = totals(&staged("measure".into(), base.clone(), &check));
	// Every byte of both directions.
	type Set = fn(&mut ConnSpec, usize);
	let kinds: [(&str, bool, Set); 4] = [
		("read fails", true, |c, n| c.read_err_at = Some(n)),
		("peer ends", true, |c, n| c.read_eof_at = Some(n)),
		("write fails", false, |c, n| c.write_err_at = Some(n)),
		("write takes nothing", false, |c, n| c.write_zero_at = Some(n)),
	];
	for (n, read, set) in kinds {
		let total = if read { rd } else { wr };
		let per = rep.by(4, 8);
		rep.many(&format!("{n} at every byte"), (total + 1) * per, 0, |i| {
			let (at, v) = (i / per, i % per);
			let mut c = base.clone();
			set(&mut c, at);
			let mut x = if if per == 8 { v < 4 } else { v % 2 == 0 } { staged(format!("{n} at byte {at}"), c, &check) } else { together(format!("{n} at byte {at}"), c, &check) };
			x.policy = POLICIES[v % 4];
			x
		});
	}
	// The same with transports that take or give little at a time, and handlers that take their time.
	for (n, read, set) in kinds {
		let total = if read { rd } else { wr };
		let step = rep.by(3, 1);
		rep.many(&format!("{n}, piecewise transport and slow handlers"), total / step + 1, 0, |i| {
			let at = i * step;
			let mut c = base.clone();
			set(&mut c, at);
			c.chunk = Some(5);
			c.wchunk = Some(7);
			c.wstall_each = true;
			let mut x = together(format!("{n} at byte {at}, piecewise"), c, &check);
			x.gate = [true; 3];
			x.policy = POLICIES[i % 4];
			x
		});
	}
	// With one deviation of the schedule around the fault.
	for (n, read, set) in kinds {
		let total = if read { rd } else { wr };
		let step = rep.by(40, 7);
		rep.many(&format!("{n}, schedules"), total / step + 1, 1, |i| {
			let at = i * step;
			let mut c = base.clone();
			set(&mut c, at);
			let mut x = together(format!("{n} at byte {at}, schedules"), c, &check);
			x.policy = POLICIES[i % 4];
			x.choices = Choices { sched: true, select: true, ..Choices::NONE };
			x.conns[0].script.retain(|a| !matches!(a, Act::Enable));
			x.conns[0].script.insert(0, Act::Enable);
			x.conns[1].script.retain(|a| !matches!(a, Act::Enable));
			x.conns[1].script.insert(0, Act::Enable);
			x
		});
	}
	// Every kind of error.
	for (n, read, set) in [kinds[0], kinds[2]] {
		let total = if read { rd } else { wr };
		let step = rep.by(11, 1);
		rep.many(&format!("{n} with every kind of error"), (total / step + 1) * ERRORS.len(), 0, |i| {
			let (at, e) = (i / ERRORS.len() * step, ERRORS[i % ERRORS.len()]);
			let mut c = base.clone();
			set(&mut c, at);
			let mut x = if at % 2 == 0 { staged(format!("{n} at byte {at}, {e:?}"), c, &check) } else { together(format!("{n} at byte {at}, {e:?}"), c, &check) };
			x.policy = POLICIES[i / ERRORS.len() % 4];
			x.errors = Some(e);
			x
		});
	}
	// Disconnects as the protocol has them.
	let over = chk(|w| {
		others(w)?;
		all_dropped(w)
	});
	let mut specs = vec![];
	for at in 0..base.script.len() {
		for (n, acts) in [("shuts down", vec![Act::Shut]), ("disconnects", vec![Act::Pay(m::disconnect()), Act::Shut])] {
			for p in POLICIES {
				let mut c = base.clone();
				c.script.truncate(at);
				c.script.extend(acts.clone());
				let mut x = staged(format!("peer {n} after step {at}, {}", p.0), c, &over);
				x.policy = p;
				specs.push(x);
			}
		}
	}
	rep.wide("peer ends the connection after every step", specs, 0);
	// Another connection is at any point of its handshake and login, or at work, when this one ends.
	let whole = totals(&staged("measure".into(), ConnSpec { hs: secret(1), script: dialogue(1, None), ..Default::default() }, &chk(|_| Ok(())))).0;
	let ends: Vec<(&str, usize, Vec<Act>)> = vec![
		("shuts down before it authenticates", 2, vec![Act::Shut]),
		("disconnects before it authenticates", 2, vec![Act::Pay(m::disconnect())]),
		("shuts down", base.script.len(), vec![Act::Shut]),
		("disconnects", login(1).len(), vec![Act::Pay(m::disconnect())]),
		("sends a malformed message", login(1).len() + 3, vec![Act::Pay(vec![94, 1])]),
		("sends bytes that are no packet", login(1).len() + 1, vec![Act::Raw(vec![7; 100])]),
	];
	let step = rep.by(3, 1);
	rep.many("peer ends the connection while another is at every byte", (whole / step + 1) * ends.len(), 0, |i| {
		let (at, (n, len, acts)) = (i / ends.len() * step, &ends[i % ends.len()]);
		let mut c = base.clone();
		c.script.truncate(*len);
		c.script.extend(acts.clone());
		let mut x = staged_at(format!("peer {n}, another is at byte {at}"), c, at, &over);
		x.policy = POLICIES[i % 4];
		x
	});
	// Pipes.
	let pipe = chk(|w| {
		others(w)?;
		served(w, 1)
	});
	let mut specs = vec![];
	for bits in 0..64u8 {
		for at in 0..=15usize {
			let (oe, ee, no) = (bits & 1 != 0, bits & 2 != 0, bits & 4 != 0);
			let mut c = base.clone();
			c.script = crate::session::script(1, {
				let mut a = exec(7, "p3 f");
				a.extend([Act::Ch(7, ChMsg::Data(s("first"))), Act::Ch(7, ChMsg::Data(s("second")))]);
				if bits & 8 != 0 {
					a.push(Act::Ch(7, ChMsg::Eof));
				}
				a.push(Act::Ch(7, ChMsg::exec(true, "no")));
				a.extend(exec(8, "p1 beside"));
				a.extend([Act::Ch(7, ChMsg::Data(s("third")))]);
				a
			});
			let mut x = if bits & 16 != 0 { staged(format!("pipes {bits} {at}"), c, &pipe) } else { together(format!("pipes {bits} {at}"), c, &pipe) };
			x.procs.push(ProcSpec {
				out: vec![s("out"), s("out2")],
				err: vec![s("err")],
				out_err: oe,
				err_err: ee,
				no_stdout: no && oe,
				no_stderr: no && ee,
				stdin_err_at: (at < 15).then_some(at),
				status: 9,
				..Default::default()
			});
			x.policy = POLICIES[(bits >> 4) as usize % 4];
			specs.push(x);
		}
	}
	rep.wide("failing pipes", specs.clone(), 0);
	rep.many("failing pipes with every kind of error", specs.len() * ERRORS.len(), 0, |i| {
		let (x, e) = (&specs[i / ERRORS.len()], ERRORS[i % ERRORS.len()]);
		Spec { name: format!("{}, {e:?}", x.name), errors: Some(e), ..x.clone() }
	});
	let mut deep: Vec<Spec> = specs.into_iter().filter(|x| x.name.starts_with("pipes 3 ") || x.name.starts_with("pipes 8 ") || x.name.starts_with("pipes 0 ")).step_by(4).collect();
	for x in &mut deep {
		x.choices = Choices { sched: true, select: true, stdin: true, ..Choices::NONE };
		x.name += ", schedules";
		x.conns.truncate(2);
		x.check = chk(|w| {
			w.alive()?;
			served(w, 0)?;
			served(w, 1)
		});
	}
	rep.wide("failing pipes, schedules", deep, rep.by(1, 2));
	notes(rep);
	rep.rules.push("A busy connection is run with every kind of transport fault at every byte of both directions (and every process pipe failing at every byte), under four policies, with deviations at a subset; afterwards everything it held must be dropped, and a connection established before and one made later must be served completely and exactly.".into());
}

// ---------------------------------------------------------------- C21

pub fn c21(rep: &mut Rep) {
	let check = chk(|w| {
		others(w)?;
		if let Some(e) = &w.conns[1].client.error {
			return Err(format!("conn 1: {e}"));
		}
		Ok(())
	});
	let base = ConnSpec { hs: secret(1), script: busy(1), ..Default::default() };
	let (rd, wr) = totals(&staged("measure".into(), base.clone(), &check));
	type Set = fn(&mut ConnSpec, usize);
	let kinds: [(&str, bool, Set); 2] = [("peer stops sending", true, |c, n| c.read_stall_at = Some(n)), ("peer stops receiving", false, |c, n| c.write_stall_at = Some(n))];
	for (n, read, set) in kinds {
		let total = if read { rd } else { wr };
		rep.many(&format!("{n} at every byte"), (total + 1) * 8, 0, |i| {
			let (at, v) = (i / 8, i % 8);
			let mut c = base.clone();
			set(&mut c, at);
			let mut x = if v < 4 { staged(format!("{n} at byte {at}"), c, &check) } else { together(format!("{n} at byte {at}"), c, &check) };
			x.policy = POLICIES[v % 4];
			x
		});
		let step = rep.by(25, 5);
		rep.many(&format!("{n}, schedules"), total / step + 1, 1, |i| {
			let at = i * step;
			let mut c = base.clone();
			set(&mut c, at);
			let mut x = together(format!("{n} at byte {at}, schedules"), c, &check);
			x.policy = POLICIES[i % 4];
			x.choices = Choices { sched: true, select: true, ..Choices::NONE };
			for k in 0..2 {
				x.conns[k].script.retain(|a| !matches!(a, Act::Enable));
				x.conns[k].script.insert(0, Act::Enable);
			}
			x
		});
	}
	// Handlers that never answer, stdin that never takes.
	let mut specs = vec![];
	let key = W::default().s("a").s("k").done();
	let u = conn_user(1);
	for gate in [[false; 3], [true; 3]] {
		for p in POLICIES {
			for st in [true, false] {
				let put = |n: &str, c: ConnSpec| {
					let mut x = if st { staged(format!("{n}, {}, gated {}", p.0, gate[0]), c, &check) } else { together(format!("{n}, {}, gated {}", p.0, gate[0]), c, &check) };
					x.gate = gate;
					x.policy = p;
					x
				};
				let mut x = put("authenticate never returns", base.clone());
				x.stuck_user = Some(u.clone());
				specs.push(x);
				let q = ConnSpec { hs: secret(1), script: vec![Act::Pay(m::service_request("ssh-userauth")), Act::Pay(m::auth(&u, b"s", b"publickey").bool(false).s("a").s(&key).done())], ..Default::default() };
				let mut x = put("key lookup never returns", q);
				x.stuck_user = Some(u.clone());
				specs.push(x);
				let mut x = put("spawn never returns", base.clone());
				x.stuck_cmd = Some(s("p0 f"));
				specs.push(x);
				for at in 0..6 {
					let mut c = base.clone();
					c.script = crate::session::script(1, {
						let mut a = exec(7, "p3 f");
						a.extend([Act::Ch(7, ChMsg::Data(s("first"))), Act::Ch(7, ChMsg::Data(s("second"))), Act::Ch(7, ChMsg::Eof)]);
						a
					});
					let mut x = put(&format!("stdin never takes more than {at}"), c);
					x.procs.push(ProcSpec { out: vec![s("out")], stdin_stall_at: Some(at), exit_after_eof: true, ..Default::default() });
					specs.push(x);
				}
				let mut x = put("process never ends", base.clone());
				x.conns[1].script = crate::session::script(1, exec(7, "p3 f"));
				x.procs.push(ProcSpec { out: vec![s("out")], forever: true, ..Default::default() });
				specs.push(x);
			}
		}
	}
	// Several stalled ones at once.
	for p in POLICIES {
		let mut x = together(format!("three stalled connections, {}", p.0), ConnSpec { read_stall_at: Some(30), ..base.clone() }, &check);
		x.policy = p;
		x.conns.push(ConnSpec { write_stall_at: Some(100), hs: secret(3), script: busy(3), ..Default::default() });
		x.conns.push(ConnSpec { read_stall_at: Some(450), hs: secret(4), script: busy(4), ..Default::default() });
		specs.push(x);
	}
	rep.wide("handlers, pipes and processes that stall", specs, 0);
	crowds(rep, &chk(others));
	endless(rep);
	// One connection: input goes on while output is stalled.
	let mut specs = vec![];
	let input = chk(|w| {
		w.alive()?;
		if let Some(e) = &w.conns[0].client.error {
			return Err(e.clone());
		}
		let p = w.procs.first().ok_or("no process was started")?;
		if p.stdin != b"one two three" || !p.stdin_dropped {
			return Err(format!("the peer takes no output and the process's input stops: it received {:?}, ended {}", String::from_utf8_lossy(&p.stdin), p.stdin_dropped));
		}
		Ok(())
	});
	let data = |x: &str| Act::Ch(1, ChMsg::Data(s(x)));
	let acts = {
		let mut a = vec![open(1), Act::Ch(1, ChMsg::exec(false, "p0 a"))];
		a.extend([data("one "), data("two "), data("three"), Act::Ch(1, ChMsg::Eof)]);
		a
	};
	let alone = |name: String, c: ConnSpec, p: Policy, procs: Vec<ProcSpec>, check: &Check| Spec { name, policy: p, conns: vec![c], procs, check: check.clone(), ..Default::default() };
	let chatty = vec![ProcSpec { out: vec![s("out1"), s("out2"), bytes(600, 1)], err: vec![s("err1")], status: 1, ..Default::default() }];
	// Everything up to the confirmation must be written for the client to go on.
	let confirmed = {
		let r = Mutex::new(0);
		let x = alone("measure".into(), conn(0, vec![open(1), Act::Opened(1)]), P_CLIENT, chatty.clone(), &input);
		run_with(&Arc::new(x), &[], false, |w| {
			*r.lock().unwrap() = w.conns[0].wire;
			Ok(())
		});
		r.into_inner().unwrap()
	};
	for at in confirmed..confirmed + rep.by(260, 1100) {
		for p in POLICIES {
			let c = ConnSpec { write_stall_at: Some(at), ..conn(0, acts.clone()) };
			specs.push(alone(format!("output stalls at byte {at}, input goes on, {}", p.0), c, p, chatty.clone(), &input));
		}
	}
	rep.wide("input goes on while the peer takes no output", specs, 0);
	let mut deep = vec![];
	for at in [confirmed, confirmed + 1, confirmed + 30, confirmed + 70] {
		for p in [P_CLIENT, P_PROC] {
			let c = ConnSpec { write_stall_at: Some(at), ..conn(0, acts.clone()) };
			let mut x = alone(format!("output stalls at byte {at}, schedules, {}", p.0), c, p, chatty.clone(), &input);
			x.choices = Choices { sched: true, select: true, seg: true, ..Choices::NONE };
			deep.push(x);
		}
	}
	let bound = rep.by(2, 3);
	rep.deep(deep, bound);
	// Output goes on while input is stalled: by the process's stdin or in the middle of a packet.
	let output = chk(|w| {
		w.alive()?;
		stream_ok(w, 0)?;
		let l = Ledger::new(w, 0)?;
		check_output(w, &l).map_err(|e| format!("input is stalled and output stops: {e}"))?;
		check_ending(w, &l).map_err(|e| format!("input is stalled and the channel does not end: {e}"))
	});
	let mut specs = vec![];
	let mut deep = vec![];
	for at in 0..13usize {
		for p in POLICIES {
			let mut a = vec![open(1), open(2), Act::Ch(2, ChMsg::exec(false, "p1 b")), Act::Ch(1, ChMsg::exec(false, "p0 a"))];
			a.extend([data("one "), data("two "), data("three")]);
			let mut pr = chatty.clone();
			pr[0].stdin_stall_at = Some(at);
			pr.push(ProcSpec { out: vec![s("beside")], err: vec![s("e")], status: 2, ..Default::default() });
			let x = alone(format!("stdin stalls at byte {at}, {}", p.0), conn(0, a), p, pr, &output);
			if at % 5 == 0 && (p.0 == P_CLIENT.0 || p.0 == P_PROC.0) {
				let mut y = x.clone();
				y.name += ", schedules";
				y.choices = Choices { sched: true, select: true, write: true, ..Choices::NONE };
				deep.push(y);
			}
			specs.push(x);
		}
	}
	// Find where the spawning request ends in the incoming bytes.
	let spawned = {
		let r = Mutex::new(0);
		let x = alone("measure".into(), conn(0, vec![open(1), Act::Ch(1, ChMsg::exec(false, "p0 a"))]), P_CLIENT, chatty.clone(), &output);
		run_with(&Arc::new(x), &[], false, |w| {
			*r.lock().unwrap() = w.conns[0].consumed;
			Ok(())
		});
		r.into_inner().unwrap()
	};
	for at in spawned..spawned + 150 {
		for p in POLICIES {
			let c = ConnSpec { read_stall_at: Some(at), ..conn(0, vec![open(1), Act::Ch(1, ChMsg::exec(false, "p0 a")), data("one "), data("two "), data("three and more")]) };
			let x = alone(format!("input stalls at byte {at}, {}", p.0), c, p, chatty.clone(), &output);
			if at % 40 == 7 && (p.0 == P_CLIENT.0 || p.0 == P_PROC.0) {
				let mut y = x.clone();
				y.name += ", schedules";
				y.choices = Choices { sched: true, select: true, write: true, ..Choices::NONE };
				deep.push(y);
			}
			specs.push(x);
		}
	}
	rep.wide("output goes on while input is stalled", specs, 0);
	let step = rep.by(3, 1);
	rep.deep(deep.into_iter().step_by(step).collect(), bound);
	notes(rep);
	rep.assumptions.push("Within one connection messages are handled in order, so input for one channel may wait for input of another that is stalled.".into());
	rep.rules.push("A connection is stalled for ever at every byte of both directions, in every handler call and at every byte of a process's stdin; a connection established before or at the same time and one made later must be served completely and exactly, under four policies and with deviations at a subset. Within one connection, input must go on while output is stalled and the other way round.".into());
}
