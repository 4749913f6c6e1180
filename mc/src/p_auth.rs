//! C11 to C13: user authentication.

use crate::client::HsSpec;
use crate::refssh::*;
use crate::report::Rep;
use crate::session::*;
use crate::world::*;
use std::sync::Arc;

fn chk(f: impl Fn(&World) -> Result<(), String> + Send + Sync + 'static) -> Check {
	Arc::new(f)
}

const SVC: &[u8] = b"ssh-connection";

// ---------------------------------------------------------------- the application

/// Approves the password "good", users whose name ends in 'n' without any proof, and the signature "S" of key "K".
fn auth(user: &[u8], _service: &[u8], a: &AuthRec) -> bool {
	match a {
		AuthRec::None => user.ends_with(b"n"),
		AuthRec::Password(p) => p == b"good",
		AuthRec::PublicKey { key, signature, .. } => key.starts_with(b"K") && signature == b"S",
	}
}

fn exists(_user: &[u8], _service: &[u8], _alg: &[u8], key: &[u8]) -> bool {
	key.starts_with(b"K")
}

// ---------------------------------------------------------------- the reference

#[derive(Debug)]
enum Req<'a> {
	Auth(&'a [u8], &'a [u8], AuthRec),
	Query { user: &'a [u8], service: &'a [u8], alg: &'a [u8], blob: &'a [u8], key: &'a [u8] },
	Unsupported,
}

fn blob<'a>(b: &'a [u8], alg: &[u8]) -> Option<&'a [u8]> {
	let mut r = R(b);
	let a = r.s()?;
	let k = r.s()?;
	r.end()?;
	(a == alg).then_some(k)
}

/// A well-formed authentication request whose blobs are well-formed too.
fn request<'a>(p: &'a [u8], session: &[u8]) -> Option<Req<'a>> {
	let mut r = R(p);
	if r.u8()? != 50 {
		return None;
	}
	let (user, service, method) = (r.s()?, r.s()?, r.s()?);
	Some(match method {
		b"none" => {
			r.end()?;
			Req::Auth(user, service, AuthRec::None)
		}
		b"password" => {
			let renew = r.u8()? != 0;
			let pw = r.s()?;
			if renew {
				r.s()?;
				r.end()?;
				Req::Unsupported
			} else {
				r.end()?;
				Req::Auth(user, service, AuthRec::Password(pw.to_vec()))
			}
		}
		b"publickey" => {
			let signed = r.u8()? != 0;
			let (alg, kb) = (r.s()?, r.s()?);
			let key = blob(kb, alg);
			if signed {
				let sb = r.s()?;
				r.end()?;
				let signature = blob(sb, alg)?.to_vec();
				Req::Auth(
					user,
					service,
					AuthRec::PublicKey {
						algorithm: alg.to_vec(),
						key: key?.to_vec(),
						signature,
						message: sign_data(session, user, service, alg, kb),
					},
				)
			} else {
				r.end()?;
				Req::Query { user, service, alg, blob: kb, key: key? }
			}
		}
		b"hostbased" => {
			for _ in 0..5 {
				r.s()?;
			}
			r.end()?;
			Req::Unsupported
		}
		_ => Req::Unsupported,
	})
}

struct Track<'a> {
	w: &'a World,
	sent: Vec<&'a [u8]>,
	msgs: &'a [SMsg],
	calls: Vec<&'a H>,
	gone: bool,
	/// The client has ended its side.
	shut: bool,
	session: [u8; 32],
}

fn failure() -> SMsg {
	SMsg::AuthFailure { methods: b"publickey,password".to_vec(), partial: 0 }
}

fn is_auth(m: &SMsg) -> bool {
	matches!(m, SMsg::AuthFailure { .. } | SMsg::AuthSuccess | SMsg::PkOk { .. } | SMsg::ServiceAccept(_))
}

/// Connection a user name belongs to.
fn owner(w: &World, user: &[u8]) -> usize {
	if w.conns.len() == 1 {
		0
	} else {
		(user.get(1).copied().unwrap_or(b'0') - b'0') as usize
	}
}

impl<'a> Track<'a> {
	fn new(w: &'a World, i: usize) -> Self {
		Self {
			w,
			sent: w
				.hist
				.iter()
				.filter_map(|h| match h {
					H::Sent { conn, payload } if *conn == i => Some(&payload[..]),
					_ => None,
				})
				.collect(),
			msgs: &w.conns[i].msgs,
			calls: w
				.hist
				.iter()
				.filter(|h| match h {
					H::Exists { user, .. } | H::AuthCall { user, .. } => owner(w, user) == i,
					_ => false,
				})
				.collect(),
			gone: w.conns[i].gone(),
			shut: w.conns[i].shut,
			session: w.conns[i].client.h.unwrap_or([0; 32]),
		}
	}

	/// Whether what happened is one of the allowed continuations. `at`: next client message; `m`, `c`: next reply and
	/// handler call; `on`: the service has been accepted.
	fn go(&self, at: usize, m: usize, c: usize, on: bool) -> Result<(), String> {
		let p = match self.sent.get(at) {
			None if self.gone && !self.shut => return Err("the server ended the connection although every request was a proper one".into()),
			None => return self.end(m, c, "all requests"),
			Some(p) => *p,
		};
		let n = at + 1;
		if !on {
			if p == m::service_request("ssh-userauth") {
				return match self.msgs.get(m) {
					Some(SMsg::ServiceAccept(s)) if s == b"ssh-userauth" => self.go(n, m + 1, c, true),
					o => Err(format!("service request answered with {o:?}")),
				};
			}
			return self.unspecified(at, m, c, on, p);
		}
		let (want, reply) = match request(p, &self.session) {
			None => return self.unspecified(at, m, c, on, p),
			Some(Req::Unsupported) => (None, failure()),
			Some(Req::Auth(user, service, a)) => {
				let ok = (self.w.spec.auth)(user, service, &a);
				(
					Some(H::AuthCall { user: user.to_vec(), service: service.to_vec(), auth: a }),
					if ok { SMsg::AuthSuccess } else { failure() },
				)
			}
			Some(Req::Query { user, service, alg, blob, key }) => {
				let ok = (self.w.spec.exists)(user, service, alg, key);
				(
					Some(H::Exists {
						user: user.to_vec(),
						service: service.to_vec(),
						algorithm: alg.to_vec(),
						key: key.to_vec(),
					}),
					if ok { SMsg::PkOk { alg: alg.to_vec(), blob: blob.to_vec() } } else { failure() },
				)
			}
		};
		let mut c = c;
		if let Some(h) = want {
			if self.calls.get(c).copied() != Some(&h) {
				return Err(format!("request {at}: expected the call {h:?}, happened {:?}", self.calls.get(c)));
			}
			c += 1;
		}
		if self.msgs.get(m) != Some(&reply) {
			return Err(format!("request {at}: answered with {:?} instead of {reply:?}", self.msgs.get(m)));
		}
		if reply != SMsg::AuthSuccess {
			return self.go(n, m + 1, c, on);
		}
		// Authenticated: nothing more about authentication may happen.
		if let Some(h) = self.calls.get(c) {
			return Err(format!("after success: {h:?}"));
		}
		match self.msgs[m + 1..].iter().find(|m| is_auth(m)) {
			Some(x) => Err(format!("after success: {}", x.brief())),
			None if n == self.sent.len() && self.gone && !self.shut => Err("the server ended the connection right after success".into()),
			None => Ok(()),
		}
	}

	/// A message for which nothing is promised but that it has no effect: the connection ends, or it is ignored or
	/// refused.
	fn unspecified(&self, at: usize, m: usize, c: usize, on: bool, p: &[u8]) -> Result<(), String> {
		let bad = |e: String| format!("{e} (message {at} is {})", hex(&p[..p.len().min(40)]));
		if self.gone {
			if self.end(m, c, "a message out of place").is_ok() {
				return Ok(());
			}
		}
		let mut r = self.go(at + 1, m, c, on);
		if r.is_err() && matches!(self.msgs.get(m), Some(SMsg::Unimplemented(_))) {
			r = self.go(at + 1, m + 1, c, on);
		}
		if r.is_err() && p.first() == Some(&50) && on && self.msgs.get(m) == Some(&failure()) {
			r = self.go(at + 1, m + 1, c, on);
		}
		r.map_err(bad)
	}

	fn end(&self, m: usize, c: usize, what: &str) -> Result<(), String> {
		if let Some(x) = self.msgs[m..].iter().find(|m| !matches!(m, SMsg::Disconnect(_))) {
			return Err(format!("after {what}: {}", x.brief()));
		}
		match self.calls.get(c) {
			Some(h) => Err(format!("after {what}: {h:?}")),
			None => Ok(()),
		}
	}
}

/// Every answer and every call is the one the request asks for.
fn verdicts(w: &World) -> Result<(), String> {
	w.alive()?;
	for i in 0..w.conns.len() {
		let e = |e: String| format!("conn {i}: {e}");
		let c = &w.conns[i];
		if let Some(x) = &c.client.error {
			return Err(e(x.clone()));
		}
		if !c.gone() && !(c.c2s.is_empty() && c.inbox.is_empty()) {
			return Err(e("the server does not read what has arrived".into()));
		}
		Track::new(w, i).go(0, 0, 0, false).map_err(e)?;
	}
	Ok(())
}

/// No channel and no spawn before approval and success on that connection, and always with its own user.
fn gatekeeping(w: &World) -> Result<(), String> {
	w.alive()?;
	let n = w.conns.len();
	let mut approved: Vec<Option<usize>> = vec![None; n];
	let mut success = vec![false; n];
	for h in &w.hist {
		match h {
			H::AuthRet { user, uid: Some(u) } => {
				let i = owner(w, user);
				if approved[i].is_some() {
					return Err(format!("conn {i}: authenticated twice"));
				}
				approved[i] = Some(*u);
			}
			H::Msg { conn, idx } => {
				let (i, m) = (*conn, &w.conns[*conn].msgs[*idx]);
				match m {
					SMsg::AuthSuccess => {
						if approved[i].is_none() {
							return Err(format!("conn {i}: success without the application's approval"));
						}
						success[i] = true;
					}
					m if m.to().is_some() && !success[i] => {
						return Err(format!("conn {i}: {} before successful authentication", m.brief()));
					}
					_ => {}
				}
			}
			H::Spawn { uid, cmd } => {
				let i = match cmd {
					// "p0 c<i>"
					Some(c) if c.len() == 5 => (c[4] - b'0') as usize,
					_ => 0,
				};
				if !success.get(i).copied().unwrap_or(false) {
					return Err(format!("conn {i}: a command was started before successful authentication"));
				}
				if approved[i] != Some(*uid) {
					return Err(format!("conn {i}: a command runs as user value {uid}, the application returned {:?}", approved[i]));
				}
			}
			_ => {}
		}
	}
	for i in 0..n {
		if let Some(e) = &w.conns[i].client.error {
			return Err(format!("conn {i}: {e}"));
		}
	}
	Ok(())
}

// ---------------------------------------------------------------- what clients send

/// Every byte alone, at the beginning, at the end and in the middle.
fn every_byte() -> Vec<(String, Vec<u8>)> {
	let mut v = vec![];
	for b in 0..=255u8 {
		v.push((format!("of the byte {b}"), vec![b]));
		v.push((format!("beginning with the byte {b}"), vec![b, b'x', b'y']));
		v.push((format!("ending with the byte {b}"), vec![b'x', b'y', b]));
		v.push((format!("with the byte {b} within"), vec![b'x', b, b'y']));
	}
	v
}

fn pk(user: &[u8], service: &[u8], alg: &[u8], kb: &[u8], sb: Option<&[u8]>) -> Vec<u8> {
	let w = m::auth(user, service, b"publickey").bool(sb.is_some()).s(alg).s(kb);
	match sb {
		Some(s) => w.s(s).done(),
		None => w.done(),
	}
}

fn kb(alg: &[u8], key: &[u8]) -> Vec<u8> {
	W::default().s(alg).s(key).done()
}

const ALG: &[u8] = b"ssh-ed25519";

/// Requests and other messages, by name. Those of `AUTH` come first.
fn letters(i: usize) -> Vec<(&'static str, Vec<u8>)> {
	let u = &conn_user(i)[..];
	let un = [u, b"n"].concat();
	vec![
		("none", m::auth_none(u)),
		("none+", m::auth_none(&un)),
		("pw-", m::auth_password(u, b"bad")),
		("pw+", m::auth_password(u, b"good")),
		("pw empty", m::auth_password(u, b"")),
		("pw+ other service", m::auth(u, b"other", b"password").bool(false).s("good").done()),
		("pk+", pk(u, SVC, ALG, &kb(ALG, b"K"), Some(&kb(ALG, b"S")))),
		("pk-", pk(u, SVC, ALG, &kb(ALG, b"K"), Some(&kb(ALG, b"T")))),
		("query+", pk(u, SVC, ALG, &kb(ALG, b"K"), None)),
		("query-", pk(u, SVC, ALG, &kb(ALG, b"L"), None)),
		("renew", m::auth(u, SVC, b"password").bool(true).s("good").s("good").done()),
		("hostbased", m::auth(u, SVC, b"hostbased").s(ALG).s(kb(ALG, b"K")).s("host").s("me").s(kb(ALG, b"S")).done()),
		("keyboard", m::auth(u, SVC, b"keyboard-interactive").s("").s("").done()),
		("pk bad key blob", pk(u, SVC, ALG, &[&kb(ALG, b"K")[..], b"x"].concat(), Some(&kb(ALG, b"S")))),
		("pk other sig alg", pk(u, SVC, ALG, &kb(ALG, b"K"), Some(&kb(b"ssh-rsa", b"S")))),
		("query bad blob", pk(u, SVC, ALG, &kb(b"ssh-rsa", b"K"), None)),
		("cut", m::auth(u, SVC, b"password").bool(false).done()),
		("service", m::service_request("ssh-userauth")),
		("connection service", m::service_request("ssh-connection")),
		("ignore", W::new(2).s("x").done()),
		("unimplemented", W::new(3).u32(1).done()),
		("open", m::open("session", 7, 0x20_0000, 0x8000)),
		("exec", m::exec(0, true, b"p0 c0")),
		("shell", m::request(0, "shell", true, b"")),
		("data", m::data(0, b"d")),
		("success", vec![52]),
		("pk ok", W::new(60).s(ALG).s(kb(ALG, b"K")).done()),
		("confirm", W::new(91).u32(0).u32(0).u32(1).u32(1).done()),
		("newkeys", vec![21]),
		("unknown", vec![200]),
		("disconnect", m::disconnect()),
	]
}

fn procs() -> Vec<ProcSpec> {
	vec![ProcSpec { out: vec![b"out".to_vec()], status: 5, ..Default::default() }]
}

fn spec(name: String, script: Vec<Act>, check: &Check) -> Spec {
	Spec {
		name,
		conns: vec![ConnSpec { script, ..Default::default() }],
		procs: procs(),
		auth,
		exists,
		check: check.clone(),
		..Default::default()
	}
}

/// Try to use a session, waiting for nothing but the channel.
fn attempt(i: usize) -> Vec<Act> {
	vec![open(7), Act::Ch(7, ChMsg::exec(true, &format!("p0 c{i}")))]
}

/// All sequences of these letters of exactly this length, after the service request or not.
fn sequences(alpha: &[(&'static str, Vec<u8>)], len: usize, service: bool, check: &Check) -> Vec<Spec> {
	let n = alpha.len();
	let mut v = vec![];
	for x in 0..n.pow(len as u32) {
		let mut k = x;
		let mut name = String::from(if service { "service" } else { "no service" });
		let mut script = vec![];
		if service {
			script.push(Act::Pay(m::service_request("ssh-userauth")));
		}
		for _ in 0..len {
			let (s, p) = &alpha[k % n];
			k /= n;
			name += ", ";
			name += s;
			script.push(Act::Pay(p.clone()));
		}
		script.extend(attempt(0));
		v.push(spec(name, script, check));
	}
	v
}

fn both(w: &World) -> Result<(), String> {
	gatekeeping(w)?;
	verdicts(w)
}

/// Two connections that authenticate at the same time.
fn concurrent(check: &Check, quick: bool) -> Vec<Spec> {
	let mut v = vec![];
	let plans: [&[&str]; 5] = [&["pw+"], &["pw-", "pw+"], &["none", "pk+"], &["query+", "pk-"], &["none+"]];
	for (x, a) in plans.iter().enumerate() {
		for (y, b) in plans.iter().enumerate() {
			if y < x || (quick && (x + y) % 2 == 1) {
				continue;
			}
			let side = |i: usize, p: &[&str]| {
				let l = letters(i);
				let mut s = vec![Act::Pay(m::service_request("ssh-userauth")), Act::Msgs(1), Act::Enable];
				for n in p {
					s.push(Act::Pay(l.iter().find(|(m, _)| m == n).unwrap().1.clone()));
				}
				s.extend(attempt(i));
				ConnSpec {
					hs: HsSpec { secret: [i as u8 + 1; 32], ..Default::default() },
					script: s,
					..Default::default()
				}
			};
			for gate in [[true, true, true], [false, false, false]] {
				v.push(Spec {
					name: format!("{a:?} beside {b:?}, gates {}", gate[0]),
					choices: Choices { sched: true, select: true, ..Choices::NONE },
					conns: vec![side(0, a), side(1, b)],
					procs: procs(),
					gate,
					auth,
					exists,
					check: check.clone(),
					..Default::default()
				});
			}
		}
	}
	v
}

fn assume(rep: &mut Rep) {
	rep.assumptions.push("Transport, processes, application handlers and randomness are controlled stand-ins; the client is an independent implementation from the RFCs.".into());
	rep.assumptions.push("For messages that have no place before authentication nothing is demanded but that they have no effect: closing the connection, ignoring or refusing them are all accepted.".into());
}

pub fn c11(rep: &mut Rep) {
	let check = chk(gatekeeping);
	let alpha = letters(0);
	for len in 0..=rep.by(3, 3) {
		rep.wide(&format!("all sequences of {len} messages after the service request"), sequences(&alpha, len, true, &check), 0);
		rep.wide(&format!("all sequences of {len} messages instead of the service request"), sequences(&alpha, len.min(2), false, &check), 0);
	}
	// Longer sequences without anything the application approves.
	let refused: Vec<_> = alpha
		.iter()
		.filter(|(n, _)| ["none", "pw-", "pk-", "query+", "renew", "hostbased", "keyboard", "query-"].contains(n))
		.cloned()
		.collect();
	let len = rep.by(4, 6);
	rep.wide(&format!("all sequences of {len} refused requests"), sequences(&refused, len, true, &check), 0);
	let mut specs = vec![];
	for (n, p) in &refused {
		for k in [8usize, 16, 32, 64, 100, 128, 256, 300, 1100] {
			let mut s = vec![Act::Pay(m::service_request("ssh-userauth"))];
			s.extend((0..k).map(|_| Act::Pay(p.clone())));
			s.extend(attempt(0));
			specs.push(spec(format!("{k} times {n}"), s, &check));
		}
	}
	rep.wide("long runs of refusals", specs, 0);
	// Every message type in every place.
	let mut specs = vec![];
	let bodies: Vec<Vec<u8>> = vec![
		vec![],
		vec![0; 4],
		vec![0; 12],
		W::default().s("session").u32(7).u32(9).u32(9).done(),
		W::default().u32(0).s("shell").bool(true).done(),
		W::default().u32(0).s("exec").bool(true).s("p0 c0").done(),
		W::default().s("ssh-connection").done(),
	];
	for ty in 0..=255u8 {
		for b in &bodies {
			let p = [&[ty][..], b].concat();
			for (place, before) in [("at first", vec![]), ("after accept", vec!["service"]), ("after failure", vec!["service", "pw-"]), ("after query", vec!["service", "query+"])] {
				let mut s: Vec<Act> = before.iter().map(|n| Act::Pay(alpha.iter().find(|(m, _)| m == n).unwrap().1.clone())).collect();
				s.push(Act::Pay(p.clone()));
				s.push(open(7));
				s.push(Act::Pay(m::exec(0, true, b"p0 c0")));
				specs.push(spec(format!("{} {place}", hex(&p)), s, &check));
			}
		}
	}
	rep.wide("every message type before success", specs, 0);
	// A session in the same segment as the request that is refused or approved.
	let mut specs = vec![];
	for n in ["pw-", "pw+", "pk-", "pk+", "query+", "none", "none+"] {
		let p = alpha.iter().find(|(m, _)| *m == n).unwrap().1.clone();
		let s = vec![
			Act::Enable,
			Act::Pay(m::service_request("ssh-userauth")),
			Act::Pay(p),
			open(7),
			Act::Pay(m::exec(0, true, b"p0 c0")),
		];
		for gate in [[false; 3], [true; 3]] {
			let mut x = spec(format!("eager session after {n}, gates {}", gate[0]), s.clone(), &check);
			x.gate = gate;
			x.choices = Choices { sched: true, write: true, seg: true, select: true, stdin: false };
			specs.push(x);
		}
	}
	let bound = rep.by(2, 3);
	rep.deep(specs, bound);
	// A session right behind the request, while the success message cannot be sent.
	let mut specs = vec![];
	for n in ["pw+", "pk+", "none+"] {
		let p = alpha.iter().find(|(m, _)| *m == n).unwrap().1.clone();
		let s = vec![Act::Pay(m::service_request("ssh-userauth")), Act::Pay(p), open(7), Act::Pay(m::exec(0, true, b"p0 c0")), Act::Pay(m::request(0, "shell", true, b""))];
		for at in 0..900 {
			for kind in 0..3 {
				let mut x = spec(format!("eager session after {n}, output fails after {at}, {kind}"), s.clone(), &check);
				let c = &mut x.conns[0];
				*[&mut c.write_err_at, &mut c.write_zero_at, &mut c.write_stall_at][kind] = Some(at);
				x.policy = POLICIES[at % 4];
				x.gate = [at % 2 == 1; 3];
				specs.push(x);
			}
		}
	}
	rep.wide("sessions whose success message cannot be sent", specs, 0);
	let specs = concurrent(&check, rep.quick());
	let some: Vec<_> = specs.iter().filter(|s| s.name.starts_with("[\"pw-\"")).take(1).cloned().collect();
	rep.wide("two clients at once", specs.clone(), 1);
	rep.deep(if rep.quick() { some } else { specs }, bound);
	// Otherwise the check would be vacuous.
	let reached = chk(|w| {
		gatekeeping(w)?;
		served(w, 0)
	});
	rep.wide("control: an approved client is served", vec![Spec { conns: vec![conn(0, exec(7, "p0 c0"))], ..spec("control".into(), vec![], &reached) }], 0);
	assume(rep);
	rep.rules.push("An execution runs the real server against one enumerated sequence of client messages (or two such clients under every schedule within the bound) and watches the order of handler answers, success messages, channel messages and spawns, and the user value of each spawn.".into());
}


/// Requests of every kind whose payloads are as large as RFC 4253, section 6.1, lets a client send them, or nearly so.
fn largest() -> Vec<(String, Vec<u8>)> {
	let text = |n: usize| vec![b't'; n];
	let kinds: Vec<(&str, Box<dyn Fn(usize) -> Vec<u8>>)> = vec![
		("password", Box::new(|n| m::auth_password(b"u0", &bytes(n, 5)))),
		("user, password", Box::new(move |n| m::auth_password(&text(n), b"good"))),
		("user, key", Box::new(move |n| pk(&text(n), SVC, ALG, &kb(ALG, b"K"), Some(&kb(ALG, b"S"))))),
		("user, empty values", Box::new(move |n| pk(&text(n), b"", b"", &kb(b"", b""), Some(&kb(b"", b""))))),
		("service, key", Box::new(move |n| pk(b"u0", &text(n), ALG, &kb(ALG, b"K"), Some(&kb(ALG, b"S"))))),
		("query", Box::new(|n| pk(b"u0", SVC, ALG, &kb(ALG, &bytes(n, 5)), None))),
		("key", Box::new(|n| pk(b"u0", SVC, ALG, &kb(ALG, &bytes(n, 5)), Some(&kb(ALG, b"S"))))),
		("key, empty values", Box::new(|n| pk(b"", b"", b"", &kb(b"", &bytes(n, 5)), Some(&kb(b"", b""))))),
		("signature", Box::new(|n| pk(b"u0", SVC, ALG, &kb(ALG, b"K"), Some(&kb(ALG, &bytes(n, 5)))))),
		("unknown method", Box::new(|n| m::auth(b"u0", SVC, b"other").s(bytes(n, 5)).done())),
	];
	let mut v = vec![];
	for (what, f) in kinds {
		let base = f(0).len();
		for len in [32768usize, 32767, 32766, 32760, 32752, 32740, 32736, 32732, 32704, 32700] {
			v.push((format!("{what}, payload of {len} bytes"), f(len - base)));
		}
	}
	v
}

pub fn c12(rep: &mut Rep) {
	let check = chk(verdicts);
	let alpha = letters(0);
	let auth_only: Vec<_> = alpha[..18].to_vec();
	let len = rep.by(3, 4);
	for l in 0..=len {
		rep.wide(&format!("all sequences of {l} requests"), sequences(&auth_only, l, true, &check), 0);
	}
	rep.wide("all pairs of any messages", sequences(&alpha, 2, true, &check), 0);
	rep.wide("all pairs of any messages, no service request", sequences(&alpha, 2, false, &check), 0);
	// Values of the fields.
	let vals: Vec<Vec<u8>> = {
		let mut v: Vec<Vec<u8>> = vec![vec![], b"n".to_vec(), b"u0".to_vec(), b"good".to_vec(), b"goodx".to_vec(), b"\0".to_vec(), vec![0xff, 0xfe], "\u{e9}".as_bytes().to_vec(), b"a,b".to_vec(), vec![0x80; 3]];
		for n in [63usize, 64, 255, 256, 257, 1000, 4096] {
			v.push(bytes(n, n as u8));
		}
		v
	};
	let mut specs = vec![];
	let mut one = |name: String, p: Vec<u8>| {
		// Twice, between other requests, so that nothing is left over from one to the next.
		let s = vec![
			Act::Pay(m::service_request("ssh-userauth")),
			Act::Pay(m::auth_password(b"u0 a longer name than usual", b"a longer password than usual")),
			Act::Pay(p.clone()),
			Act::Pay(m::auth_none(b"x")),
			Act::Pay(p),
		];
		specs.push(spec(name, s, &check));
	};
	for (a, u) in vals.iter().enumerate() {
		for (b, s) in vals.iter().enumerate() {
			for (c, p) in vals.iter().enumerate() {
				// Users and services must be text.
				if std::str::from_utf8(u).is_err() || !s.is_ascii() {
					continue;
				}
				if rep.quick() && a * b * c > 0 && (a + b + c) % 3 != 0 {
					continue;
				}
				one(format!("password, values {a} {b} {c}"), m::auth(u, s, b"password").bool(false).s(p).done());
				one(format!("key, values {a} {b} {c}"), pk(u, s, b"alg", &kb(b"alg", p), Some(&kb(b"alg", b"S"))));
				one(format!("query, values {a} {b} {c}"), pk(u, s, b"alg", &kb(b"alg", p), None));
			}
			if std::str::from_utf8(u).is_ok() && s.is_ascii() {
				one(format!("none, values {a} {b}"), m::auth(u, s, b"none").done());
				one(format!("other, values {a} {b}"), m::auth(u, SVC, s).s(u).done());
			}
		}
	}
	for (what, r) in largest() {
		one(what, r);
	}
	for n in [10_000usize, 20_000, 30_000, 32_000] {
		let big = bytes(n, 5);
		one(format!("password of {n} bytes"), m::auth_password(b"u0", &big));
		one(format!("query of {n} bytes"), pk(b"u0", SVC, ALG, &kb(ALG, &[b"K", &big[..]].concat()), None));
		one(format!("key of {n} bytes"), pk(b"u0", SVC, ALG, &kb(ALG, &[b"K", &big[..]].concat()), Some(&kb(ALG, b"S"))));
		one(format!("signature of {n} bytes"), pk(b"u0", SVC, ALG, &kb(ALG, b"K"), Some(&kb(ALG, &big))));
		one(format!("user of {n} bytes"), m::auth_password(&vec![b'u'; n], b"good"));
	}
	for (n, v) in every_byte() {
		one(format!("password {n}"), m::auth_password(b"u0", &v));
		one(format!("query, key {n}"), pk(b"u0", SVC, ALG, &kb(ALG, &v), None));
		one(format!("key {n}"), pk(b"u0", SVC, ALG, &kb(ALG, &v), Some(&kb(ALG, b"S"))));
		one(format!("signature {n}"), pk(b"u0", SVC, ALG, &kb(ALG, b"K"), Some(&kb(ALG, &v))));
		if std::str::from_utf8(&v).is_ok() {
			one(format!("user {n}"), m::auth_password(&v, b"good"));
			one(format!("user {n}, query"), pk(&v, SVC, ALG, &kb(ALG, b"K"), None));
		}
		if v.is_ascii() {
			one(format!("service {n}"), m::auth(b"u0", &v, b"password").bool(false).s("good").done());
			one(format!("algorithm {n}"), pk(b"u0", SVC, &v, &kb(&v, b"K"), Some(&kb(&v, b"S"))));
			one(format!("query, algorithm {n}"), pk(b"u0", SVC, &v, &kb(&v, b"K"), None));
		}
	}
	for b in 1..=255u8 {
		one(format!("password change flag {b}"), m::auth(b"u0", SVC, b"password").u8(b).s("good").s("better").done());
		one(format!("signature flag {b}"), m::auth(b"u0", SVC, b"publickey").u8(b).s(ALG).s(kb(ALG, b"K")).s(kb(ALG, b"S")).done());
	}
	let base: [&[u8]; 4] = [b"none", b"password", b"publickey", b"hostbased"];
	let known = base.map(|b| b.to_vec());
	for b in base {
		for i in 0..b.len() {
			for e in [b[..i].to_vec(), { let mut x = b.to_vec(); x[i] ^= 0x20; x }, { let mut x = b.to_vec(); x.insert(i, b'x'); x }] {
				if !known.contains(&e) {
					one(format!("method {:?}", String::from_utf8_lossy(&e)), m::auth(b"u0n", SVC, &e).bool(false).s("good").done());
				}
			}
		}
	}
	drop(one);
	rep.wide("values of user, service and credentials", specs, 0);
	// A few sequences under every schedule, with handlers that take their time.
	let mut specs = vec![];
	for names in [&["none", "pw-", "pw+"][..], &["query+", "pk+"], &["query-", "renew", "pk-"], &["keyboard", "none+", "pw+"], &["pw-", "cut"]] {
		for gate in [[true; 3], [false; 3]] {
			let mut s = vec![Act::Enable, Act::Pay(m::service_request("ssh-userauth"))];
			s.extend(names.iter().map(|n| Act::Pay(alpha.iter().find(|(m, _)| m == n).unwrap().1.clone())));
			let mut x = spec(format!("{names:?}, gates {}", gate[0]), s, &check);
			x.gate = gate;
			x.choices = Choices { sched: true, write: true, seg: true, select: true, stdin: false };
			specs.push(x);
		}
	}
	let bound = rep.by(2, 3);
	rep.deep(specs, bound);
	let specs = concurrent(&check, rep.quick());
	let some: Vec<_> = specs.iter().filter(|s| s.name.starts_with("[\"pw-\"")).take(1).cloned().collect();
	rep.wide("two clients at once", specs.clone(), 1);
	rep.deep(if rep.quick() { some } else { specs }, bound);
	let mut specs = vec![];
	for (n, p) in &auth_only {
		for k in [8usize, 20, 64, 200, 1100] {
			let mut s = vec![Act::Pay(m::service_request("ssh-userauth"))];
			s.extend((0..k).map(|_| Act::Pay(p.clone())));
			s.push(Act::Pay(alpha[3].1.clone()));
			specs.push(spec(format!("{k} times {n}"), s, &check));
		}
	}
	rep.wide("long runs of one request", specs, 0);
	neighbours(rep, &check);
	assume(rep);
	rep.rules.push("An execution runs the real server against one enumerated sequence of authentication requests; handler calls and replies must be, one for one, those the reference model of RFC 4252 derives from the requests and the application's verdicts.".into());
}

/// Sequences of requests that differ in one field, by a value of the same length or of another.
fn neighbours(rep: &mut Rep, check: &Check) {
	let base = [&b"u0"[..], SVC, ALG, b"K1", b"T"];
	let also: [[&[u8]; 2]; 5] = [[b"v0", b"u0 other"], [b"ssh-disconnect", b"x"], [b"ssh-ed25518", b"y"], [b"K2", b"L"], [b"U", b"TT"]];
	let make = |f: [&[u8]; 5], signed: bool| pk(f[0], f[1], f[2], &kb(f[2], f[3]), signed.then(|| kb(f[2], f[4])).as_deref());
	let mut alpha: Vec<(&'static str, Vec<u8>)> = vec![];
	let mut add = |name: String, p: Vec<u8>| alpha.push((Box::leak(name.into_boxed_str()), p));
	for signed in [true, false] {
		let kind = if signed { "signed" } else { "query" };
		add(kind.into(), make(base, signed));
		for i in 0..if signed { 5 } else { 4 } {
			for (k, v) in also[i].iter().enumerate() {
				let mut f = base;
				f[i] = v;
				add(format!("{kind} {i}{k}"), make(f, signed));
			}
		}
	}
	for (n, u, w) in [("pw", &b"u0"[..], &b"bad"[..]), ("pw 2", b"u0", b"dab"), ("pw 3", b"v0", b"bad"), ("pw 4", b"u0", b"worse")] {
		add(n.into(), m::auth_password(u, w));
	}
	add("none".into(), m::auth_none(b"u0"));
	let len = rep.by(3, 4);
	rep.wide(&format!("all sequences of {len} requests that differ little"), sequences(&alpha, len, true, check), 0);
}

pub fn c13(rep: &mut Rep) {
	let check = chk(both);
	let svc = || Act::Pay(m::service_request("ssh-userauth"));
	let vals: Vec<Vec<u8>> = vec![
		vec![],
		b"x".to_vec(),
		b"ssh-ed25519".to_vec(),
		vec![0, 0, 0, 1],
		vec![0x80],
		bytes(32, 1),
		bytes(64, 2),
		bytes(255, 3),
		bytes(256, 4),
		bytes(1000, 5),
	];
	let texts: Vec<Vec<u8>> = vec![vec![], b"u0".to_vec(), b"root".to_vec(), b"a name with spaces and more characters than the others have".to_vec(), vec![b'k'; 300]];
	let algs: Vec<Vec<u8>> = vec![b"ssh-ed25519".to_vec(), b"x".to_vec(), vec![], b"ecdsa-sha2-nistp256".to_vec(), vec![b'a'; 200]];
	let mut specs = vec![];
	for (a, u) in texts.iter().enumerate() {
		for (b, s) in texts.iter().enumerate() {
			for (c, alg) in algs.iter().enumerate() {
				for (d, key) in vals.iter().enumerate() {
					for (e, sig) in vals.iter().enumerate() {
						if rep.quick() && (a + 2 * b + 3 * c + d + e) % 2 != 0 {
							continue;
						}
						let r = pk(u, s, alg, &kb(alg, key), Some(&kb(alg, sig)));
						let other = pk(b"u0 longer", b"service", b"algorithm", &kb(b"algorithm", &[7; 100]), Some(&kb(b"algorithm", &[8; 100])));
						let script = match (a + b + c + d + e) % 3 {
							0 => vec![svc(), Act::Pay(r.clone()), Act::Pay(r)],
							1 => vec![svc(), Act::Pay(other.clone()), Act::Pay(r), Act::Pay(other)],
							_ => vec![svc(), Act::Pay(m::auth_password(b"u0", b"bad")), Act::Pay(r), Act::Pay(m::auth_none(b"u0"))],
						};
						let mut x = spec(format!("values {a} {b} {c} {d} {e}"), script, &check);
						// Another session, another identifier.
						x.conns[0].hs.secret = [(a * 7 + b * 3 + c + d + e) as u8 % 4 + 1; 32];
						specs.push(x);
					}
				}
			}
		}
	}
	for (n, v) in every_byte() {
		let mut one = |what: &str, r: Vec<u8>| specs.push(spec(format!("{what} {n}"), vec![svc(), Act::Pay(r.clone()), Act::Pay(r)], &check));
		one("key", pk(b"u0", SVC, ALG, &kb(ALG, &v), Some(&kb(ALG, b"S"))));
		one("signature", pk(b"u0", SVC, ALG, &kb(ALG, b"K"), Some(&kb(ALG, &v))));
		if std::str::from_utf8(&v).is_ok() {
			one("user", pk(&v, SVC, ALG, &kb(ALG, b"K"), Some(&kb(ALG, b"S"))));
		}
		if v.is_ascii() {
			one("service", pk(b"u0", &v, ALG, &kb(ALG, b"K"), Some(&kb(ALG, b"S"))));
			one("algorithm", pk(b"u0", SVC, &v, &kb(&v, b"K"), Some(&kb(&v, b"S"))));
		}
	}
	for n in [2000usize, 4000, 4090, 4096, 5000, 8192, 10_000, 16_384, 20_000, 30_000, 32_000] {
		let big = bytes(n, 5);
		let text = vec![b't'; n];
		let mut one = |what: &str, r: Vec<u8>| {
			let small = pk(b"u0", SVC, ALG, &kb(ALG, b"K2"), Some(&kb(ALG, b"S")));
			specs.push(spec(format!("{what} of {n} bytes"), vec![svc(), Act::Pay(r.clone()), Act::Pay(small), Act::Pay(r)], &check));
		};
		one("key", pk(b"u0", SVC, ALG, &kb(ALG, &big), Some(&kb(ALG, b"T"))));
		one("signature", pk(b"u0", SVC, ALG, &kb(ALG, b"K"), Some(&kb(ALG, &big))));
		one("user", pk(&text, SVC, ALG, &kb(ALG, b"K"), Some(&kb(ALG, b"T"))));
		one("service", pk(b"u0", &text, ALG, &kb(ALG, b"K"), Some(&kb(ALG, b"T"))));
		if n < 11_000 {
			one("algorithm", pk(b"u0", SVC, &text, &kb(&text, b"K"), Some(&kb(&text, b"T"))));
		}
	}
	for (what, r) in largest() {
		let small = pk(b"u0", SVC, ALG, &kb(ALG, b"K2"), Some(&kb(ALG, b"S")));
		specs.push(spec(what, vec![svc(), Act::Pay(r.clone()), Act::Pay(small), Act::Pay(r)], &check));
	}
	rep.wide("signed requests over values of all fields", specs, 0);
	// Every damage of the blobs.
	let key = bytes(32, 9);
	let sig = bytes(64, 8);
	let (good_k, good_s) = (kb(ALG, &key), kb(ALG, &sig));
	let damage = |b: &[u8]| {
		let mut v: Vec<(String, Vec<u8>)> = vec![];
		for n in 0..b.len() {
			v.push((format!("cut to {n}"), b[..n].to_vec()));
		}
		for e in [&b"\0"[..], b"x", b"\0\0\0\0", b"\0\0\0\x01z", &kb(ALG, b"K"), &[0; 100]] {
			v.push((format!("with {} more", hex(e)), [b, e].concat()));
		}
		for i in 0..b.len() {
			for bit in 0..8 {
				let mut x = b.to_vec();
				x[i] ^= 1 << bit;
				v.push((format!("bit {bit} of byte {i}"), x));
			}
		}
		for alg in [&b""[..], b"ssh-ed2551", b"ssh-ed25519x", b"SSH-ED25519", b"ssh-rsa", b"ssh-ed25519\0", b"ecdsa-sha2-nistp256"] {
			v.push((format!("named {:?}", String::from_utf8_lossy(alg)), kb(alg, &b[4 + ALG.len() + 4..])));
		}
		v.push(("empty".into(), vec![]));
		for n in [0xffff_ffffu32, 0x7fff_ffff, 0x8000_0000, 35000] {
			let mut x = b.to_vec();
			x[..4].copy_from_slice(&n.to_be_bytes());
			v.push((format!("first length {n}"), x.clone()));
			let mut x = b.to_vec();
			x[15..19].copy_from_slice(&n.to_be_bytes());
			v.push((format!("second length {n}"), x));
		}
		v
	};
	let mut specs = vec![];
	let mut one = |name: String, r: Vec<u8>| {
		specs.push(spec(format!("{name}, alone"), vec![svc(), Act::Pay(r.clone()), Act::Pay(m::auth_password(b"u0", b"bad"))], &check));
		let before = pk(b"u0", SVC, ALG, &kb(ALG, &key), Some(&kb(ALG, &sig)));
		specs.push(spec(format!("{name}, after a good one"), vec![svc(), Act::Pay(before), Act::Pay(r)], &check));
	};
	for (n, x) in damage(&good_k) {
		one(format!("key blob {n}"), pk(b"u0", SVC, ALG, &x, Some(&good_s)));
		one(format!("queried key blob {n}"), pk(b"u0", SVC, ALG, &x, None));
	}
	for (n, x) in damage(&good_s) {
		one(format!("signature blob {n}"), pk(b"u0", SVC, ALG, &good_k, Some(&x)));
	}
	for alg in [&b""[..], b"ssh-ed2551", b"ssh-ed25519x", b"ssh-rsa", b"Ssh-ed25519"] {
		one(format!("request says {:?}", String::from_utf8_lossy(alg)), pk(b"u0", SVC, alg, &good_k, Some(&good_s)));
		one(format!("request and key say {:?}", String::from_utf8_lossy(alg)), pk(b"u0", SVC, alg, &kb(alg, &key), Some(&good_s)));
		one(format!("request and signature say {:?}", String::from_utf8_lossy(alg)), pk(b"u0", SVC, alg, &good_k, Some(&kb(alg, &sig))));
		one(format!("query says {:?}", String::from_utf8_lossy(alg)), pk(b"u0", SVC, alg, &good_k, None));
	}
	// The whole request cut or extended.
	let whole = pk(b"u0", SVC, ALG, &good_k, Some(&good_s));
	for n in 1..whole.len() {
		one(format!("request cut to {n}"), whole[..n].to_vec());
	}
	one("request with a byte more".into(), [&whole[..], b"\0"].concat());
	drop(one);
	rep.wide("damaged key and signature blobs", specs, 0);
	// Sequences of signed requests and others: what is signed is this request, not an earlier one.
	neighbours(rep, &check);
	// Two sessions at once.
	let two = |n: &str| {
		let mut conns = vec![];
		for i in 0..2 {
			let l = letters(i);
			let get = |n: &str| Act::Pay(l.iter().find(|(m, _)| *m == n).unwrap().1.clone());
			conns.push(ConnSpec {
				hs: HsSpec { secret: [i as u8 + 1; 32], ..Default::default() },
				script: vec![svc(), Act::Msgs(1), Act::Enable, get("pk-"), get(n)],
				..Default::default()
			});
		}
		conns
	};
	let mut specs = vec![];
	for n in ["pk+", "pk-", "query+"] {
		for gate in [[true; 3], [false; 3]] {
			let mut x = spec(format!("two sessions, then {n}, gates {}", gate[0]), vec![], &check);
			x.conns = two(n);
			x.gate = gate;
			x.choices = Choices { sched: true, write: true, seg: true, select: true, stdin: false };
			specs.push(x);
		}
	}
	let bound = rep.by(2, 3);
	rep.deep(specs, bound);
	assume(rep);
	rep.rules.push("An execution runs the real server against enumerated public-key requests; the data the handler is given must equal the RFC 4252 section 7 encoding over the exchange hash of this connection as the reference client computed it, and damaged blobs (every prefix, every bit, every naming mismatch) must reach no handler.".into());
}
