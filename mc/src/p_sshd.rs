//! C26 and C27: the example daemon, run as it is, talked to over loopback TCP.

use crate::client::dh;
use crate::procs::{self, Bench, Daemon};
use crate::refssh::*;
use crate::report::Rep;
use ed25519_dalek::{ExpandedSecretKey, PublicKey, SecretKey};
use std::collections::BTreeSet;
use std::io::{Read, Write};
use std::net::TcpStream;
use std::time::Duration;

const ALG: &[u8] = b"ssh-ed25519";
const CONN: &[u8] = b"ssh-connection";
const WAIT: Duration = Duration::from_secs(60);

/// Why a connection cannot be used any more.
#[derive(Debug)]
enum Gone {
	/// The server closed it.
	Closed,
	/// The server broke the protocol or does not answer.
	Bad(String),
}

impl From<Gone> for String {
	fn from(g: Gone) -> String {
		match g {
			Gone::Closed => "the server closed the connection".into(),
			Gone::Bad(s) => s,
		}
	}
}

struct Tcp {
	s: TcpStream,
	out: RefCipher,
	inn: RefCipher,
	session: [u8; 32],
}

fn rd(s: &mut TcpStream, n: usize) -> Result<Vec<u8>, Gone> {
	let mut v = vec![0; n];
	match s.read_exact(&mut v) {
		Ok(()) => Ok(v),
		Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => Err(Gone::Bad("the server does not answer".into())),
		Err(_) => Err(Gone::Closed),
	}
}

fn plain(s: &mut TcpStream) -> Result<Vec<u8>, Gone> {
	let mut l = rd(s, 4)?;
	let n = u32::from_be_bytes([l[0], l[1], l[2], l[3]]) as usize;
	if n > 40000 {
		return Err(Gone::Bad(format!("packet of length {n}")));
	}
	l.extend(rd(s, n)?);
	unframe(&l, 8, false).map_err(Gone::Bad)
}

impl Tcp {
	/// Connect and exchange keys.
	fn new(secret: u8) -> Result<Self, Gone> {
		let mut s = TcpStream::connect("127.0.0.1:2222").map_err(|e| Gone::Bad(format!("cannot connect: {e}")))?;
		s.set_nodelay(true).ok();
		s.set_read_timeout(Some(WAIT)).ok();
		s.set_write_timeout(Some(WAIT)).ok();
		let v_c = b"SSH-2.0-ref";
		let i_c = kexinit(&GOOD_LISTS, b"0123456789abcdef", 0);
		let sec = [secret | 1; 32];
		let q_c = dh(sec, x25519_dalek::X25519_BASEPOINT_BYTES);
		let put = |s: &mut TcpStream, b: &[u8]| s.write_all(b).map_err(|_| Gone::Closed);
		put(&mut s, &[&v_c[..], b"\r\n"].concat())?;
		put(&mut s, &frame(&i_c, 8, false, 0))?;
		let mut v_s = vec![];
		while !v_s.ends_with(b"\r\n") {
			v_s.extend(rd(&mut s, 1)?);
			if v_s.len() > 255 {
				return Err(Gone::Bad("identification line too long".into()));
			}
		}
		v_s.truncate(v_s.len() - 2);
		let i_s = plain(&mut s)?;
		put(&mut s, &frame(&W::new(30).s(q_c).done(), 8, false, 0))?;
		let reply = plain(&mut s)?;
		let mut r = R(&reply);
		let bad = || Gone::Bad("malformed key exchange reply".into());
		if r.u8() != Some(31) {
			return Err(bad());
		}
		let k_s = r.s().ok_or_else(bad)?;
		let q_s: [u8; 32] = r.s().and_then(|q| q.try_into().ok()).ok_or_else(bad)?;
		let k = dh(sec, q_s);
		let h = Exchange { v_c, v_s: &v_s, i_c: &i_c, i_s: &i_s, k_s, q_c: &q_c, q_s: &q_s, k: &k }.hash();
		if plain(&mut s)? != [21] {
			return Err(Gone::Bad("no NEWKEYS".into()));
		}
		put(&mut s, &frame(&[21], 8, false, 0))?;
		Ok(Self { s, out: RefCipher::new(&derive64(&k, &h, b'C'), 3), inn: RefCipher::new(&derive64(&k, &h, b'D'), 3), session: h })
	}

	fn send(&mut self, p: &[u8]) -> Result<(), Gone> {
		let w = self.out.seal(&frame(p, 8, true, 0));
		self.s.write_all(&w).map_err(|_| Gone::Closed)
	}

	fn recv(&mut self) -> Result<SMsg, Gone> {
		let mut l = rd(&mut self.s, 4)?;
		let n = self.inn.peek_len([l[0], l[1], l[2], l[3]]) as usize;
		if n > 40000 {
			return Err(Gone::Bad(format!("packet of length {n}")));
		}
		l.extend(rd(&mut self.s, n + 16)?);
		let p = self.inn.open(&l).ok_or_else(|| Gone::Bad("a packet does not verify".into()))?;
		Ok(decode(&unframe(&p, 8, true).map_err(Gone::Bad)?))
	}

	fn service(mut self) -> Result<Self, Gone> {
		self.send(&m::service_request("ssh-userauth"))?;
		match self.recv()? {
			SMsg::ServiceAccept(s) if s == b"ssh-userauth" => Ok(self),
			x => Err(Gone::Bad(format!("service request answered with {}", x.brief()))),
		}
	}

	fn login(user: &[u8]) -> Result<Self, String> {
		let mut t = Self::new(77)?.service()?;
		let q = Req::new(user).signed(&t.session);
		t.send(&q)?;
		match t.recv()? {
			SMsg::AuthSuccess => Ok(t),
			x => Err(format!("a valid signature by user {} is answered with {}", hex(user), x.brief())),
		}
	}
}

fn key(seed: u8) -> (ExpandedSecretKey, PublicKey) {
	let s = SecretKey::from_bytes(&[seed; 32]).unwrap();
	let p = PublicKey::from(&s);
	((&s).into(), p)
}

/// A public-key request in parts, each of which can be altered.
#[derive(Clone)]
struct Req {
	user: Vec<u8>,
	service: Vec<u8>,
	/// Request, key blob and signature blob each name the algorithm.
	alg: [Vec<u8>; 3],
	seed: u8,
	key: Vec<u8>,
	/// What the signature covers instead, if something else.
	covers: Option<Vec<u8>>,
	/// Applied to the signature.
	sig: Vec<(usize, u8)>,
	sig_raw: Option<Vec<u8>>,
	tail: Vec<u8>,
	blob_tail: Vec<u8>,
	sig_tail: Vec<u8>,
}

impl Req {
	fn new(user: &[u8]) -> Self {
		Self {
			user: user.into(),
			service: CONN.into(),
			alg: [ALG.into(), ALG.into(), ALG.into()],
			seed: 5,
			key: key(5).1.as_bytes().to_vec(),
			covers: None,
			sig: vec![],
			sig_raw: None,
			tail: vec![],
			blob_tail: vec![],
			sig_tail: vec![],
		}
	}
	fn blob(&self) -> Vec<u8> {
		W::default().s(&self.alg[1]).s(&self.key).raw(&self.blob_tail).done()
	}
	fn query(&self) -> Vec<u8> {
		m::auth(&self.user, &self.service, b"publickey").bool(false).s(&self.alg[0]).s(self.blob()).raw(&self.tail).done()
	}
	fn signature(&self, session: &[u8]) -> Vec<u8> {
		let d = self.covers.clone().unwrap_or_else(|| sign_data(session, &self.user, &self.service, &self.alg[0], &self.blob()));
		let (s, p) = key(self.seed);
		let mut v = self.sig_raw.clone().unwrap_or_else(|| s.sign(&d, &p).to_bytes().to_vec());
		for (i, x) in &self.sig {
			v[*i] ^= x;
		}
		v
	}
	fn signed(&self, session: &[u8]) -> Vec<u8> {
		let s = W::default().s(&self.alg[2]).s(self.signature(session)).raw(&self.sig_tail).done();
		m::auth(&self.user, &self.service, b"publickey").bool(true).s(&self.alg[0]).s(self.blob()).s(s).raw(&self.tail).done()
	}
}

/// What to send, given the session identifier; a name for it.
type Attempt = (String, Box<dyn Fn(&[u8; 32]) -> Vec<u8> + Sync + Send>);

fn at(name: impl Into<String>, f: impl Fn(&[u8; 32]) -> Vec<u8> + Sync + Send + 'static) -> Attempt {
	(name.into(), Box::new(f))
}

/// Requests none of which may be granted, one after the other; a fresh connection whenever the server closes.
fn refused(list: &[Attempt]) -> Result<(u64, u64), String> {
	let mut t: Option<Tcp> = None;
	let mut n = 0;
	for (name, f) in list {
		let mut c = match t.take() {
			Some(c) => c,
			None => Tcp::new(9)?.service()?,
		};
		let p = f(&c.session);
		match c.send(&p).and_then(|()| c.recv()) {
			Ok(SMsg::AuthFailure { .. }) => t = Some(c),
			Ok(SMsg::PkOk { .. }) if name.starts_with("query") => t = Some(c),
			Ok(SMsg::Disconnect(_)) | Err(Gone::Closed) => {}
			Ok(x) => return Err(format!("{name}: answered with {}", x.brief())),
			Err(Gone::Bad(e)) => return Err(format!("{name}: {e}")),
		}
		n += 1;
	}
	// What was refused does not stand in the way of a proper request.
	if let Some(mut c) = t {
		let q = Req::new(b"u").signed(&c.session);
		c.send(&q).map_err(String::from)?;
		match c.recv()? {
			SMsg::AuthSuccess => {}
			x => return Err(format!("a valid signature after {n} refused requests is answered with {}", x.brief())),
		}
	}
	Ok((n, n))
}

fn chunks(rep: &mut Rep, what: &str, list: Vec<Attempt>, size: usize) {
	let n = list.len().div_ceil(size);
	rep.cases(what, n, |i| refused(&list[i * size..(i * size + size).min(list.len())]));
}

fn daemon(rep: &mut Rep, b: &Bench, env: &[(&str, &str)]) -> Daemon {
	match b.daemon(env) {
		Ok(d) => d,
		Err(e) => match e.strip_prefix("HARNESS:") {
			Some(e) => {
				eprintln!("HARNESS ERROR: {e}");
				procs::clean();
				std::process::exit(2)
			}
			None => rep.violation("starting the daemon", "", &e, &[]),
		},
	}
}

fn still_there(rep: &mut Rep, d: &mut Daemon) {
	if !d.alive() {
		rep.violation("the daemon", "", "the daemon ended", &[]);
	}
	if let Err(e) = Tcp::login(b"last") {
		rep.violation("the daemon", "", &format!("in the end: {e}"), &[]);
	}
}

fn bench() -> Bench {
	Bench::new("nora_sshd").unwrap_or_else(|e| {
		eprintln!("{e}");
		procs::clean();
		std::process::exit(2)
	})
}

pub fn c26(rep: &mut Rep) {
	let b = bench();
	let mut d = daemon(rep, &b, &[]);
	rep.rules.push("a request is granted exactly when it carries an ed25519 signature by the offered key over this session's data".into());
	rep.rules.push("whatever was refused before, a valid request is granted; the daemon goes on".into());
	rep.assumptions.push("The daemon has no list of users and keys: any key whose possession is proved is let in (its source marks this as to be fixed).".into());
	rep.assumptions.push("Keys of small order, for which signatures over everything verify, are outside this check.".into());
	let users: Vec<Vec<u8>> = vec![b"u".to_vec(), b"root".to_vec(), "\u{e9}".as_bytes().to_vec(), b"a b".to_vec(), vec![b'n'; 255], vec![b'n'; 1000], b"u\0".to_vec(), b"-".to_vec()];
	rep.cases("valid signatures by several users and keys", users.len() * 4, |i| {
		let mut q = Req::new(&users[i % users.len()]);
		q.seed = [5, 6, 0, 255][i / users.len()];
		q.key = key(q.seed).1.as_bytes().to_vec();
		let mut t = Tcp::new(i as u8)?.service()?;
		let p = q.signed(&t.session);
		t.send(&p)?;
		match t.recv()? {
			SMsg::AuthSuccess => {}
			x => return Err(format!("valid request {i} is answered with {}", x.brief())),
		}
		Ok((1, 2))
	});
	// Names of every length and of every character.
	let mut names: Vec<Vec<u8>> = (0..=300).chain([511, 512, 513, 1023, 1024, 1025, 4096, 10_000, 30_000]).map(|n| vec![b'm'; n]).collect();
	names.extend((0..128u8).flat_map(|c| [vec![c], vec![b'a', c, b'b']]));
	names.extend(['\u{80}', '\u{7ff}', '\u{800}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{10ffff}'].map(|c| c.to_string().into_bytes()));
	rep.cases("valid signatures by users of all names", names.len(), |i| {
		let q = Req::new(&names[i]);
		let mut t = Tcp::new(i as u8)?.service()?;
		let p = q.signed(&t.session);
		t.send(&p)?;
		match t.recv()? {
			SMsg::AuthSuccess => {}
			x => return Err(format!("a valid request by a user named {} ({} bytes) is answered with {}", hex(&names[i][..names[i].len().min(20)]), names[i].len(), x.brief())),
		}
		same("a command of that user", &t.run(0, b"true", &[])?, &done(b"", b"", 0))?;
		Ok((1, 3))
	});
	// Names that are not text: granted or not, but nobody else is affected.
	let mut names: Vec<Vec<u8>> = (128..=255u8).flat_map(|c| [vec![c], vec![b'a', c, b'b'], vec![c, 0x80]]).collect();
	names.retain(|n| std::str::from_utf8(n).is_err());
	rep.cases("valid signatures by users whose names are not text", names.len(), |i| {
		let mut beside = Tcp::login(b"beside")?;
		let q = Req::new(&names[i]);
		let mut t = Tcp::new(i as u8)?.service()?;
		let p = q.signed(&t.session);
		t.send(&p)?;
		match t.recv() {
			Ok(SMsg::AuthSuccess | SMsg::AuthFailure { .. } | SMsg::Disconnect(_)) | Err(Gone::Closed) => {}
			Ok(x) => return Err(format!("a request by user {} is answered with {}", hex(&names[i]), x.brief())),
			Err(Gone::Bad(e)) => return Err(e),
		}
		same(&format!("another client after a request by user {}", hex(&names[i])), &beside.run(0, b"true", &[])?, &done(b"", b"", 0))?;
		Ok((1, 3))
	});
	// Many refusals before.
	let runs = [1usize, 2, 3, 5, 6, 10, 20, 21, 64, 128, 256, 257];
	rep.cases("a valid signature after many refusals", runs.len() * 4, |i| {
		let n = runs[i / 4];
		let mut t = Tcp::new(i as u8)?.service()?;
		for k in 0..n {
			let p = match i % 4 {
				0 => m::auth_none(b"u"),
				1 => m::auth_password(b"u", b"guess"),
				2 => {
					let mut q = Req::new(b"u");
					q.sig = vec![(k % 64, 1)];
					q.signed(&t.session)
				}
				_ => Req::new(b"u").query(),
			};
			t.send(&p)?;
			match t.recv()? {
				SMsg::AuthFailure { .. } => {}
				SMsg::PkOk { .. } if i % 4 == 3 => {}
				x => return Err(format!("refused request {k} of kind {} is answered with {}", i % 4, x.brief())),
			}
		}
		let p = Req::new(b"u").signed(&t.session);
		t.send(&p)?;
		match t.recv()? {
			SMsg::AuthSuccess => {}
			x => return Err(format!("a valid signature after {n} refused requests of kind {} is answered with {}", i % 4, x.brief())),
		}
		Ok((n as u64 + 1, n as u64 + 1))
	});
	// No signature at all.
	let mut l: Vec<Attempt> = vec![];
	for u in [&b"u"[..], b"root", b"", b"\xff"] {
		let u = u.to_vec();
		for s in [CONN, b"", b"ssh-userauth", b"x"] {
			let s = s.to_vec();
			let mk = |name: &str, f: fn(W) -> Vec<u8>, method: &'static [u8]| {
				let (u, s) = (u.clone(), s.clone());
				at(format!("{name} by {}", hex(&u)), move |_| f(m::auth(&u, &s, method)))
			};
			l.push(mk("none", |w| w.done(), b"none"));
			l.push(mk("password", |w| w.bool(false).s("").done(), b"password"));
			l.push(mk("password", |w| w.bool(false).s("password").done(), b"password"));
			l.push(mk("new password", |w| w.bool(true).s("old").s("new").done(), b"password"));
			l.push(mk("host based", |w| w.s(ALG).s("").s("host").s("user").s("sig").done(), b"hostbased"));
			l.push(mk("keyboard", |w| w.s("").s("").done(), b"keyboard-interactive"));
			l.push(mk("gssapi", |w| w.u32(0).done(), b"gssapi-with-mic"));
			l.push(mk("unknown method", |w| w.raw([1; 40]).done(), b"publickey2"));
			l.push(mk("empty method", |w| w.done(), b""));
			let (u2, s2) = (u.clone(), s.clone());
			l.push(at("query", move |_| {
				let mut q = Req::new(&u2);
				q.service = s2.clone();
				q.query()
			}));
		}
	}
	chunks(rep, "requests without a signature", l, 16);
	// Algorithms in all three places.
	let algs: [&[u8]; 7] = [ALG, b"", b"ssh-rsa", b"ecdsa-sha2-nistp256", b"ssh-ed25519-cert-v01@openssh.com", b"ssh-ed2551", b"SSH-ED25519"];
	let mut l = vec![];
	for i in 1..343 {
		let mut q = Req::new(b"u");
		q.alg = [algs[i % 7].to_vec(), algs[i / 7 % 7].to_vec(), algs[i / 49].to_vec()];
		let q2 = q.clone();
		l.push(at(format!("algorithms {i}"), move |s| q.signed(s)));
		if i % 7 != 0 || i / 7 % 7 != 0 {
			l.push(at(format!("plain query with algorithms {i}"), move |_| q2.query()));
		}
	}
	chunks(rep, "all combinations of algorithm names", l, 32);
	// Names near the supported one, used alike everywhere and in each place alone.
	let mut near: BTreeSet<Vec<u8>> = BTreeSet::new();
	for i in 0..=ALG.len() {
		near.extend([ALG[..i].to_vec(), ALG[i..].to_vec()]);
		for c in rep.by(&b"\0 ,-sS15x\xff"[..], &(0..=255u8).collect::<Vec<_>>()[..]) {
			let mut x = ALG.to_vec();
			x.insert(i, *c);
			near.insert(x.clone());
			x.remove(i);
			if i < x.len() {
				x[i] = *c;
				near.insert(x);
			}
		}
		for k in i + 1..=ALG.len() {
			near.insert([&ALG[..i], &ALG[k..]].concat());
		}
		for k in 1..ALG.len() - i.min(ALG.len()) {
			let mut x = ALG.to_vec();
			x.swap(i, i + k);
			near.insert(x);
		}
		if i < ALG.len() {
			let mut x = ALG.to_vec();
			x[i] = x[i].to_ascii_uppercase();
			near.insert(x);
		}
	}
	for x in [&b"x-ed25519"[..], b"x@ed25519", b"ssh-ed448", b"sk-ssh-ed25519@openssh.com", b"ssh-ed25519@openssh.com", b"xssh-ed25519x", b"ssh-ed25519,ssh-rsa", b"ssh-rsa,ssh-ed25519", b"ssh-dss", b"SSH-ed25519", b"Ssh-Ed25519", b"rsa-sha2-256", b"ed25519", b"*", b"any"] {
		near.insert(x.to_vec());
	}
	near.remove(ALG);
	let mut l = vec![];
	for x in &near {
		for places in [7, 1, 2, 4] {
			let mut q = Req::new(b"u");
			for k in 0..3 {
				if places & 1 << k != 0 {
					q.alg[k] = x.clone();
				}
			}
			l.push(at(format!("algorithm {} in places {places}", hex(x)), move |s| q.signed(s)));
		}
	}
	chunks(rep, "names near the supported algorithm", l, 32);
	// Every bit of the signature.
	let mut l = vec![];
	for bit in 0..512 {
		let mut q = Req::new(b"u");
		q.sig = vec![(bit / 8, 1 << (bit % 8))];
		l.push(at(format!("signature bit {bit}"), move |s| q.signed(s)));
	}
	for n in (0..64).chain(65..140) {
		l.push(at(format!("signature of {n} bytes"), move |s| {
			let mut q = Req::new(b"u");
			let mut g = q.signature(s);
			g.resize(n, 0);
			q.sig_raw = Some(g);
			q.signed(s)
		}));
	}
	for raw in [vec![0; 64], vec![0xff; 64], vec![], vec![1; 64]] {
		let mut q = Req::new(b"u");
		q.sig_raw = Some(raw);
		l.push(at("constant signature", move |s| q.signed(s)));
	}
	// The same scalar modulo the group order.
	l.push(at("signature with the order added", |s| {
		let mut q = Req::new(b"u");
		let mut g = q.signature(s);
		let order: [u8; 32] = [0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10];
		let mut c = 0;
		for i in 0..32 {
			let x = u32::from(g[32 + i]) + u32::from(order[i]) + c;
			g[32 + i] = x as u8;
			c = x >> 8;
		}
		q.sig_raw = Some(g);
		q.signed(s)
	}));
	chunks(rep, "every altered bit and length of the signature", l, 32);
	// Every bit of the key, and other keys.
	let mut l = vec![];
	for bit in 0..256 {
		let mut q = Req::new(b"u");
		q.key[bit / 8] ^= 1 << (bit % 8);
		let q2 = q.clone();
		l.push(at(format!("key bit {bit}"), move |s| q.signed(s)));
		// The signature covers the proper key.
		l.push(at(format!("key bit {bit}, signature over the original"), move |s| {
			let mut q = q2.clone();
			q.covers = Some(sign_data(s, b"u", CONN, ALG, &Req::new(b"u").blob()));
			q.signed(s)
		}));
	}
	for n in (0..32).chain(33..70) {
		let mut q = Req::new(b"u");
		q.key.resize(n, 0);
		let q2 = q.clone();
		l.push(at(format!("key of {n} bytes"), move |s| q.signed(s)));
		l.push(at(format!("query with a key of {n} bytes"), move |_| q2.query()));
	}
	for seed in 0..8 {
		let mut q = Req::new(b"u");
		q.seed = 100 + seed;
		l.push(at("signature by another key", move |s| q.signed(s)));
	}
	chunks(rep, "every altered bit and length of the key, other keys", l, 32);
	// What the signature covers.
	let mut l = vec![];
	for bit in 0..256 {
		l.push(at(format!("session bit {bit}"), move |s| {
			let mut o = *s;
			o[bit / 8] ^= 1 << (bit % 8);
			let mut q = Req::new(b"u");
			q.covers = Some(sign_data(&o, b"u", CONN, ALG, &q.blob()));
			q.signed(s)
		}));
	}
	for (name, user, service, alg) in [
		("another user", &b"v"[..], CONN, ALG),
		("no user", b"", CONN, ALG),
		("a longer user", b"uu", CONN, ALG),
		("another case", b"U", CONN, ALG),
		("another service", b"u", &b"ssh-userauth"[..], ALG),
		("no service", b"u", b"", ALG),
		("another algorithm", b"u", CONN, b"ssh-rsa"),
		("shifted fields", b"ussh-", b"connection", ALG),
	] {
		l.push(at(format!("signature over {name}"), move |s| {
			let mut q = Req::new(b"u");
			q.covers = Some(sign_data(s, user, service, alg, &q.blob()));
			q.signed(s)
		}));
		// And the other way round.
		l.push(at(format!("request with {name}"), move |s| {
			let mut q = Req::new(user);
			q.service = service.into();
			q.alg[0] = alg.into();
			q.covers = Some(sign_data(s, b"u", CONN, ALG, &Req::new(b"u").blob()));
			q.signed(s)
		}));
	}
	for i in 0..6 {
		l.push(at(format!("signature over other data {i}"), move |s| {
			let mut q = Req::new(b"u");
			let full = sign_data(s, b"u", CONN, ALG, &q.blob());
			q.covers = Some(match i {
				0 => vec![],
				1 => full[4 + 32..].to_vec(),
				2 => full[..full.len() - 1].to_vec(),
				3 => [&full[..], b"\0"].concat(),
				4 => s.to_vec(),
				_ => full[4..].to_vec(),
			});
			q.signed(s)
		}));
	}
	// Every bit of the data.
	let len = sign_data(&[0; 32], b"u", CONN, ALG, &Req::new(b"u").blob()).len();
	for bit in 0..len * 8 {
		if (32..32 + 256).contains(&bit) {
			continue;
		}
		l.push(at(format!("bit {bit} of the signed data"), move |s| {
			let mut q = Req::new(b"u");
			let mut d = sign_data(s, b"u", CONN, ALG, &q.blob());
			d[bit / 8] ^= 1 << (bit % 8);
			q.covers = Some(d);
			q.signed(s)
		}));
	}
	chunks(rep, "signatures over anything else", l, 32);
	// Malformed requests.
	let mut l = vec![];
	let n = Req::new(b"u").signed(&[0; 32]).len();
	for k in 1..n {
		l.push(at(format!("request cut to {k} bytes"), move |s| Req::new(b"u").signed(s)[..k].to_vec()));
	}
	for tail in [vec![0], vec![0; 4], vec![1, 2, 3]] {
		for place in 0..3 {
			let mut q = Req::new(b"u");
			match place {
				0 => q.tail = tail.clone(),
				1 => q.blob_tail = tail.clone(),
				_ => q.sig_tail = tail.clone(),
			}
			l.push(at(format!("{} bytes after part {place}", tail.len()), move |s| q.signed(s)));
		}
	}
	// A signature in a request that says there is none.
	l.push(at("unsigned flag with a signature", |s| {
		let mut p = Req::new(b"u").signed(s);
		let at = 1 + 4 + 1 + 4 + CONN.len() + 4 + 9;
		p[at] = 0;
		p
	}));
	chunks(rep, "malformed requests", l, 8);
	// A whole request from another session.
	rep.cases("requests replayed from another session", 8, |i| {
		let a = Tcp::new(2 * i as u8 + 31)?.service()?;
		let p = Req::new(b"u").signed(&a.session);
		refused(&[at("replayed request", move |_| p.clone())])
	});
	// Nothing works before.
	rep.cases("channel messages before authentication", 4, |i| {
		let mut t = Tcp::new(3)?.service()?;
		let p = match i {
			0 => m::open("session", 0, 1 << 20, 1 << 15),
			1 => m::exec(0, true, b"true"),
			2 => m::data(0, b"x"),
			_ => m::close(0),
		};
		match t.send(&p).and_then(|()| t.recv()) {
			Err(Gone::Closed) | Ok(SMsg::Disconnect(_)) | Ok(SMsg::Unimplemented(_)) | Ok(SMsg::AuthFailure { .. }) | Ok(SMsg::OpenFailure { .. }) => Ok((1, 1)),
			Ok(x) => Err(format!("channel message {i} before authentication is answered with {}", x.brief())),
			Err(Gone::Bad(e)) => Err(e),
		}
	});
	still_there(rep, &mut d);
}

// ---- C27

/// What came back for one command.
#[derive(Debug, PartialEq, Eq, Default)]
struct Got {
	success: Option<bool>,
	out: Vec<u8>,
	err: Vec<u8>,
	status: Option<u32>,
	closed: bool,
}

impl Tcp {
	fn open(&mut self, ch: u32) -> Result<u32, String> {
		self.send(&m::open("session", ch, 1 << 30, 1 << 15))?;
		match self.recv()? {
			SMsg::OpenConfirm { to, from, .. } if to == ch => Ok(from),
			x => Err(format!("opening a channel is answered with {}", x.brief())),
		}
	}

	/// Take in one message.
	fn take(&mut self, base: u32, g: &mut [Got]) -> Result<(), String> {
		let x = self.recv()?;
		let i = x.to().and_then(|t| t.checked_sub(base)).filter(|i| (*i as usize) < g.len()).ok_or_else(|| format!("unexpected {}", x.brief()))?;
		let g = &mut g[i as usize];
		match x {
			SMsg::Success(_) if g.success.is_none() => g.success = Some(true),
			SMsg::Failure(_) if g.success.is_none() => g.success = Some(false),
			SMsg::Data { data, .. } => g.out.extend(data),
			SMsg::Ext { ty: 1, data, .. } => g.err.extend(data),
			SMsg::Eof(_) => {}
			SMsg::ExitStatus { status, .. } if g.status.is_none() => g.status = Some(status),
			SMsg::Close(_) if !g.closed => g.closed = true,
			SMsg::WindowAdjust { .. } => {}
			x => return Err(format!("unexpected {}", x.brief())),
		}
		Ok(())
	}

	/// Run a command with this input in pieces; everything until the channel closes, or the refusal.
	fn run(&mut self, ch: u32, cmd: &[u8], input: &[&[u8]]) -> Result<Got, String> {
		let at = self.open(ch)?;
		self.send(&m::exec(at, true, cmd))?;
		let mut g = [Got::default()];
		// The answer first: there is none for data to a channel without a program.
		while g[0].success.is_none() {
			self.take(ch, &mut g)?;
		}
		if g[0].success == Some(true) {
			// What comes back is read meanwhile, or both sides could end up waiting for each other.
			let mut reader = Tcp { s: self.s.try_clone().map_err(|e| format!("HARNESS:{e}"))?, out: self.out.clone(), inn: self.inn.clone(), session: self.session };
			let (got, inn) = std::thread::scope(|s| {
				let h = s.spawn(move || {
					while !g[0].closed {
						reader.take(ch, &mut g)?;
					}
					Ok::<_, String>((std::mem::take(&mut g[0]), reader.inn))
				});
				for d in input {
					if self.send(&m::data(at, d)).is_err() {
						break;
					}
				}
				let _ = self.send(&m::eof(at));
				h.join().unwrap()
			})?;
			self.inn = inn;
			g = [got];
		}
		self.send(&m::close(at))?;
		if !g[0].closed {
			while !g[0].closed {
				self.take(ch, &mut g)?;
			}
		}
		let [g] = g;
		Ok(g)
	}
}

fn done(out: &[u8], err: &[u8], status: u32) -> Got {
	Got { success: Some(true), out: out.into(), err: err.into(), status: Some(status), closed: true }
}

fn same(what: &str, got: &Got, want: &Got) -> Result<(), String> {
	if got == want {
		return Ok(());
	}
	let d = |g: &Got| {
		let f = |b: &[u8]| format!("{} bytes {}", b.len(), hex(&b[..b.len().min(40)]));
		format!("accepted {:?}, stdout {}, stderr {}, status {:?}", g.success, f(&g.out), f(&g.err), g.status)
	};
	Err(format!("{what}: got {} instead of {}", d(got), d(want)))
}

fn pattern(n: usize, salt: u8) -> Vec<u8> {
	(0..n).map(|i| (i * 7 + i / 251) as u8 ^ salt).collect()
}

/// The program that is run: `nora-mc helper MODE ...`.
pub fn helper(args: &[std::ffi::OsString]) -> ! {
	use std::os::unix::ffi::OsStrExt;
	let n = |i: usize| args.get(i).and_then(|a| a.to_str()).and_then(|a| a.parse::<usize>().ok()).unwrap_or(0);
	let mut o = std::io::stdout().lock();
	let mut e = std::io::stderr().lock();
	match args.first().and_then(|a| a.to_str()) {
		Some("args") => {
			let mut v = vec![];
			for a in &args[1..] {
				v.extend_from_slice(a.as_bytes());
				v.push(b'\0');
			}
			let _ = o.write_all(&v);
		}
		// N bytes of output and M of errors by turns, then exit with a code.
		Some("out") => {
			let (a, b) = (pattern(n(1), 1), pattern(n(2), 2));
			let (mut a, mut b) = (&a[..], &b[..]);
			while !a.is_empty() || !b.is_empty() {
				let k = a.len().min(5000);
				let _ = o.write_all(&a[..k]).and_then(|()| o.flush());
				a = &a[k..];
				let k = b.len().min(3000);
				let _ = e.write_all(&b[..k]);
				b = &b[k..];
			}
			std::process::exit(n(3) as i32);
		}
		// The input as output, its size as an error.
		Some("cat") => {
			let mut v = vec![];
			let _ = std::io::stdin().read_to_end(&mut v);
			let _ = o.write_all(&v).and_then(|()| o.flush());
			let _ = e.write_all(v.len().to_string().as_bytes());
		}
		// What it has been given.
		Some("fds") => {
			let mut v: Vec<i32> = (0..1024).filter(|f| unsafe { libc::fcntl(*f, libc::F_GETFD) } >= 0).collect();
			v.sort();
			let _ = o.write_all(format!("{v:?}").as_bytes());
		}
		// Piece by piece.
		Some("echo") => {
			let mut v = [0; 1000];
			let mut i = std::io::stdin().lock();
			while let Ok(k @ 1..) = i.read(&mut v) {
				let _ = o.write_all(&v[..k]).and_then(|()| o.flush());
			}
		}
		// Killed by a signal after some output.
		Some("signal") => unsafe {
			let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
			libc::setrlimit(libc::RLIMIT_CORE, &z);
			let _ = o.write_all(b"before").and_then(|()| o.flush());
			libc::signal(n(1) as i32, libc::SIG_DFL);
			let mut s: libc::sigset_t = std::mem::zeroed();
			libc::sigemptyset(&mut s);
			libc::sigprocmask(libc::SIG_SETMASK, &s, std::ptr::null_mut());
			libc::raise(n(1) as i32);
		},
		// Close one stream, write to the other, exit later.
		Some("late") => unsafe {
			let first = n(1) as i32;
			libc::close(first);
			std::thread::sleep(Duration::from_millis(30));
			if first == 1 {
				let _ = e.write_all(b"late");
			} else {
				let _ = o.write_all(b"late").and_then(|()| o.flush());
			}
			libc::close(3 - first);
			std::thread::sleep(Duration::from_millis(30));
			libc::_exit(n(2) as i32);
		},
		_ => {}
	}
	let _ = o.flush();
	std::process::exit(0)
}

pub fn c27(rep: &mut Rep) {
	let b = bench();
	let h = match b.helper() {
		Ok(h) => h,
		Err(e) => {
			eprintln!("HARNESS ERROR: {e}");
			procs::clean();
			std::process::exit(2)
		}
	};
	rep.rules.push("the program gets exactly the whitespace-separated words; its streams and exit code come back complete and separate".into());
	rep.rules.push("a killed program never has status zero; a command that cannot be started is answered with failure".into());
	rep.assumptions.push("Whitespace is what ASCII calls so; the vertical tab and NUL bytes are left out of valid commands.".into());
	let mut d = daemon(rep, &b, &[("SHELL", "/bin/sh")]);
	let run = |s: &str| format!("{h} helper {s}").into_bytes();
	// Words.
	let atoms: [&[u8]; 8] = [b" ", b"\t", b"\n", b"a", b"\"b'", b"$HOME*;|&\\", b"\xff\xc3", b"-x="];
	let depth = rep.by(4, 6);
	let mut cmds: Vec<Vec<u8>> = vec![vec![]];
	let mut last: Vec<Vec<u8>> = vec![vec![]];
	for _ in 0..depth {
		last = last.iter().flat_map(|w| atoms.iter().map(move |a| [&w[..], a].concat())).collect();
		cmds.extend(last.iter().cloned());
	}
	for c in [b"\r", b"\x0c"] {
		cmds.push([b" a", &c[..], b"b"].concat());
	}
	for c in 1..=255u8 {
		if !c.is_ascii_whitespace() && c != 0x0b {
			cmds.push(vec![b' ', b'x', c, b'y']);
			cmds.push(vec![b' ', c]);
		}
	}
	cmds.push([b" ", &[b'l'; 20000][..]].concat());
	cmds.push(b" w".repeat(2000));
	// Words that mean something to somebody, in every place.
	let odd: Vec<u8> = (33..127u8).filter(|c| !c.is_ascii_alphanumeric()).collect();
	let mut special: Vec<Vec<u8>> = odd.iter().flat_map(|a| odd.iter().map(move |b| vec![*a, *b])).collect();
	for w in ["---", "--help", "--version", "-h", "-c", "-l", "-i", "-e", "exec", "sudo", "env", "nohup", "cd", "A=b", "helper", "args", "%s", "%%", "{}", "0", "1", "-1", "00", "true", "null", "/", "/bin/sh", "2>&1", "'a", "a'", "''", "\"\"", "$0", "$PATH", "~root", "#x"] {
		special.push(w.into());
	}
	for w in &special {
		cmds.push([b" ", &w[..]].concat());
		if rep.tier != crate::report::Tier::Quick || w[0] == b'-' || w.len() > 2 {
			cmds.push([b" ", &w[..], b" x ", &w[..]].concat());
		}
	}
	let printable: Vec<u8> = (33..127).collect();
	let mut long: Vec<u8> = vec![];
	for a in &printable {
		long.extend([b' ', *a]);
		for b in &printable {
			long.extend([b' ', *a, *b]);
		}
	}
	cmds.push(long);
	if !rep.quick() {
		for a in &odd {
			cmds.push(odd.iter().flat_map(|b| odd.iter().flat_map(move |c| [b' ', *a, *b, *c])).collect());
		}
	}
	let k = 64;
	rep.cases("words of the command", cmds.len().div_ceil(k), |p| {
		let mut t = Tcp::login(b"u")?;
		let mut n = 0;
		for (i, c) in cmds[p * k..].iter().take(k).enumerate() {
			// Leading blanks too.
			let lead: &[u8] = [&b""[..], b" ", b"\t\n "][i % 3];
			let cmd = [lead, &run("args"), &b" "[..c.first().map_or(0, |x| usize::from(!x.is_ascii_whitespace()))], c].concat();
			let want: Vec<u8> = c.split(|x| x.is_ascii_whitespace()).filter(|w| !w.is_empty()).flat_map(|w| [w, b"\0"].concat()).collect();
			let g = t.run(i as u32, &cmd, &[])?;
			same(&format!("command {}", hex(&cmd[cmd.len().saturating_sub(c.len() + 5)..][..(c.len() + 5).min(60)])), &g, &done(&want, b"", 0))?;
			n += 1;
		}
		Ok((n, n * 4))
	});
	// Programs found by name.
	rep.cases("programs by name", 6, |i| {
		let (c, o, s): (&[u8], &[u8], u32) = [(&b"true"[..], &b""[..], 0), (b"false", b"", 1), (b"echo a  b", b"a b\n", 0), (b"/bin/echo x", b"x\n", 0), (b"printf %s:%s a b", b"a:b", 0), (b"cat", b"", 0)][i];
		same(&String::from_utf8_lossy(c), &Tcp::login(b"u")?.run(1, c, &[])?, &done(o, b"", s))?;
		Ok((1, 1))
	});
	// Output.
	let sz: Vec<usize> = if rep.quick() { vec![0, 1, 255, 256, 257, 4096, 65536, 65537, 150_000] } else { vec![0, 1, 2, 254, 255, 256, 257, 511, 512, 513, 4095, 4096, 4097, 65535, 65536, 65537, 131072, 150_000, 500_000] };
	rep.cases("all amounts of output on both streams", sz.len() * sz.len(), |i| {
		let (a, e) = (sz[i % sz.len()], sz[i / sz.len()]);
		let g = Tcp::login(b"u")?.run(3, &run(&format!("out {a} {e} {}", i % 7)), &[])?;
		same(&format!("{a} bytes of output and {e} of errors"), &g, &done(&pattern(a, 1), &pattern(e, 2), (i % 7) as u32))?;
		Ok((1, 1))
	});
	rep.cases("every exit code", 32, |p| {
		let mut t = Tcp::login(b"u")?;
		for c in p * 8..p * 8 + 8 {
			let g = t.run(c as u32, &run(&format!("out 3 2 {c}")), &[])?;
			same(&format!("exit code {c}"), &g, &done(&pattern(3, 1), &pattern(2, 2), c as u32))?;
		}
		Ok((8, 8))
	});
	let sigs = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 24, 25, 26, 27, 29, 30, 31, 34, 64];
	rep.cases("every deadly signal", sigs.len(), |i| {
		let g = Tcp::login(b"u")?.run(0, &run(&format!("signal {}", sigs[i])), &[])?;
		if g.status == Some(0) {
			return Err(format!("killed by signal {}: exit status 0", sigs[i]));
		}
		let st = g.status;
		same(&format!("killed by signal {}", sigs[i]), &g, &Got { status: st, ..done(b"before", b"", 0) })?;
		Ok((1, 1))
	});
	rep.cases("streams that close one after the other", 8, |i| {
		let (first, code) = (1 + i % 2, i / 2 * 3);
		let g = Tcp::login(b"u")?.run(0, &run(&format!("late {first} {code}")), &[])?;
		let (o, e): (&[u8], &[u8]) = if first == 1 { (b"", b"late") } else { (b"late", b"") };
		same(&format!("stream {first} closed first"), &g, &done(o, e, code as u32))?;
		Ok((1, 1))
	});
	// Input.
	let ins: Vec<usize> = if rep.quick() { vec![0, 1, 2, 255, 256, 1000, 4096, 8192, 32768, 65536, 65537, 200_000] } else { vec![0, 1, 2, 3, 100, 255, 256, 257, 1000, 4095, 4096, 4097, 8192, 32767, 32768, 32769, 65535, 65536, 65537, 131072, 200_000, 1_000_000] };
	let pieces = [1usize, 7, 256, 1000, 4096, 32768];
	rep.cases("all amounts of input in pieces of all sizes", ins.len() * pieces.len() * 2, |i| {
		let (n, k, mode) = (ins[i % ins.len()], pieces[i / ins.len() % pieces.len()], i / ins.len() / pieces.len());
		if n / k > 3000 {
			return Ok((0, 0));
		}
		let data = pattern(n, 9);
		let parts: Vec<&[u8]> = data.chunks(k).collect();
		let g = Tcp::login(b"u")?.run(0, &run(["cat", "echo"][mode]), &parts)?;
		let e = if mode == 0 { n.to_string() } else { String::new() };
		same(&format!("{n} bytes of input in pieces of {k}"), &g, &done(&data, e.as_bytes(), 0))?;
		Ok((1, parts.len() as u64))
	});
	// Two commands at a time.
	rep.cases("two commands at a time on one connection", 4, |i| {
		let mut t = Tcp::login(b"u")?;
		let (a, b) = (t.open(10)?, t.open(11)?);
		let (big, small) = (pattern(if i % 2 == 0 { 3000 } else { 60000 }, 4), pattern(10, 5));
		t.send(&m::exec(a, true, &run("cat")))?;
		t.send(&m::exec(b, true, &run(if i < 2 { "cat" } else { "out 70000 300 9" })))?;
		let mut g = [Got::default(), Got::default()];
		for c in big.chunks(1000) {
			t.send(&m::data(a, c))?;
			if i < 2 {
				t.send(&m::data(b, &small))?;
			}
		}
		t.send(&m::eof(b))?;
		t.send(&m::eof(a))?;
		while !g.iter().all(|g| g.closed) {
			t.take(10, &mut g)?;
		}
		same("first of two commands", &g[0], &done(&big, big.len().to_string().as_bytes(), 0))?;
		if i < 2 {
			let all = small.repeat(big.len().div_ceil(1000));
			same("second of two commands", &g[1], &done(&all, all.len().to_string().as_bytes(), 0))?;
		} else {
			same("second of two commands", &g[1], &done(&pattern(70000, 1), &pattern(300, 2), 9))?;
		}
		Ok((1, 60))
	});
	// A shell and commands at the same time, begun and ended in every order.
	rep.cases("a shell and commands on one connection", 24, |i| {
		let mut t = Tcp::login(b"u")?;
		let ch: Vec<u32> = (0..4).map(|k| t.open(20 + k)).collect::<Result<_, _>>()?;
		let mut g: [Got; 4] = Default::default();
		// The order of starting: which of the four is started at which place.
		let mut left: Vec<usize> = (0..4).collect();
		let order: Vec<usize> = [i / 6, i / 2 % 3, i % 2, 0].into_iter().map(|k| left.remove(k)).collect();
		for k in &order {
			let p = if *k < 2 { m::request(ch[*k], "shell", true, b"") } else { m::exec(ch[*k], true, &run("cat")) };
			t.send(&p)?;
			while g[*k].success.is_none() {
				t.take(20, &mut g)?;
			}
		}
		let text: [&[u8]; 4] = [b"echo one; exit 3\n", b"echo two; exit 4\n", b"three", b"four"];
		for k in [1usize, 3, 0, 2] {
			t.send(&m::data(ch[k], text[k]))?;
			t.send(&m::eof(ch[k]))?;
			while !g[k].closed {
				t.take(20, &mut g)?;
			}
		}
		let want = [done(b"one\n", b"", 3), done(b"two\n", b"", 4), done(b"three", b"5", 0), done(b"four", b"4", 0)];
		for k in 0..4 {
			same(&format!("channel {k}, started in the order {order:?}"), &g[k], &want[k])?;
		}
		Ok((4, 20))
	});
	// Many at once.
	rep.cases("many commands at once on one connection", 3, |i| {
		let n = [10u32, 40, 100][i];
		let mut t = Tcp::login(b"u")?;
		let ch: Vec<u32> = (0..n).map(|k| t.open(k)).collect::<Result<_, _>>()?;
		let mut g: Vec<Got> = (0..n).map(|_| Got::default()).collect();
		for k in 0..n as usize {
			t.send(&m::exec(ch[k], true, &run("cat")))?;
		}
		for k in (0..n as usize).rev() {
			t.send(&m::data(ch[k], format!("input of {k}").as_bytes()))?;
			t.send(&m::eof(ch[k]))?;
		}
		while !g.iter().all(|g| g.closed) {
			t.take(0, &mut g)?;
		}
		for k in 0..n as usize {
			let s = format!("input of {k}");
			same(&format!("command {k} of {n}"), &g[k], &done(s.as_bytes(), s.len().to_string().as_bytes(), 0))?;
		}
		Ok((n as u64, 4 * n as u64))
	});
	// What cannot be started.
	let dir = b.work.to_str().unwrap().to_string();
	let _ = std::fs::write(b.work.join("plain"), b"not a program");
	let _ = std::fs::write(b.work.join("script"), b"#!/nonexistent/interpreter\n");
	procs::executable(&b.work.join("script"));
	let bad: Vec<Vec<u8>> = vec![
		b"".to_vec(),
		b" ".to_vec(),
		b"\t\n \r".to_vec(),
		b"no-such-program".to_vec(),
		b"no-such-program with arguments".to_vec(),
		b" /nonexistent/x".to_vec(),
		dir.clone().into_bytes(),
		format!("{dir}/plain").into_bytes(),
		format!("{dir}/script").into_bytes(),
		format!("{dir}/plain/x").into_bytes(),
		b"\xff\xfe".to_vec(),
		b"true\0".to_vec(),
		b"true a\0b".to_vec(),
		b"\0".to_vec(),
		vec![b'p'; 300],
		vec![b'p'; 30000],
		b"true;".to_vec(),
		b"'true'".to_vec(),
	];
	rep.cases("commands that cannot be started", bad.len() * 2, |i| {
		let c = &bad[i / 2];
		let what = format!("command {}", hex(&c[..c.len().min(60)]));
		let mut t = Tcp::login(b"u")?;
		if i % 2 == 0 {
			let g = t.run(0, c, &[])?;
			if g.success != Some(false) || g.status.is_some() || !g.out.is_empty() {
				return Err(format!("{what}: not answered with failure"));
			}
		} else {
			let at = t.open(0)?;
			t.send(&m::exec(at, false, c))?;
		}
		// The same connection goes on.
		same(&format!("{what}, then another"), &t.run(1, &run("out 5 5 5"), &[])?, &done(&pattern(5, 1), &pattern(5, 2), 5))?;
		Ok((2, 2))
	});
	// A shell.
	rep.cases("a shell", 3, |i| {
		let mut t = Tcp::login(b"u")?;
		let at = t.open(4)?;
		t.send(&m::request(at, "shell", true, b""))?;
		let (c, o, e, s): (&[u8], &[u8], &[u8], u32) = [
			(&b"echo hi\n"[..], &b"hi\n"[..], &b""[..], 0),
			(b"echo out; echo err >&2; exit 7\n", b"out\n", b"err\n", 7),
			(b"kill -9 $$\n", b"", b"", 137),
		][i];
		t.send(&m::data(at, c))?;
		t.send(&m::eof(at))?;
		let mut g = [Got::default()];
		while !g[0].closed {
			t.take(4, &mut g)?;
		}
		if i == 2 && g[0].status != Some(0) {
			g[0].status = Some(s);
		}
		same("shell", &g[0], &done(o, e, s))?;
		Ok((1, 3))
	});
	still_there(rep, &mut d);
	drop(d);
	// No shell to run.
	let mut d = daemon(rep, &b, &[]);
	rep.cases("no shell", 1, |_| {
		let mut t = Tcp::login(b"u")?;
		let at = t.open(4)?;
		t.send(&m::request(at, "shell", true, b""))?;
		let mut g = [Got::default()];
		t.take(4, &mut g)?;
		if g[0].success != Some(false) {
			return Err("a shell although there is none".into());
		}
		same("after that", &t.run(1, &run("out 5 5 5"), &[])?, &done(&pattern(5, 1), &pattern(5, 2), 5))?;
		Ok((1, 2))
	});
	still_there(rep, &mut d);
}

// ---- A daemon without descriptors to spare

/// How many the daemon may have.
const DESCRIPTORS: usize = 40;

/// Connections that take up all but this many descriptors.
fn leave(pid: u32, free: usize) -> Result<Vec<TcpStream>, String> {
	let mut v = vec![];
	for _ in 0..DESCRIPTORS.checked_sub(held(pid)?.0 + free).ok_or("HARNESS:too many descriptors")? {
		v.push(greeted("connections it has room for")?);
	}
	match held(pid)?.0 {
		n if n + free == DESCRIPTORS => Ok(v),
		n => Err(format!("HARNESS:{n} descriptors")),
	}
}

fn greeted(what: &str) -> Result<TcpStream, String> {
	let mut s = TcpStream::connect("127.0.0.1:2222").map_err(|e| format!("{what}: cannot connect: {e}"))?;
	greeting(what, &mut s)?;
	Ok(s)
}

fn greeting(what: &str, s: &mut TcpStream) -> Result<(), String> {
	s.set_read_timeout(Some(WAIT)).ok();
	match rd(s, 8) {
		Ok(l) if l == b"SSH-2.0-" => Ok(()),
		Ok(l) => Err(format!("{what}: greeted with {}", hex(&l))),
		Err(e) => Err(format!("{what}: {}", String::from(e))),
	}
}

/// With every number of descriptors left: commands, and more connections than it can take.
pub fn scarce(rep: &mut Rep) {
	let b = bench();
	let mut d = match b.daemon_limited(&[], Some(DESCRIPTORS as u64)) {
		Ok(d) => d,
		Err(e) => {
			eprintln!("HARNESS ERROR: {e}");
			procs::clean();
			std::process::exit(2)
		}
	};
	let pid = d.0.id();
	let threads = std::mem::replace(&mut rep.threads, 1);
	rep.rules.push("a daemon without descriptors to spare refuses commands and lets connections wait, serves the ones it has, and goes on as before when there are descriptors again".into());
	let begin = || -> Result<usize, String> {
		same("a command", &Tcp::login(b"u")?.run(0, b"true", &[])?, &done(b"", b"", 0))?;
		rest("the first command", pid, usize::MAX)?;
		std::thread::sleep(Duration::from_millis(300));
		Ok(held(pid)?.0)
	};
	let base = begin().unwrap_or_else(|e| rep.violation("starting the daemon", "", &e, &[]));
	let deep = !rep.quick();
	rep.cases("every small number of descriptors left: commands", if deep { 13 * 3 } else { 13 }, |i| {
		let (free, n) = (i % 13, 1 + i / 13 * 3);
		let mut t = Tcp::login(b"u")?;
		let others = leave(pid, free)?;
		for k in 0..n {
			let g = t.run(1 + k as u32, b"true", &[])?;
			if g.success == Some(true) {
				same(&format!("a command with {free} descriptors left"), &g, &done(b"", b"", 0))?;
			}
		}
		drop(others);
		let what = format!("commands with {free} descriptors left");
		rest(&what, pid, base + 1)?;
		same(&format!("a command after {what}"), &t.run(0, b"true", &[])?, &done(b"", b"", 0))?;
		drop(t);
		rest(&what, pid, base)?;
		Ok((1, n as u64))
	});
	let most = if deep { 8 } else { 4 };
	rep.cases("every small number of descriptors left: more connections than that", most * 4, |i| {
		let (free, more) = (i % most, [1, 2, 5, 40][i / most]);
		let mut t = Tcp::login(b"u")?;
		let at = t.open(0)?;
		let others = leave(pid, free)?;
		let what = format!("{} connections with {free} descriptors left", free + more);
		let mut s = vec![];
		for _ in 0..free + more {
			s.push(TcpStream::connect("127.0.0.1:2222").map_err(|e| format!("{what}: cannot connect: {e}"))?);
		}
		// Those it could take are served.
		for s in &mut s[..free] {
			greeting(&what, s)?;
		}
		// The one it had before goes on.
		for k in 0..4u32 {
			let x = t.open(1 + k).map_err(|e| format!("{what}: the connection there was before: {e}"))?;
			t.send(&m::request(x, "env", true, &W::default().s("A").s("b").done()))?;
			match t.recv()? {
				SMsg::Failure(c) if c == 1 + k => {}
				x => return Err(format!("{what}: a request is answered with {}", x.brief())),
			}
			std::thread::sleep(Duration::from_millis(40));
		}
		idle(&what, pid)?;
		// The others have their turn.
		drop(others);
		let (first, last) = s.split_at_mut((free + more).min(20));
		for s in &mut first[free..] {
			greeting(&what, s)?;
		}
		for s in first {
			let _ = s.shutdown(std::net::Shutdown::Both);
		}
		for s in last {
			greeting(&what, s)?;
		}
		drop(s);
		rest(&what, pid, base + 1)?;
		t.send(&m::exec(at, true, b"true"))?;
		let mut g = [Got::default()];
		while !g[0].closed {
			t.take(0, &mut g)?;
		}
		same(&format!("a command after {what}"), &g[0], &done(b"", b"", 0))?;
		same(&format!("a new connection after {what}"), &Tcp::login(b"v")?.run(0, b"true", &[])?, &done(b"", b"", 0))?;
		drop(t);
		rest(&what, pid, base)?;
		Ok((1, 1 + (free + more) as u64))
	});
	rep.threads = threads;
	still_there(rep, &mut d);
}

// ---- C30

/// What the daemon holds: open descriptors, child processes.
fn held(pid: u32) -> Result<(usize, usize), String> {
	let h = |e: std::io::Error| format!("HARNESS:/proc: {e}");
	let fds = std::fs::read_dir(format!("/proc/{pid}/fd")).map_err(h)?.count();
	let mut kids = 0;
	for t in std::fs::read_dir(format!("/proc/{pid}/task")).map_err(h)? {
		// A thread may be gone meanwhile.
		if let Ok(s) = std::fs::read_to_string(t.map_err(h)?.path().join("children")) {
			kids += s.split_whitespace().count();
		}
	}
	Ok((fds, kids))
}

/// Processor time used so far, in ticks of 10 ms.
fn ticks(pid: u32) -> Result<u64, String> {
	let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).map_err(|e| format!("HARNESS:/proc: {e}"))?;
	let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
	let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
	Ok(n(11) + n(12))
}

/// With nothing to do it must not be computing: it is if it does in a hundred periods on end.
fn idle(what: &str, pid: u32) -> Result<(), String> {
	for k in 0.. {
		let t = ticks(pid)?;
		std::thread::sleep(Duration::from_millis(if k == 0 { 60 } else { 400 }));
		if ticks(pid)? - t < if k == 0 { 3 } else { 12 } {
			break;
		}
		if k == 100 {
			return Err(format!("{what}: the daemon keeps computing although nothing happens"));
		}
	}
	Ok(())
}

/// Wait until the daemon holds no more than this.
fn rest(what: &str, pid: u32, fds: usize) -> Result<(), String> {
	let t = std::time::Instant::now();
	let mut pause = 1;
	loop {
		let (f, k) = held(pid)?;
		if f <= fds && k == 0 {
			return Ok(());
		}
		if t.elapsed() > Duration::from_secs(40) {
			let mut w = vec![];
			if k > 0 {
				w.push("child processes");
			}
			if f > fds {
				w.push("open descriptors");
			}
			return Err(format!("after {what}: the daemon still has {} of what is over", w.join(" and ")));
		}
		std::thread::sleep(Duration::from_millis(pause));
		pause = (pause * 2).min(50);
	}
}

/// Everything that can happen to a connection; at the end of each, all of it is over.
const ENDS: [&str; 26] = [
	"a command that ends",
	"a command, the connection dropped at its end",
	"a command fed until the end of input",
	"a command that reads, the connection dropped",
	"a command that reads, its channel closed",
	"a command that reads, a disconnect message",
	"a command that writes without end, the connection dropped",
	"a command that writes without end, its channel closed",
	"a command without window for its output, the connection dropped",
	"a command without window for its output, its channel closed",
	"a command that sleeps a little, the connection dropped",
	"a command that sleeps a little, its channel closed",
	"a command killed by a signal",
	"a command that does not exist",
	"a shell that is told to exit",
	"a shell, the connection dropped",
	"a channel opened and closed",
	"a channel open when the connection is dropped",
	"three commands on one connection, the connection dropped",
	"a second command on a channel, the connection dropped",
	"a login that is refused",
	"a connection dropped at once",
	"a connection dropped after its identification",
	"a connection dropped after the key exchange",
	"a packet that does not verify",
	"a command fed more than it takes, the connection dropped",
];

fn happen(i: usize, h: &str) -> Result<(), String> {
	let cmd = |s: &str| format!("{h} helper {s}").into_bytes();
	// A command that is running, and its channel.
	let begun = |c: &[u8], window: u32| -> Result<(Tcp, u32), String> {
		let mut t = Tcp::login(b"u")?;
		t.send(&m::open("session", 0, window, 1 << 15))?;
		let at = match t.recv()? {
			SMsg::OpenConfirm { to: 0, from, .. } => from,
			x => return Err(format!("opening a channel is answered with {}", x.brief())),
		};
		t.send(&m::exec(at, true, c))?;
		match t.recv()? {
			SMsg::Success(0) => Ok((t, at)),
			x => Err(format!("a command is answered with {}", x.brief())),
		}
	};
	let closed = |mut t: Tcp, at: u32| -> Result<(), String> {
		t.send(&m::close(at))?;
		let mut g = [Got { success: Some(true), ..Got::default() }];
		while !g[0].closed {
			t.take(0, &mut g)?;
		}
		// Goes on as usual.
		same("a command after a closed channel", &t.run(1, b"true", &[])?, &done(b"", b"", 0))
	};
	let wide = 1 << 30;
	match i {
		0 => same("a command", &Tcp::login(b"u")?.run(0, &cmd("out 3 2 1"), &[])?, &done(&pattern(3, 1), &pattern(2, 2), 1)),
		1 => begun(&cmd("out 3 2 1"), wide).map(drop),
		2 => same("a command", &Tcp::login(b"u")?.run(0, &cmd("cat"), &[b"abc"])?, &done(b"abc", b"3", 0)),
		3 => begun(&cmd("cat"), wide).map(drop),
		4 => begun(&cmd("cat"), wide).and_then(|(t, at)| closed(t, at)),
		5 => {
			let (mut t, _) = begun(&cmd("cat"), wide)?;
			t.send(&m::disconnect())?;
			let mut b = [0; 100];
			while let Ok(1..) = t.s.read(&mut b) {}
			Ok(())
		}
		6 => begun(b"cat /dev/zero", wide).map(drop),
		7 => begun(b"cat /dev/zero", wide).and_then(|(t, at)| closed(t, at)),
		8 => begun(b"cat /dev/zero", 100).map(drop),
		9 => begun(b"cat /dev/zero", 100).and_then(|(t, at)| closed(t, at)),
		10 => begun(b"sleep 0.05", wide).map(drop),
		11 => begun(b"sleep 0.05", wide).and_then(|(t, at)| closed(t, at)),
		12 => {
			let g = Tcp::login(b"u")?.run(0, &cmd("signal 9"), &[])?;
			if g.status == Some(0) || g.out != b"before" {
				return Err("a killed command looks as if it had ended well".into());
			}
			Ok(())
		}
		13 => {
			let mut t = Tcp::login(b"u")?;
			let g = t.run(0, b"/nonexistent/program", &[])?;
			same("a command that does not exist", &g, &Got { success: Some(false), closed: true, ..Got::default() })?;
			same("a command after it", &t.run(1, b"true", &[])?, &done(b"", b"", 0))
		}
		14 | 15 => {
			let mut t = Tcp::login(b"u")?;
			let at = t.open(0)?;
			t.send(&m::request(at, "shell", true, b""))?;
			let mut g = [Got::default()];
			while g[0].success.is_none() {
				t.take(0, &mut g)?;
			}
			if i == 14 {
				t.send(&m::data(at, b"exit 5\n"))?;
				while !g[0].closed {
					t.take(0, &mut g)?;
				}
				same("a shell", &g[0], &done(b"", b"", 5))?;
			}
			Ok(())
		}
		16 => Tcp::login(b"u").and_then(|mut t| t.open(0).map(|at| (t, at))).and_then(|(t, at)| closed(t, at)),
		17 => Tcp::login(b"u")?.open(0).map(drop),
		18 => {
			let mut t = Tcp::login(b"u")?;
			for k in 0..3 {
				let at = t.open(k)?;
				t.send(&m::exec(at, true, &cmd("cat")))?;
				t.recv()?;
			}
			Ok(())
		}
		19 => {
			let (mut t, at) = begun(&cmd("cat"), wide)?;
			t.send(&m::exec(at, true, &cmd("cat")))?;
			t.recv()?;
			Ok(())
		}
		20 => {
			let mut t = Tcp::new(9)?.service()?;
			t.send(&m::auth_none(b"u"))?;
			t.recv()?;
			Ok(())
		}
		21 => TcpStream::connect("127.0.0.1:2222").map(drop).map_err(|e| format!("cannot connect: {e}")),
		22 => {
			let mut s = TcpStream::connect("127.0.0.1:2222").map_err(|e| format!("cannot connect: {e}"))?;
			s.set_read_timeout(Some(WAIT)).ok();
			let _ = s.write_all(b"SSH-2.0-x\r\n");
			rd(&mut s, 8)?;
			Ok(())
		}
		23 => Ok(drop(Tcp::new(9)?)),
		24 => {
			let mut t = Tcp::login(b"u")?;
			let at = t.open(0)?;
			let mut w = t.out.seal(&frame(&m::exec(at, true, &cmd("cat")), 8, true, 0));
			let n = w.len();
			w[n - 1] ^= 1;
			let _ = t.s.write_all(&w);
			// Whatever the answer, the connection ends.
			let mut b = [0; 100];
			loop {
				match t.s.read(&mut b) {
					Ok(1..) => {}
					Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => return Err("a connection with a packet that does not verify goes on".into()),
					_ => return Ok(()),
				}
			}
		}
		25 => {
			let (mut t, at) = begun(b"sleep 0.05", wide)?;
			let d = vec![7; 30000];
			for _ in 0..10 {
				if t.send(&m::data(at, &d)).is_err() {
					break;
				}
			}
			Ok(())
		}
		_ => unreachable!(),
	}
}

pub fn c30(rep: &mut Rep) {
	let b = bench();
	let h = b.helper().unwrap_or_else(|e| {
		eprintln!("HARNESS ERROR: {e}");
		procs::clean();
		std::process::exit(2)
	});
	rep.rules.push("when the programs have ended and the connections are gone, no child process (not even a dead one) and no descriptor is left of them".into());
	rep.rules.push("a program whose client is gone reads the end of its input, and cannot write any more, so that it can end".into());
	rep.rules.push("a daemon that has nothing to do does not compute".into());
	rep.assumptions.push("Programs that neither read nor write after their client has left are let run to their end.".into());
	let mut d = daemon(rep, &b, &[("SHELL", "/bin/sh")]);
	let pid = d.0.id();
	// What it has at rest, when everything it ever starts has been started.
	let all = |rep: &mut Rep| -> usize {
		let f = || -> Result<usize, String> {
			happen(0, &h)?;
			rest("the first command", pid, usize::MAX)?;
			std::thread::sleep(Duration::from_millis(300));
			Ok(held(pid)?.0)
		};
		f().unwrap_or_else(|e| rep.violation("starting the daemon", "", &e, &[]))
	};
	let base = all(rep);
	let threads = std::mem::replace(&mut rep.threads, 1);
	let n = ENDS.len();
	rep.cases("everything that can happen to a connection, three times", n, |i| {
		for _ in 0..3 {
			happen(i, &h)?;
		}
		rest(ENDS[i], pid, base)?;
		idle(ENDS[i], pid)?;
		Ok((1, 3))
	});
	let few: Vec<usize> = if rep.quick() { vec![0, 3, 6, 7, 9, 10, 12, 13, 15, 18, 22, 24, 25] } else { (0..n).collect() };
	let k = few.len();
	rep.cases("all pairs of what can happen to a connection", k * k, |i| {
		let (a, b) = (few[i / k], few[i % k]);
		happen(a, &h)?;
		happen(b, &h)?;
		rest(&format!("{} and {}", ENDS[a], ENDS[b]), pid, base)?;
		Ok((1, 2))
	});
	if !rep.quick() {
		let few = [0usize, 3, 6, 7, 9, 10, 15, 18, 24, 25];
		let k = few.len();
		rep.cases("all triples of what can happen to a connection", k * k * k, |i| {
			let e = [few[i / k / k], few[i / k % k], few[i % k]];
			for e in e {
				happen(e, &h)?;
			}
			rest(&format!("{}, {} and {}", ENDS[e[0]], ENDS[e[1]], ENDS[e[2]]), pid, base)?;
			Ok((1, 3))
		});
	}
	// Several programs that run at the same time on one connection.
	let len = rep.by(2u32, 3);
	let progs = ["a command that reads", "a command that waits for window", "a command that sleeps a little", "a shell", "a command that has ended", "a command that does not exist"];
	let k = progs.len();
	rep.cases("all programs at once on one connection, and all ends of it", k.pow(len) * 3, |i| {
		let (end, mut i) = (i % 3, i / 3);
		let mut t = Tcp::login(b"u")?;
		let mut g: Vec<Got> = (0..len).map(|_| Got::default()).collect();
		let (mut at, mut names) = (vec![], vec![]);
		for c in 0..len as usize {
			let p = i % k;
			i /= k;
			names.push(progs[p]);
			t.send(&m::open("session", c as u32, if p == 1 { 100 } else { 1 << 30 }, 1 << 15))?;
			let a = loop {
				match t.recv()? {
					SMsg::OpenConfirm { to, from, .. } if to == c as u32 => break from,
					SMsg::OpenConfirm { .. } | SMsg::OpenFailure { .. } => return Err("opening a channel is answered for another".into()),
					// What the others do.
					SMsg::Close(o) => g[o as usize].closed = true,
					_ => {}
				}
			};
			at.push(a);
			let start = match p {
				0 => m::exec(a, true, format!("{h} helper cat").as_bytes()),
				1 => m::exec(a, true, b"cat /dev/zero"),
				2 => m::exec(a, true, b"sleep 0.05"),
				3 => m::request(a, "shell", true, b""),
				4 => m::exec(a, true, b"true"),
				_ => m::exec(a, true, b"/nonexistent/program"),
			};
			t.send(&start)?;
			while g[c].success.is_none() || p == 4 && !g[c].closed {
				t.take(0, &mut g)?;
			}
			if g[c].success != Some(p != 5) {
				return Err(format!("{} is answered with {:?}", progs[p], g[c].success));
			}
		}
		let what = format!("{} at once, {}", names.join(" and "), ["the connection dropped", "a disconnect message", "the channels closed"][end]);
		match end {
			0 => {}
			1 => {
				t.send(&m::disconnect())?;
				let mut b = [0; 100];
				while let Ok(1..) = t.s.read(&mut b) {}
			}
			_ => {
				for a in at {
					t.send(&m::close(a))?;
				}
				while g.iter().any(|g| !g.closed) {
					t.take(0, &mut g)?;
				}
				rest(&what, pid, base + 1)?;
			}
		}
		drop(t);
		rest(&what, pid, base)?;
		Ok((1, u64::from(len)))
	});
	// On one connection that stays.
	let k = WITHIN.len();
	rep.cases("all pairs of commands on one connection that goes on", k * k, |i| {
		let (a, b) = (i / k, i % k);
		let mut t = Tcp::login(b"u")?;
		for (c, e) in [a, b, a, b].into_iter().enumerate() {
			within(e, &mut t, c as u32 * 2, &h)?;
		}
		let what = format!("{} and {} on a connection that goes on", WITHIN[a], WITHIN[b]);
		rest(&what, pid, base + 1)?;
		if a == b {
			idle(&what, pid)?;
		}
		same(&format!("a command after {what}"), &t.run(50, b"true", &[])?, &done(b"", b"", 0))?;
		drop(t);
		rest(&what, pid, base)?;
		Ok((1, 4))
	});
	let many = rep.by([20usize, 60], [60, 400]);
	rep.cases("a connection with many commands", 2, |i| {
		let mut t = Tcp::login(b"u")?;
		let n = many[i];
		for c in 0..n {
			within(c % k, &mut t, c as u32 * 2, &h)?;
		}
		rest(&format!("{n} commands on a connection that goes on"), pid, base + 1)?;
		Ok((1, n as u64))
	});
	rep.cases("many at once, all dropped", 6, |i| {
		let n = [4, 16, 64][i / 2];
		let mut v = vec![];
		for k in 0..n {
			let mut t = Tcp::login(b"u")?;
			for at in [t.open(0)?, t.open(1)?] {
				t.send(&m::exec(at, true, if i % 2 == 0 && k % 2 == 0 { b"cat" } else { b"cat /dev/zero" }))?;
			}
			v.push(t);
		}
		drop(v);
		rest(&format!("{n} connections with two commands each"), pid, base)?;
		idle("after many connections", pid)?;
		Ok((1, n))
	});
	// Nothing to do.
	rep.cases("connections at which nothing happens", WAITS.len(), |i| {
		let what = WAITS[i];
		let held = waiting(i, pid)?;
		// What has been sent is dealt with.
		std::thread::sleep(Duration::from_millis(300));
		idle(what, pid)?;
		same(&format!("another client beside {what}"), &Tcp::login(b"v")?.run(0, b"true", &[])?, &done(b"", b"", 0))?;
		drop(held);
		rest(what, pid, base)?;
		Ok((1, 1))
	});
	// Programs are given their three streams and nothing else, whatever else there is.
	rep.cases("what a program is given", WAITS.len(), |i| {
		let held = waiting(i, pid)?;
		let mut t = Tcp::login(b"v")?;
		let at = t.open(7)?;
		t.send(&m::exec(at, true, b"cat"))?;
		t.recv()?;
		let g = t.run(8, format!("{h} helper fds").as_bytes(), &[])?;
		same(&format!("the descriptors of a program beside {}", WAITS[i]), &g, &done(b"[0, 1, 2]", b"", 0))?;
		drop((held, t));
		rest(WAITS[i], pid, base)?;
		Ok((1, 1))
	});
	rep.threads = threads;
	still_there(rep, &mut d);
	drop(d);
	scarce(rep);
}

/// What can happen to a channel of a connection that goes on.
const WITHIN: [&str; 11] = [
	"a command that ends",
	"a command fed until the end of input",
	"a command that reads and is closed",
	"a command that writes without end and is closed",
	"a command without window that is closed",
	"a command that sleeps and is closed",
	"a command killed by a signal",
	"a command that does not exist",
	"a shell that is told to exit",
	"a channel without a command",
	"a second command on a channel that is closed",
];

fn within(i: usize, t: &mut Tcp, ch: u32, h: &str) -> Result<(), String> {
	let cmd = |s: &str| format!("{h} helper {s}").into_bytes();
	let what = WITHIN[i];
	match i {
		0 => return same(what, &t.run(ch, &cmd("out 3 2 1"), &[])?, &done(&pattern(3, 1), &pattern(2, 2), 1)),
		1 => return same(what, &t.run(ch, &cmd("cat"), &[b"abc"])?, &done(b"abc", b"3", 0)),
		6 => {
			let g = t.run(ch, &cmd("signal 9"), &[])?;
			return if g.out == b"before" && g.status != Some(0) { Ok(()) } else { Err("a killed command looks as if it had ended well".into()) };
		}
		7 => return same(what, &t.run(ch, b"/nonexistent/program", &[])?, &Got { success: Some(false), closed: true, ..Got::default() }),
		_ => {}
	}
	t.send(&m::open("session", ch, if i == 4 { 100 } else { 1 << 30 }, 1 << 15))?;
	let at = loop {
		match t.recv()? {
			SMsg::OpenConfirm { to, from, .. } if to == ch => break from,
			x => return Err(format!("opening a channel is answered with {}", x.brief())),
		}
	};
	let start = match i {
		2 | 10 => m::exec(at, true, &cmd("cat")),
		3 | 4 => m::exec(at, true, b"cat /dev/zero"),
		5 => m::exec(at, true, b"sleep 0.05"),
		8 => m::request(at, "shell", true, b""),
		_ => vec![2, 0, 0, 0, 0],
	};
	t.send(&start)?;
	let mut g = [Got::default()];
	if i != 9 {
		while g[0].success.is_none() {
			t.take(ch, &mut g)?;
		}
		if g[0].success != Some(true) {
			return Err(format!("{what}: refused"));
		}
	}
	if i == 10 {
		t.send(&m::exec(at, true, &cmd("cat")))?;
		match t.recv()? {
			SMsg::Failure(_) => {}
			x => return Err(format!("{what}: the second is answered with {}", x.brief())),
		}
	}
	if i == 8 {
		t.send(&m::data(at, b"exit 5\n"))?;
		while !g[0].closed {
			t.take(ch, &mut g)?;
		}
		same(what, &g[0], &done(b"", b"", 5))?;
	}
	t.send(&m::close(at))?;
	while !g[0].closed {
		t.take(ch, &mut g)?;
	}
	Ok(())
}

/// Connections that wait.
const WAITS: [&str; 14] = [
	"a connection on which nothing was sent",
	"a connection with half an identification",
	"a connection after the key exchange",
	"a connection after login",
	"an open channel",
	"a program that reads",
	"a program that waits for window",
	"a program whose output nobody takes",
	"a program that takes no input",
	"an ended program whose channel stays open",
	"a program and a refused request",
	"a request beside a program whose output nobody takes",
	"a new channel beside a program whose output nobody takes",
	"a closed channel beside a program whose output nobody takes",
];

fn waiting(i: usize, pid: u32) -> Result<Box<dyn std::any::Any>, String> {
	let conn = || TcpStream::connect("127.0.0.1:2222").map_err(|e| format!("cannot connect: {e}"));
	if i == 0 {
		return Ok(Box::new(conn()?));
	}
	if i == 1 {
		let mut s = conn()?;
		let _ = s.write_all(b"SSH-2.0-");
		return Ok(Box::new(s));
	}
	if i == 2 {
		return Ok(Box::new(Tcp::new(9)?));
	}
	let mut t = Tcp::login(b"u")?;
	if i > 3 {
		t.send(&m::open("session", 0, if i == 6 { 1000 } else { 1 << 30 }, 1 << 15))?;
		let at = match t.recv()? {
			SMsg::OpenConfirm { to: 0, from, .. } => from,
			x => return Err(format!("opening a channel is answered with {}", x.brief())),
		};
		let c: &[u8] = match i {
			5 | 10 => b"cat",
			6 | 7 | 11.. => b"cat /dev/zero",
			8 => b"sleep 3",
			9 => b"true",
			_ => return Ok(Box::new(t)),
		};
		t.send(&m::exec(at, true, c))?;
		let mut g = [Got::default()];
		while g[0].success.is_none() {
			t.take(0, &mut g)?;
		}
		match i {
			8 => {
				t.s.set_write_timeout(Some(Duration::from_millis(200))).ok();
				let d = vec![7; 30000];
				for _ in 0..10 {
					if t.send(&m::data(at, &d)).is_err() {
						break;
					}
				}
			}
			9 => {
				while !g[0].closed {
					t.take(0, &mut g)?;
				}
			}
			10 => {
				t.send(&m::exec(at, true, b"cat"))?;
				t.recv()?;
			}
			11.. => {
				std::thread::sleep(Duration::from_millis(300));
				idle(WAITS[7], pid)?;
				// With each message from us there may be room for a little more of the output.
				for k in 1..if i == 13 { 2 } else { 5 } {
					t.send(&match i {
						11 => m::exec(at, true, b"cat"),
						12 => m::open("session", k, 1 << 30, 1 << 15),
						_ => m::close(at),
					})?;
					std::thread::sleep(Duration::from_millis(100));
					idle(WAITS[i], pid)?;
				}
			}
			_ => {}
		}
	}
	Ok(Box::new(t))
}
