//! The reference client: a closed-loop SSH client that speaks the protocol from the RFCs and records everything the
//! server says.

use crate::refssh::*;
use crate::world::{Act, ChMsg, SERVER_IDENT};
use std::cell::RefCell;
use std::collections::{HashMap, VecDeque};

/// How the client conducts the handshake.
#[derive(Clone)]
pub struct HsSpec {
	/// Bytes before the identification line.
	pub pre: Vec<u8>,
	pub ident: Vec<u8>,
	pub lists: [String; 10],
	pub cookie: [u8; 16],
	pub follows: u8,
	/// The guessed key-exchange packet that follows KEXINIT.
	pub guess: Option<Vec<u8>>,
	pub secret: [u8; 32],
	pub kexinit: Option<Vec<u8>>,
	pub ecdh: Option<Vec<u8>>,
	pub newkeys: Option<Vec<u8>>,
	pub skip_newkeys: bool,
	/// Extra blocks of padding in plain packets.
	pub extra_pad: usize,
	/// Send nothing of this, but these raw units.
	pub raw: Option<Vec<Vec<u8>>>,
	/// Send each message only after the server's previous one has arrived.
	pub polite: bool,
	/// All unencrypted client bytes travel as one unit.
	pub burst: bool,
}

impl Default for HsSpec {
	fn default() -> Self {
		Self {
			pre: vec![],
			ident: b"SSH-2.0-ref".to_vec(),
			lists: GOOD_LISTS.map(|s| s.to_string()),
			cookie: *b"0123456789abcdef",
			follows: 0,
			guess: None,
			secret: *b"an ephemeral client secret 01234",
			kexinit: None,
			ecdh: None,
			newkeys: None,
			skip_newkeys: false,
			extra_pad: 0,
			raw: None,
			polite: false,
			burst: false,
		}
	}
}

thread_local! {
	static DH: RefCell<HashMap<([u8; 32], [u8; 32]), [u8; 32]>> = RefCell::new(HashMap::new());
}

pub fn dh(secret: [u8; 32], public: [u8; 32]) -> [u8; 32] {
	DH.with(|c| {
		let mut c = c.borrow_mut();
		if c.len() > 4096 {
			c.clear();
		}
		*c.entry((secret, public)).or_insert_with(|| x25519_dalek::x25519(secret, public))
	})
}

#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum Phase {
	Ident,
	Plain,
	Enc,
}

pub struct Acted {
	pub units: Vec<Vec<u8>>,
	pub shut: bool,
	pub enabled: bool,
}

pub struct Client {
	hs: HsSpec,
	script: VecDeque<Act>,
	verify: bool,
	pub phase: Phase,
	pub rx: Vec<u8>,
	out: Vec<(Vec<u8>, Option<Vec<u8>>)>,
	meta: VecDeque<Option<Vec<u8>>>,
	pub i_c: Vec<u8>,
	pub i_s: Vec<u8>,
	pub q_c: Vec<u8>,
	pub q_s: Vec<u8>,
	pub k_s: Vec<u8>,
	pub h: Option<[u8; 32]>,
	pub got_kexinit: bool,
	pub got_reply: bool,
	pub got_newkeys: bool,
	pub sent_newkeys: bool,
	/// Protocol violations of the server.
	pub error: Option<String>,
	pub harness_error: Option<String>,
	plain_sent: u64,
	pub plain_got: u64,
	enc_out: Option<RefCipher>,
	enc_in: Option<RefCipher>,
	keys_in: Option<[u8; 64]>,
	stage: usize,
	pub chan: HashMap<u32, Option<u32>>,
	/// What the server still accepts on our channels, and how much at once.
	pub window: HashMap<u32, (u64, u32)>,
	/// How much of the current feed has been sent.
	fed: usize,
	pub shut: bool,
	/// Everything the server sent in plain packets.
	pub plain: Vec<Vec<u8>>,
	sealed: Vec<Vec<u8>>,
	trick: Option<Act>,
	held: Option<Vec<u8>>,
	/// How many packets have been sent of those without end.
	flooded: usize,
}

impl Client {
	pub fn new(hs: &HsSpec, script: &[Act], verify: bool) -> Self {
		Self {
			hs: hs.clone(),
			script: script.iter().cloned().collect(),
			verify,
			phase: Phase::Ident,
			rx: vec![],
			out: vec![],
			meta: VecDeque::new(),
			i_c: vec![],
			i_s: vec![],
			q_c: vec![],
			q_s: vec![],
			k_s: vec![],
			h: None,
			got_kexinit: false,
			got_reply: false,
			got_newkeys: false,
			sent_newkeys: false,
			error: None,
			harness_error: None,
			plain_sent: 0,
			plain_got: 0,
			enc_out: None,
			enc_in: None,
			keys_in: None,
			stage: 0,
			chan: HashMap::new(),
			window: HashMap::new(),
			fed: 0,
			shut: false,
			plain: vec![],
			sealed: vec![],
			trick: None,
			held: None,
			flooded: 0,
		}
	}

	/// The stage the script waits for.
	pub fn awaits(&self) -> Option<usize> {
		match self.script.front() {
			Some(Act::Stage(n)) => Some(*n),
			_ => None,
		}
	}

	/// Whether the client sends without end now.
	pub fn flooding(&self) -> bool {
		match self.script.front() {
			Some(Act::Flood(acts, _)) => self.enc_out.is_some() || matches!(acts[0], Act::Raw(_)),
			_ => false,
		}
	}

	/// Whether the script waits for this connection.
	pub fn minds(&self, i: usize) -> bool {
		match self.script.front() {
			Some(Act::Flood(_, u)) => matches!(**u, Act::After(k) if k == i),
			Some(Act::After(k)) => *k == i,
			_ => false,
		}
	}

	/// The next packet of those without end.
	pub fn flood(&mut self) -> Option<Vec<u8>> {
		if !self.flooding() {
			return None;
		}
		let p = match self.script.front() {
			Some(Act::Flood(acts, _)) => match &acts[self.flooded % acts.len()] {
				Act::Pay(p) => p.clone(),
				Act::Raw(b) => {
					self.flooded += 1;
					return Some(b.clone());
				}
				Act::Ch(c, m) => m.encode(self.chan.get(c).copied().flatten()?),
				a => {
					self.harness_error = Some(format!("{a:?} without end"));
					return None;
				}
			},
			_ => return None,
		};
		self.flooded += 1;
		Some(self.seal(&p))
	}

	/// How much of the script is left.
	pub fn left(&self) -> usize {
		self.script.len()
	}

	fn plain_packet(&mut self, payload: &[u8]) -> Vec<u8> {
		self.plain_sent += 1;
		let mut p = frame(payload, 8, false, 0x5a);
		let extra = self.hs.extra_pad * 8;
		if extra > 0 {
			let len = u32::from_be_bytes([p[0], p[1], p[2], p[3]]) + extra as u32;
			p[..4].copy_from_slice(&len.to_be_bytes());
			p[4] += extra as u8;
			p.resize(p.len() + extra, 0xa5);
		}
		p
	}

	/// The units the client sends on its own account.
	pub fn start(&mut self) -> Vec<Vec<u8>> {
		if let Some(raw) = self.hs.raw.clone() {
			for _ in &raw {
				self.meta.push_back(None);
			}
			return raw;
		}
		let mut v = Vec::new();
		let mut line = self.hs.pre.clone();
		line.extend_from_slice(&self.hs.ident);
		line.extend_from_slice(b"\r\n");
		v.push(line);
		if !self.hs.polite {
			v.extend(self.kex_units());
			v.push(self.ecdh_unit());
			self.stage = 2;
		}
		if self.hs.burst {
			v = vec![v.concat()];
		}
		for _ in &v {
			self.meta.push_back(None);
		}
		v
	}

	fn kex_units(&mut self) -> Vec<Vec<u8>> {
		let lists: Vec<&str> = self.hs.lists.iter().map(|s| s.as_str()).collect();
		let lists: [&str; 10] = lists.try_into().unwrap();
		self.i_c = self.hs.kexinit.clone().unwrap_or_else(|| kexinit(&lists, &self.hs.cookie, self.hs.follows));
		let p = self.i_c.clone();
		let mut v = vec![self.plain_packet(&p)];
		if let Some(g) = self.hs.guess.clone() {
			v.push(self.plain_packet(&g));
		}
		v
	}

	fn ecdh_unit(&mut self) -> Vec<u8> {
		self.q_c = dh(self.hs.secret, BASE).to_vec();
		let p = self.hs.ecdh.clone().unwrap_or_else(|| W::new(30).s(&self.q_c).done());
		self.plain_packet(&p)
	}

	/// Called when the last byte of the oldest unit arrived at the server.
	pub fn unit_done(&mut self) -> Option<Vec<u8>> {
		self.meta.pop_front().flatten()
	}

	fn fail(&mut self, e: impl Into<String>) {
		if self.error.is_none() {
			self.error = Some(e.into());
		}
	}

	pub fn receive(&mut self, data: &[u8], msgs: &mut Vec<SMsg>) {
		self.rx.extend_from_slice(data);
		while self.error.is_none() && self.step(msgs) {}
	}

	/// Consume one line or packet.
	fn step(&mut self, msgs: &mut Vec<SMsg>) -> bool {
		match self.phase {
			Phase::Ident => {
				let end = match self.rx.windows(2).position(|w| w == b"\r\n") {
					Some(e) => e,
					None => {
						if self.rx.len() > 255 {
							self.fail("identification line too long");
						}
						return false;
					}
				};
				let line: Vec<u8> = self.rx.drain(..end + 2).take(end).collect();
				if line != SERVER_IDENT {
					self.fail(format!("identification line is {:?}", String::from_utf8_lossy(&line)));
					return false;
				}
				self.phase = Phase::Plain;
				if self.hs.polite && self.stage == 0 {
					self.stage = 1;
					for u in self.kex_units() {
						self.out.push((u, None));
					}
				}
				true
			}
			Phase::Plain => {
				if self.rx.len() < 4 {
					return false;
				}
				let len = u32::from_be_bytes([self.rx[0], self.rx[1], self.rx[2], self.rx[3]]) as usize;
				if len > 35000 {
					self.fail(format!("packet length {len} before encryption"));
					return false;
				}
				if self.rx.len() < 4 + len {
					return false;
				}
				let pkt: Vec<u8> = self.rx.drain(..4 + len).collect();
				match unframe(&pkt, 8, false) {
					Ok(p) => self.plain_msg(p),
					Err(e) => {
						self.fail(format!("malformed packet: {e}"));
						return false;
					}
				}
				true
			}
			Phase::Enc => {
				if self.rx.len() < 4 {
					return false;
				}
				let c = match self.enc_in.as_mut() {
					Some(c) => c,
					None => {
						self.fail("encrypted data before keys are known");
						return false;
					}
				};
				let len = c.peek_len([self.rx[0], self.rx[1], self.rx[2], self.rx[3]]) as usize;
				if len > 35000 || len < 5 {
					self.fail(format!("packet length {len}: the packet stream is broken"));
					return false;
				}
				if self.rx.len() < 4 + len + 16 {
					return false;
				}
				let pkt: Vec<u8> = self.rx.drain(..4 + len + 16).collect();
				match c.open(&pkt) {
					None => {
						self.fail("packet does not authenticate under the next sequence number");
						false
					}
					Some(p) => match unframe(&p, 8, true) {
						Ok(p) => {
							let m = decode(&p);
							match &m {
								SMsg::OpenConfirm { to, from, window, max, .. } => {
									self.chan.insert(*to, Some(*from));
									self.window.insert(*to, (u64::from(*window), *max));
								}
								SMsg::WindowAdjust { to, add } => {
									let mut over = false;
									if let Some(w) = self.window.get_mut(to) {
										w.0 += u64::from(*add);
										over = w.0 > u64::from(u32::MAX);
									}
									if over {
										self.fail(format!("channel {to}: a window of more than 2^32 - 1 bytes"));
									}
								}
								SMsg::OpenFailure { to, .. } => {
									self.chan.insert(*to, None);
								}
								_ => {}
							}
							msgs.push(m);
							true
						}
						Err(e) => {
							self.fail(format!("malformed packet: {e}"));
							false
						}
					},
				}
			}
		}
	}

	fn plain_msg(&mut self, p: Vec<u8>) {
		self.plain_got += 1;
		self.plain.push(p.clone());
		match p.first() {
			Some(20) if !self.got_kexinit => {
				self.got_kexinit = true;
				self.i_s = p;
				if self.hs.polite && self.stage == 1 {
					self.stage = 2;
					let u = self.ecdh_unit();
					self.out.push((u, None));
				}
			}
			Some(31) if self.got_kexinit && !self.got_reply => {
				self.got_reply = true;
				let mut r = R(&p[1..]);
				let ok = (|| {
					let k_s = r.s()?.to_vec();
					let q_s = r.s()?.to_vec();
					let sig = r.s()?.to_vec();
					r.end()?;
					Some((k_s, q_s, sig))
				})();
				let (k_s, q_s, sig) = match ok {
					Some(x) => x,
					None => return self.fail("malformed key-exchange reply"),
				};
				let q: [u8; 32] = match q_s[..].try_into() {
					Ok(q) => q,
					Err(_) => return self.fail("server ephemeral key is not 32 bytes"),
				};
				let k = dh(self.hs.secret, q);
				let h = Exchange {
					v_c: &self.hs.ident,
					v_s: SERVER_IDENT,
					i_c: &self.i_c,
					i_s: &self.i_s,
					k_s: &k_s,
					q_c: &self.q_c,
					q_s: &q_s,
					k: &k,
				}
				.hash();
				if self.verify {
					if let Err(e) = verify_host(&k_s, &sig, &h) {
						return self.fail(e);
					}
				}
				self.k_s = k_s;
				self.q_s = q_s;
				self.h = Some(h);
				self.keys_in = Some(derive64(&k, &h, b'D'));
				if !self.hs.skip_newkeys {
					let nk = self.hs.newkeys.clone().unwrap_or_else(|| vec![21]);
					let u = self.plain_packet(&nk);
					self.out.push((u, None));
				}
				self.sent_newkeys = true;
				self.enc_out = Some(RefCipher::new(&derive64(&k, &h, b'C'), self.plain_sent));
			}
			Some(21) if self.got_reply && !self.got_newkeys && p.len() == 1 => {
				self.got_newkeys = true;
				self.phase = Phase::Enc;
				self.enc_in = Some(RefCipher::new(&self.keys_in.unwrap(), self.plain_got));
			}
			t => self.fail(format!("unexpected message {t:?} before encryption")),
		}
	}

	pub fn seal(&mut self, payload: &[u8]) -> Vec<u8> {
		let p = frame(payload, 8, true, 0x33);
		self.enc_out.as_mut().expect("no keys").seal(&p)
	}

	fn send(&mut self, payload: Vec<u8>) {
		let mut u = self.seal(&payload);
		self.sealed.push(u.clone());
		match self.trick.take() {
			Some(Act::Tamper(bit)) => {
				// The length of the packet is fixed by the scenario; a bit beyond it is a harness mistake.
				match u.get_mut(bit / 8) {
					Some(b) => *b ^= 1 << (bit % 8),
					None => self.harness_error = Some(format!("no bit {bit} in a packet of {} bytes", u.len())),
				}
				self.out.push((u, None));
			}
			Some(Act::Omit) => {}
			Some(Act::Swap) => self.held = Some(u),
			_ => {
				self.out.push((u, Some(payload)));
				if let Some(h) = self.held.take() {
					self.out.push((h, None));
				}
			}
		}
	}

	fn spend(&mut self, channel: u32, n: usize) {
		if let Some(w) = self.window.get_mut(&channel) {
			w.0 = w.0.saturating_sub(n as u64);
		}
	}

	/// Do as much of the script as possible.
	pub fn act(&mut self, msgs: &[SMsg], stage: usize, finished: &[bool]) -> Acted {
		let mut enabled = false;
		while self.enc_out.is_some() || self.flooding() || matches!(self.script.front(), Some(Act::Enable | Act::Shut)) {
			let a = match self.script.front() {
				Some(a) => a,
				None => break,
			};
			let replies = |ch: u32| {
				msgs.iter()
					.filter(|m| matches!(m, SMsg::Success(c) | SMsg::Failure(c) if *c == ch))
					.count()
			};
			if let Act::Feed(c, data, cap, ext) = a {
				let ext = *ext;
				let (left, max) = match (self.chan.get(c), self.window.get(c)) {
					(None, _) => break,
					(Some(Some(_)), Some(w)) => *w,
					_ => (0, 0),
				};
				let n = left.min(u64::from(max)).min(*cap as u64).min((data.len() - self.fed) as u64) as usize;
				let over = data.len() == self.fed || msgs.contains(&SMsg::Close(*c)) || self.chan[c].is_none();
				if over {
					self.fed = 0;
					self.script.pop_front();
					continue;
				}
				if n == 0 {
					break;
				}
				let (c, d) = (*c, data[self.fed..][..n].to_vec());
				self.fed += n;
				self.spend(c, n);
				let to = self.chan[&c].unwrap();
				self.send(match ext {
					None => m::data(to, &d),
					Some(t) => W::new(95).u32(to).u32(t).s(&d).done(),
				});
				continue;
			}
			let waits = |a: &Act| match a {
				Act::Msgs(n) => msgs.len() >= *n,
				Act::Stage(n) => stage >= *n,
				Act::After(i) => finished[*i],
				Act::Opened(c) | Act::Ch(c, _) => self.chan.contains_key(c),
				Act::Replies(c, n) => replies(*c) >= *n,
				Act::GotEof(c) => msgs.contains(&SMsg::Eof(*c)),
				Act::GotOutput(c, n) => {
					let size = |m: &SMsg| match m {
						SMsg::Data { to, data } | SMsg::Ext { to, data, .. } if to == c => data.len(),
						_ => 0,
					};
					msgs.iter().map(size).sum::<usize>() >= *n
				}
				Act::GotClose(c) => msgs.contains(&SMsg::Close(*c)),
				Act::GotData(c, n) => {
					msgs.iter().map(|m| match m { SMsg::Data { to, data } if to == c => data.len(), _ => 0 }).sum::<usize>() >= *n
				}
				_ => true,
			};
			let ready = match a {
				Act::Flood(_, until) => waits(until),
				a => waits(a),
			};
			if !ready {
				break;
			}
			match self.script.pop_front().unwrap() {
				Act::Pay(p) => self.send(p),
				Act::Ch(c, m) => {
					if let Some(Some(s)) = self.chan.get(&c).copied() {
						if let ChMsg::Data(d) | ChMsg::Ext(_, d) = &m {
							self.spend(c, d.len());
						}
						self.send(m.encode(s));
					}
				}
				Act::Raw(b) => self.out.push((b, None)),
				Act::Frame(f) => {
					let u = self.enc_out.as_mut().unwrap().seal(&f);
					self.out.push((u, None));
				}
				a @ (Act::Tamper(_) | Act::Omit | Act::Swap) => self.trick = Some(a),
				Act::Again => {
					let u = self.sealed.last().cloned().unwrap_or_default();
					self.out.push((u, None));
				}
				Act::Replay(n) => match self.sealed.get(n).cloned() {
					Some(u) => self.out.push((u, None)),
					None => self.harness_error = Some(format!("no packet {n} to replay")),
				},
				Act::Shut => self.shut = true,
				Act::Enable => enabled = true,
				Act::Msgs(_) | Act::Stage(_) | Act::After(_) | Act::Flood(..) | Act::Opened(_) | Act::Replies(..) | Act::GotEof(_) | Act::GotClose(_) | Act::GotData(..) | Act::GotOutput(..) | Act::Feed(..) => {}
			}
		}
		let mut units = Vec::new();
		for (u, m) in self.out.drain(..) {
			units.push(u);
			self.meta.push_back(m);
		}
		Acted { units, shut: self.shut, enabled }
	}
}

pub const BASE: [u8; 32] = {
	let mut b = [0; 32];
	b[0] = 9;
	b
};

/// Check the host key blob and its signature over the exchange hash.
fn verify_host(k_s: &[u8], sig: &[u8], h: &[u8; 32]) -> Result<(), String> {
	use ecdsa::signature::Verifier;
	let key = crate::world::HOST.with(|k| k.verifying_key());
	let point = key.to_encoded_point(false);
	let want = W::default().s("ecdsa-sha2-nistp256").s("nistp256").s(point.as_bytes()).done();
	if k_s != want {
		return Err("host key blob is not the server's key".into());
	}
	fn scalar(v: &[u8]) -> Option<[u8; 32]> {
		if v != &mpint_body(v)[..] || v.len() > 33 {
			return None;
		}
		let v = if v.len() == 33 { &v[1..] } else { v };
		let mut o = [0; 32];
		o[32 - v.len()..].copy_from_slice(v);
		Some(o)
	}
	let parts = (|| {
		let mut r = R(sig);
		if r.s()? != b"ecdsa-sha2-nistp256" {
			return None;
		}
		let b = r.s()?;
		r.end()?;
		let mut r = R(b);
		let (a, b) = (scalar(r.s()?)?, scalar(r.s()?)?);
		r.end()?;
		Some((a, b))
	})();
	let (r, s) = parts.ok_or("malformed host signature")?;
	let s = ecdsa::Signature::<p256::NistP256>::from_scalars(r, s).map_err(|_| "host signature out of range")?;
	key.verify(h, &s).map_err(|_| "host signature is not over the exchange hash of this exchange".into())
}
