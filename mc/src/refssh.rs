//! Independent reference implementation of the parts of SSH the checks need, written from the RFCs and from OpenSSH's
//! PROTOCOL.chacha20poly1305. Shares no code with the crates under test.

use chacha20::cipher::{KeyIvInit, StreamCipher, StreamCipherSeek};
use poly1305::universal_hash::NewUniversalHash;
use sha2::{Digest, Sha256};

// ---------------------------------------------------------------- encoding

#[derive(Default, Clone)]
pub struct W(pub Vec<u8>);

impl W {
	pub fn new(ty: u8) -> Self {
		W(vec![ty])
	}
	pub fn u8(mut self, v: u8) -> Self {
		self.0.push(v);
		self
	}
	pub fn bool(self, v: bool) -> Self {
		self.u8(v as u8)
	}
	pub fn u32(mut self, v: u32) -> Self {
		self.0.extend_from_slice(&v.to_be_bytes());
		self
	}
	pub fn s(mut self, v: impl AsRef<[u8]>) -> Self {
		let v = v.as_ref();
		self.0.extend_from_slice(&(v.len() as u32).to_be_bytes());
		self.0.extend_from_slice(v);
		self
	}
	pub fn raw(mut self, v: impl AsRef<[u8]>) -> Self {
		self.0.extend_from_slice(v.as_ref());
		self
	}
	pub fn mpint(self, v: &[u8]) -> Self {
		self.s(mpint_body(v))
	}
	pub fn done(self) -> Vec<u8> {
		self.0
	}
}

/// Two's complement big-endian body of the non-negative number with magnitude `v`.
pub fn mpint_body(v: &[u8]) -> Vec<u8> {
	let nz = v.iter().position(|&b| b != 0).unwrap_or(v.len());
	let v = &v[nz..];
	let mut out = Vec::new();
	if v.first().map_or(false, |b| b & 0x80 != 0) {
		out.push(0);
	}
	out.extend_from_slice(v);
	out
}

// ---------------------------------------------------------------- decoding

pub struct R<'a>(pub &'a [u8]);

impl<'a> R<'a> {
	pub fn u8(&mut self) -> Option<u8> {
		let (&b, r) = self.0.split_first()?;
		self.0 = r;
		Some(b)
	}
	pub fn u32(&mut self) -> Option<u32> {
		if self.0.len() < 4 {
			return None;
		}
		let (a, r) = self.0.split_at(4);
		self.0 = r;
		Some(u32::from_be_bytes([a[0], a[1], a[2], a[3]]))
	}
	pub fn s(&mut self) -> Option<&'a [u8]> {
		let save = self.0;
		let n = self.u32()? as usize;
		if self.0.len() < n {
			self.0 = save;
			return None;
		}
		let (a, r) = self.0.split_at(n);
		self.0 = r;
		Some(a)
	}
	pub fn end(&self) -> Option<()> {
		self.0.is_empty().then(|| ())
	}
}

/// A message from the server, as the reference client understands it.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum SMsg {
	ServiceAccept(Vec<u8>),
	AuthFailure { methods: Vec<u8>, partial: u8 },
	AuthSuccess,
	PkOk { alg: Vec<u8>, blob: Vec<u8> },
	OpenConfirm { to: u32, from: u32, window: u32, max: u32, rest: Vec<u8> },
	OpenFailure { to: u32, reason: u32 },
	WindowAdjust { to: u32, add: u32 },
	Data { to: u32, data: Vec<u8> },
	Ext { to: u32, ty: u32, data: Vec<u8> },
	Eof(u32),
	Close(u32),
	ExitStatus { to: u32, want: u8, status: u32 },
	Request { to: u32, ty: Vec<u8>, want: u8, data: Vec<u8> },
	Success(u32),
	Failure(u32),
	Disconnect(u32),
	Unimplemented(u32),
	Transport(u8, Vec<u8>),
	Bad(Vec<u8>),
}

pub fn decode(p: &[u8]) -> SMsg {
	fn go(p: &[u8]) -> Option<SMsg> {
		let mut r = R(p);
		let ty = r.u8()?;
		let m = match ty {
			1 => {
				let c = r.u32()?;
				r.s()?;
				r.s()?;
				SMsg::Disconnect(c)
			}
			2 | 4 => {
				let d = r.0.to_vec();
				r.0 = &[];
				SMsg::Transport(ty, d)
			}
			3 => SMsg::Unimplemented(r.u32()?),
			6 => SMsg::ServiceAccept(r.s()?.to_vec()),
			51 => SMsg::AuthFailure { methods: r.s()?.to_vec(), partial: r.u8()? },
			52 => SMsg::AuthSuccess,
			60 => SMsg::PkOk { alg: r.s()?.to_vec(), blob: r.s()?.to_vec() },
			91 => {
				let (to, from, window, max) = (r.u32()?, r.u32()?, r.u32()?, r.u32()?);
				let rest = r.0.to_vec();
				r.0 = &[];
				SMsg::OpenConfirm { to, from, window, max, rest }
			}
			92 => {
				let (to, reason) = (r.u32()?, r.u32()?);
				r.s()?;
				r.s()?;
				SMsg::OpenFailure { to, reason }
			}
			93 => SMsg::WindowAdjust { to: r.u32()?, add: r.u32()? },
			94 => SMsg::Data { to: r.u32()?, data: r.s()?.to_vec() },
			95 => SMsg::Ext { to: r.u32()?, ty: r.u32()?, data: r.s()?.to_vec() },
			96 => SMsg::Eof(r.u32()?),
			97 => SMsg::Close(r.u32()?),
			98 => {
				let to = r.u32()?;
				let ty = r.s()?.to_vec();
				let want = r.u8()?;
				if ty == b"exit-status" {
					SMsg::ExitStatus { to, want, status: r.u32()? }
				} else {
					let data = r.0.to_vec();
					r.0 = &[];
					SMsg::Request { to, ty, want, data }
				}
			}
			99 => SMsg::Success(r.u32()?),
			100 => SMsg::Failure(r.u32()?),
			_ => return None,
		};
		r.end()?;
		Some(m)
	}
	go(p).unwrap_or_else(|| SMsg::Bad(p.to_vec()))
}

impl SMsg {
	/// The channel (client's number) this message is addressed to.
	pub fn to(&self) -> Option<u32> {
		use SMsg::*;
		match self {
			OpenConfirm { to, .. } | OpenFailure { to, .. } | WindowAdjust { to, .. } | Data { to, .. } | Ext { to, .. }
			| ExitStatus { to, .. } | Request { to, .. } => Some(*to),
			Eof(c) | Close(c) | Success(c) | Failure(c) => Some(*c),
			_ => None,
		}
	}
	pub fn brief(&self) -> String {
		match self {
			SMsg::Data { to, data } => format!("Data#{to}({}B)", data.len()),
			SMsg::Ext { to, ty, data } => format!("Ext{ty}#{to}({}B)", data.len()),
			m => format!("{m:?}"),
		}
	}
}

// ---------------------------------------------------------------- chacha20-poly1305@openssh.com

#[derive(Clone)]
pub struct RefCipher {
	pub k_len: [u8; 32],
	pub k_main: [u8; 32],
	pub seq: u64,
}

impl RefCipher {
	/// `key` is the 64 byte key of RFC 4253 section 7.2; the first half is K_2 (payload), the second K_1 (length).
	pub fn new(key: &[u8; 64], seq: u64) -> Self {
		let mut c = Self { k_len: [0; 32], k_main: [0; 32], seq };
		c.k_main.copy_from_slice(&key[..32]);
		c.k_len.copy_from_slice(&key[32..]);
		c
	}
	fn stream(key: &[u8; 32], seq: u64, block: u64, data: &mut [u8]) {
		let mut c = chacha20::ChaCha20Legacy::new(key.into(), (&seq.to_be_bytes()).into());
		c.seek(block * 64);
		c.apply_keystream(data);
	}
	fn tag(&self, data: &[u8]) -> [u8; 16] {
		let mut k = [0; 32];
		Self::stream(&self.k_main, self.seq, 0, &mut k);
		let t = poly1305::Poly1305::new((&k).into()).compute_unpadded(data);
		let mut out = [0; 16];
		out.copy_from_slice(&t.into_bytes());
		out
	}
	/// `pkt` is length field + packet; returns the wire bytes with tag.
	pub fn seal(&mut self, pkt: &[u8]) -> Vec<u8> {
		let mut v = pkt.to_vec();
		let n = v.len().min(4);
		Self::stream(&self.k_len, self.seq, 0, &mut v[..n]);
		Self::stream(&self.k_main, self.seq, 1, &mut v[n..]);
		let t = self.tag(&v);
		v.extend_from_slice(&t);
		self.seq += 1;
		v
	}
	pub fn peek_len(&self, l: [u8; 4]) -> u32 {
		let mut l = l;
		Self::stream(&self.k_len, self.seq, 0, &mut l);
		u32::from_be_bytes(l)
	}
	/// Opens length field + ciphertext + tag.
	pub fn open(&mut self, wire: &[u8]) -> Option<Vec<u8>> {
		let (c, t) = wire.split_at(wire.len() - 16);
		if self.tag(c)[..] != *t {
			return None;
		}
		let mut v = c.to_vec();
		Self::stream(&self.k_len, self.seq, 0, &mut v[..4]);
		Self::stream(&self.k_main, self.seq, 1, &mut v[4..]);
		self.seq += 1;
		Some(v)
	}
}

// ---------------------------------------------------------------- packets

/// Frame a payload. `aead` packets align without the length field.
pub fn frame(payload: &[u8], block: usize, aead: bool, pad_byte: u8) -> Vec<u8> {
	let base = 1 + payload.len() + if aead { 0 } else { 4 };
	let mut pad = block - base % block;
	if pad < 4 {
		pad += block;
	}
	let mut v = ((1 + payload.len() + pad) as u32).to_be_bytes().to_vec();
	v.push(pad as u8);
	v.extend_from_slice(payload);
	v.resize(v.len() + pad, pad_byte);
	v
}

/// Check the framing rules of RFC 4253 section 6 and return the payload.
pub fn unframe(pkt: &[u8], block: usize, aead: bool) -> Result<Vec<u8>, String> {
	if pkt.len() < 5 {
		return Err("packet shorter than its header".into());
	}
	let len = u32::from_be_bytes([pkt[0], pkt[1], pkt[2], pkt[3]]) as usize;
	if pkt.len() != 4 + len {
		return Err(format!("length field {len}, packet of {} bytes", pkt.len()));
	}
	let aligned = len + if aead { 0 } else { 4 };
	if aligned % block != 0 {
		return Err(format!("length {len} not aligned to {block}"));
	}
	let pad = pkt[4] as usize;
	if pad < 4 || pad + 1 > len {
		return Err(format!("padding {pad} in packet of length {len}"));
	}
	Ok(pkt[5..4 + len - pad].to_vec())
}

// ---------------------------------------------------------------- key exchange

pub fn kexinit(lists: &[&str; 10], cookie: &[u8; 16], follows: u8) -> Vec<u8> {
	let mut w = W::new(20).raw(cookie);
	for l in lists {
		w = w.s(l);
	}
	w.u8(follows).u32(0).done()
}

pub const GOOD_LISTS: [&str; 10] = [
	"curve25519-sha256",
	"ecdsa-sha2-nistp256",
	"chacha20-poly1305@openssh.com",
	"chacha20-poly1305@openssh.com",
	"hmac-sha2-256",
	"hmac-sha2-256",
	"none",
	"none",
	"",
	"",
];

pub struct Exchange<'a> {
	pub v_c: &'a [u8],
	pub v_s: &'a [u8],
	pub i_c: &'a [u8],
	pub i_s: &'a [u8],
	pub k_s: &'a [u8],
	pub q_c: &'a [u8],
	pub q_s: &'a [u8],
	pub k: &'a [u8],
}

impl Exchange<'_> {
	pub fn hash(&self) -> [u8; 32] {
		let w = W::default()
			.s(self.v_c)
			.s(self.v_s)
			.s(self.i_c)
			.s(self.i_s)
			.s(self.k_s)
			.s(self.q_c)
			.s(self.q_s)
			.mpint(self.k);
		Sha256::digest(&w.0).into()
	}
}

/// RFC 4253 section 7.2, first key exchange (session id = H).
pub fn derive(k: &[u8], h: &[u8; 32], letter: u8, n: usize) -> Vec<u8> {
	let kk = W::default().mpint(k).done();
	let mut out: Vec<u8> = Sha256::digest(W::default().raw(&kk).raw(h).u8(letter).raw(h).done()).to_vec();
	while out.len() < n {
		let next = Sha256::digest(W::default().raw(&kk).raw(h).raw(&out).done());
		out.extend_from_slice(&next);
	}
	out.truncate(n);
	out
}

pub fn derive64(k: &[u8], h: &[u8; 32], letter: u8) -> [u8; 64] {
	derive(k, h, letter, 64).try_into().unwrap()
}

/// The data a client signs for public-key authentication (RFC 4252 section 7).
pub fn sign_data(session: &[u8], user: &[u8], service: &[u8], alg: &[u8], blob: &[u8]) -> Vec<u8> {
	W::default().s(session).u8(50).s(user).s(service).s("publickey").bool(true).s(alg).s(blob).done()
}

// ---------------------------------------------------------------- message builders

pub mod m {
	use super::W;
	pub fn service_request(s: &str) -> Vec<u8> {
		W::new(5).s(s).done()
	}
	pub fn auth(user: &[u8], service: &[u8], method: &[u8]) -> W {
		W::new(50).s(user).s(service).s(method)
	}
	pub fn auth_none(user: &[u8]) -> Vec<u8> {
		auth(user, b"ssh-connection", b"none").done()
	}
	pub fn auth_password(user: &[u8], pw: &[u8]) -> Vec<u8> {
		auth(user, b"ssh-connection", b"password").bool(false).s(pw).done()
	}
	pub fn open(ty: &str, ch: u32, win: u32, max: u32) -> Vec<u8> {
		W::new(90).s(ty).u32(ch).u32(win).u32(max).done()
	}
	pub fn request(ch: u32, ty: &str, want: bool, data: &[u8]) -> Vec<u8> {
		W::new(98).u32(ch).s(ty).bool(want).raw(data).done()
	}
	pub fn exec(ch: u32, want: bool, cmd: &[u8]) -> Vec<u8> {
		request(ch, "exec", want, &W::default().s(cmd).done())
	}
	pub fn data(ch: u32, d: &[u8]) -> Vec<u8> {
		W::new(94).u32(ch).s(d).done()
	}
	pub fn eof(ch: u32) -> Vec<u8> {
		W::new(96).u32(ch).done()
	}
	pub fn close(ch: u32) -> Vec<u8> {
		W::new(97).u32(ch).done()
	}
	pub fn disconnect() -> Vec<u8> {
		W::new(1).u32(11).s("bye").s("").done()
	}
}

pub fn hex(b: &[u8]) -> String {
	b.iter().map(|b| format!("{b:02x}")).collect()
}

pub fn fnv(data: &[u8]) -> u64 {
	fnv_from(0xcbf29ce484222325, data)
}

pub fn fnv_from(mut h: u64, data: &[u8]) -> u64 {
	for &b in data {
		h = (h ^ b as u64).wrapping_mul(0x100000001b3);
	}
	h
}
