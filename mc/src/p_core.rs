//! C03 to C07: name lists, packets, cipher, key derivation.

use crate::refssh::*;
use crate::report::Rep;
use crate::session;
use crate::world::{Act, ChMsg, ConnSpec, ProcSpec, Spec, H};
use nora_ssh_core::cipher::{ChaCha20Poly1305, Cipher};
use nora_ssh_core::data::{AsciiStr, NameList};
use nora_ssh_core::identifier::Identifier;
use nora_ssh_core::key_exchange::{Direction, KeyMaterial};
use nora_ssh_core::message::key_exchange::ecdh::{Key, KeyBlob, KeyExchangeDigest};
use nora_ssh_core::packet::{BlockSize, Packet};
use sha2::Sha256;
use std::sync::Arc;

// ------------------------------------------------------------------ C03

fn c03_one(b: &[u8]) -> Result<(), String> {
	let ascii = b.iter().all(|c| *c < 128);
	let names: Vec<&[u8]> = if b.is_empty() { vec![] } else { b.split(|c| *c == b',').collect() };
	let ok = ascii && names.iter().all(|n| !n.is_empty());
	match (ok, NameList::try_from(b)) {
		(true, Ok(l)) => {
			// The iterator must stay at its end, so ask for two more.
			let mut it = l.iter();
			for n in &names {
				if it.next().map(|s| s.as_bytes()) != Some(n) {
					return Err(format!("name list {} yields a wrong name where {} stands", hex(b), hex(n)));
				}
			}
			if it.next().is_some() || it.next().is_some() {
				return Err(format!("name list {} yields too many names", hex(b)));
			}
			if <&[u8]>::from(l) != b || <&str>::from(l).as_bytes() != b {
				return Err(format!("name list {} does not give back its bytes", hex(b)));
			}
		}
		(false, Err(_)) => {}
		(true, Err(_)) => return Err(format!("name list {} is refused", hex(b))),
		(false, Ok(_)) => return Err(format!("name list {} is accepted", hex(b))),
	}
	match (ascii, AsciiStr::try_from(b)) {
		(true, Ok(s)) if <&[u8]>::from(s) == b && <&str>::from(s).as_bytes() == b => {}
		(false, Err(_)) => {}
		_ => return Err(format!("ASCII string {} is misjudged", hex(b))),
	}
	match (b.len() <= 253, Identifier::new(b)) {
		(true, Some(i)) if i.as_ref() == b => Ok(()),
		(false, None) => Ok(()),
		_ => Err(format!("identification string of {} bytes is misjudged", b.len())),
	}
}

pub fn c03(rep: &mut Rep) {
	const A: [u8; 5] = [b',', b'a', 0, 0x7f, 0x80];
	let depth = rep.by(9, 11);
	rep.cases(&format!("all strings of up to {depth} bytes over 5"), 125, |i| {
		let mut n = 0;
		fn rec(s: &mut Vec<u8>, d: usize, n: &mut u64) -> Result<(), String> {
			*n += 1;
			c03_one(s)?;
			if d > 0 {
				for a in A {
					s.push(a);
					rec(s, d - 1, n)?;
					s.pop();
				}
			}
			Ok(())
		}
		let mut s = vec![A[i % 5], A[i / 5 % 5], A[i / 25]];
		rec(&mut s, depth - 3, &mut n)?;
		Ok((n, n * 3))
	});
	rep.cases("all byte strings of up to two bytes", 257, |i| {
		if i == 256 {
			c03_one(&[])?;
			return Ok((1, 3));
		}
		c03_one(&[i as u8])?;
		for b in 0..=255 {
			c03_one(&[i as u8, b])?;
		}
		Ok((257, 771))
	});
	let top = rep.by(600, 3000);
	rep.cases("every length, with every byte value or a comma at every place", top, |len| {
		let mut n = 0;
		let base = vec![b'x'; len];
		c03_one(&base)?;
		for p in 0..len {
			let mut s = base.clone();
			let interesting = p < 3 || p + 3 > len || p % 50 == 0;
			let vals: Vec<u8> = if interesting { (0..=255).collect() } else { vec![b',', 0x80, 0xff, 0] };
			for v in vals {
				s[p] = v;
				n += 1;
				c03_one(&s)?;
			}
			if p + 1 < len {
				s[p] = b',';
				s[p + 1] = b',';
				n += 1;
				c03_one(&s)?;
			}
		}
		Ok((n + 1, (n + 1) * 3))
	});
	rep.rules.push(
		"A case is one byte string, given to the three constructors; acceptance, the names in order and the bytes given back are \
		 compared with the definition. All strings up to a length over an alphabet with the comma, letters and both sides of the ASCII \
		 boundary, and every length with every single place changed."
			.into(),
	);
}

// ------------------------------------------------------------------ C04

/// Gives out 0x80, 0x81, ... so that its bytes are recognisable, and counts.
struct MarkRng(u8, usize);
impl rand::RngCore for MarkRng {
	fn next_u32(&mut self) -> u32 {
		let mut b = [0; 4];
		self.fill_bytes(&mut b);
		u32::from_le_bytes(b)
	}
	fn next_u64(&mut self) -> u64 {
		let mut b = [0; 8];
		self.fill_bytes(&mut b);
		u64::from_le_bytes(b)
	}
	fn fill_bytes(&mut self, d: &mut [u8]) {
		for x in d {
			*x = 0x80 | self.0 & 0x7f;
			self.0 = self.0.wrapping_add(1);
			self.1 += 1;
		}
	}
	fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
		self.fill_bytes(d);
		Ok(())
	}
}
impl rand::CryptoRng for MarkRng {}

const BLOCKS: [(BlockSize, usize); 4] = [(BlockSize::B8, 8), (BlockSize::B16, 16), (BlockSize::B32, 32), (BlockSize::B64, 64)];

fn c04_wrap(len: usize, slack: usize) -> Result<u64, String> {
	let payload: Vec<u8> = (0..len).map(|i| (i * 7 + len) as u8).collect();
	let mut calls = 0;
	for (bs, block) in BLOCKS {
		for with_len in [false, true] {
			let what = || format!("payload of {len} bytes, block size {block}, length field {}", if with_len { "counted" } else { "apart" });
			let mut buf = vec![0x11u8; 5 + len + block + 3 + slack];
			let room = buf.len() - 5;
			let mut rng = MarkRng(0, 0);
			let mut given = 0;
			let p = Packet::wrap(
				&mut buf,
				bs,
				with_len,
				|b| {
					given = b.len();
					b[..len].copy_from_slice(&payload);
					len
				},
				&mut rng,
			);
			calls += 1;
			if given != room {
				return Err(format!("{}: the payload writer got {given} of {room} bytes", what()));
			}
			let raw = p.as_raw().to_vec();
			let got = unframe(&raw, block, !with_len).map_err(|e| format!("{}: {e}", what()))?;
			if got != payload || p.payload() != payload {
				return Err(format!("{}: unwrapped payload differs", what()));
			}
			let pad = raw[4] as usize;
			if p.packet_len() != raw.len() - 4
				|| p.padding_len() != pad
				|| p.payload_len() != len
				|| p.packet_bytes() != &raw[4..]
				|| p.packet_len_bytes()[..] != raw[..4]
			{
				return Err(format!("{}: accessors disagree with the packet", what()));
			}
			let mut seen = [false; 256];
			for b in &raw[raw.len() - pad..] {
				if *b < 0x80 || (pad <= 128 && seen[*b as usize]) {
					return Err(format!("{}: padding {} is not filled from the random source", what(), hex(&raw[raw.len() - pad..])));
				}
				seen[*b as usize] = true;
			}
			// Unwrap again from raw bytes.
			let mut again = raw.clone();
			again.extend_from_slice(&[0xee; 16]);
			let mut q = Packet::wrap_raw(&mut again, with_len, bs).map_err(|e| format!("{}: refused its own packet: {e:?}", what()))?;
			calls += 1;
			let same = q.payload() == payload
				&& q.payload_mut() == payload
				&& q.as_raw() == raw
				&& q.as_raw_mut() == raw
				&& q.packet_bytes_mut() == &raw[4..]
				&& q.packet_len_bytes_mut()[..] == raw[..4];
			if !same {
				return Err(format!("{}: wrapping the raw bytes gives another packet", what()));
			}
			let whole = q.into_raw(16);
			if whole.len() != raw.len() + 16 || whole[..raw.len()] != raw[..] {
				return Err(format!("{}: into_raw is not packet and tag", what()));
			}
			let q = Packet::wrap_raw(&mut again, with_len, bs).unwrap();
			if q.into_payload() != payload {
				return Err(format!("{}: into_payload differs", what()));
			}
		}
	}
	Ok(calls)
}

fn c04_raw(len: u32, pad: u8) -> Result<u64, String> {
	let mut calls = 0;
	for (bs, block) in BLOCKS {
		for with_len in [false, true] {
			let mut raw = len.to_be_bytes().to_vec();
			raw.push(pad);
			let body = (len as usize).min(1200);
			raw.resize((4 + body).max(5), 0x3c);
			let keep = raw.clone();
			let want = (len as usize + if with_len { 4 } else { 0 }) % block == 0 && (pad as usize) < len as usize;
			calls += 1;
			match Packet::wrap_raw(&mut raw, with_len, bs) {
				Ok(_) if !want => return Err(format!("length field {len}, padding {pad}, block {block}, counted {with_len}: accepted")),
				Err(_) if want => return Err(format!("length field {len}, padding {pad}, block {block}, counted {with_len}: refused")),
				Err(_) => {}
				Ok(p) => {
					if (len as usize) <= body {
						let n = len as usize - pad as usize - 1;
						if p.payload() != &keep[5..5 + n] || p.as_raw() != &keep[..4 + len as usize] || p.payload_len() != n {
							return Err(format!("length field {len}, padding {pad}, block {block}: wrong payload"));
						}
					} else if p.packet_len() != len as usize || p.payload_len() != len as usize - pad as usize - 1 {
						return Err(format!("length field {len}, padding {pad}: wrong lengths"));
					}
				}
			}
		}
	}
	Ok(calls)
}

pub fn c04(rep: &mut Rep) {
	let top = rep.by(36000, 70000);
	rep.cases("wrapping every payload length", top, |len| Ok((8, c04_wrap(len, len % 5)?)));
	let edge: Vec<usize> = (15..=20).flat_map(|s| (0..if s < 18 { 600usize } else { 64 }).map(move |d| (1usize << s) + d - if s < 18 { 300 } else { 32 })).collect();
	rep.cases("wrapping payload lengths around powers of two", edge.len(), |i| Ok((8, c04_wrap(edge[i], i % 5)?)));
	let top = rep.by(700, 1200);
	rep.cases("every length field with every padding", top, |len| {
		let mut n = 0;
		for pad in 0..=255 {
			n += c04_raw(len as u32, pad)?;
		}
		Ok((n, n))
	});
	let big: Vec<u32> = (16..32).flat_map(|s| (0..16).map(move |d| (1u32 << s).wrapping_add(d).wrapping_sub(8))).chain((0..70).map(|d| u32::MAX - d)).collect();
	rep.cases("length fields beyond the buffer", big.len(), |i| {
		let mut n = 0;
		for pad in [0, 3, 4, 5, 7, 8, 200, 255] {
			n += c04_raw(big[i], pad)?;
		}
		Ok((n, n))
	});
	// Two packets of the same payload never share padding (the random source is asked each time).
	rep.cases("padding is fresh", 300, |len| {
		let mut rng = MarkRng(0, 0);
		let mut pads = vec![];
		for _ in 0..2 {
			let mut buf = vec![0; len + 80];
			let p = Packet::wrap(&mut buf, BlockSize::B8, false, |_| len, &mut rng);
			pads.push(p.as_raw()[5 + len..].to_vec());
		}
		if pads[0] == pads[1] {
			return Err(format!("two packets with {len} bytes have the same padding"));
		}
		Ok((1, 2))
	});
	rep.rules.push(
		"A case is one payload length (with block size and mode) that is wrapped, checked against RFC 4253 section 6 by an independent \
		 unwrapper and unwrapped again, or one pair of length field and padding byte whose acceptance and accessors are checked."
			.into(),
	);
	rep.assumptions.push("Raw buffers hold at least the five header bytes; the server never passes shorter ones.".into());
}

// ------------------------------------------------------------------ C05, C06

fn material(n: usize) -> (KeyMaterial<Sha256>, [u8; 32], [u8; 32]) {
	let mut k = [0u8; 32];
	let mut h = [0u8; 32];
	for i in 0..32 {
		k[i] = (i * 37 + n * 11 + 1) as u8;
		h[i] = (i * 59 + n * 7 + 5) as u8;
	}
	if n % 4 == 1 {
		k[0] = 0;
	}
	if n % 4 == 2 {
		k[0] |= 0x80;
	}
	if n % 4 == 3 {
		k[..5].fill(0);
	}
	(KeyMaterial::new(k, h), k, h)
}

fn pair(n: usize, dir: Direction, seq: u64) -> (ChaCha20Poly1305, RefCipher) {
	let (m, k, h) = material(n);
	let letter = match dir {
		Direction::ClientToServer => b'C',
		Direction::ServerToClient => b'D',
	};
	(ChaCha20Poly1305::from_key_material(&m, dir, seq), RefCipher::new(&derive64(&k, &h, letter), seq))
}

/// A packet of this total length field, with recognisable content.
fn plain(len: usize, salt: usize) -> Vec<u8> {
	let mut p = (len as u32).to_be_bytes().to_vec();
	p.extend((0..len).map(|i| (i * 13 + salt * 5 + 1) as u8));
	p
}

fn encrypt(c: &mut ChaCha20Poly1305, p: &[u8]) -> Vec<u8> {
	let mut v = p.to_vec();
	v.resize(v.len() + c.tag_size(), 0xcd);
	c.encrypt(&mut v);
	v
}

/// Deliver `wire` as the server does: length first, then everything.
fn deliver(c: &mut ChaCha20Poly1305, wire: &[u8]) -> (Option<u32>, Option<Vec<u8>>, Vec<u8>) {
	let l = wire.get(..4).and_then(|l| c.decrypt_length(l.try_into().unwrap()).ok()).map(u32::from_be_bytes);
	let mut v = wire.to_vec();
	let ok = c.decrypt_data(&mut v).is_ok();
	let p = ok.then(|| v[4..v.len() - 16].to_vec());
	(l, p, v)
}

const DIRS: [Direction; 2] = [Direction::ClientToServer, Direction::ServerToClient];
fn starts() -> Vec<u64> {
	let mut v = vec![0, 1, 3, 4, 253, 65533, 0xfffffd];
	v.push(u32::MAX as u64 - 8);
	v
}

pub fn c05(rep: &mut Rep) {
	let (m, _, _) = material(0);
	let c = ChaCha20Poly1305::from_key_material(&m, DIRS[0], 3);
	if c.tag_size() != 16 || !matches!(c.block_size(), BlockSize::B8) {
		rep.violation("cipher parameters", "", "tag size or block size is not that of chacha20-poly1305@openssh.com", &[]);
	}
	if ChaCha20Poly1305::NAME != "chacha20-poly1305@openssh.com" {
		rep.violation("cipher parameters", "", "the cipher has another name", &[]);
	}
	let top = rep.by(12000, 36000);
	rep.cases("every packet length, in sequence", top, |len| {
		let mut n = 0;
		let keys = if len < 300 { 4 } else { 1 };
		for key in 0..keys {
			for dir in DIRS {
				let (mut tx, mut r_tx) = pair(key, dir, 3);
				let (mut rx, mut r_rx) = pair(key, dir, 3);
				for step in 0..4 {
					let p = plain(len + step, step + key);
					let wire = encrypt(&mut tx, &p);
					let want = r_tx.seal(&p);
					n += 1;
					if wire != want {
						return Err(format!("packet of length {} number {step}: encrypted as {} instead of {}", len + step, hex(&wire), hex(&want)));
					}
					let (l, got, _) = deliver(&mut rx, &wire);
					if l != Some((len + step) as u32) {
						return Err(format!("packet of length {} number {step}: length decrypts to {l:?}", len + step));
					}
					if got.as_deref() != Some(&p[4..]) {
						return Err(format!("packet of length {} number {step}: not recovered", len + step));
					}
					if r_rx.open(&wire).as_deref() != Some(&p[..]) {
						return Err("HARNESS: reference cannot open what it sealed".into());
					}
				}
			}
		}
		Ok((n, n * 2))
	});
	let edge: Vec<usize> = (13..=18).flat_map(|s| (0..40usize).map(move |d| (1usize << s) + d - 20)).chain((12_000..36_000).step_by(61)).collect();
	rep.cases("packet lengths around powers of two and up to the limit", edge.len(), |i| {
		for dir in DIRS {
			let (mut tx, mut r_tx) = pair(1, dir, 3);
			let mut rx = pair(1, dir, 3).0;
			for step in 0..2 {
				let p = plain(edge[i], step);
				let wire = encrypt(&mut tx, &p);
				if wire != r_tx.seal(&p) {
					return Err(format!("packet of length {} number {step}: wrong ciphertext", edge[i]));
				}
				if deliver(&mut rx, &wire).1.as_deref() != Some(&p[4..]) {
					return Err(format!("packet of length {} number {step}: not recovered", edge[i]));
				}
			}
		}
		Ok((4, 8))
	});
	let st = starts();
	let ops = rep.by(7, 9);
	rep.cases(&format!("all interleavings of up to {ops} packets over both directions from every start"), st.len() << ops, |i| {
		let (s, mask) = (st[i >> ops], i & ((1 << ops) - 1));
		let mut side: Vec<_> = DIRS.iter().map(|d| (pair(2, *d, s), pair(2, *d, s).0)).collect();
		let mut used = std::collections::HashSet::new();
		for k in 0..ops {
			let d = mask >> k & 1;
			let ((tx, rtx), rx) = &mut side[d];
			let p = plain(8 + k * 8, 9);
			let wire = encrypt(tx, &p);
			if wire != rtx.seal(&p) {
				return Err(format!("start {s}, packet {k} of {mask:b}: wrong ciphertext"));
			}
			if !used.insert(wire[..12].to_vec()) {
				return Err(format!("start {s}: key stream repeats"));
			}
			if deliver(rx, &wire).1.as_deref() != Some(&p[4..]) {
				return Err(format!("start {s}, packet {k} of {mask:b}: not recovered"));
			}
		}
		Ok((1, ops as u64 * 2))
	});
	// A long run under one key.
	let run = rep.by(70_000u64, 600_000);
	rep.cases("long runs", 4, |i| {
		let s = [0, 3, 65_000, u32::MAX as u64 - run - 10][i];
		let (mut tx, mut rtx) = pair(i, DIRS[i % 2], s);
		let mut rx = pair(i, DIRS[i % 2], s).0;
		let p = plain(8, 1);
		for n in 0..run {
			let wire = encrypt(&mut tx, &p);
			if wire != rtx.seal(&p) {
				return Err(format!("packet with sequence number {}: wrong ciphertext", s + n));
			}
			if deliver(&mut rx, &wire).1.as_deref() != Some(&p[4..]) {
				return Err(format!("packet with sequence number {}: not recovered", s + n));
			}
		}
		Ok((run, run * 2))
	});
	rep.rules.push(
		"A case is one packet of a history of packets; its ciphertext and tag are compared bit for bit with an independent composition \
		 of chacha20 and poly1305 as OpenSSH's PROTOCOL.chacha20poly1305 describes, keyed with an independent key derivation, and the \
		 receiving side must recover it."
			.into(),
	);
	rep.assumptions.push("Sequence numbers below 2^32: what happens when they wrap is outside this check.".into());
	rep.assumptions.push("The chacha20 and poly1305 primitives are shared with the implementation and taken as correct.".into());
}

/// A refused packet must leave the buffer and the receiver as they were.
fn refused(rx: &mut ChaCha20Poly1305, wire: &[u8], what: &dyn Fn() -> String) -> Result<(), String> {
	let (_, got, after) = deliver(rx, wire);
	if got.is_some() {
		return Err(format!("{}: accepted", what()));
	}
	if after != wire {
		return Err(format!("{}: refused, but the buffer was changed", what()));
	}
	Ok(())
}

pub fn c06(rep: &mut Rep) {
	let lens: Vec<usize> = rep.by((0..=96).collect(), (0..=300).collect());
	let deep = !rep.quick();
	rep.cases("every single change of a packet", lens.len(), |i| {
		let len = lens[i];
		let mut n = 0;
		let (mut tx, _) = pair(i, DIRS[i % 2], 3);
		let (mut rx, _) = pair(i, DIRS[i % 2], 3);
		let p = plain(len, i);
		let wire = encrypt(&mut tx, &p);
		let p2 = plain(16, i + 1);
		let wire2 = encrypt(&mut tx, &p2);
		// Every bit.
		for bit in 0..wire.len() * 8 {
			let mut w = wire.clone();
			w[bit / 8] ^= 1 << (bit % 8);
			n += 1;
			refused(&mut rx, &w, &|| format!("packet of length {len} with bit {bit} flipped"))?;
		}
		// Every byte to every value, for the short ones.
		if len <= 24 || deep {
			for at in 0..wire.len() {
				for x in 1..=255 {
					let mut w = wire.clone();
					w[at] ^= x;
					n += 1;
					refused(&mut rx, &w, &|| format!("packet of length {len} with byte {at} xor {x}"))?;
				}
			}
		}
		if len == 16 || (deep && len <= 24) {
			for a in 0..wire.len() * 8 {
				for b in 0..a {
					let mut w = wire.clone();
					w[a / 8] ^= 1 << (a % 8);
					w[b / 8] ^= 1 << (b % 8);
					n += 1;
					refused(&mut rx, &w, &|| format!("packet of length {len} with bits {a} and {b} flipped"))?;
				}
			}
		}
		// Truncated (down to a bare tag) and extended.
		for cut in 16..wire.len() {
			n += 2;
			refused(&mut rx, &wire[..cut], &|| format!("packet of length {len} cut to {cut} bytes"))?;
			refused(&mut rx, &wire[wire.len() - cut..], &|| format!("packet of length {len} without its beginning"))?;
			let mut w = wire[..cut - 16].to_vec();
			w.extend_from_slice(&wire[wire.len() - 16..]);
			refused(&mut rx, &w, &|| format!("packet of length {len} shortened to {} bytes with the tag kept", cut - 16))?;
		}
		for more in 1..=20 {
			let mut w = wire.clone();
			w.extend_from_slice(&vec![0; more]);
			n += 1;
			refused(&mut rx, &w, &|| format!("packet of length {len} with {more} bytes appended"))?;
		}
		for tag in [[0u8; 16], [0xff; 16]] {
			let mut w = wire.clone();
			let l = w.len();
			w[l - 16..].copy_from_slice(&tag);
			n += 1;
			refused(&mut rx, &w, &|| format!("packet of length {len} with a constant tag"))?;
		}
		// After all of that the real packets are still the next ones.
		refused(&mut rx, &wire2, &|| "the packet after the next one".into())?;
		if deliver(&mut rx, &wire).1.as_deref() != Some(&p[4..]) {
			return Err(format!("packet of length {len} is refused after forgeries"));
		}
		refused(&mut rx, &wire, &|| "a replayed packet".into())?;
		if deliver(&mut rx, &wire2).1.as_deref() != Some(&p2[4..]) {
			return Err(format!("second packet after length {len} is refused after a replay"));
		}
		Ok((n + 4, n * 2 + 8))
	});
	// Histories of deliveries, against the model "the next packet, or nothing".
	let depth = rep.by(6usize, 7);
	let (mut tx, _) = pair(5, DIRS[0], 3);
	let (mut back, _) = pair(5, DIRS[1], 3);
	let (mut other, _) = pair(6, DIRS[0], 3);
	let (mut old, _) = pair(5, DIRS[0], 2);
	let plains: Vec<_> = (0..4).map(|i| plain(8 + 8 * (i % 2), i)).collect();
	let wires: Vec<_> = plains.iter().map(|p| encrypt(&mut tx, p)).collect();
	let mut set = wires.clone();
	set.push(encrypt(&mut back, &plains[0]));
	set.push(encrypt(&mut back, &plains[1]));
	set.push(encrypt(&mut other, &plains[0]));
	set.push(encrypt(&mut old, &plains[0]));
	let mut flipped = wires[1].clone();
	flipped[4] ^= 1;
	set.push(flipped);
	// Length of one packet, body of another.
	let mut mixed = wires[0].clone();
	mixed[..4].copy_from_slice(&wires[2][..4]);
	set.push(mixed);
	let m = set.len();
	rep.cases(&format!("all delivery histories of {depth} packets out of {m}"), m * m, |i| {
		fn rec(
			rx: &mut dyn FnMut() -> ChaCha20Poly1305, hist: &mut Vec<usize>, set: &[Vec<u8>], plains: &[Vec<u8>], depth: usize, n: &mut u64,
		) -> Result<(), String> {
			if hist.len() == depth {
				let mut c = rx();
				let mut next = 0;
				for (k, &d) in hist.iter().enumerate() {
					let (l, got, after) = deliver(&mut c, &set[d]);
					if next < 4 && d == next {
						if got.as_deref() != Some(&plains[next][4..]) || l != Some(plains[next].len() as u32 - 4) {
							return Err(format!("history {hist:?}: step {k} is the next packet and was not taken"));
						}
						next += 1;
					} else if got.is_some() {
						return Err(format!("history {hist:?}: step {k} was accepted, packet {next} is next"));
					} else if after != set[d] {
						return Err(format!("history {hist:?}: step {k} changed the buffer"));
					}
				}
				*n += 1;
				return Ok(());
			}
			for d in 0..set.len() {
				hist.push(d);
				rec(rx, hist, set, plains, depth, n)?;
				hist.pop();
			}
			Ok(())
		}
		let mut n = 0;
		rec(&mut || pair(5, DIRS[0], 3).0, &mut vec![i % m, i / m], &set, &plains, depth, &mut n)?;
		Ok((n, n * depth as u64))
	});
	// Around every edge of the counter: only the next packet, no other counter.
	let mut starts: Vec<u64> = (2..=31).flat_map(|k| [(1u64 << k) - 3, (1 << k) - 2, (1 << k) - 1, 1 << k]).collect();
	starts.sort();
	starts.dedup();
	rep.cases("every other counter near a power of two", starts.len(), |i| {
		let at = starts[i];
		let (mut rx, _) = pair(9, DIRS[i % 2], at);
		let p = plain(16, i);
		let mut n = 0;
		for step in 0..5u64 {
			let now = at + step;
			let mut others: Vec<u64> = (0..=12).collect();
			for k in 0..=31 {
				others.extend([now ^ (1 << k), now.wrapping_sub(1 << k), now.wrapping_add(1 << k), now & ((1 << k) - 1), now | ((1 << k) - 1)]);
			}
			others.retain(|o| *o != now && *o < 1 << 32);
			others.sort();
			others.dedup();
			for o in others {
				let (mut tx, _) = pair(9, DIRS[i % 2], o);
				n += 1;
				refused(&mut rx, &encrypt(&mut tx, &p), &|| format!("packet {o} instead of {now}"))?;
			}
			let (mut tx, _) = pair(9, DIRS[i % 2], now);
			if deliver(&mut rx, &encrypt(&mut tx, &p)).1.as_deref() != Some(&p[4..]) {
				return Err(format!("packet {now} is refused when it is the next, first was {at}"));
			}
		}
		Ok((n, 2 * n))
	});
	// The whole server: a tampered packet is never acted upon.
	let exec_len = frame(&m::exec(0, true, b"p0 x"), 8, true, 0).len() + 16;
	let mut specs = vec![];
	let server = |name: String, mid: Vec<Act>| {
		let mut acts = vec![session::open(4), Act::Opened(4)];
		acts.extend(mid);
		Spec {
			name,
			conns: vec![ConnSpec { script: session::script(0, acts), ..Default::default() }],
			procs: vec![ProcSpec { out: vec![b"out".to_vec()], ..Default::default() }],
			check: Arc::new(|w| {
				w.alive()?;
				if w.hist.iter().any(|h| matches!(h, H::Spawn { .. })) {
					return Err("a command ran although its packet was not authentic".into());
				}
				if w.conns[0].msgs.len() > 3 {
					return Err("the server answered a packet that was not authentic".into());
				}
				Ok(())
			}),
			..Default::default()
		}
	};
	let exec = Act::Ch(4, ChMsg::exec(true, "p0 x"));
	for bit in 0..exec_len * 8 {
		specs.push(server(format!("exec with bit {bit} flipped"), vec![Act::Tamper(bit), exec.clone()]));
	}
	specs.push(server("exec after an omitted packet".into(), vec![Act::Omit, Act::Ch(4, ChMsg::Eof), exec.clone()]));
	let req = |want| Act::Ch(4, ChMsg::Request { ty: b"env".to_vec(), want, data: vec![] });
	specs.push(server("exec after a replay".into(), vec![req(false), Act::Again, exec.clone()]));
	for n in 0..=2 {
		// A replayed packet in front of the real one (the open request, the login, the service request).
		specs.push(server(format!("replay of encrypted packet {n}"), vec![Act::Replay(n), exec.clone()]));
	}
	specs.push(server("two packets exchanged".into(), vec![Act::Swap, req(false), exec.clone()]));
	rep.wide("server given tampered packets", specs, 0);
	rep.rules.push(
		"A case is one delivery to a receiver: every bit flip, byte change, truncation and extension of a packet, and all histories of \
		 a given length over a set of authentic, replayed, reordered, reflected, foreign and altered packets, judged by the model \"only \
		 the next packet is taken and a refused one changes nothing\". The same through the whole server with a command in the tampered \
		 packet."
			.into(),
	);
	rep.assumptions.push("Forgeries are enumerated, not computed: resistance of Poly1305 itself is taken for granted.".into());
}

// ------------------------------------------------------------------ C07

pub fn c07(rep: &mut Rep) {
	// Secrets of every magnitude: number of leading zero bytes x first significant byte.
	let firsts: Vec<u8> = rep.by((1..=255).collect(), (1..=255).collect());
	let n = 33 * firsts.len();
	rep.cases("derived keys for secrets of every magnitude", n, |i| {
		let (zeros, first) = (i % 33, firsts[i / 33]);
		let mut k = [0u8; 32];
		for j in zeros..32 {
			k[j] = if j == zeros { first } else { (j * 41 + 3) as u8 };
		}
		let mut calls = 0;
		for hn in 0..4 {
			let h: [u8; 32] = match hn {
				0 => [0; 32],
				1 => [0xff; 32],
				2 => core::array::from_fn(|j| (j * 91 + 7) as u8),
				_ => core::array::from_fn(|j| if j == 0 { 0 } else { 0x80 | j as u8 }),
			};
			let m = KeyMaterial::<Sha256>::new(k, h);
			let mut all = std::collections::HashMap::new();
			for (di, dir) in DIRS.iter().enumerate() {
				for what in 0..3usize {
					let letter = b'A' + what as u8 * 2 + di as u8;
					for blocks in 1..=5 {
						let mut out = vec![[0x5au8; 32]; blocks];
						let got = match what {
							0 => m.initial_iv(*dir, &mut out),
							1 => m.encryption_key(*dir, &mut out),
							_ => m.integrity_key(*dir, &mut out),
						}
						.to_vec();
						calls += 1;
						let want = derive(&k, &h, letter, blocks * 32);
						if got != want || out.concat() != want {
							return Err(format!(
								"letter {} with secret {} hash {} and {blocks} blocks: {} instead of {}",
								letter as char,
								hex(&k),
								hex(&h),
								hex(&got),
								hex(&want)
							));
						}
						if blocks == 1 {
							if let Some(o) = all.insert(got, letter) {
								return Err(format!("letters {} and {} share a key", o as char, letter as char));
							}
						}
					}
				}
			}
		}
		Ok((4, calls))
	});
	// The exchange hash: every component at every length, and one changed at a time.
	let idlens: Vec<usize> = (0..=253).collect();
	let strs = |n: usize, salt: u8| -> Vec<u8> { (0..n).map(|i| (i as u8).wrapping_mul(3).wrapping_add(salt)).collect() };
	let hash = |v_c: &[u8], v_s: &[u8], i_c: &[u8], i_s: &[u8], key: (&[u8], &[u8], &[u8]), q_c: &[u8], q_s: &[u8], k: &[u8]| -> Result<(), String> {
		let id = |b| Identifier::new(b).ok_or("identifier refused");
		let host = Key { name: key.0, blob: KeyBlob { identifier: key.1, q: key.2 } };
		let k_s = W::default().s(key.0).s(key.1).s(key.2).done();
		let mut buf = vec![0xa5; k_s.len()];
		let got = KeyExchangeDigest::<Sha256>::default()
			.update(&id(v_c)?)
			.update(&id(v_s)?)
			.update(i_c)
			.update(i_s)
			.update(&mut buf, &host)
			.update(q_c)
			.update(q_s)
			.update(k);
		let want = Exchange { v_c, v_s, i_c, i_s, k_s: &k_s, q_c, q_s, k }.hash();
		if got[..] != want {
			return Err(format!("exchange hash of {} {} {} {} {} {} {} {}: {} instead of {}", hex(v_c), hex(v_s), hex(i_c), hex(i_s), hex(&k_s), hex(q_c), hex(q_s), hex(k), hex(&got), hex(&want)));
		}
		Ok(())
	};
	let base_key: (&[u8], &[u8], &[u8]) = (b"ecdsa-sha2-nistp256", b"nistp256", &[4; 65]);
	rep.cases("exchange hash over every length of every component", idlens.len(), |i| {
		let n = idlens[i];
		let s = strs(n, 9);
		let (a, b, c, d, q, r) = (b"SSH-2.0-a", b"SSH-2.0-b", strs(20, 1), strs(21, 2), strs(32, 3), strs(32, 4));
		let k = strs(32, 5);
		hash(&s, b, &c, &d, base_key, &q, &r, &k)?;
		hash(a, &s, &c, &d, base_key, &q, &r, &k)?;
		hash(a, b, &s, &d, base_key, &q, &r, &k)?;
		hash(a, b, &c, &s, base_key, &q, &r, &k)?;
		hash(a, b, &c, &d, (&s, b"x", b"y"), &q, &r, &k)?;
		hash(a, b, &c, &d, (b"x", &s, b"y"), &q, &r, &k)?;
		hash(a, b, &c, &d, (b"x", b"y", &s), &q, &r, &k)?;
		hash(a, b, &c, &d, base_key, &s, &r, &k)?;
		hash(a, b, &c, &d, base_key, &q, &s, &k)?;
		let mut cases = 9;
		for first in [0u8, 1, 0x7f, 0x80, 0xff] {
			if n <= 100 {
				let mut k = strs(n, 6);
				if n > 0 {
					k[0] = first;
				}
				hash(a, b, &c, &d, base_key, &q, &r, &k)?;
				if n > 1 {
					k[0] = 0;
					k[1] = first;
					hash(a, b, &c, &d, base_key, &q, &r, &k)?;
				}
				cases += 2;
			}
		}
		Ok((cases, cases))
	});
	let big = rep.by(33000usize, 70000);
	rep.cases("exchange hash over long KEXINIT payloads", big / 100, |i| {
		let s = strs(i * 100 + i % 7, 1);
		hash(b"a", b"b", &s, b"d", base_key, b"e", b"f", &[1; 32])?;
		hash(b"a", b"b", b"c", &s, base_key, b"e", b"f", &[1; 32])?;
		Ok((2, 2))
	});
	rep.rules.push(
		"A case is one secret and hash (or one set of exchange-hash components); every derived key of one to five blocks and the \
		 exchange hash are compared with an independent derivation written from RFC 4253 section 7.2 and RFC 5656. Secrets run through \
		 every number of leading zero bytes and both kinds of first byte, since those change the mpint."
			.into(),
	);
	rep.assumptions.push("SHA-256 is shared with the implementation and taken as correct.".into());
}
