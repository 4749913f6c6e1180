//! C08 to C10: identification and key exchange.

use crate::client::{HsSpec, Phase};
use crate::p_msg;
use crate::refssh::*;
use crate::report::Rep;
use crate::session::*;
use crate::world::*;
use std::sync::Arc;

fn chk(f: impl Fn(&World) -> Result<(), String> + Send + Sync + 'static) -> Check {
	Arc::new(f)
}

/// A connection that shakes hands like this, logs in and runs a command.
fn whole(i: usize, hs: HsSpec, early: bool) -> ConnSpec {
	let mut script = if early { vec![Act::Enable] } else { vec![] };
	script.extend(crate::session::script(i, exec(7, "p0 x")));
	ConnSpec { hs, script, ..Default::default() }
}

fn procs() -> Vec<ProcSpec> {
	vec![ProcSpec { out: vec![b"out".to_vec()], status: 5, ..Default::default() }]
}

/// The handshake completed, nothing is wrong with it, and the connection works.
fn completed(w: &World) -> Result<(), String> {
	w.alive()?;
	for i in 0..w.conns.len() {
		let c = &w.conns[i];
		if let Some(e) = &c.client.error {
			return Err(format!("conn {i}: {e}"));
		}
		if c.client.phase != Phase::Enc {
			return Err(format!("conn {i}: the handshake of a conforming client did not complete (server {})", if c.gone() { "closed the connection" } else { "waits" }));
		}
		if c.client.plain.len() != 3 {
			return Err(format!("conn {i}: {} plain packets instead of 3", c.client.plain.len()));
		}
		served(w, i)?;
	}
	Ok(())
}

fn fresh(w: &World) -> Result<(), String> {
	completed(w)?;
	for i in 0..w.conns.len() {
		for j in 0..i {
			if w.conns[i].client.q_s == w.conns[j].client.q_s {
				return Err(format!("connections {j} and {i} were given the same server ephemeral key"));
			}
		}
	}
	Ok(())
}

fn with_lists(f: impl Fn(&mut [String; 10])) -> HsSpec {
	let mut h = HsSpec::default();
	f(&mut h.lists);
	h
}

fn spec(name: String, conns: Vec<ConnSpec>, check: Check) -> Spec {
	Spec { name, conns, procs: procs(), check, verify_sig: true, ..Default::default() }
}

/// KEXINITs a conforming client may send.
fn good_offers() -> Vec<(String, HsSpec)> {
	let mut v = vec![];
	let extra = ["a", "diffie-hellman-group14-sha256", "z@example.com", "curve25519-sha25", "none,x"];
	for class in [0usize, 1, 2, 3, 6, 7] {
		let good = GOOD_LISTS[class];
		for e in extra {
			v.push((format!("class {class}: {e} first"), with_lists(|l| l[class] = format!("{e},{good}"))));
			v.push((format!("class {class}: {e} last"), with_lists(|l| l[class] = format!("{good},{e}"))));
			v.push((format!("class {class}: {e} around"), with_lists(|l| l[class] = format!("{e},{good},{e}b"))));
		}
		v.push((format!("class {class}: listed twice"), with_lists(|l| l[class] = format!("{good},{good}"))));
	}
	for class in [4usize, 5, 8, 9] {
		for e in ["", "x", "hmac-sha1,hmac-md5", "none"] {
			v.push((format!("class {class}: {e:?}"), with_lists(|l| l[class] = e.into())));
		}
	}
	v.push(("nothing optional".into(), with_lists(|l| [4, 5, 8, 9].iter().for_each(|i| l[*i] = String::new()))));
	v.push(("everything longer".into(), with_lists(|l| l.iter_mut().for_each(|s| *s = if s.is_empty() { "en,nl".into() } else { format!("pre,{s},post") }))));
	for n in [100usize, 1000, 4000, 10000, 25000, 32000, 32300, 32500, 33000, 34000, 34600] {
		let long = format!(",{}", "x".repeat(n));
		v.push((format!("an offer with a name of {n} bytes"), with_lists(|l| l[0] += &long)));
		v.push((format!("an offer with a language of {n} bytes"), with_lists(|l| l[9] = long[1..].into())));
	}
	// The common algorithm is the last of many, or the first.
	for n in [2usize, 8, 16, 31, 32, 33, 64, 100, 128, 256, 500, 1000, 2000, 4000] {
		let names = (0..n).map(|i| format!("n{i}")).collect::<Vec<_>>().join(",");
		for class in [0usize, 1, 2, 3, 6, 7] {
			let good = GOOD_LISTS[class];
			v.push((format!("class {class}: {n} other names first"), with_lists(|l| l[class] = format!("{names},{good}"))));
			if class == 0 || class == 1 {
				v.push((format!("class {class}: {n} other names last"), with_lists(|l| l[class] = format!("{good},{names}"))));
			}
		}
	}
	for c in [[0u8; 16], [255; 16], *b"nomnommunchmunch"] {
		v.push((format!("cookie {}", hex(&c)), HsSpec { cookie: c, ..Default::default() }));
	}
	for p in 1..=30 {
		v.push((format!("{p} more blocks of padding"), HsSpec { extra_pad: p, ..Default::default() }));
	}
	v
}

fn guesses() -> Vec<(String, HsSpec)> {
	let mut v = vec![];
	// A right guess: the packet that follows is the key-exchange message itself.
	for f in [1u8, 2, 255] {
		v.push((format!("right guess, flag {f}"), HsSpec { follows: f, ..Default::default() }));
	}
	v.push(("right guess, more algorithms after it".into(), {
		let mut h = with_lists(|l| {
			l[0] += ",other";
			l[1] += ",other";
		});
		h.follows = 1;
		h
	}));
	// A right guess is about key exchange and host key only.
	v.push(("right guess, other ciphers first".into(), {
		let mut h = with_lists(|l| {
			l[2] = format!("aes128-ctr,{}", l[2]);
			l[3] = format!("aes128-ctr,{}", l[3]);
		});
		h.follows = 1;
		h
	}));
	let bodies: Vec<(&str, Vec<u8>)> = vec![
		("an ECDH key", W::new(30).s([9u8; 32]).done()),
		("an ECDH key of another curve", W::new(30).s([4u8; 65]).done()),
		("a DH number", W::new(30).mpint(&[0x80; 256]).done()),
		("a group request", W::new(34).u32(1024).u32(2048).u32(8192).done()),
		("an unknown message", W::new(40).done()),
		("a malformed message", vec![30, 1, 2]),
	];
	for wrong in 0..3 {
		for (n, b) in &bodies {
			for f in [1u8, 77] {
				let mut h = with_lists(|l| {
					if wrong != 1 {
						l[0] = format!("other-kex,{}", l[0]);
					}
					if wrong != 0 {
						l[1] = format!("other-key,{}", l[1]);
					}
				});
				h.follows = f;
				h.guess = Some(b.clone());
				v.push((format!("wrong guess {wrong} with {n}, flag {f}"), h));
			}
		}
	}
	v
}

fn idents() -> Vec<Vec<u8>> {
	let mut v: Vec<Vec<u8>> = vec![
		b"SSH-2.0-".to_vec(),
		b"SSH-2.0-x".to_vec(),
		b"SSH-2.0-OpenSSH_9.0 comment here".to_vec(),
		b"SSH-2.0-SSH-2.0-".to_vec(),
		b"SSH-2.0--".to_vec(),
		b"SSH-2.0-a\rb".to_vec(),
		b"SSH-2.0-a\nb".to_vec(),
		b"SSH-2.0-a\r".to_vec(),
		b"SSH-2.0-\xff\xfe".to_vec(),
	];
	// Nothing at the ends or in the middle is cut, doubled or taken for something else.
	for e in [&b" "[..], b"  ", b"\t", b"\n", b"\0", b"-", b",", b"\r\r", b"A", b"\x7f", b"\x80", b"SSH-"] {
		for (a, b) in [(&b""[..], &b""[..]), (b"", b"x"), (b"x", b""), (b"x", b"y"), (b"x y", b"z")] {
			let i = [b"SSH-2.0-", a, e, b].concat();
			if !v.contains(&i) {
				v.push(i);
			}
		}
	}
	for n in [9, 100, 200, 250, 251, 252, 253] {
		let mut x = b"SSH-2.0-".to_vec();
		x.resize(n, b'y');
		v.push(x);
	}
	v
}

fn kinds() -> [(&'static str, bool, bool); 3] {
	[("all at once", false, false), ("step by step", true, false), ("one burst", false, true)]
}

pub fn c08(rep: &mut Rep) {
	let done = chk(completed);
	let mut specs = vec![];
	let mut add = |name: String, hs: HsSpec| {
		for (n, polite, burst) in kinds() {
			specs.push(spec(format!("{name}, {n}"), vec![whole(0, HsSpec { polite, burst, ..hs.clone() }, false)], done.clone()));
		}
	};
	for (n, h) in good_offers().into_iter().chain(guesses()) {
		add(n, h);
	}
	for i in idents() {
		add(format!("identification {:?}", String::from_utf8_lossy(&i)), HsSpec { ident: i, ..Default::default() });
	}
	rep.wide("offers and identifications", specs, 0);

	// Client keys: shared secrets of all shapes.
	let n = rep.by(600usize, 6000);
	let specs = (0..n)
		.map(|i| {
			let mut secret = [0x42u8; 32];
			secret[..8].copy_from_slice(&(i as u64).to_le_bytes());
			secret[20] = (i * 7) as u8;
			spec(format!("client secret {i}"), vec![whole(0, HsSpec { secret, ..Default::default() }, false)], done.clone())
		})
		.collect();
	rep.wide("client keys", specs, 0);

	// Segmentation of the client's bytes.
	let mut specs = vec![];
	let wrong = guesses().into_iter().find(|g| g.0.starts_with("wrong guess 0")).unwrap().1;
	for (hn, hs) in [("plain", HsSpec::default()), ("wrong guess", wrong)] {
		for (n, polite, burst) in kinds() {
			let c = whole(0, HsSpec { polite, burst, ..hs.clone() }, false);
			let total = 420;
			for cut in 1..total {
				specs.push(spec(format!("{hn}, {n}, cut at {cut}"), vec![ConnSpec { cuts: vec![cut], ..c.clone() }], done.clone()));
			}
			for k in 1..=40 {
				specs.push(spec(format!("{hn}, {n}, {k} bytes at a time"), vec![ConnSpec { chunk: Some(k), ..c.clone() }], done.clone()));
				specs.push(spec(format!("{hn}, {n}, {k} bytes written at a time"), vec![ConnSpec { wchunk: Some(k), wstall_each: k % 2 == 0, ..c.clone() }], done.clone()));
			}
		}
	}
	rep.wide("segmentation", specs, 0);
	if !rep.quick() {
		let mut specs = vec![];
		for a in (1..420).step_by(3) {
			for b in (a + 1..420).step_by(2) {
				let c = whole(0, HsSpec { burst: true, ..Default::default() }, false);
				specs.push(spec(format!("one burst, cuts at {a} and {b}"), vec![ConnSpec { cuts: vec![a, b], ..c }], done.clone()));
			}
		}
		rep.wide("pairs of cuts", specs, 0);
	}

	// Schedules, short writes and segment choices during the handshake.
	let mut specs = vec![];
	for (n, polite, burst) in kinds() {
		let hs = HsSpec { polite, burst, ..Default::default() };
		specs.push(Spec { choices: Choices { seg: true, write: true, sched: true, ..Choices::NONE }, ..spec(format!("schedules, {n}"), vec![whole(0, hs, true)], done.clone()) });
	}
	let bound = rep.by(2, 3);
	rep.deep(specs, bound);

	// Several connections: keys are fresh, sessions do not mix.
	let fresh = chk(fresh);
	let two = |late| {
		let mut a = whole(0, HsSpec { polite: true, ..Default::default() }, true);
		let b = ConnSpec { late, ..whole(1, HsSpec::default(), true) };
		a.late = 0;
		vec![a, b]
	};
	let mut specs = vec![];
	for p in POLICIES {
		for late in [0, 1] {
			specs.push(Spec { policy: p, choices: Choices { sched: true, ..Choices::NONE }, ..spec(format!("two connections, {}, late {late}", p.0), two(late), fresh.clone()) });
		}
	}
	let bound = rep.by(1, 2);
	rep.deep(specs, bound);
	let many = (0..24).map(|i| ConnSpec { late: i, ..whole(i, HsSpec { polite: i % 2 == 0, ..Default::default() }, false) }).collect();
	rep.deep(vec![spec("24 connections one after the other".into(), many, fresh.clone())], 0);
	let many = (0..8).map(|i| whole(i, HsSpec { polite: i % 2 == 0, ..Default::default() }, false)).collect();
	rep.deep(vec![spec("8 connections at once".into(), many, fresh)], 0);
	rep.rules.push(
		"An execution runs the real server against an independent client through the whole handshake, a login and a command. The client \
		 verifies host key, host signature over its own exchange hash, plain-packet framing and, by decrypting, keys and sequence \
		 numbers. Enumerated: offers, guesses, identification strings, client keys, every single cut of the byte stream, chunk sizes, \
		 and schedules within the deviation bound."
			.into(),
	);
	rep.assumptions.push("X25519, ECDSA P-256 and SHA-256 primitives are shared with the implementation and taken as correct.".into());
}

// ------------------------------------------------------------------ C09

/// Closed without reply, no handler called.
fn rejected(w: &World) -> Result<(), String> {
	no_reply(w)?;
	if !w.conns[0].gone() {
		return Err("the connection stays open".into());
	}
	Ok(())
}

fn no_reply(w: &World) -> Result<(), String> {
	w.alive()?;
	let c = &w.conns[0];
	if c.client.got_reply || c.client.plain.iter().any(|p| p.first() == Some(&31)) {
		return Err("the server sent its key-exchange reply".into());
	}
	if c.client.phase == Phase::Enc {
		return Err("the server switched to encryption".into());
	}
	if let Some(e) = &c.client.error {
		return Err(format!("something other than identification and KEXINIT was sent: {e}"));
	}
	if let Some(h) = w.hist.iter().find(|h| !matches!(h, H::Sent { .. } | H::Msg { .. })) {
		return Err(format!("a handler was called: {h:?}"));
	}
	Ok(())
}

fn near(name: &str) -> Vec<String> {
	let mut v = vec![String::new(), "x".into(), "none2".into(), "NONE".into(), "other,another".into()];
	for i in 0..name.len() {
		// Prefix, suffix, one character missing, changed, doubled.
		v.push(name[..i].to_string());
		v.push(name[i..].to_string() + "x");
		if i > 0 {
			v.push(name[i..].to_string());
		}
		let mut s = name.to_string();
		s.remove(i);
		v.push(s);
		let mut b = name.as_bytes().to_vec();
		b[i] = if b[i].is_ascii_uppercase() { b[i].to_ascii_lowercase() } else { b[i].to_ascii_uppercase() };
		if b != name.as_bytes() {
			v.push(String::from_utf8(b).unwrap());
		}
		let mut b = name.as_bytes().to_vec();
		b[i] = b'~';
		v.push(String::from_utf8(b).unwrap());
	}
	v.push(format!("{name}x"));
	v.push(format!(" {name}"));
	v.push(format!("{name} "));
	v.push(format!("{name}@example.com"));
	v.push(format!("{name}\0"));
	v.push(format!("x{name}"));
	v.push(format!("x{name},{name}x"));
	v.retain(|s| !s.split(',').any(|n| n == name) && !s.ends_with(',') && !s.starts_with(','));
	v.sort();
	v.dedup();
	v
}

/// Public keys whose shared secret is zero with every private key.
fn low_order() -> Vec<[u8; 32]> {
	let h = |s: &str| -> [u8; 32] {
		let v: Vec<u8> = (0..32).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
		v.try_into().unwrap()
	};
	let mut v = vec![
		h("0000000000000000000000000000000000000000000000000000000000000000"),
		h("0100000000000000000000000000000000000000000000000000000000000000"),
		h("e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800"),
		h("5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157"),
		h("ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f"),
		h("edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f"),
		h("eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f"),
	];
	// The top bit is ignored by X25519.
	for i in 0..v.len() {
		let mut t = v[i];
		t[31] |= 0x80;
		v.push(t);
	}
	v
}

/// Plain payloads to put where another message is due.
fn strangers() -> Vec<Vec<u8>> {
	let mut v = vec![];
	for k in p_msg::KINDS {
		v.push(p_msg::encode(k, &p_msg::values(k, 0, false)[0]));
	}
	for ty in 0..=255u8 {
		v.push(vec![ty]);
		v.push(vec![ty, 0, 0, 0, 0]);
	}
	v.push(vec![]);
	v
}

pub fn c09(rep: &mut Rep) {
	let rej = chk(rejected);
	let one = |name: String, hs: HsSpec, check: &Check| {
		let mut v = vec![];
		for (n, polite, burst) in kinds() {
			v.push(Spec { verify_sig: false, ..spec(format!("{name}, {n}"), vec![whole(0, HsSpec { polite, burst, ..hs.clone() }, false)], check.clone()) });
		}
		v
	};
	// Offers.
	let mut specs = vec![];
	for class in [0usize, 1, 2, 3, 6, 7] {
		for n in near(GOOD_LISTS[class]) {
			specs.extend(one(format!("class {class} offers only {n:?}"), with_lists(|l| l[class] = n.clone()), &rej));
			let mut h = with_lists(|l| l[class] = n.clone());
			h.follows = 1;
			specs.extend(one(format!("class {class} offers only {n:?} and a guess follows"), h, &rej));
		}
	}
	// Right names in the wrong class: all subsets of classes.
	for set in 1..64u32 {
		for other in ["", "foreign", "curve25519-sha256", "none", "chacha20-poly1305@openssh.com", "ecdsa-sha2-nistp256"] {
			let classes = [0usize, 1, 2, 3, 6, 7];
			let hit: Vec<usize> = (0..6).filter(|b| set >> b & 1 != 0).map(|b| classes[b]).collect();
			if hit.iter().all(|c| GOOD_LISTS[*c] == other) {
				continue;
			}
			specs.extend(one(
				format!("classes {hit:?} offer {other:?}"),
				with_lists(|l| hit.iter().for_each(|c| if GOOD_LISTS[*c] != other { l[*c] = other.into() })),
				&rej,
			));
		}
	}
	rep.wide("unacceptable offers", specs, 0);

	// Damaged KEXINITs.
	let good = kexinit(&GOOD_LISTS, b"0123456789abcdef", 0);
	let mut bad: Vec<Vec<u8>> = (0..good.len()).map(|n| good[..n].to_vec()).collect();
	for i in 0..good.len() {
		for x in [1u8, 0x80] {
			let mut g = good.clone();
			g[i] ^= x;
			bad.push(g);
		}
	}
	for e in [&b"\0"[..], b"x", b"\0\0\0\0"] {
		bad.push([&good[..], e].concat());
	}
	bad.extend(strangers());
	// Only those that do not carry an acceptable offer.
	let classes = [1usize, 2, 3, 4, 7, 8];
	bad.retain(|b| match p_msg::ref_parse(b) {
		p_msg::P::Yes("kexinit", v) => classes.iter().any(|c| match &v[*c] {
			p_msg::V::S(s) => !s.split(|c| *c == b',').any(|n| n == GOOD_LISTS[c - 1].as_bytes()),
			_ => true,
		}),
		_ => true,
	});
	let mut specs = vec![];
	for b in bad {
		specs.extend(one(format!("KEXINIT {}", hex(&b)), HsSpec { kexinit: Some(b), ..Default::default() }, &rej));
	}
	rep.wide("damaged or missing KEXINIT", specs, 0);

	// The client's key.
	let mut specs = vec![];
	let mut keys: Vec<Vec<u8>> = (0..=80).chain([255, 256, 1000]).filter(|n| *n != 32).map(|n| vec![9; n]).collect();
	keys.extend(low_order().iter().map(|k| k.to_vec()));
	for k in keys {
		specs.extend(one(format!("client key {}", hex(&k)), HsSpec { ecdh: Some(W::new(30).s(&k).done()), ..Default::default() }, &rej));
	}
	let ecdh = W::new(30).s([9u8; 32]).done();
	for n in 0..ecdh.len() {
		specs.extend(one(format!("ECDH message cut to {n}"), HsSpec { ecdh: Some(ecdh[..n].to_vec()), ..Default::default() }, &rej));
	}
	specs.extend(one("ECDH message with a byte too much".into(), HsSpec { ecdh: Some([&ecdh[..], b"\0"].concat()), ..Default::default() }, &rej));
	for m in strangers() {
		if matches!(p_msg::ref_parse(&m), p_msg::P::Yes("ecdh-init", ref v) if matches!(&v[0], p_msg::V::S(s) if s.len() == 32)) {
			continue;
		}
		specs.extend(one(format!("instead of the key {}", hex(&m)), HsSpec { ecdh: Some(m), ..Default::default() }, &rej));
	}
	// A wrong guess that is announced but whose real key never comes.
	rep.wide("unacceptable client keys", specs, 0);

	// NEWKEYS.
	let gone = chk(|w| {
		w.alive()?;
		let c = &w.conns[0];
		if let Some(h) = w.hist.iter().find(|h| !matches!(h, H::Sent { .. } | H::Msg { .. })) {
			return Err(format!("a handler was called without the client's NEWKEYS: {h:?}"));
		}
		if !c.msgs.is_empty() || !c.client.rx.is_empty() {
			return Err("the server sent encrypted packets before the client's NEWKEYS".into());
		}
		if !c.gone() {
			return Err("the connection stays open".into());
		}
		Ok(())
	});
	let mut specs = vec![];
	for m in strangers() {
		if m == [21] {
			continue;
		}
		specs.extend(one(format!("instead of NEWKEYS {}", hex(&m)), HsSpec { newkeys: Some(m), ..Default::default() }, &gone));
	}
	specs.extend(one("NEWKEYS with data".into(), HsSpec { newkeys: Some(vec![21, 0]), ..Default::default() }, &gone));
	rep.wide("NEWKEYS replaced", specs, 0);
	let silent = chk(|w| {
		w.alive()?;
		let c = &w.conns[0];
		if let Some(h) = w.hist.iter().find(|h| !matches!(h, H::Sent { .. } | H::Msg { .. })) {
			return Err(format!("a handler was called without the client's NEWKEYS: {h:?}"));
		}
		if !c.msgs.is_empty() || !c.client.rx.is_empty() {
			return Err("the server sent encrypted packets before the client's NEWKEYS".into());
		}
		Ok(())
	});
	let mut specs = vec![];
	for (n, polite, burst) in kinds() {
		// Skipped: the client goes on encrypted; or says nothing more at all.
		let hs = HsSpec { polite, burst, skip_newkeys: true, ..Default::default() };
		specs.push(Spec { verify_sig: false, ..spec(format!("NEWKEYS skipped, {n}"), vec![whole(0, hs.clone(), false)], silent.clone()) });
		specs.push(Spec { verify_sig: false, ..spec(format!("NEWKEYS never sent, {n}"), vec![ConnSpec { hs, ..Default::default() }], silent.clone()) });
	}
	rep.wide("NEWKEYS missing", specs, 0);

	// The same over all segmentations and schedules within the bound, for one of each kind.
	let mut specs = vec![];
	for (n, hs, check) in [
		("compression refused", with_lists(|l| l[7] = "zlib".into()), &rej),
		("zero key", HsSpec { ecdh: Some(W::new(30).s([0u8; 32]).done()), ..Default::default() }, &rej),
		("bad NEWKEYS", HsSpec { newkeys: Some(vec![21, 0]), ..Default::default() }, &gone),
	] {
		for (k, polite, burst) in kinds() {
			specs.push(Spec {
				verify_sig: false,
				choices: Choices { seg: true, write: true, sched: true, ..Choices::NONE },
				..spec(format!("{n}, {k}"), vec![whole(0, HsSpec { polite, burst, ..hs.clone() }, true)], check.clone())
			});
		}
	}
	let bound = rep.by(2, 3);
	rep.deep(specs, bound);
	// A valid one must still complete, or the check would be vacuous.
	rep.wide("control: acceptable offers complete", vec![spec("control".into(), vec![whole(0, HsSpec::default(), false)], chk(completed))], 0);
	rep.rules.push(
		"An execution runs the real server against a client whose offer, key or NEWKEYS is unacceptable in one enumerated way: every \
		 near miss of every algorithm name, all subsets of classes without a common algorithm, every prefix and two bit flips per byte \
		 of KEXINIT, every message type in the place of another, all key lengths and all low-order points. The server must close without \
		 reply and call no handler."
			.into(),
	);
}

// ------------------------------------------------------------------ C10

pub fn c10(rep: &mut Rep) {
	let done = chk(|w| {
		if w.conns[0].client.phase == Phase::Ident {
			return Err("no identification line from the server".into());
		}
		completed(w)
	});
	let rej = chk(|w| {
		if w.conns[0].client.phase == Phase::Ident {
			return Err("no identification line from the server".into());
		}
		rejected(w)
	});
	let lines: Vec<Vec<u8>> = {
		let mut v: Vec<Vec<u8>> = ["", "hello", "S", "SS", "SSH", "SSHx-2.0-", "ssh-2.0-x", " SSH-2.0-x", "xSSH-2.0-y", "SSSH-2.0-z", "SSH\r-", "\rSSH-2.0-x", "SSH_2.0-x", "a\nSSH-2.0-b", "-SSH-", "SSSSH-2.0-x", "\r", "\n"]
			.iter()
			.map(|s| s.as_bytes().to_vec())
			.collect();
		for n in [252, 253, 254, 255, 256, 300, 5000] {
			v.push(vec![b'w'; n]);
		}
		v
	};
	let mut pres: Vec<Vec<u8>> = vec![vec![]];
	for a in &lines {
		pres.push([&a[..], b"\r\n"].concat());
		for b in &lines {
			pres.push([&a[..], b"\r\n", &b[..], b"\r\n"].concat());
			if !rep.quick() {
				for c in lines.iter().take(18) {
					pres.push([&a[..], b"\r\n", &b[..], b"\r\n", &c[..], b"\r\n"].concat());
				}
			}
		}
	}
	let long = |n: usize| {
		let mut x = b"SSH-2.0-".to_vec();
		x.resize(n, b'y');
		x
	};
	let good = idents();
	let mut bad: Vec<Vec<u8>> = [
		"SSH-1.99-x", "SSH-1.5-x", "SSH-2.1-x", "SSH-2.00-x", "SSH-2.0", "SSH-2.0x", "SSH-2.", "SSH-2", "SSH-", "SSH--", "SSH-3.0-x", "SSH-2,0-x", "SSH-02.0-x", "SSH- 2.0-x",
		"SSH-2.0 -x", "SSH-2-x", "SSH-20-x", "SSH-2.0_x", "SSH-1.0-2.0-", "SSH-\rSSH-2.0-x", "SSH-SSH-2.0-x",
	]
	.iter()
	.map(|s| s.as_bytes().to_vec())
	.collect();
	for n in [254, 255, 256, 257, 300, 600, 4000] {
		bad.push(long(n));
	}
	let mut with_cr = long(253);
	with_cr.push(b'\r');
	bad.push(with_cr);
	let one = |name: String, pre: &[u8], ident: &[u8], check: &Check, burst: bool, polite: bool| {
		let hs = HsSpec { pre: pre.to_vec(), ident: ident.to_vec(), burst, polite, ..Default::default() };
		let sig = ident.len() > 200;
		Spec { verify_sig: sig, ..spec(name, vec![whole(0, hs, false)], check.clone()) }
	};
	let show = |b: &[u8]| if b.len() > 60 { format!("{} bytes {}", b.len(), fnv(b)) } else { format!("{:?}", String::from_utf8_lossy(b)) };
	let mut specs = vec![];
	for (pi, pre) in pres.iter().enumerate() {
		// Every line sequence with two good and two bad lines; every single line with all of them.
		let all = pre.is_empty() || pi % (lines.len() + 1) == 1;
		for (k, g) in good.iter().enumerate() {
			if all || k == 1 || k == pi % good.len() {
				specs.push(one(format!("{} then {}", show(pre), show(g)), pre, g, &done, pi % 2 == 0, pi % 3 == 0 && pi % 2 == 1));
			}
		}
		for (k, b) in bad.iter().enumerate() {
			if all || k == pi % bad.len() {
				specs.push(one(format!("{} then bad {}", show(pre), show(b)), pre, b, &rej, pi % 2 == 0, false));
			}
		}
	}
	rep.wide("lines before and identification lines", specs, 0);
	// Every short text before, decided by the definition.
	let sigma = b"SH-\r\nx";
	let depth = rep.by(5usize, 6);
	let mut texts: Vec<Vec<u8>> = vec![vec![]];
	let mut last = texts.clone();
	for _ in 0..depth {
		last = last.iter().flat_map(|t| sigma.iter().map(move |c| [&t[..], &[*c]].concat())).collect();
		texts.extend(last.iter().cloned());
	}
	// Longer ones that start like an identification line.
	for start in ["S", "SS", "SSH", "SSSH", "SSH\r\n", "\r\n\r", "SSH-"] {
		for t in texts.clone().iter().filter(|t| t.len() <= depth - 2) {
			texts.push([start.as_bytes(), &t[..]].concat());
		}
	}
	texts.sort();
	texts.dedup();
	let mut specs = vec![];
	for (i, t) in texts.iter().enumerate() {
		let pre = [&t[..], b"\r\n"].concat();
		let mut bad = false;
		let mut at = 0;
		while let Some(e) = pre[at..].windows(2).position(|w| w == b"\r\n") {
			bad |= pre[at..at + e].starts_with(b"SSH-");
			at += e + 2;
		}
		specs.push(one(format!("text {t:?} before"), &pre, b"SSH-2.0-y", if bad { &rej } else { &done }, i % 2 == 0, false));
	}
	// Every short end of the identification line.
	let depth = rep.by(4usize, 6);
	let mut last: Vec<Vec<u8>> = vec![vec![]];
	for _ in 0..depth {
		last = last.iter().flat_map(|t| b"\r\n x-".iter().map(move |c| [&t[..], &[*c]].concat())).collect();
		for t in last.iter().filter(|t| !t.windows(2).any(|w| w == b"\r\n")) {
			let i = specs.len();
			specs.push(Spec { verify_sig: true, ..one(format!("identification ends in {t:?}"), b"", &[b"SSH-2.0-", &t[..]].concat(), &done, i % 2 == 0, false) });
		}
	}
	rep.wide("every short text before and every short end of the line", specs, 0);
	// Many lines and long ones.
	let mut specs = vec![];
	for n in [3usize, 4, 8, 16, 32, 33, 64, 100, 128, 255, 256, 257, 500, 1000, 1025, 2049, 4097, 10_000] {
		for l in ["", "x", "SSH", "hello there"] {
			specs.push(one(format!("{n} lines {l:?} before"), format!("{l}\r\n").repeat(n).as_bytes(), b"SSH-2.0-y", &done, n % 2 == 0, false));
			specs.push(one(format!("{n} lines {l:?} before a bad one"), format!("{l}\r\n").repeat(n).as_bytes(), b"SSH-1.5-y", &rej, n % 2 == 0, false));
		}
	}
	for n in [1000usize, 1024, 4096, 8191, 8192, 8193, 16384, 32768, 35000, 65535, 65536, 65537, 100000] {
		specs.push(one(format!("a line of {n} before"), &[&vec![b'S'; n][..], b"\r\n"].concat(), b"SSH-2.0-y", &done, n % 2 == 0, false));
	}
	rep.wide("many lines and long lines before", specs, 0);
	// One character changed at every place of the prefix.
	let mut specs = vec![];
	for i in 4..8 {
		for c in 0..=255u8 {
			let mut x = b"SSH-2.0-x".to_vec();
			x[i] = c;
			let ok = x == b"SSH-2.0-x";
			specs.push(one(format!("byte {i} of the version is {c}"), b"", &x, if ok { &done } else { &rej }, true, false));
		}
	}
	// A changed character in "SSH-" makes it another line, which is skipped.
	for i in 0..4 {
		for c in 0..=255u8 {
			let mut x = b"SSH-2.0-x\r\n".to_vec();
			x[i] = c;
			if x.starts_with(b"SSH-") || c == b'\n' || c == b'\r' {
				continue;
			}
			specs.push(one(format!("byte {i} of the line before is {c}"), &x, b"SSH-2.0-y", &done, true, false));
		}
	}
	for n in 8..=253 {
		specs.push(one(format!("identification of {n} characters"), b"", &long(n), &done, n % 2 == 0, false));
	}
	for n in 254..=700 {
		specs.push(one(format!("identification of {n} characters"), b"", &long(n), &rej, n % 2 == 0, false));
	}
	rep.wide("every version byte and every length", specs, 0);
	// No line end at all: an over-long line must not be awaited for ever.
	let mut specs = vec![];
	for n in [256usize, 300, 1000, 70000] {
		let c = ConnSpec { hs: HsSpec { raw: Some(vec![long(n)]), ..Default::default() }, ..Default::default() };
		specs.push(Spec { verify_sig: false, ..spec(format!("{n} bytes without end of line"), vec![c], rej.clone()) });
	}
	// Nothing or not enough yet: the server has spoken and waits.
	let wait = chk(|w| {
		w.alive()?;
		if w.conns[0].client.phase == Phase::Ident {
			return Err("no identification line from the server".into());
		}
		no_reply(w)?;
		if w.conns[0].gone() {
			return Err("the connection was closed while the identification line was still coming".into());
		}
		Ok(())
	});
	for n in 0..=11 {
		let part = b"SSH-2.0-ref\r\n"[..n].to_vec();
		let c = ConnSpec { hs: HsSpec { raw: Some(if n == 0 { vec![] } else { vec![part] }), ..Default::default() }, ..Default::default() };
		specs.push(Spec { verify_sig: false, ..spec(format!("{n} bytes of the line so far"), vec![c], wait.clone()) });
	}
	rep.wide("unfinished lines", specs, 0);
	// All cuts.
	let mut specs = vec![];
	for (pre, g) in [(&b""[..], &b"SSH-2.0-ref"[..]), (b"\r\n\r\n", b"SSH-2.0-r"), (b"hello\r\nSSH\r\n", b"SSH-2.0-a\rb"), (b"SSHx\r\n", b"SSH-2.0-")] {
		for at in 1..pre.len() + g.len() + 6 {
			for b in at..pre.len() + g.len() + 6 {
				let mut s = one(format!("{} then {} cut at {at} and {b}", show(pre), show(g)), pre, g, &done, true, false);
				s.conns[0].cuts = vec![at, b];
				specs.push(s);
			}
		}
	}
	rep.wide("every pair of cuts of the identification lines", specs, 0);
	let mut specs = vec![];
	for (pre, g, c) in [(&b"x\r\n"[..], &b"SSH-2.0-ref"[..], &done), (b"\r\nSSH\r\n", b"SSH-2.0-r", &done), (b"a\r\n", b"SSH-1.99-x", &rej)] {
		for burst in [false, true] {
			let mut s = one(format!("{} then {}, burst {burst}, schedules", show(pre), show(g)), pre, g, c, burst, false);
			s.choices = Choices { seg: true, write: true, sched: true, ..Choices::NONE };
			s.conns[0].script.insert(0, Act::Enable);
			specs.push(s);
		}
	}
	let bound = rep.by(2, 3);
	rep.deep(specs, bound);
	rep.rules.push(
		"An execution runs the real server against a client that sends an enumerated sequence of lines, then an identification line, \
		 and (when that is valid) goes on through the handshake, whose exchange hash covers that line. The verdict follows the \
		 definition: the first CR LF terminated line starting with SSH- decides."
			.into(),
	);
}
