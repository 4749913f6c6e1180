//! C01 and C02: the wire format of every message, against a grammar written from the RFCs.

use crate::refssh::{hex, mpint_body, sign_data, R, W};
use crate::report::Rep;
use nora_ssh_core::data::{AsciiStr, NameList};
use nora_ssh_core::message::channel::session::{SessionRequest, Signal};
use nora_ssh_core::message::channel::{self as ch, OpenFailureReason};
use nora_ssh_core::message::key_exchange::ecdh::{Key, KeyBlob, Signature, SignatureBlob};
use nora_ssh_core::message::userauth::{self as ua, Method};
use nora_ssh_core::message::*;

// ------------------------------------------------------------------ grammar

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum F {
	U32,
	Bool,
	/// Arbitrary byte string.
	Str,
	Utf8,
	Ascii,
	Names,
	/// 16 bytes without length.
	Cookie,
	/// Everything that is left.
	Rest,
	/// A uint32 that must be zero.
	Zero,
	/// Anything, unless the first field says "session": data specific to the channel type, which is not kept.
	OpenRest,
	/// A string with this content.
	Lit(&'static str),
	/// A boolean with this value.
	Is(bool),
	/// A string that is not one of the method names the grammar knows.
	OtherMethod,
	/// string { string, string, string }
	Key,
	/// string { string, string { mpint, mpint } }
	Sig,
}
use F::*;

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum V {
	U(u32),
	B(bool),
	S(Vec<u8>),
	L(Vec<Vec<u8>>),
}

pub struct Kind {
	pub name: &'static str,
	pub ty: u8,
	pub fields: &'static [F],
}

macro_rules! kinds { ($($n:literal $t:literal [$($f:expr),*])*) => { &[$(Kind { name: $n, ty: $t, fields: &[$($f),*] }),*] } }

pub const KINDS: &[Kind] = kinds! {
	"disconnect" 1 [U32, Str, Str]
	"ignore" 2 [Str]
	"unimplemented" 3 [U32]
	"debug" 4 [Bool, Utf8, Str]
	"service-request" 5 [Str]
	"service-accept" 6 [Str]
	"kexinit" 20 [Cookie, Names, Names, Names, Names, Names, Names, Names, Names, Names, Names, Bool, Zero]
	"newkeys" 21 []
	"ecdh-init" 30 [Str]
	"ecdh-reply" 31 [Key, Str, Sig]
	"auth-none" 50 [Str, Str, Lit("none")]
	"auth-pk-query" 50 [Str, Str, Lit("publickey"), Is(false), Str, Str]
	"auth-pk-signed" 50 [Str, Str, Lit("publickey"), Is(true), Str, Str, Str]
	"auth-password" 50 [Str, Str, Lit("password"), Is(false), Str]
	"auth-password-renew" 50 [Str, Str, Lit("password"), Is(true), Str, Str]
	"auth-hostbased" 50 [Str, Str, Lit("hostbased"), Str, Str, Ascii, Utf8, Str]
	"auth-other" 50 [Str, Str, OtherMethod, Rest]
	"auth-failure" 51 [Names, Bool]
	"auth-success" 52 []
	"auth-banner" 53 [Str, Str]
	"auth-pk-ok" 60 [Str, Str]
	"open" 90 [Str, U32, U32, U32, OpenRest]
	"open-confirm" 91 [U32, U32, U32, U32, Rest]
	"open-failure" 92 [U32, U32, Utf8, Str]
	"window-adjust" 93 [U32, U32]
	"data" 94 [U32, Str]
	"extended-data" 95 [U32, U32, Str]
	"eof" 96 [U32]
	"close" 97 [U32]
	"request" 98 [U32, Str, Bool, Rest]
	"success" 99 [U32]
	"failure" 100 [U32]
};

/// Session requests: the name stands in the channel request, the fields are its data.
pub const SESSION: &[Kind] = kinds! {
	"pty-req" 0 [Str, U32, U32, U32, U32, Str]
	"x11-req" 0 [Bool, Str, Str, U32]
	"env" 0 [Str, Str]
	"shell" 0 []
	"exec" 0 [Str]
	"subsystem" 0 [Str]
	"window-change" 0 [U32, U32, U32, U32]
	"xon-xoff" 0 [Bool]
	"signal" 0 [Str]
	"exit-status" 0 [U32]
	"exit-signal" 0 [Str, Bool, Utf8, Str]
};

const METHODS: [&str; 4] = ["none", "publickey", "password", "hostbased"];
const SIGNALS: [&str; 13] =
	["ABRT", "ALRM", "FPE", "HUP", "ILL", "INT", "KILL", "PIPE", "QUIT", "SEGV", "TERM", "USR1", "USR2"];

pub fn names_ok(b: &[u8]) -> bool {
	b.iter().all(|c| *c < 128) && (b.is_empty() || b.split(|c| *c == b',').all(|n| !n.is_empty()))
}

pub fn encode(k: &Kind, v: &[V]) -> Vec<u8> {
	let mut w = if k.ty == 0 { W::default() } else { W::new(k.ty) };
	let mut v = v.iter();
	for f in k.fields {
		w = match f {
			Lit(s) => w.s(s),
			Is(b) => w.bool(*b),
			Zero => w.u32(0),
			OpenRest => w,
			_ => match (f, v.next().unwrap()) {
				(U32, V::U(n)) => w.u32(*n),
				(Bool, V::B(b)) => w.bool(*b),
				(Cookie, V::S(s)) | (Rest, V::S(s)) => w.raw(s),
				(Key, V::L(l)) => w.s(W::default().s(&l[0]).s(&l[1]).s(&l[2]).done()),
				(Sig, V::L(l)) => w.s(W::default().s(&l[0]).s(W::default().mpint(&l[1]).mpint(&l[2]).done()).done()),
				(_, V::S(s)) => w.s(s),
				x => panic!("HARNESS: bad value {x:?}"),
			},
		};
	}
	w.done()
}

/// What a byte string is.
#[derive(Debug, PartialEq)]
pub enum P {
	No,
	Yes(&'static str, Vec<V>),
	/// Carries an mpint that is negative or has superfluous leading bytes; a parser may take it or not.
	Either,
}

fn fields(k: &Kind, data: &[u8]) -> Option<(Vec<V>, bool)> {
	let mut r = R(data);
	let mut out = vec![];
	let mut odd = false;
	for f in k.fields {
		match f {
			U32 => out.push(V::U(r.u32()?)),
			Bool => out.push(V::B(r.u8()? != 0)),
			Is(b) => {
				if (r.u8()? != 0) != *b {
					return None;
				}
			}
			Zero => {
				if r.u32()? != 0 {
					return None;
				}
			}
			Lit(s) => {
				if r.s()? != s.as_bytes() {
					return None;
				}
			}
			Cookie => {
				if r.0.len() < 16 {
					return None;
				}
				let (a, b) = r.0.split_at(16);
				r.0 = b;
				out.push(V::S(a.to_vec()));
			}
			OpenRest => {
				if out.first() != Some(&V::S(b"session".to_vec())) {
					r.0 = &[];
				}
			}
			Rest => {
				out.push(V::S(r.0.to_vec()));
				r.0 = &[];
			}
			Str => out.push(V::S(r.s()?.to_vec())),
			OtherMethod => {
				let s = r.s()?;
				if METHODS.iter().any(|m| m.as_bytes() == s) {
					return None;
				}
				out.push(V::S(s.to_vec()));
			}
			Utf8 => {
				let s = r.s()?;
				if !utf8(s) {
					return None;
				}
				out.push(V::S(s.to_vec()));
			}
			Ascii => {
				let s = r.s()?;
				if s.iter().any(|c| *c > 127) {
					return None;
				}
				out.push(V::S(s.to_vec()));
			}
			Names => {
				let s = r.s()?;
				if !names_ok(s) {
					return None;
				}
				out.push(V::S(s.to_vec()));
			}
			Key => {
				let mut s = R(r.s()?);
				let l = vec![s.s()?.to_vec(), s.s()?.to_vec(), s.s()?.to_vec()];
				s.end()?;
				out.push(V::L(l));
			}
			Sig => {
				let mut s = R(r.s()?);
				let name = s.s()?.to_vec();
				let mut b = R(s.s()?);
				s.end()?;
				let (x, y) = (b.s()?, b.s()?);
				b.end()?;
				odd |= [x, y].iter().any(|i| mpint_body(i) != **i);
				out.push(V::L(vec![name, strip(x), strip(y)]));
			}
		}
	}
	r.end()?;
	Some((out, odd))
}

fn strip(b: &[u8]) -> Vec<u8> {
	b[b.iter().position(|c| *c != 0).unwrap_or(b.len())..].to_vec()
}

/// UTF-8 by its definition (RFC 3629), not by the standard library.
fn utf8(mut b: &[u8]) -> bool {
	while let Some(&c) = b.first() {
		let (n, min) = match c {
			0..=0x7f => (0, 0),
			0xc0..=0xdf => (1, 0x80),
			0xe0..=0xef => (2, 0x800),
			0xf0..=0xf7 => (3, 0x10000),
			_ => return false,
		};
		if b.len() < n + 1 {
			return false;
		}
		let mut v = if n == 0 { c as u32 } else { c as u32 & (0x3f >> n) };
		for &t in &b[1..=n] {
			if t & 0xc0 != 0x80 {
				return false;
			}
			v = v << 6 | (t & 0x3f) as u32;
		}
		if v < min || v > 0x10ffff || (0xd800..0xe000).contains(&v) {
			return false;
		}
		b = &b[n + 1..];
	}
	true
}

pub fn ref_parse(data: &[u8]) -> P {
	let ty = match data.first() {
		None => return P::No,
		Some(t) => *t,
	};
	for k in KINDS.iter().filter(|k| k.ty == ty) {
		if let Some((v, odd)) = fields(k, &data[1..]) {
			return if odd { P::Either } else { P::Yes(k.name, v) };
		}
	}
	P::No
}

fn ref_session(ty: &[u8], data: &[u8]) -> P {
	for k in SESSION.iter().filter(|k| k.name.as_bytes() == ty) {
		if let Some((v, _)) = fields(k, data) {
			return P::Yes(k.name, v);
		}
	}
	P::No
}

// ------------------------------------------------------------------ the implementation's values

fn s(v: &V) -> &[u8] {
	match v {
		V::S(s) => s,
		_ => panic!("HARNESS: not a string"),
	}
}
fn u(v: &V) -> u32 {
	match v {
		V::U(u) => *u,
		_ => panic!("HARNESS: not a number"),
	}
}
fn b(v: &V) -> bool {
	match v {
		V::B(b) => *b,
		_ => panic!("HARNESS: not a boolean"),
	}
}
fn l(v: &V, i: usize) -> &[u8] {
	match v {
		V::L(l) => &l[i],
		_ => panic!("HARNESS: not a list"),
	}
}
fn st(v: &V) -> &str {
	std::str::from_utf8(s(v)).unwrap()
}
fn nl(v: &V) -> NameList<'_> {
	NameList::try_from(s(v)).expect("a valid name list is refused")
}

fn make<'a>(k: &str, v: &'a [V]) -> Message<'a> {
	let auth = |v: &'a [V], method| Message::UserAuth(UserAuth::Request(ua::Request { user: s(&v[0]), service: s(&v[1]), method }));
	match k {
		"disconnect" => Message::Disconnect(Disconnect { reason: u(&v[0]), description: s(&v[1]), language: s(&v[2]) }),
		"ignore" => Message::Ignore(Ignore { data: s(&v[0]) }),
		"unimplemented" => Message::Unimplemented(Unimplemented { sequence_number: u(&v[0]) }),
		"debug" => Message::Debug(Debug { always_display: b(&v[0]), message: st(&v[1]), language: s(&v[2]) }),
		"service-request" => Message::ServiceRequest(ServiceRequest::new(s(&v[0]))),
		"service-accept" => Message::ServiceAccept(ServiceAccept::new(s(&v[0]))),
		"kexinit" => Message::KeyExchangeInit(KeyExchangeInit {
			cookie: s(&v[0]).try_into().unwrap(),
			kex_algorithms: nl(&v[1]),
			server_host_key_algorithms: nl(&v[2]),
			encryption_algorithms_client_to_server: nl(&v[3]),
			encryption_algorithms_server_to_client: nl(&v[4]),
			mac_algorithms_client_to_server: nl(&v[5]),
			mac_algorithms_server_to_client: nl(&v[6]),
			compression_algorithms_client_to_server: nl(&v[7]),
			compression_algorithms_server_to_client: nl(&v[8]),
			languages_client_to_server: nl(&v[9]),
			languages_server_to_client: nl(&v[10]),
			first_kex_packet_follows: b(&v[11]),
		}),
		"newkeys" => Message::NewKeys(NewKeys),
		"ecdh-init" => Message::KeyExchangeEcdhInit(KeyExchangeEcdhInit { client_ephermal_public_key: s(&v[0]) }),
		"ecdh-reply" => Message::KeyExchangeEcdhReply(KeyExchangeEcdhReply {
			server_public_key: Key { name: l(&v[0], 0), blob: KeyBlob { identifier: l(&v[0], 1), q: l(&v[0], 2) } },
			server_ephermal_public_key: s(&v[1]),
			exchange_hash_signature: Signature { name: l(&v[2], 0), blob: SignatureBlob { r: l(&v[2], 1), s: l(&v[2], 2) } },
		}),
		"auth-none" => auth(v, Method::None),
		"auth-pk-query" => auth(v, Method::PublicKeyBlob { algorithm: s(&v[2]), blob: s(&v[3]) }),
		"auth-pk-signed" => auth(v, Method::PublicKeySigned { algorithm: s(&v[2]), key: s(&v[3]), signature: s(&v[4]) }),
		"auth-password" => auth(v, Method::Password { password: s(&v[2]) }),
		"auth-password-renew" => auth(v, Method::PasswordRenew { old_password: s(&v[2]), new_password: s(&v[3]) }),
		"auth-hostbased" => auth(
			v,
			Method::HostBased {
				algorithm: s(&v[2]),
				key_and_certificates: s(&v[3]),
				host_name: AsciiStr::try_from(s(&v[4])).expect("an ASCII string is refused"),
				user_name: st(&v[5]),
				signature: s(&v[6]),
			},
		),
		"auth-other" => auth(v, Method::Other { method: s(&v[2]), data: s(&v[3]) }),
		"auth-failure" => {
			Message::UserAuth(UserAuth::Failure(ua::Failure { alternative_methods: nl(&v[0]), partial_success: b(&v[1]) }))
		}
		"auth-success" => Message::UserAuth(UserAuth::Success(ua::Success)),
		"auth-banner" => Message::UserAuth(UserAuth::Banner(ua::Banner { message: s(&v[0]), language: s(&v[1]) })),
		"auth-pk-ok" => Message::UserAuth(UserAuth::PublicKeyOk(ua::PublicKeyOk { algorithm: s(&v[0]), blob: s(&v[1]) })),
		"open" => Message::Channel(Channel::Open(ch::Open {
			ty: s(&v[0]),
			sender_channel: u(&v[1]),
			window_size: u(&v[2]),
			max_packet_size: u(&v[3]),
		})),
		"open-confirm" => Message::Channel(Channel::OpenConfirmation(ch::OpenConfirmation {
			recipient_channel: u(&v[0]),
			sender_channel: u(&v[1]),
			window_size: u(&v[2]),
			max_packet_size: u(&v[3]),
			data: s(&v[4]),
		})),
		"open-failure" => Message::Channel(Channel::OpenFailure(ch::OpenFailure {
			recipient_channel: u(&v[0]),
			reason: match u(&v[1]) {
				1 => OpenFailureReason::AdminstrativelyProhibited,
				2 => OpenFailureReason::ConnectFailed,
				3 => OpenFailureReason::UnknownChannelType,
				4 => OpenFailureReason::ResourceShortage,
				n => OpenFailureReason::Other(n),
			},
			description: st(&v[2]),
			language: s(&v[3]),
		})),
		"window-adjust" => {
			Message::Channel(Channel::WindowAdjust(ch::WindowAdjust { recipient_channel: u(&v[0]), add_bytes: u(&v[1]) }))
		}
		"data" => Message::Channel(Channel::Data(ch::Data { recipient_channel: u(&v[0]), data: s(&v[1]) })),
		"extended-data" => Message::Channel(Channel::ExtendedData(ch::ExtendedData {
			recipient_channel: u(&v[0]),
			ty: u(&v[1]),
			data: s(&v[2]),
		})),
		"eof" => Message::Channel(Channel::Eof(ch::Eof { recipient_channel: u(&v[0]) })),
		"close" => Message::Channel(Channel::Close(ch::Close { recipient_channel: u(&v[0]) })),
		"request" => Message::Channel(Channel::Request(ch::Request {
			recipient_channel: u(&v[0]),
			ty: s(&v[1]),
			want_reply: b(&v[2]),
			data: s(&v[3]),
		})),
		"success" => Message::Channel(Channel::Success(ch::Success { recipient_channel: u(&v[0]) })),
		"failure" => Message::Channel(Channel::Failure(ch::Failure { recipient_channel: u(&v[0]) })),
		_ => panic!("HARNESS: unknown kind"),
	}
}

fn vs(s: &[u8]) -> V {
	V::S(s.to_vec())
}
fn vn(n: &NameList<'_>) -> V {
	vs(<&[u8]>::from(*n))
}

fn unmake(m: Message<'_>) -> (&'static str, Vec<V>) {
	use V::{B, U};
	match m {
		Message::Disconnect(d) => ("disconnect", vec![U(d.reason), vs(d.description), vs(d.language)]),
		Message::Ignore(d) => ("ignore", vec![vs(d.data)]),
		Message::Unimplemented(d) => ("unimplemented", vec![U(d.sequence_number)]),
		Message::Debug(d) => ("debug", vec![B(d.always_display), vs(d.message.as_bytes()), vs(d.language)]),
		Message::ServiceRequest(d) => ("service-request", vec![vs(d.into())]),
		Message::ServiceAccept(d) => ("service-accept", vec![vs(d.into())]),
		Message::KeyExchangeInit(k) => (
			"kexinit",
			vec![
				vs(k.cookie),
				vn(&k.kex_algorithms),
				vn(&k.server_host_key_algorithms),
				vn(&k.encryption_algorithms_client_to_server),
				vn(&k.encryption_algorithms_server_to_client),
				vn(&k.mac_algorithms_client_to_server),
				vn(&k.mac_algorithms_server_to_client),
				vn(&k.compression_algorithms_client_to_server),
				vn(&k.compression_algorithms_server_to_client),
				vn(&k.languages_client_to_server),
				vn(&k.languages_server_to_client),
				B(k.first_kex_packet_follows),
			],
		),
		Message::NewKeys(_) => ("newkeys", vec![]),
		Message::KeyExchangeEcdhInit(k) => ("ecdh-init", vec![vs(k.client_ephermal_public_key)]),
		Message::KeyExchangeEcdhReply(k) => {
			let (p, g) = (k.server_public_key, k.exchange_hash_signature);
			(
				"ecdh-reply",
				vec![
					V::L(vec![p.name.to_vec(), p.blob.identifier.to_vec(), p.blob.q.to_vec()]),
					vs(k.server_ephermal_public_key),
					V::L(vec![g.name.to_vec(), strip(g.blob.r), strip(g.blob.s)]),
				],
			)
		}
		Message::UserAuth(UserAuth::Request(r)) => {
			let mut v = vec![vs(r.user), vs(r.service)];
			let (n, w) = match r.method {
				Method::None => ("auth-none", vec![]),
				Method::PublicKeyBlob { algorithm, blob } => ("auth-pk-query", vec![vs(algorithm), vs(blob)]),
				Method::PublicKeySigned { algorithm, key, signature } => {
					("auth-pk-signed", vec![vs(algorithm), vs(key), vs(signature)])
				}
				Method::Password { password } => ("auth-password", vec![vs(password)]),
				Method::PasswordRenew { old_password, new_password } => {
					("auth-password-renew", vec![vs(old_password), vs(new_password)])
				}
				Method::HostBased { algorithm, key_and_certificates, host_name, user_name, signature } => (
					"auth-hostbased",
					vec![vs(algorithm), vs(key_and_certificates), vs(host_name.into()), vs(user_name.as_bytes()), vs(signature)],
				),
				Method::Other { method, data } => ("auth-other", vec![vs(method), vs(data)]),
			};
			v.extend(w);
			(n, v)
		}
		Message::UserAuth(UserAuth::Failure(f)) => ("auth-failure", vec![vn(&f.alternative_methods), B(f.partial_success)]),
		Message::UserAuth(UserAuth::Success(_)) => ("auth-success", vec![]),
		Message::UserAuth(UserAuth::Banner(f)) => ("auth-banner", vec![vs(f.message), vs(f.language)]),
		Message::UserAuth(UserAuth::PublicKeyOk(f)) => ("auth-pk-ok", vec![vs(f.algorithm), vs(f.blob)]),
		Message::Channel(c) => match c {
			Channel::Open(o) => ("open", vec![vs(o.ty), U(o.sender_channel), U(o.window_size), U(o.max_packet_size)]),
			Channel::OpenConfirmation(o) => (
				"open-confirm",
				vec![U(o.recipient_channel), U(o.sender_channel), U(o.window_size), U(o.max_packet_size), vs(o.data)],
			),
			Channel::OpenFailure(o) => (
				"open-failure",
				vec![
					U(o.recipient_channel),
					U(match o.reason {
						OpenFailureReason::AdminstrativelyProhibited => 1,
						OpenFailureReason::ConnectFailed => 2,
						OpenFailureReason::UnknownChannelType => 3,
						OpenFailureReason::ResourceShortage => 4,
						OpenFailureReason::Other(n) if (1..=4).contains(&n) => 0xbad00000 + n,
						OpenFailureReason::Other(n) => n,
					}),
					vs(o.description.as_bytes()),
					vs(o.language),
				],
			),
			Channel::WindowAdjust(o) => ("window-adjust", vec![U(o.recipient_channel), U(o.add_bytes)]),
			Channel::Data(o) => ("data", vec![U(o.recipient_channel), vs(o.data)]),
			Channel::ExtendedData(o) => ("extended-data", vec![U(o.recipient_channel), U(o.ty), vs(o.data)]),
			Channel::Eof(o) => ("eof", vec![U(o.recipient_channel)]),
			Channel::Close(o) => ("close", vec![U(o.recipient_channel)]),
			Channel::Request(o) => ("request", vec![U(o.recipient_channel), vs(o.ty), B(o.want_reply), vs(o.data)]),
			Channel::Success(o) => ("success", vec![U(o.recipient_channel)]),
			Channel::Failure(o) => ("failure", vec![U(o.recipient_channel)]),
		},
	}
}

fn signal(v: &[u8]) -> Signal<'_> {
	use Signal::*;
	let all = [
		Abort, Alarm, FloatingPointException, Hangup, Illegal, Interrupt, Kill, Pipe, Quit, SegmentationFault, Terminate,
		User1, User2,
	];
	SIGNALS.iter().position(|n| n.as_bytes() == v).map_or(Other(v), |i| all[i])
}
fn unsignal(g: Signal<'_>) -> V {
	use Signal::*;
	let i = match g {
		Abort => 0,
		Alarm => 1,
		FloatingPointException => 2,
		Hangup => 3,
		Illegal => 4,
		Interrupt => 5,
		Kill => 6,
		Pipe => 7,
		Quit => 8,
		SegmentationFault => 9,
		Terminate => 10,
		User1 => 11,
		User2 => 12,
		Other(o) if SIGNALS.iter().any(|n| n.as_bytes() == o) => return vs(b"a known signal parsed as another"),
		Other(o) => return vs(o),
	};
	vs(SIGNALS[i].as_bytes())
}

fn make_session<'a>(k: &str, v: &'a [V]) -> SessionRequest<'a> {
	match k {
		"pty-req" => SessionRequest::Pty {
			terminal: s(&v[0]),
			char_width: u(&v[1]),
			char_height: u(&v[2]),
			pixel_width: u(&v[3]),
			pixel_height: u(&v[4]),
			modes: s(&v[5]),
		},
		"x11-req" => SessionRequest::X11 {
			single_connection: b(&v[0]),
			auth_protocol: s(&v[1]),
			auth_cookie: s(&v[2]),
			screen: u(&v[3]),
		},
		"env" => SessionRequest::Env { name: s(&v[0]), value: s(&v[1]) },
		"shell" => SessionRequest::Shell,
		"exec" => SessionRequest::Exec { command: s(&v[0]) },
		"subsystem" => SessionRequest::Subsystem { name: s(&v[0]) },
		"window-change" => SessionRequest::WindowChange {
			char_width: u(&v[0]),
			char_height: u(&v[1]),
			pixel_width: u(&v[2]),
			pixel_height: u(&v[3]),
		},
		"xon-xoff" => SessionRequest::XonXoff { on: b(&v[0]) },
		"signal" => SessionRequest::Signal { signal: signal(s(&v[0])) },
		"exit-status" => SessionRequest::ExitStatus { status: u(&v[0]) },
		"exit-signal" => SessionRequest::ExitSignal {
			signal: signal(s(&v[0])),
			core_dumped: b(&v[1]),
			message: st(&v[2]),
			language: s(&v[3]),
		},
		_ => panic!("HARNESS: unknown kind"),
	}
}

fn unmake_session(m: SessionRequest<'_>) -> (&'static str, Vec<V>) {
	use V::{B, U};
	match m {
		SessionRequest::Pty { terminal, char_width, char_height, pixel_width, pixel_height, modes } => (
			"pty-req",
			vec![vs(terminal), U(char_width), U(char_height), U(pixel_width), U(pixel_height), vs(modes)],
		),
		SessionRequest::X11 { single_connection, auth_protocol, auth_cookie, screen } => {
			("x11-req", vec![B(single_connection), vs(auth_protocol), vs(auth_cookie), U(screen)])
		}
		SessionRequest::Env { name, value } => ("env", vec![vs(name), vs(value)]),
		SessionRequest::Shell => ("shell", vec![]),
		SessionRequest::Exec { command } => ("exec", vec![vs(command)]),
		SessionRequest::Subsystem { name } => ("subsystem", vec![vs(name)]),
		SessionRequest::WindowChange { char_width, char_height, pixel_width, pixel_height } => {
			("window-change", vec![U(char_width), U(char_height), U(pixel_width), U(pixel_height)])
		}
		SessionRequest::XonXoff { on } => ("xon-xoff", vec![B(on)]),
		SessionRequest::Signal { signal } => ("signal", vec![unsignal(signal)]),
		SessionRequest::ExitStatus { status } => ("exit-status", vec![U(status)]),
		SessionRequest::ExitSignal { signal, core_dumped, message, language } => {
			("exit-signal", vec![unsignal(signal), B(core_dumped), vs(message.as_bytes()), vs(language)])
		}
	}
}

// ------------------------------------------------------------------ enumeration of values

/// The values a field is tried with; the first two are the base values.
fn alphabet(k: &Kind, f: F, deep: bool) -> Vec<V> {
	let strs = |l: &[&[u8]]| l.iter().map(|s| vs(s)).collect::<Vec<_>>();
	let long = |n: usize| V::S((0..n).map(|i| b'a' + (i % 26) as u8).collect());
	match f {
		U32 => {
			let mut v: Vec<u32> = vec![5, 0x01020304, 0, 1, 2, 3, 4, 0x7fffffff, 0x80000000, 0xffffffff, 0xff, 0x100, 0xffff, 0x10000];
			if deep {
				v.extend((0..32).map(|i| 1 << i));
				v.extend((1..32).map(|i| (1u32 << i) - 1));
			}
			v.into_iter().map(V::U).collect()
		}
		Bool => vec![V::B(false), V::B(true)],
		Cookie => strs(&[b"0123456789abcdef", &[0; 16], &[255; 16]]),
		Rest => {
			let mut v = strs(&[b"", b"\0\0\0\x01x", b"\0", b"\xff", b"\0\0\0\0", b"rest of it"]);
			v.push(long(255));
			v.push(long(256));
			if deep {
				for n in [1023, 1024, 4096, 32767, 32768, 65535, 65536] {
					v.push(long(n));
				}
			}
			v
		}
		Str | OtherMethod => {
			let mut v = strs(&[
				b"one", b"", b"\0", b"\xff\xfe", b"\xc3\x28", b",", b"a,,b", b"\0\0\0\x04abcd", b"\r\n", b"\x80", b"None", b"publicke",
				b"passwordd",
			]);
			if f == Str && (k.name == "signal" || k.name == "exit-signal") {
				v.extend(SIGNALS.iter().map(|n| vs(n.as_bytes())));
				v.extend(strs(&[b"abrt", b"KIL", b"KILLL", b"USR3"]));
			}
			if f == Str && k.ty == 98 {
				v.extend(SESSION.iter().map(|n| vs(n.name.as_bytes())));
			}
			if f == Str && k.ty == 90 {
				v.extend(strs(&[b"session", b"sessio", b"sessions", b"Session", b"direct-tcpip"]));
			}
			if f == Str && k.ty == 50 {
				v.extend(METHODS.iter().map(|n| vs(n.as_bytes())));
			}
			for n in [127, 128, 252, 253, 254, 255, 256, 257, 300] {
				v.push(long(n));
			}
			if deep {
				for n in [1023, 1024, 4096, 16383, 16384, 32767, 32768, 65535, 65536, 70000] {
					v.push(long(n));
				}
			}
			v
		}
		Utf8 => {
			let mut v: Vec<V> = ["one", "", "\0", "\u{7f}", "\u{80}", "\u{7ff}", "\u{800}", "\u{ffff}", "\u{10000}", "\u{10ffff}", "\u{d7ff}", "\u{e000}", "a\u{e9}b"]
				.iter()
				.map(|s| vs(s.as_bytes()))
				.collect();
			v.push(long(255));
			v.push(long(256));
			if deep {
				for n in [1023, 1024, 4096, 32767, 32768, 65535, 65536] {
					v.push(long(n));
				}
			}
			v
		}
		Ascii => {
			let mut v = strs(&[b"one", b"", b"\0", b"\x7f", b","]);
			v.push(long(255));
			v.push(long(256));
			if deep {
				for n in [1023, 1024, 4096, 32767, 32768, 65535, 65536] {
					v.push(long(n));
				}
			}
			v
		}
		Names => {
			let mut v = strs(&[b"one", b"", b"one,two", b"a,b,c", b"\0", b"\x7f,\x01", b"curve25519-sha256,ext-info-c"]);
			v.push(long(255));
			v.push(long(256));
			if deep {
				for n in [1023, 1024, 4096, 32767, 32768, 65535, 65536] {
					v.push(long(n));
				}
			}
			v
		}
		Key => {
			let a = |x: &[u8], y: &[u8], z: &[u8]| V::L(vec![x.to_vec(), y.to_vec(), z.to_vec()]);
			vec![
				a(b"ecdsa-sha2-nistp256", b"nistp256", &[4; 65]),
				a(b"", b"", b""),
				a(b"a", b"", b""),
				a(b"", b"b", b""),
				a(b"", b"", b"c"),
				a(b"\0\0\0\x01", b"\xff", &[7; 255]),
				a(b"x", b"y", &[8; 256]),
				a(&[9; 256], b"y", b"z"),
				a(b"x", &[9; 256], b"z"),
			]
		}
		Sig => {
			let mut out = vec![];
			let ints: Vec<Vec<u8>> = vec![
				vec![0x12; 32],
				vec![0xf0; 32],
				vec![],
				vec![1],
				vec![0x7f],
				vec![0x80],
				vec![0xff],
				vec![1, 0],
				[vec![0x80], vec![0; 31]].concat(),
				vec![0x7f; 255],
				vec![0xff; 255],
				vec![0xff; 256],
			];
			for r in &ints {
				for t in &ints {
					out.push(V::L(vec![b"ecdsa-sha2-nistp256".to_vec(), r.clone(), t.clone()]));
				}
			}
			out.push(V::L(vec![vec![], vec![1], vec![2]]));
			out.push(V::L(vec![vec![1; 256], vec![1], vec![2]]));
			out
		}
		Zero | OpenRest | Lit(_) | Is(_) => vec![],
	}
}

/// Every assignment that differs from one of the two base assignments in at most `dev` fields.
pub fn values(k: &Kind, dev: usize, deep: bool) -> Vec<Vec<V>> {
	let al: Vec<Vec<V>> = k.fields.iter().map(|f| alphabet(k, *f, deep)).filter(|a| !a.is_empty()).collect();
	let mut out = vec![];
	let mut seen = std::collections::HashSet::new();
	for base in 0..2 {
		let start: Vec<V> = al.iter().map(|a| a[base].clone()).collect();
		fn rec(
			al: &[Vec<V>], at: usize, cur: &mut Vec<V>, dev: usize, out: &mut Vec<Vec<V>>, seen: &mut std::collections::HashSet<Vec<V>>,
		) {
			if seen.insert(cur.clone()) {
				out.push(cur.clone());
			}
			if dev == 0 {
				return;
			}
			for i in at..al.len() {
				let old = cur[i].clone();
				for v in &al[i] {
					if *v != old {
						cur[i] = v.clone();
						rec(al, i + 1, cur, dev - 1, out, seen);
					}
				}
				cur[i] = old;
			}
		}
		rec(&al, 0, &mut start.clone(), dev, &mut out, &mut seen);
	}
	out
}

// ------------------------------------------------------------------ C01

fn show(name: &str, v: &[V]) -> String {
	let f: Vec<String> = v
		.iter()
		.map(|v| match v {
			V::U(n) => format!("{n}"),
			V::B(b) => format!("{b}"),
			V::S(s) => format!("x'{}'", hex(&s[..s.len().min(40)])),
			V::L(l) => format!("{:?}", l.iter().map(|s| hex(&s[..s.len().min(40)])).collect::<Vec<_>>()),
		})
		.collect();
	format!("{name}({})", f.join(", "))
}

fn c01_one(k: &Kind, v: &[V], session: bool) -> Result<u64, String> {
	let want = encode(k, v);
	let mut calls = 0;
	let mut buf = vec![0xa5u8; want.len() + 3];
	// Every size for ordinary messages; around every field boundary and every 64th for the long ones.
	let sizes: Vec<usize> = if want.len() <= 400 {
		(0..=want.len() + 3).collect()
	} else {
		(0..=want.len() + 3).filter(|n| *n < 40 || *n + 40 > want.len() || n % (97 * (1 + want.len() / 10_000)) == 0).collect()
	};
	for n in sizes {
		let b = &mut buf[..n];
		b.fill(0xa5);
		let got: Option<Vec<u8>> = if session {
			match make_session(k.name, v).serialize(b) {
				None => None,
				Some((ty, n)) => {
					if ty != k.name.as_bytes() {
						return Err(format!("{} is named {:?}", show(k.name, v), String::from_utf8_lossy(ty)));
					}
					Some(b.get(..n).ok_or_else(|| format!("{}: returned size {n} is larger than the buffer", show(k.name, v)))?.to_vec())
				}
			}
		} else {
			make(k.name, v).serialize(b).map(|(a, r)| {
				assert_eq!(a.len() + r.len(), n, "the two halves of the buffer do not add up");
				a.to_vec()
			})
		};
		calls += 1;
		match got {
			None if n < want.len() => {}
			Some(g) if n >= want.len() && g == want => {}
			None => return Err(format!("{}: refused a buffer of {n} bytes although {} suffice", show(k.name, v), want.len())),
			Some(g) => {
				return Err(format!("{} into {n} bytes: got {}, the RFC encoding is {}", show(k.name, v), hex(&g), hex(&want)))
			}
		}
	}
	calls += 1;
	let back = if session {
		SessionRequest::parse(k.name.as_bytes(), &want).map(unmake_session).map_err(|e| format!("{e:?}"))
	} else {
		Message::parse(&want).map(unmake).map_err(|e| format!("{e:?}"))
	};
	match back {
		Ok((n, w)) if n == k.name && w == v => Ok(calls),
		Ok((n, w)) => Err(format!("{} was read back as {}", show(k.name, v), show(n, &w))),
		Err(e) => Err(format!("{} could not be parsed back from {}: {e}", show(k.name, v), hex(&want))),
	}
}

/// The encoded value must parse as itself in the grammar, or the harness is wrong.
fn sane(k: &Kind, v: &[V], session: bool) -> bool {
	let e = encode(k, v);
	let p = if session { ref_session(k.name.as_bytes(), &e) } else { ref_parse(&e) };
	p == P::Yes(k.name, v.to_vec())
}

pub fn c01(rep: &mut Rep) {
	let deep = true;
	for (session, kinds, label) in [(false, KINDS, "message values"), (true, SESSION, "session request values")] {
		let mut all = vec![];
		for (i, k) in kinds.iter().enumerate() {
			// Long strings one at a time, everything else in all combinations up to the bound.
			for v in values(k, 1, deep) {
				all.push((i, v));
			}
			let dev = rep.by(2, if k.fields.len() > 4 { 2 } else { 3 });
			for v in values(k, dev, false) {
				all.push((i, v));
			}
		}
		let n = all.len();
		rep.cases(label, (n + 63) / 64, |c| {
			let mut calls = 0;
			let part = &all[c * 64..((c + 1) * 64).min(n)];
			for (i, v) in part {
				if !sane(&kinds[*i], v, session) {
					return Err(format!("HARNESS: {} is ambiguous in the grammar", show(kinds[*i].name, v)));
				}
				calls += c01_one(&kinds[*i], v, session)?;
			}
			Ok((part.len() as u64, calls))
		});
	}
	// Every length of every string field.
	let top = rep.by(1100, 5000);
	let mut jobs = vec![];
	for (session, kinds) in [(false, KINDS), (true, SESSION)] {
		for k in kinds {
			for (fi, f) in k.fields.iter().filter(|f| !matches!(f, Lit(_) | Is(_) | Zero | OpenRest)).enumerate() {
				if matches!(f, Str | Utf8 | Ascii | Names | Rest | OtherMethod) {
					jobs.push((session, k, fi));
				}
			}
		}
	}
	rep.cases("every length of every string field", jobs.len(), |j| {
		let (session, k, fi) = jobs[j];
		let base: Vec<V> =
			k.fields.iter().map(|f| alphabet(k, *f, false)).filter(|a| !a.is_empty()).map(|a| a[0].clone()).collect();
		let mut calls = 0;
		let mut buf = vec![0u8; top + 2000];
		for n in 0..top {
			let mut v = base.clone();
			v[fi] = V::S(vec![b'k'; n]);
			let want = encode(k, &v);
			let (got, back) = if session {
				let (ty, n) = make_session(k.name, &v).serialize(&mut buf).ok_or("refused although it fits")?;
				(buf[..n].to_vec(), SessionRequest::parse(ty, &want).map(unmake_session).ok())
			} else {
				let g = make(k.name, &v).serialize(&mut buf).ok_or("refused although it fits")?.0.to_vec();
				(g, Message::parse(&want).map(unmake).ok())
			};
			calls += 2;
			if got != want {
				return Err(format!("{} with {n} bytes in field {fi}: {} instead of {}", k.name, hex(&got), hex(&want)));
			}
			if back.as_ref().map_or(true, |(n, w)| *n != k.name || *w != v) {
				return Err(format!("{} with {n} bytes in field {fi} is not read back", k.name));
			}
		}
		Ok((top as u64, calls))
	});
	// Data to be signed.
	let al: Vec<Vec<u8>> = vec![
		b"".to_vec(),
		b"x".to_vec(),
		vec![0],
		vec![0xff; 3],
		b"ssh-connection".to_vec(),
		vec![7; 32],
		vec![8; 255],
		vec![9; 256],
	];
	let m = al.len();
	rep.cases("data to be signed", m * m * m, |i| {
		let (a, b2, c) = (&al[i % m], &al[i / m % m], &al[i / m / m]);
		let mut calls = 0;
		let mut n = 0;
		for d in &al {
			for e in &al {
				let want = sign_data(a, b2, c, d, e);
				n += 1;
				let mut buf = vec![0xa5; want.len() + 2];
				let (lo, hi) = (want.len().saturating_sub(if i % 37 == 0 { want.len() } else { 5 }), want.len() + 2);
				for size in lo..=hi {
					calls += 1;
					let got = ua::format_sign_data(&mut buf[..size], a, b2, c, d, e);
					if got != if size >= want.len() { Some(&want[..]) } else { None } {
						return Err(format!(
							"format_sign_data with {} {} {} {} {} into {size} bytes gave {:?}",
							hex(a),
							hex(b2),
							hex(c),
							hex(d),
							hex(e),
							got.map(hex)
						));
					}
				}
			}
		}
		Ok((n, calls))
	});
	rep.rules.push(
		"A case is one message value (or one length of one of its fields); it is built with the crate's own types, serialized into \
		 buffers of every size and compared byte for byte with an encoder written from the RFCs, then parsed back and compared field by \
		 field. All assignments that differ from a base assignment in a bounded number of fields are taken, so every case is distinct."
			.into(),
	);
	rep.assumptions.push(
		"Values that alias another one on the wire (Other(\"none\"), Signal::Other(\"KILL\"), Other(1)) are not counted as values of \
		 their own."
			.into(),
	);
}

// ------------------------------------------------------------------ C02

fn c02_one(data: &[u8]) -> Result<(), String> {
	let want = ref_parse(data);
	let got = Message::parse(data).map(unmake);
	match (&want, &got) {
		(P::No, Err(_)) | (P::Either, _) => Ok(()),
		(P::Yes(n, v), Ok((m, w))) if n == m && v == w => Ok(()),
		(P::No, Ok((n, v))) => Err(format!("{} is not a well-formed message but was parsed as {}", hex(data), show(n, v))),
		(P::Yes(n, v), Ok((m, w))) => Err(format!("{} is {} but was parsed as {}", hex(data), show(n, v), show(m, w))),
		(P::Yes(n, v), Err(e)) => Err(format!("{} is {} but was refused: {e:?}", hex(data), show(n, v))),
	}
}

fn c02_session(ty: &[u8], data: &[u8]) -> Result<(), String> {
	let want = ref_session(ty, data);
	let got = SessionRequest::parse(ty, data).map(unmake_session);
	match (&want, &got) {
		(P::No, Err(_)) => Ok(()),
		(P::Yes(n, v), Ok((m, w))) if n == m && v == w => Ok(()),
		_ => Err(format!(
			"request {:?} with data {}: expected {want:?}, parsed as {:?}",
			String::from_utf8_lossy(ty),
			hex(data),
			got.map(|(n, v)| show(n, &v)).map_err(|e| format!("{e:?}"))
		)),
	}
}

/// All the damaged variants of one valid encoding.
fn mutants(e: &[u8], first: usize, pairs: bool, f: &mut dyn FnMut(&[u8]) -> Result<(), String>) -> Result<(), String> {
	for n in 0..=e.len() {
		f(&e[..n])?;
	}
	let mut x = e.to_vec();
	for t in [0u8, 1, 0x2c, 0x61, 0x80, 0xff] {
		x.push(t);
		f(&x)?;
		for t2 in [0u8, 0xff] {
			x.push(t2);
			f(&x)?;
			x.pop();
		}
		x.pop();
	}
	for i in 0..e.len() {
		for b in 0..=255 {
			x[i] = b;
			f(&x)?;
		}
		x[i] = e[i];
	}
	// Every four byte window as a length field.
	for i in first..e.len().saturating_sub(3) {
		let old = u32::from_be_bytes(e[i..i + 4].try_into().unwrap());
		let left = (e.len() - i - 4) as u32;
		let mut lens = vec![0, 1, 2, left, left + 1, left.wrapping_sub(1), left.wrapping_sub(4), old.wrapping_add(1), old.wrapping_sub(1), old.wrapping_add(4)];
		lens.extend([0x7fffffff, 0x80000000, 0xfffffffb, 0xfffffffc, 0xffffffff, 0x10000, 0x100]);
		for l in lens {
			x[i..i + 4].copy_from_slice(&l.to_be_bytes());
			f(&x)?;
			// Also with the following data shortened or lengthened to match.
			if l > old && l - old <= 4 {
				let mut y = x.clone();
				for _ in 0..l - old {
					y.insert((i + 4).min(y.len()), b'z');
				}
				f(&y)?;
			} else if l < old && old - l <= 4 && i + 4 + (old - l) as usize <= x.len() {
				let mut y = x.clone();
				y.drain(i + 4..i + 4 + (old - l) as usize);
				f(&y)?;
			}
		}
		x[i..i + 4].copy_from_slice(&e[i..i + 4]);
	}
	// One byte removed, one byte doubled.
	for i in 0..e.len() {
		let mut y = e.to_vec();
		y.remove(i);
		f(&y)?;
		let mut y = e.to_vec();
		y.insert(i, e[i]);
		f(&y)?;
	}
	if pairs {
		const A: [u8; 6] = [0, 1, 4, 0x2c, 0x7f, 0xff];
		for i in 0..e.len() {
			for j in i + 1..e.len() {
				for a in A {
					for b in A {
						x[i] = a;
						x[j] = b;
						f(&x)?;
					}
				}
				x[j] = e[j];
			}
			x[i] = e[i];
		}
	}
	Ok(())
}

pub fn c02(rep: &mut Rep) {
	let deep = !rep.quick();
	// All short byte strings.
	rep.cases("all byte strings of up to two bytes", 257, |i| {
		if i == 256 {
			c02_one(&[])?;
			return Ok((1, 1));
		}
		c02_one(&[i as u8])?;
		for b in 0..=255 {
			c02_one(&[i as u8, b])?;
		}
		Ok((257, 257))
	});
	const A: [u8; 7] = [0, 1, 2, 4, 0x2c, 0x61, 0xff];
	let depth = rep.by(6, 8);
	rep.cases(&format!("every type byte followed by all strings of up to {depth} letters over 7 bytes"), 256, |ty| {
		let known = KINDS.iter().any(|k| k.ty as usize == ty);
		let depth = if known { depth } else { 3 };
		let mut n = 0;
		let mut x = vec![ty as u8];
		fn rec(x: &mut Vec<u8>, d: usize, n: &mut u64) -> Result<(), String> {
			c02_one(x)?;
			*n += 1;
			if d > 0 {
				for a in A {
					x.push(a);
					rec(x, d - 1, n)?;
					x.pop();
				}
			}
			Ok(())
		}
		rec(&mut x, depth, &mut n)?;
		Ok((n, n))
	});
	// Structured: the empty-ish strings that make whole messages out of length fields.
	for (session, kinds, label) in [(false, KINDS, "damaged messages"), (true, SESSION, "damaged session requests")] {
		let mut all = vec![];
		for (i, k) in kinds.iter().enumerate() {
			let dev = if k.fields.len() > 8 { 1 } else { rep.by(1, 2) };
			for v in values(k, dev, false) {
				// Damage to long strings shows nothing that damage to short ones does not.
				let e = encode(k, &v);
				let cap = if k.name == "kexinit" || k.name == "ecdh-reply" { 280 } else { 90 };
				if e.len() <= cap {
					all.push((i, v));
				}
			}
		}
		let n = all.len();
		rep.cases(label, n, |c| {
			let (i, v) = &all[c];
			let k = &kinds[*i];
			let e = encode(k, v);
			let mut calls = 0;
			let pairs = e.len() <= if deep { 80 } else { 40 };
			if session {
				mutants(&e, 0, pairs, &mut |d| {
					calls += 1;
					c02_session(k.name.as_bytes(), d)
				})?;
			} else {
				mutants(&e, 1, pairs, &mut |d| {
					calls += 1;
					c02_one(d)
				})?;
			}
			Ok((calls, calls))
		});
	}
	// Text fields: all byte strings of up to four bytes over an alphabet that has every UTF-8 boundary.
	const U: [u8; 22] = [
		0, 0x2c, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xf8, 0xff,
	];
	let mut text = vec![];
	for (session, kinds) in [(false, KINDS), (true, SESSION)] {
		for k in kinds {
			for (fi, f) in k.fields.iter().filter(|f| !matches!(f, Lit(_) | Is(_) | Zero | OpenRest)).enumerate() {
				if matches!(f, Utf8 | Ascii | Names) {
					text.push((session, k, fi));
				}
			}
		}
	}
	let tl = rep.by(3, 4);
	rep.cases(&format!("all byte strings of up to {tl} bytes over {} in text fields", U.len()), text.len() * U.len(), |j| {
		let (session, k, fi) = text[j / U.len()];
		let first = U[j % U.len()];
		let base: Vec<V> =
			k.fields.iter().map(|f| alphabet(k, *f, false)).filter(|a| !a.is_empty()).map(|a| a[0].clone()).collect();
		let mut n = 0;
		let mut s = vec![first];
		fn rec(s: &mut Vec<u8>, d: usize, f: &mut dyn FnMut(&[u8]) -> Result<(), String>) -> Result<(), String> {
			f(s)?;
			if d > 0 {
				for a in U {
					s.push(a);
					rec(s, d - 1, f)?;
					s.pop();
				}
			}
			Ok(())
		}
		let tl = if k.name == "kexinit" { 2 } else { tl };
		rec(&mut s, tl - 1, &mut |t| {
			let mut v = base.clone();
			v[fi] = vs(t);
			n += 1;
			let e = encode(k, &v);
			if session {
				c02_session(k.name.as_bytes(), &e)
			} else {
				c02_one(&e)
			}
		})?;
		Ok((n, n))
	});
	// Long values, whole and one byte short or over.
	let mut all = vec![];
	for (session, kinds) in [(false, KINDS), (true, SESSION)] {
		for k in kinds {
			for v in values(k, 1, true) {
				all.push((session, k, v));
			}
		}
	}
	rep.cases("long values, whole, cut short and followed by more", all.len(), |j| {
		let (session, k, v) = &all[j];
		let e = encode(k, v);
		let one = |d: &[u8]| if *session { c02_session(k.name.as_bytes(), d) } else { c02_one(d) };
		one(&e)?;
		for n in 1..=5.min(e.len()) {
			one(&e[..e.len() - n])?;
			one(&[&e[..], &vec![0; n][..]].concat())?;
			one(&[&e[..], &vec![0x61; n][..]].concat())?;
		}
		Ok((16, 16))
	});
	// A bad byte anywhere in a longer text.
	let lens: Vec<usize> = if deep { (5..=70).chain([127, 128, 255, 256, 257, 513, 1025, 2050, 5000]).collect() } else { (5..=40).chain([64, 65, 127, 128, 255, 256, 257, 513, 1025, 2050]).collect() };
	rep.cases("one bad byte at every place of longer texts", text.len() * lens.len(), |j| {
		let (session, k, fi) = text[j / lens.len()];
		let len = lens[j % lens.len()];
		let mut v: Vec<V> =
			k.fields.iter().map(|f| alphabet(k, *f, false)).filter(|a| !a.is_empty()).map(|a| a[0].clone()).collect();
		let mut n = 0;
		for every in [0usize, 2, 7] {
			for at in 0..len {
				for b in [0xffu8, 0x80, 0xc3, b',', 0] {
					let mut s: Vec<u8> = (0..len).map(|i| if every > 0 && i % every == 1 && i + 1 < len { b',' } else { b'a' + (i % 26) as u8 }).collect();
					s[at] = b;
					v[fi] = V::S(s);
					let e = encode(k, &v);
					n += 1;
					if session {
						c02_session(k.name.as_bytes(), &e)?;
					} else {
						c02_one(&e)?;
					}
				}
			}
		}
		Ok((n, n))
	});
	// Names of requests and methods: everything one edit away.
	rep.cases("request and method names one edit away", SESSION.len() + METHODS.len(), |i| {
		let (name, body): (&str, Vec<Vec<u8>>) = if i < SESSION.len() {
			let k = &SESSION[i];
			(k.name, values(k, 0, false).iter().map(|v| encode(k, v)).collect())
		} else {
			let m = METHODS[i - SESSION.len()];
			let k = KINDS.iter().find(|k| k.fields.contains(&Lit(m))).unwrap();
			let e = values(k, 0, false).iter().map(|v| encode(k, v)).collect();
			(m, e)
		};
		let mut n = 0;
		let mut names = vec![vec![], name.as_bytes().to_vec()];
		for p in 0..=name.len() {
			for c in 0..=255u8 {
				let mut x = name.as_bytes().to_vec();
				x.insert(p, c);
				names.push(x);
				if p < name.len() {
					let mut x = name.as_bytes().to_vec();
					x[p] = c;
					names.push(x);
				}
			}
			names.push(name.as_bytes()[..p].to_vec());
			names.push(name.as_bytes()[p..].to_vec());
		}
		for x in names {
			for b in &body {
				n += 1;
				if i < SESSION.len() {
					c02_session(&x, b)?;
				} else {
					let mut r = R(&b[1..]);
					let (u, sv, _) = (r.s().unwrap(), r.s().unwrap(), r.s().unwrap());
					c02_one(&W::new(50).s(u).s(sv).s(&x).raw(r.0).done())?;
				}
			}
		}
		Ok((n, n))
	});
	rep.rules.push(
		"A case is one byte string given to the parser; the verdict and the field values are compared with a grammar-driven parser \
		 written from the RFCs. Short strings are enumerated completely, longer ones as every prefix, one-byte change, length-field \
		 change, insertion, deletion, extension and (for short encodings) pair of changes of every valid encoding."
			.into(),
	);
	rep.assumptions
		.push("A host signature with a negative or padded mpint may be taken or refused; only crashes are judged there.".into());
}
