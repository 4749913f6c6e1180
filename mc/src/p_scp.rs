//! C22 to C25: the scp program, run as it is, against a reference model of the protocol.

use crate::procs::{Bench, Dir, End};
use crate::report::Rep;
use std::collections::HashMap;
use std::path::Path;

type Tree = HashMap<Vec<u8>, Option<Vec<u8>>>;

fn bench() -> Bench {
	Bench::new("nora_scp").unwrap_or_else(|e| {
		eprintln!("{e}");
		crate::procs::clean();
		std::process::exit(2)
	})
}

fn show(b: &[u8]) -> String {
	let s: String = b.iter().take(120).flat_map(|c| std::ascii::escape_default(*c)).map(char::from).collect();
	if b.len() > 120 {
		format!("{s}... ({} bytes)", b.len())
	} else {
		s
	}
}

/// Some content that no shift or swap leaves as it is.
fn content(n: usize, salt: u8) -> Vec<u8> {
	let mut x = 0x9e37_79b9u32 ^ (u32::from(salt) << 24);
	(0..n)
		.map(|_| {
			x = x.wrapping_mul(1664525).wrapping_add(1013904223);
			(x >> 23) as u8
		})
		.collect()
}

fn header(size: usize, name: &[u8]) -> Vec<u8> {
	[format!("C0644 {size} ").as_bytes(), name, b"\n"].concat()
}

fn stream(files: &[(Vec<u8>, Vec<u8>)]) -> Vec<u8> {
	files.iter().flat_map(|(n, c)| [&header(c.len(), n)[..], c, b"\0"].concat()).collect()
}

// ---- The receiver's reference model

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Mode {
	/// `-t -d DIR`
	Dir,
	/// `-t PATH...`
	Paths(usize),
}

#[derive(Debug, PartialEq, Eq)]
enum Line {
	Good(u64, Vec<u8>),
	Bad,
	/// Neither answer is wrong.
	Unsure,
}

/// Judge a header, without its newline.
fn judge(l: &[u8], mode: Mode) -> Line {
	if l.first() != Some(&b'C') {
		return Line::Bad;
	}
	if std::str::from_utf8(l).is_err() {
		return Line::Unsure;
	}
	let mut p = l[1..].splitn(3, |c| *c == b' ');
	let (m, s, n) = match (p.next(), p.next(), p.next()) {
		(Some(m), Some(s), Some(n)) => (m, s, n),
		_ => return Line::Bad,
	};
	if m.is_empty() || !m.iter().all(|c| (b'0'..=b'7').contains(c)) {
		return Line::Bad;
	}
	if s.is_empty() || !s.iter().all(|c| c.is_ascii_digit()) {
		return Line::Bad;
	}
	let size = match std::str::from_utf8(s).unwrap().parse::<u64>() {
		Ok(s) => s,
		Err(_) => return Line::Bad,
	};
	match mode {
		Mode::Dir => {
			if n.is_empty() || n == b"." || n == b".." || n.contains(&b'/') || n.contains(&0) || n.len() > 255 {
				return Line::Bad;
			}
		}
		Mode::Paths(_) => {
			if n.is_empty() || n.contains(&b'/') || n.contains(&0) {
				return Line::Unsure;
			}
		}
	}
	if m.len() != 4 || (s.len() > 1 && s[0] == b'0') {
		return Line::Unsure;
	}
	Line::Good(size, n.to_vec())
}

#[derive(Debug)]
struct Expect {
	/// How many acknowledgements, at least and at most.
	acks: (usize, usize),
	/// Whether the exit status must be zero; either if not known.
	zero: Option<bool>,
	/// Files that are complete.
	files: Vec<(Vec<u8>, Vec<u8>)>,
}

/// What a receiver does that gets this input and then the end of input.
fn model(mut input: &[u8], mode: Mode) -> Expect {
	let mut e = Expect { acks: (1, 1), zero: Some(true), files: vec![] };
	let any = |mut e: Expect| {
		e.acks.1 = usize::MAX;
		e.zero = None;
		e
	};
	let fail = |mut e: Expect| {
		e.zero = Some(false);
		e
	};
	loop {
		if let Mode::Paths(n) = mode {
			if e.files.len() == n {
				return e;
			}
		}
		if input.is_empty() {
			e.zero = Some(mode == Mode::Dir);
			return e;
		}
		// A wrong first byte may be refused at once.
		let l = match input.iter().position(|c| *c == b'\n') {
			None => return fail(e),
			Some(i) => {
				let l = &input[..i];
				input = &input[i + 1..];
				l
			}
		};
		let (size, name) = match judge(l, mode) {
			Line::Bad => return fail(e),
			Line::Unsure => return any(e),
			Line::Good(s, n) => (s, n),
		};
		if size > 1 << 40 {
			// Too large to be stored: refused now or later.
			e.acks.1 += 1;
			return fail(e);
		}
		e.acks = (e.acks.0 + 1, e.acks.1 + 1);
		let size = size as usize;
		if input.len() < size + 1 || input[size] != 0 {
			return fail(e);
		}
		e.acks = (e.acks.0 + 1, e.acks.1 + 1);
		e.files.push((name, input[..size].to_vec()));
		input = &input[size + 1..];
	}
}

fn acks(out: &[u8]) -> Result<usize, String> {
	let n = out.iter().take_while(|c| **c == 0).count();
	match out.get(n) {
		// An error message may follow.
		None | Some(1 | 2) => Ok(n),
		Some(_) => Err(format!("the receiver wrote {}", show(out))),
	}
}

fn compare(e: &Expect, out: &[u8], end: End, input: &[u8]) -> Result<(), String> {
	let at = || format!("input {}", show(input));
	let code = match end {
		End::Crash => return Err(format!("{}: the program crashed", at())),
		End::Hang => return Err(format!("{}: the program hangs", at())),
		End::Code(c) => c,
	};
	match (e.zero, code) {
		(Some(true), c) if c != 0 => return Err(format!("{}: exit status {c} for a complete transfer", at())),
		(Some(false), 0) => return Err(format!("{}: exit status 0 although the transfer failed", at())),
		_ => {}
	}
	let n = acks(out)?;
	if n < e.acks.0 || n > e.acks.1 {
		return Err(format!("{}: {n} acknowledgements instead of {}", at(), e.acks.0));
	}
	Ok(())
}

/// Run the receiver on an input that ends; judge everything.
fn receive(b: &Bench, input: &[u8], mode: Mode) -> Result<(), String> {
	let d = b.dir()?;
	let paths: Vec<Vec<u8>> = (0..3).map(|i| format!("out{i}").into_bytes()).collect();
	let mut args: Vec<&[u8]> = vec![b"-t"];
	match mode {
		Mode::Dir => {
			d.mkdir("t")?;
			args.extend([&b"-d"[..], b"t"]);
		}
		Mode::Paths(n) => args.extend(paths.iter().take(n).map(|p| &p[..])),
	}
	let (out, end) = b.feed(&d.0, &args, input)?;
	let e = model(input, mode);
	compare(&e, &out, end, input)?;
	// What was acknowledged is there. A later file may have replaced it, or begun to.
	let tree = d.tree()?;
	if e.zero == Some(true) {
		check_tree(&d, &wanted(&e.files, mode, &paths), input)?;
	} else {
		for (i, (n, c)) in e.files.iter().enumerate() {
			let p = match mode {
				Mode::Dir => [b"t/", &n[..]].concat(),
				Mode::Paths(_) => paths[i].clone(),
			};
			let again = mode == Mode::Dir && mentions(&input[..], n, e.files.iter().filter(|f| f.0 == *n).count());
			if !again && tree.get(&p) != Some(&Some(c.clone())) {
				return Err(format!("input {}: acknowledged file {} is not stored", show(input), show(n)));
			}
		}
	}
	Ok(())
}

/// Whether a name occurs in more header lines than those of complete files.
fn mentions(input: &[u8], name: &[u8], complete: usize) -> bool {
	let l = [b" ", name, b"\n"].concat();
	input.windows(l.len()).filter(|w| *w == &l[..]).count() > complete
}

fn wanted(files: &[(Vec<u8>, Vec<u8>)], mode: Mode, paths: &[Vec<u8>]) -> Tree {
	let mut t = Tree::new();
	if mode == Mode::Dir {
		t.insert(b"t".to_vec(), None);
	}
	for (i, (n, c)) in files.iter().enumerate() {
		let p = match mode {
			Mode::Dir => [b"t/", &n[..]].concat(),
			Mode::Paths(_) => paths[i].clone(),
		};
		t.insert(p, Some(c.clone()));
	}
	t
}

fn check_tree(d: &Dir, want: &Tree, input: &[u8]) -> Result<(), String> {
	let got = d.tree()?;
	for (p, c) in want {
		match got.get(p) {
			None => return Err(format!("input {}: {} is missing", show(input), show(p))),
			Some(g) if g != c => {
				return Err(format!(
					"input {}: {} has {} instead of {}",
					show(input),
					show(p),
					g.as_ref().map_or("no content".into(), |g| format!("{} bytes", g.len())),
					c.as_ref().map_or("no content".into(), |c| format!("{} bytes", c.len()))
				))
			}
			_ => {}
		}
	}
	for p in got.keys() {
		if !want.contains_key(p) {
			return Err(format!("input {}: {} was created", show(input), show(p)));
		}
	}
	Ok(())
}

/// Step by step: the next step is only made after the acknowledgement, and files are looked at when it arrives.
fn interactive(b: &Bench, files: &[(Vec<u8>, Vec<u8>)], mode: Mode, before: &[(&str, Vec<u8>)]) -> Result<(), String> {
	let d = b.dir()?;
	let paths: Vec<Vec<u8>> = (0..files.len()).map(|i| format!("out{i}").into_bytes()).collect();
	let mut args: Vec<&[u8]> = vec![b"-t"];
	match mode {
		Mode::Dir => args.extend([&b"-d"[..], b"t"]),
		Mode::Paths(n) => args.extend(paths.iter().take(n).map(|p| &p[..])),
	}
	let mut want = wanted(&[], mode, &paths);
	if !before.is_empty() {
		d.mkdir("t")?;
		want.insert(b"t".to_vec(), None);
		for (n, c) in before {
			d.file(n, c)?;
			want.insert(n.as_bytes().to_vec(), Some(c.clone()));
		}
	}
	let all = stream(files);
	let ctx = |s: &str, i: usize| format!("input {}: {s} of file {i}", show(&all));
	let mut r = b.start(&d.0, &args)?;
	if r.byte() != Some(0) {
		return Err(format!("input {}: no acknowledgement at the start", show(&all)));
	}
	for (i, (n, c)) in files.iter().enumerate() {
		r.write(&header(c.len(), n));
		if r.byte() != Some(0) {
			return Err(ctx("no acknowledgement for the header", i));
		}
		r.write(c);
		r.drained();
		if r.more() {
			return Err(ctx("an early acknowledgement", i));
		}
		r.write(b"\0");
		if r.byte() != Some(0) {
			return Err(ctx("no acknowledgement for the content", i));
		}
		let p = match mode {
			Mode::Dir => [b"t/", &n[..]].concat(),
			Mode::Paths(_) => paths[i].clone(),
		};
		use std::os::unix::ffi::OsStrExt;
		let got = std::fs::read(d.0.join(std::ffi::OsStr::from_bytes(&p)));
		if got.as_ref().ok() != Some(c) {
			return Err(format!("{} instead of {} bytes are stored", ctx("when acknowledged, ", i), c.len()));
		}
		want.insert(p, Some(c.clone()));
	}
	let (out, end) = r.finish()?;
	if out.len() != 1 + 2 * files.len() {
		return Err(format!("input {}: wrote {}", show(&all), show(&out)));
	}
	if end != End::Code(0) {
		return Err(format!("input {}: ended with {end:?}", show(&all)));
	}
	check_tree(&d, &want, &all)
}

/// The input in pieces, each taken before the next is offered.
fn pieces(b: &Bench, files: &[(Vec<u8>, Vec<u8>)], cuts: &[usize], mode: Mode) -> Result<(), String> {
	let d = b.dir()?;
	let paths: Vec<Vec<u8>> = (0..files.len()).map(|i| format!("out{i}").into_bytes()).collect();
	let mut args: Vec<&[u8]> = vec![b"-t"];
	match mode {
		Mode::Dir => args.extend([&b"-d"[..], b"t"]),
		Mode::Paths(n) => args.extend(paths.iter().take(n).map(|p| &p[..])),
	}
	let all = stream(files);
	let mut r = b.start(&d.0, &args)?;
	let mut at = 0;
	for c in cuts.iter().copied().chain([all.len()]) {
		r.write(&all[at..c]);
		r.drained();
		at = c;
	}
	let (out, end) = r.finish()?;
	compare(&model(&all, mode), &out, end, &all).map_err(|e| format!("cut at {cuts:?}: {e}"))?;
	check_tree(&d, &wanted(files, mode, &paths), &all).map_err(|e| format!("cut at {cuts:?}: {e}"))
}

fn f(n: &str, c: Vec<u8>) -> (Vec<u8>, Vec<u8>) {
	(n.as_bytes().to_vec(), c)
}

/// All words of up to `max` letters, at least one.
fn words(letters: usize, max: usize) -> Vec<Vec<usize>> {
	let mut all: Vec<Vec<usize>> = vec![];
	let mut last: Vec<Vec<usize>> = vec![vec![]];
	for _ in 0..max {
		last = last.iter().flat_map(|w| (0..letters).map(move |l| [&w[..], &[l]].concat())).collect();
		all.extend(last.iter().cloned());
	}
	all
}

fn sizes(quick: bool) -> Vec<usize> {
	let mut v: Vec<usize> = vec![0, 1, 2, 3, 9, 10, 99, 100, 255, 256, 257, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 32769, 40000, 65535, 65536, 65537, 98304, 100000];
	if !quick {
		v.extend(0..600);
		for k in 1..=16 {
			v.extend([8192 * k - 7, 8192 * k - 2, 8192 * k - 1, 8192 * k, 8192 * k + 1, 8192 * k + 2]);
		}
		v.extend([1 << 20, (1 << 20) + 1, 3 << 20]);
		v.sort();
		v.dedup();
	}
	v
}

fn names() -> Vec<Vec<u8>> {
	let mut v: Vec<Vec<u8>> = (1..128u8).filter(|c| !b"/\n.".contains(c)).map(|c| vec![c]).collect();
	for c in 1..128u8 {
		if !b"/\n".contains(&c) {
			v.push(vec![c, b'x']);
			v.push(vec![b'x', c]);
		}
	}
	for s in ["...", "..a", "a b", " a", "a ", "a  b", " ", "  ", "a b c d", "-t", "-", "\u{e9}", "\u{20ac}", "\u{1f600}", "a\u{2044}b", "C0644 5 x", "\\..\\x", "\r", "x\r"] {
		v.push(s.as_bytes().to_vec());
	}
	v.push(vec![b'n'; 254]);
	v.push(vec![b'n'; 255]);
	v
}

pub fn c22(rep: &mut Rep) {
	let b = bench();
	rep.rules.push("one acknowledgement at the start, one per header, one per stored file, looked at step by step".into());
	rep.rules.push("at each acknowledgement the file holds exactly the announced bytes; in the end nothing else changed".into());
	rep.rules.push("for every prefix of the stream, exactly the acknowledgements it earns".into());
	rep.assumptions.push("The program is the dev build of the working tree, run as an unprivileged user; names are valid UTF-8.".into());
	let sz = sizes(rep.quick());
	let modes = [Mode::Dir, Mode::Paths(1)];
	rep.cases("one file of each size, target absent, shorter, longer or equal", sz.len(), |i| {
		let c = content(sz[i], 1);
		let mut n = 0;
		for mode in modes {
			let name = if mode == Mode::Dir { "t/x" } else { "out0" };
			let old = [None, Some(vec![]), Some(vec![7; sz[i] + 5]), Some(vec![7; sz[i]]), Some(vec![7; sz[i] / 2])];
			for o in old {
				let before: Vec<(&str, Vec<u8>)> = match o {
					None => vec![],
					Some(o) => vec![(name, o), ("t/y", b"other".to_vec())],
				};
				interactive(&b, &[f("x", c.clone())], mode, &before)?;
				n += 1;
			}
		}
		Ok((n, n * 3))
	});
	// Sequences of files.
	let letters: Vec<(&str, usize)> = [("x", 0), ("x", 3), ("x", 1), ("y", 0), ("y", 2), ("a b", 1), ("x", 9000), ("y", 33000)].into();
	let seqs = words(letters.len(), rep.by(4, 5));
	let parts = seqs.len().div_ceil(16);
	rep.cases("all sequences of files", parts, |p| {
		let mut n = 0;
		for s in seqs[p * 16..].iter().take(16) {
			let files: Vec<_> = s.iter().enumerate().map(|(i, l)| f(letters[*l].0, content(letters[*l].1, i as u8))).collect();
			interactive(&b, &files, Mode::Dir, &[])?;
			n += 1;
			if files.len() <= 2 {
				interactive(&b, &files, Mode::Paths(files.len()), &[])?;
				n += 1;
			}
		}
		Ok((n, n * 7))
	});
	// Contents that look like protocol.
	let cw = words(6, rep.by(4, 5));
	rep.cases("all short contents over six bytes, followed by another file", cw.len().div_ceil(16), |p| {
		let mut n = 0;
		for w in cw[p * 16..].iter().take(16) {
			let c: Vec<u8> = w.iter().map(|l| [0, b'\n', b'C', 1, 0xff, b' '][*l]).collect();
			interactive(&b, &[f("x", c), f("y", b"z".to_vec())], Mode::Dir, &[])?;
			n += 1;
		}
		Ok((n, n * 5))
	});
	let nm = names();
	rep.cases("file names", nm.len(), |i| {
		interactive(&b, &[(nm[i].clone(), b"abc".to_vec()), f("other", b"d".to_vec())], Mode::Dir, &[])?;
		Ok((1, 5))
	});
	// Cuts.
	let files = [f("x", b"a\0b".to_vec()), f("a b", b"CC".to_vec())];
	let all = stream(&files);
	let mut cuts: Vec<Vec<usize>> = vec![(1..all.len()).collect()];
	for i in 1..all.len() {
		cuts.push(vec![i]);
		for j in i + 1..all.len() {
			cuts.push(vec![i, j]);
		}
	}
	rep.cases("two files, the input in two or three pieces or single bytes", cuts.len(), |i| {
		pieces(&b, &files, &cuts[i], Mode::Dir)?;
		pieces(&b, &files, &cuts[i], Mode::Paths(2))?;
		Ok((2, 2 * (cuts[i].len() as u64 + 1)))
	});
	let big = [f("x", content(70000, 3)), f("y", content(40000, 4))];
	let h = header(70000, b"x").len();
	let mut at: Vec<usize> = vec![1, h - 1, h, h + 1, h + 70000, h + 70001, h + 70002, h + 70001 + h, h + 70001 + h + 1];
	for k in 1..=2 {
		at.extend([h + 32768 * k - 1, h + 32768 * k, h + 32768 * k + 1]);
	}
	let n = rep.by(8192, 1024);
	at.extend((1..70000 / n).map(|k| k * n));
	at.sort();
	at.dedup();
	rep.cases("two large files, cut near buffer boundaries", at.len(), |i| {
		pieces(&b, &big, &[at[i]], Mode::Dir)?;
		Ok((1, 2))
	});
	// Prefixes: acknowledgements are never early.
	for mode in [Mode::Dir, Mode::Paths(2)] {
		rep.cases(&format!("{mode:?}: every prefix of a stream of two files"), all.len() + 1, |i| {
			receive(&b, &all[..i], mode)?;
			Ok((1, 1))
		});
	}
	// Sizes far beyond what is sent.
	let far: Vec<u64> = (8..63).flat_map(|k| [(1u64 << k) - 1, 1 << k, (1 << k) + 1, (1 << k) + 5]).chain((3..19).map(|k| 10u64.pow(k))).collect();
	rep.cases("announced sizes that are not sent completely", far.len(), |i| {
		for tail in [0usize, 1, 5, 200] {
			let s = [format!("C0644 {} x\n", far[i]).into_bytes(), content(tail, 1), vec![0]].concat();
			receive(&b, &s, Mode::Dir)?;
			receive(&b, &s, Mode::Paths(1))?;
		}
		Ok((8, 8))
	});
	let large = [1_000_000usize, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 3 << 20, (1 << 24) + 3];
	rep.cases("large files", large.len() * 2, |i| {
		interactive(&b, &[f("x", content(large[i / 2], 1)), f("y", b"q".to_vec())], [Mode::Dir, Mode::Paths(2)][i % 2], &[("out0", b"old".to_vec()), ("t/x", b"old".to_vec())])?;
		Ok((1, 5))
	});
	let counts = [10usize, 255, 256, 257, 600];
	rep.cases("many files", counts.len() * 2, |i| {
		let n = counts[i / 2];
		let files: Vec<_> = (0..n).map(|k| f(&format!("f{k}"), content(k % 7, k as u8))).collect();
		interactive(&b, &files, if i % 2 == 0 { Mode::Dir } else { Mode::Paths(n) }, &[])?;
		Ok((1, 1 + 2 * n as u64))
	});
	let one = stream(&big);
	rep.cases("prefixes of a stream of two large files", at.len(), |i| {
		receive(&b, &one[..at[i]], Mode::Dir)?;
		Ok((1, 1))
	});
	full_disk(rep, &b);
}

// ---- C23

struct Around {
	d: Dir,
	before: Tree,
}

impl Around {
	/// A target directory o/p/t with files all around it; the program runs in o/p.
	fn new(b: &Bench) -> Result<Self, String> {
		let d = b.dir()?;
		d.mkdir("o/p/t/sub")?;
		d.mkdir("o/p/q")?;
		for p in ["x", "o/x", "o/p/x", "o/p/t/x", "o/p/t/sub/x", "o/p/q/x", "o/p/xx", "o/p/t/y"] {
			d.file(p, p.as_bytes())?;
		}
		let before = d.tree()?;
		Ok(Self { d, before })
	}

	fn cwd(&self) -> std::path::PathBuf {
		self.d.0.join("o/p")
	}

	/// Makes the directories in the target that the name leads through, as far as they stay in it.
	fn lead(&mut self, name: &[u8]) -> Result<(), String> {
		let Ok(name) = std::str::from_utf8(name) else { return Ok(()) };
		let parts: Vec<&str> = name.split('/').collect();
		let mut at = String::from("o/p/t");
		let mut made = false;
		for p in &parts[..parts.len() - 1] {
			match *p {
				"" | "." => continue,
				p if p == ".." || p == "x" || p.len() > 100 || p.contains('\0') || p.contains('@') => break,
				p => {
					at = format!("{at}/{p}");
					self.d.mkdir(&at)?;
					made = true;
				}
			}
		}
		if made {
			self.before = self.d.tree()?;
		}
		Ok(())
	}

	/// Nothing but these entries may differ.
	fn unchanged_but(&self, may: &[Vec<u8>], what: &str) -> Result<(), String> {
		let after = self.d.tree()?;
		for (p, c) in &after {
			if !may.contains(p) && self.before.get(p) != Some(c) {
				return Err(format!("{what}: {} was created or changed", show(p)));
			}
		}
		for p in self.before.keys() {
			if !may.contains(p) && !after.contains_key(p) {
				return Err(format!("{what}: {} was removed", show(p)));
			}
		}
		Ok(())
	}
}

fn plain(n: &[u8]) -> bool {
	!n.is_empty() && n != b"." && n != b".." && !n.contains(&b'/')
}

fn bad_names(max: usize) -> Vec<Vec<u8>> {
	let mut v: Vec<Vec<u8>> = words(4, max).iter().map(|w| w.iter().map(|l| b"./x "[*l]).collect()).collect();
	v.push(vec![]);
	for s in [
		"../x", "../../x", "../../../x", "sub/x", "./x", "x/", "x/.", "../t/x", "../q/x", "sub/../x", "sub/../../x", "//x", "..//x", "x/../../x", "..\\x", "\\", "..", ".. ", " ..", "...", "../xx", "../new", "../../new", "sub", "sub/new", "new/x", "new/../x",
		"~", "~/x", "$HOME", "*", "-x", "../x\0", "\0../x", "x\0/../../x", "..\0", "\u{2025}/x", "\u{ff0e}\u{ff0e}/x", "a/b/c/d", "/", "/..", "../", "./..", "../.",
	] {
		v.push(s.as_bytes().to_vec());
	}
	v.push([b"../", &[b'a'; 300][..]].concat());
	v.push([b"x/../".repeat(60), b"../x".to_vec()].concat());
	v
}

/// One directory-mode run with the given stream; `names` are those of its headers.
fn contained(b: &Bench, dir: &str, input: &[u8], names: &[&[u8]], abs: bool) -> Result<(), String> {
	let mut a = Around::new(b)?;
	// Directories a name leads through may be there already.
	for n in names {
		a.lead(n)?;
	}
	let target = if abs { a.cwd().join(dir).to_str().unwrap().as_bytes().to_vec() } else { dir.as_bytes().to_vec() };
	// Absolute names point into the scratch directory only.
	let root = a.d.0.to_str().unwrap().to_string();
	let input = replace(input, b"@ROOT@", root.as_bytes());
	let (out, end) = b.feed(&a.cwd(), &[b"-t", b"-d", &target], &input)?;
	let what = format!("-t -d {dir}, input {}", show(&input));
	let may: Vec<Vec<u8>> = names.iter().filter(|n| plain(n)).map(|n| [b"o/p/t/", &n[..]].concat()).collect();
	a.unchanged_but(&may, &what)?;
	if names.iter().any(|n| !plain(n)) && end == End::Code(0) {
		return Err(format!("{what}: not refused"));
	}
	if matches!(end, End::Crash | End::Hang) {
		return Err(format!("{what}: {end:?}"));
	}
	// The refused file was not acknowledged.
	let good = names.iter().take_while(|n| plain(n)).count();
	if acks(&out)? > 1 + 2 * good {
		return Err(format!("{what}: acknowledged"));
	}
	Ok(())
}

fn replace(s: &[u8], a: &[u8], b: &[u8]) -> Vec<u8> {
	let mut o = vec![];
	let mut i = 0;
	while i < s.len() {
		if s[i..].starts_with(a) {
			o.extend_from_slice(b);
			i += a.len();
		} else {
			o.push(s[i]);
			i += 1;
		}
	}
	o
}

pub fn c23(rep: &mut Rep) {
	let b = bench();
	rep.rules.push("directory mode: nothing but a plain entry of the announced name in the target changes".into());
	rep.rules.push("path mode: nothing but the given path changes, whatever the header says".into());
	rep.rules.push("a name that is empty, . or .., or has a slash is refused".into());
	rep.assumptions.push("Symbolic links that are already in the target are outside this check; names are lines, so without a newline.".into());
	let mut names = bad_names(rep.by(5, 7));
	for s in ["@ROOT@/x", "@ROOT@/new", "@ROOT@/o/p/t/x", "/@ROOT@/x", "@ROOT@/o/../new", "..@ROOT@/x"] {
		names.push(s.as_bytes().to_vec());
	}
	let k = 8;
	rep.cases("directory mode: all names over four bytes, and special ones", names.len().div_ceil(k), |p| {
		let mut n = 0;
		for name in names[p * k..].iter().take(k) {
			let one = [header(3, name), b"abc\0".to_vec()].concat();
			contained(&b, "t", &one, &[name], false)?;
			contained(&b, "t", &[header(0, name), b"\0".to_vec()].concat(), &[name], true)?;
			n += 2;
			if !plain(name) {
				// After a good one.
				let two = [header(1, b"y"), b"1\0".to_vec(), one.clone()].concat();
				contained(&b, "t", &two, &[b"y", name], false)?;
				contained(&b, "../p/t/", &one, &[name], false)?;
				n += 2;
			}
		}
		Ok((n, n))
	});
	// Other kinds of header.
	let kinds: Vec<Vec<u8>> = (0..=255u8).filter(|c| *c != b'C').flat_map(|c| ["x", "..", "sub", "new"].map(|n| [&[c][..], b"0755 0 ", n.as_bytes(), b"\n"].concat())).collect();
	rep.cases("directory mode: headers of every other type", kinds.len(), |i| {
		let input = [kinds[i].clone(), header(3, b"x"), b"abc\0E\n".to_vec()].concat();
		let a = Around::new(&b)?;
		let (_, end) = b.feed(&a.cwd(), &[b"-t", b"-d", b"t"], &input)?;
		let what = format!("input {}", show(&input));
		a.unchanged_but(&[], &what)?;
		if matches!(end, End::Crash | End::Hang) {
			return Err(format!("{what}: {end:?}"));
		}
		Ok((1, 1))
	});
	// Path mode: the header's name does not matter.
	let paths = ["t/out", "out", "q/x", "./out", "@ROOT@/o/p/out", "../out", "t/sub/../out"];
	rep.cases("path mode: header names do not matter", names.len().div_ceil(k), |p| {
		let mut n = 0;
		for (i, name) in names[p * k..].iter().take(k).enumerate() {
			let path = paths[(p * k + i) % paths.len()];
			path_mode(&b, path, name)?;
			n += 1;
		}
		Ok((n, n))
	});
	let short: Vec<&[u8]> = vec![b"x", b"../x", b"..", b"", b"new", b"@ROOT@/x", b"t/x"];
	rep.cases("path mode: every path with every kind of name", paths.len() * short.len(), |i| {
		path_mode(&b, paths[i % paths.len()], short[i / paths.len()])?;
		Ok((1, 1))
	});
	// A path that is a directory is no file to write.
	let dirs = ["t", "t/", "q", ".", "..", "@ROOT@/o", "t/sub"];
	rep.cases("path mode: the path is a directory", dirs.len() * short.len(), |i| {
		let a = Around::new(&b)?;
		let root = a.d.0.to_str().unwrap().as_bytes().to_vec();
		let path = replace(dirs[i % dirs.len()].as_bytes(), b"@ROOT@", &root);
		let input = replace(&[header(3, short[i / dirs.len()]), b"abc\0".to_vec()].concat(), b"@ROOT@", &root);
		let (_, end) = b.feed(&a.cwd(), &[b"-t", &path], &input)?;
		let what = format!("-t {}, input {}", show(&path), show(&input));
		a.unchanged_but(&[], &what)?;
		if end == End::Code(0) || end == End::Crash || end == End::Hang {
			return Err(format!("{what}: {end:?}"));
		}
		Ok((1, 1))
	});
}

fn path_mode(b: &Bench, path: &str, name: &[u8]) -> Result<(), String> {
	let a = Around::new(b)?;
	let root = a.d.0.to_str().unwrap().as_bytes().to_vec();
	let p = replace(path.as_bytes(), b"@ROOT@", &root);
	let input = replace(&[header(3, name), b"abc\0".to_vec()].concat(), b"@ROOT@", &root);
	let (_, end) = b.feed(&a.cwd(), &[b"-t", &p], &input)?;
	let what = format!("-t {}, input {}", show(&p), show(&input));
	let target: &[u8] = match path {
		"t/out" | "t/sub/../out" => b"o/p/t/out",
		"out" | "./out" | "@ROOT@/o/p/out" => b"o/p/out",
		"../out" => b"o/out",
		"q/x" => b"o/p/q/x",
		_ => return Err("HARNESS:path".into()),
	};
	a.unchanged_but(&[target.to_vec()], &what)?;
	match end {
		End::Crash | End::Hang => Err(format!("{what}: {end:?}")),
		End::Code(0) if a.d.tree()?.get(target) != Some(&Some(b"abc".to_vec())) => Err(format!("{what}: not stored")),
		_ => Ok(()),
	}
}

// ---- C24

/// A file to be sent: the path given, its base name, its content.
struct Sent {
	path: Vec<u8>,
	base: Vec<u8>,
	data: Vec<u8>,
}

fn sent(path: &str, data: Vec<u8>) -> Sent {
	Sent { path: path.into(), base: path.rsplit('/').next().unwrap().into(), data }
}

fn put(d: &Dir, files: &[Sent]) -> Result<(), String> {
	for s in files {
		let p = String::from_utf8(s.path.clone()).map_err(|_| "HARNESS:path")?;
		if let Some((dir, _)) = p.rsplit_once('/') {
			if !dir.is_empty() && dir != "." {
				d.mkdir(dir)?;
			}
		}
		d.file(&p, &s.data)?;
	}
	Ok(())
}

/// Check the sender's output after so many acknowledgements. The mode is its own choice.
fn sender_output(out: &[u8], files: &[Sent], acks: usize) -> Result<(), String> {
	let mut o = out;
	let mut left = acks;
	for s in files {
		if left == 0 {
			break;
		}
		let h = [format!(" {} ", s.data.len()).as_bytes(), &s.base, b"\n"].concat();
		if o.len() < 5 || o[0] != b'C' || !o[1..5].iter().all(|c| (b'0'..=b'7').contains(c)) || !o[5..].starts_with(&h) {
			return Err(format!("expected the header of {}, got {}", show(&s.base), show(o)));
		}
		o = &o[5 + h.len()..];
		left -= 1;
		if left == 0 {
			break;
		}
		let c = [&s.data[..], b"\0"].concat();
		if !o.starts_with(&c) {
			return Err(format!("the content of {} is wrong or incomplete: {} bytes follow its header", show(&s.base), o.len()));
		}
		o = &o[c.len()..];
		left -= 1;
	}
	if !o.is_empty() {
		return Err(format!("after {acks} acknowledgements it also sent {}", show(o)));
	}
	Ok(())
}

fn send_run(b: &Bench, files: &[Sent], input: &[u8], abs: bool) -> Result<(Vec<u8>, End), String> {
	let d = b.dir()?;
	put(&d, files)?;
	let root = d.0.to_str().unwrap().as_bytes().to_vec();
	let paths: Vec<Vec<u8>> = files.iter().map(|s| if abs { [&root[..], b"/", &s.path].concat() } else { s.path.clone() }).collect();
	let mut args: Vec<&[u8]> = vec![b"-f"];
	args.extend(paths.iter().map(|p| &p[..]));
	b.feed(&d.0, &args, input)
}

fn send_judged(b: &Bench, files: &[Sent], input: &[u8], abs: bool) -> Result<(), String> {
	let (out, end) = send_run(b, files, input, abs)?;
	let what = format!("sending {} file(s), answers {}", files.len(), show(input));
	let good = input.iter().take_while(|c| **c == 0).count().min(1 + 2 * files.len());
	sender_output(&out, files, good).map_err(|e| format!("{what}: {e}"))?;
	let ok = good == 1 + 2 * files.len();
	match end {
		End::Code(0) if ok => Ok(()),
		End::Code(c) if !ok && c != 0 => Ok(()),
		e => Err(format!("{what}: ended with {e:?}")),
	}
}

/// One answer at a time.
fn send_steps(b: &Bench, files: &[Sent], abs: bool) -> Result<(), String> {
	let d = b.dir()?;
	put(&d, files)?;
	let root = d.0.to_str().unwrap().as_bytes().to_vec();
	let paths: Vec<Vec<u8>> = files.iter().map(|s| if abs { [&root[..], b"/", &s.path].concat() } else { s.path.clone() }).collect();
	let mut args: Vec<&[u8]> = vec![b"-f"];
	args.extend(paths.iter().map(|p| &p[..]));
	let mut r = b.start(&d.0, &args)?;
	let mut total = 0;
	let mut k = 0;
	for s in files {
		for len in [5 + format!(" {} ", s.data.len()).len() + s.base.len() + 1, s.data.len() + 1] {
			r.write(b"\0");
			k += 1;
			total += len;
			if !r.expect(total) {
				return Err(format!("step by step, after {k} acknowledgements: only {}", show(&r.out)));
			}
			sender_output(&r.out, files, k).map_err(|e| format!("step by step: {e}"))?;
		}
	}
	r.write(b"\0");
	let (out, end) = r.finish()?;
	sender_output(&out, files, k + 1).map_err(|e| format!("step by step: {e}"))?;
	if end != End::Code(0) {
		return Err(format!("step by step: ended with {end:?}"));
	}
	Ok(())
}

/// Sender and receiver connected to each other.
fn round_trip(b: &Bench, files: &[Sent], mode: Mode) -> Result<(), String> {
	let d = b.dir()?;
	d.mkdir("from")?;
	let from = Dir(d.0.join("from"));
	let r = (|| {
		put(&from, files)?;
		let paths: Vec<Vec<u8>> = files.iter().map(|s| s.path.clone()).collect();
		let mut args: Vec<&[u8]> = vec![b"-f"];
		args.extend(paths.iter().map(|p| &p[..]));
		let outs: Vec<Vec<u8>> = (0..files.len()).map(|i| format!("out{i}").into_bytes()).collect();
		let mut to: Vec<&[u8]> = vec![b"-t"];
		match mode {
			Mode::Dir => to.extend([&b"-d"[..], b"t"]),
			Mode::Paths(_) => to.extend(outs.iter().map(|p| &p[..])),
		}
		let (a, z) = b.connected(&from.0, &args, &d.0, &to)?;
		let what = format!("sender connected to receiver, {} file(s)", files.len());
		if a != End::Code(0) || z != End::Code(0) {
			return Err(format!("{what}: sender {a:?}, receiver {z:?}"));
		}
		let mut last: HashMap<Vec<u8>, Vec<u8>> = HashMap::new();
		for (i, s) in files.iter().enumerate() {
			let p = match mode {
				Mode::Dir => [b"t/", &s.base[..]].concat(),
				_ => outs[i].clone(),
			};
			last.insert(p, s.data.clone());
		}
		let tree = d.tree()?;
		for (p, c) in last {
			if tree.get(&p) != Some(&Some(c)) {
				return Err(format!("{what}: {} differs", show(&p)));
			}
		}
		Ok(())
	})();
	std::mem::forget(from);
	r
}

pub fn c24(rep: &mut Rep) {
	let b = bench();
	rep.rules.push("after k acknowledgements and the end of input, exactly the k-th prefix of the protocol has been sent".into());
	rep.rules.push("any other byte in place of an acknowledgement stops it with a failure and nothing more is sent".into());
	rep.rules.push("a receiver connected to it ends up with the same files".into());
	rep.assumptions.push("Regular files that do not change while they are sent, unless stated; valid UTF-8 names without a newline.".into());
	let sz = sizes(rep.quick());
	rep.cases("one file of each size: every number of acknowledgements, step by step, connected", sz.len(), |i| {
		let mk = || vec![sent("x", content(sz[i], 1))];
		for k in 0..5 {
			send_judged(&b, &mk(), &vec![0; k], false)?;
		}
		send_steps(&b, &mk(), false)?;
		round_trip(&b, &mk(), Mode::Dir)?;
		round_trip(&b, &mk(), Mode::Paths(1))?;
		Ok((8, 20))
	});
	let letters: Vec<(&str, usize)> = vec![("x", 0), ("y", 5), ("dir/x", 1), ("a b", 33000), ("dir/sub/z", 32768), ("./w", 2)];
	let seqs = words(letters.len(), rep.by(3, 4));
	rep.cases("all lists of files: every number of acknowledgements, step by step, connected", seqs.len() * 2, |i| {
		let abs = i % 2 == 1;
		let s = &seqs[i / 2];
		// The same path twice is the same file.
		let mk = || -> Vec<Sent> { s.iter().map(|l| sent(letters[*l].0, content(letters[*l].1, *l as u8))).collect() };
		let mut n = 0;
		for k in 0..=2 + 2 * s.len() {
			send_judged(&b, &mk(), &vec![0; k], abs)?;
			n += 1;
		}
		send_steps(&b, &mk(), abs)?;
		if !abs {
			round_trip(&b, &mk(), Mode::Dir)?;
			round_trip(&b, &mk(), Mode::Paths(s.len()))?;
		}
		Ok((n + 3, n * 3))
	});
	rep.cases("two files: every other byte at every acknowledgement", 255, |i| {
		for k in 0..5 {
			let mut a = vec![0; 6];
			a[k] = i as u8 + 1;
			send_judged(&b, &[sent("x", b"abc".to_vec()), sent("y", content(33000, 2))], &a, false)?;
			a.truncate(k + 1);
			send_judged(&b, &[sent("x", b"abc".to_vec()), sent("y", vec![])], &a, false)?;
		}
		Ok((10, 10))
	});
	let nm: Vec<Vec<u8>> = names();
	rep.cases("file names", nm.len(), |i| {
		let d = b.dir()?;
		use std::os::unix::ffi::OsStrExt;
		let p = d.0.join(std::ffi::OsStr::from_bytes(&nm[i]));
		std::fs::write(&p, b"abc").map_err(|e| format!("HARNESS:{e}"))?;
		let mut path = nm[i].clone();
		if path.starts_with(b"-") {
			path = [b"./", &path[..]].concat();
		}
		let (out, end) = b.feed(&d.0, &[b"-f", &path], &[0; 3])?;
		sender_output(&out, &[Sent { path, base: nm[i].clone(), data: b"abc".to_vec() }], 3)?;
		if end != End::Code(0) {
			return Err(format!("file name {}: ended with {end:?}", show(&nm[i])));
		}
		Ok((1, 1))
	});
	unnameable(rep, &b);
	// Contents that look like protocol.
	let cw = words(5, rep.by(4, 5));
	rep.cases("all short contents over five bytes", cw.len(), |i| {
		let c: Vec<u8> = cw[i].iter().map(|l| [0, b'\n', b'C', 1, 0xff][*l]).collect();
		let mk = || vec![sent("x", c.clone()), sent("y", b"q".to_vec())];
		send_judged(&b, &mk(), &[0; 5], false)?;
		round_trip(&b, &mk(), Mode::Dir)?;
		Ok((2, 6))
	});
	let far: Vec<u64> = (20..43).flat_map(|k| [(1u64 << k) - 1, 1 << k, (1 << k) + 1]).collect();
	rep.cases("large sparse files: the header", far.len(), |i| {
		let d = b.dir()?;
		let p = d.file("x", b"")?;
		if std::fs::OpenOptions::new().write(true).open(&p).and_then(|f| f.set_len(far[i])).is_err() {
			return Ok((0, 0));
		}
		let (out, end) = b.feed(&d.0, &[b"-f", b"x"], &[0])?;
		let ok = out.len() > 6 && out[0] == b'C' && out[5..] == format!(" {} x\n", far[i]).into_bytes()[..];
		if !ok {
			return Err(format!("a file of {} bytes is announced as {}", far[i], show(&out)));
		}
		match end {
			End::Code(c) if c != 0 => Ok((1, 1)),
			e => Err(format!("no acknowledgement for the header of a file of {} bytes: ended with {e:?}", far[i])),
		}
	});
	let large = [1_000_000usize, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 3 << 20, (1 << 24) + 3];
	rep.cases("large files", large.len(), |i| {
		let mk = || vec![sent("x", content(large[i], 1)), sent("y", b"q".to_vec())];
		send_judged(&b, &mk(), &[0; 5], false)?;
		send_steps(&b, &mk(), false)?;
		round_trip(&b, &mk(), Mode::Dir)?;
		Ok((3, 15))
	});
	let counts = [10usize, 255, 256, 257, 600];
	rep.cases("many files", counts.len(), |i| {
		let n = counts[i];
		let mk = || (0..n).map(|k| sent(&format!("f{k}"), content(k % 7, k as u8))).collect::<Vec<_>>();
		send_judged(&b, &mk(), &vec![0; 1 + 2 * n], false)?;
		send_judged(&b, &mk(), &vec![0; 2 * n], false)?;
		round_trip(&b, &mk(), Mode::Dir)?;
		round_trip(&b, &mk(), Mode::Paths(n))?;
		Ok((4, 8 * n as u64))
	});
	// Other ways to name the same file.
	let forms: Vec<(&[u8], &[u8])> = vec![
		(b"dir/file", b"file"),
		(b"dir//file", b"file"),
		(b"./dir/./file", b"file"),
		(b"dir/../dir/file", b"file"),
		(b"dir/sub/../file", b"file"),
		(b"link", b"link"),
		(b"chain", b"chain"),
		(b"dirlink/file", b"file"),
		(b"dirlink/../dir/file", b"file"),
		(b"hard", b"hard"),
	];
	rep.cases("links, dots and doubled slashes", forms.len() * 4, |i| {
		let (path, base) = forms[i / 4];
		let n = [0usize, 1, 500, 40000][i % 4];
		let d = b.dir()?;
		d.mkdir("dir")?;
		d.mkdir("dir/sub")?;
		let data = content(n, 3);
		d.file("dir/file", &data)?;
		let link = |to: &str, at: &str| std::os::unix::fs::symlink(to, d.0.join(at)).map_err(|e| format!("HARNESS:{e}"));
		link("dir/file", "link")?;
		link("link", "chain")?;
		link("dir", "dirlink")?;
		std::fs::hard_link(d.0.join("dir/file"), d.0.join("hard")).map_err(|e| format!("HARNESS:{e}"))?;
		let (out, end) = b.feed(&d.0, &[b"-f", path, b"dir/file"], &[0; 5])?;
		sender_output(&out, &[Sent { path: path.to_vec(), base: base.to_vec(), data: data.clone() }, sent("dir/file", data)], 5)?;
		if end != End::Code(0) {
			return Err(format!("{}: ended with {end:?}", show(path)));
		}
		Ok((1, 5))
	});
	// The file grows after it was announced: exactly what was announced is sent.
	rep.cases("a file that grows while it is sent", 6 * 5, |i| {
		let n = [0, 1, 100, 32768, 40000, 70000][i % 6];
		let more = content([1, 4, 1000, 32768, 100_000][i / 6], 6);
		let d = b.dir()?;
		let data = content(n, 5);
		let p = d.file("x", &data)?;
		let mut r = b.start(&d.0, &[b"-f", b"x"])?;
		r.write(b"\0");
		let h = format!("C0644 {n} x\n").len();
		if !r.expect(h) {
			return Err("no header".into());
		}
		std::fs::write(&p, [&data[..], &more[..]].concat()).map_err(|e| format!("HARNESS:{e}"))?;
		r.write(b"\0\0");
		let (out, end) = r.finish()?;
		sender_output(&out, &[sent("x", data)], 3)?;
		if end != End::Code(0) {
			return Err(format!("a growing file: ended with {end:?}"));
		}
		Ok((1, 3))
	});
	shrinking(rep, &b);
}

// ---- C25

fn fails(what: &str, end: End) -> Result<(), String> {
	match end {
		End::Code(0) => Err(format!("{what}: exit status 0")),
		End::Code(_) => Ok(()),
		e => Err(format!("{what}: {e:?}")),
	}
}

fn chmod(p: &Path, m: u32) -> Result<(), String> {
	use std::os::unix::fs::PermissionsExt;
	std::fs::set_permissions(p, std::fs::Permissions::from_mode(m)).map_err(|e| format!("HARNESS:{e}"))
}

pub fn c25(rep: &mut Rep) {
	let b = bench();
	rep.rules.push("exit status zero exactly when everything was transferred and acknowledged, for every prefix and every altered byte".into());
	rep.rules.push("no acknowledgement for what was not announced properly or not stored; never a crash or a hang".into());
	rep.assumptions.push("Headers whose mode has another number of octal digits, sizes with leading zeroes and names that are not UTF-8 may be taken or refused.".into());
	let files = [f("x", b"a\0b".to_vec()), f("a b", b"C\n".to_vec()), f("x", vec![])];
	let all = stream(&files);
	let modes = [Mode::Dir, Mode::Paths(1), Mode::Paths(2), Mode::Paths(3)];
	for mode in modes {
		rep.cases(&format!("{mode:?}: every prefix"), all.len() + 1, |i| {
			receive(&b, &all[..i], mode)?;
			Ok((1, 1))
		});
	}
	// Every byte replaced by every other.
	let two = stream(&files[..2]);
	let values: Vec<u8> = (0..=255).collect();
	rep.cases("one byte replaced, at every position", two.len(), |i| {
		for v in &values {
			let mut s = two.clone();
			s[i] = *v;
			receive(&b, &s, Mode::Dir)?;
			receive(&b, &s, Mode::Paths(2))?;
		}
		Ok((2 * values.len() as u64, 2 * values.len() as u64))
	});
	rep.cases("one byte inserted or removed, at every position", two.len() + 1, |i| {
		let mut n = 0;
		for v in &values {
			let mut s = two.clone();
			s.insert(i, *v);
			receive(&b, &s, Mode::Dir)?;
			n += 1;
		}
		if i < two.len() {
			let mut s = two.clone();
			s.remove(i);
			receive(&b, &s, Mode::Dir)?;
			receive(&b, &s, Mode::Paths(2))?;
			n += 2;
		}
		Ok((n, n))
	});
	// The first bytes of a stream, and of what follows a file.
	rep.cases("every first byte, alone and with a line", 256, |i| {
		let c = i as u8;
		for before in [0, 1] {
			let pre = stream(&files[..before]);
			for rest in [&b""[..], b"\n", b"0644 3 x\n", b"0644 3 x\nabc\0", b"\0\0\0\0"] {
				let s = [&pre[..], &[c], rest].concat();
				receive(&b, &s, Mode::Dir)?;
				receive(&b, &s, Mode::Paths(2))?;
			}
		}
		Ok((20, 20))
	});
	// All short headers.
	let hw = words(7, rep.by(5, 7));
	let alphabet: [&[u8]; 7] = [b"C", b"0644", b" ", b"2", b"x", b"\n", b"\0"];
	rep.cases("all sequences of header parts", hw.len().div_ceil(16), |p| {
		let mut n = 0;
		for w in hw[p * 16..].iter().take(16) {
			let s: Vec<u8> = w.iter().flat_map(|l| alphabet[*l].to_vec()).collect();
			receive(&b, &s, Mode::Dir)?;
			n += 1;
		}
		Ok((n, n))
	});
	let sizes: Vec<&str> = vec![
		"", "-1", "+1", "0x1", "1e3", "1.0", " 1", "1 ", "00", "01", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "9223372036854775807", "9223372036854775808", "99999999999999999999999999999999", "1\t", "\u{661}", "a", "1a", "a1", "2147483648",
	];
	rep.cases("sizes", sizes.len(), |i| {
		for tail in [&b""[..], b"\0", b"a\0", b"abcdefgh\0"] {
			let s = [b"C0644 ", sizes[i].as_bytes(), b" x\n", tail].concat();
			receive(&b, &s, Mode::Dir)?;
			receive(&b, &s, Mode::Paths(1))?;
		}
		Ok((8, 8))
	});
	let ms: Vec<&str> = vec!["", "0", "64", "644", "06440", "0648", "064a", "abcd", "-644", "+644", "0o644", "7777", "0000", " 0644", "0644 ", "00644", "0x1f", "\u{665}644", "99999999999999999999"];
	rep.cases("modes", ms.len(), |i| {
		let s = [b"C", ms[i].as_bytes(), b" 1 x\na\0"].concat();
		receive(&b, &s, Mode::Dir)?;
		receive(&b, &s, Mode::Paths(1))?;
		Ok((2, 2))
	});
	rep.cases("long headers", 12, |i| {
		let n = [250, 255, 256, 257, 1000, 4095, 4096, 4097, 8192, 8193, 70000, 200000][i];
		receive(&b, &[header(1, &vec![b'n'; n]), b"a\0".to_vec()].concat(), Mode::Dir)?;
		receive(&b, &[&b"C0644 1 "[..], &vec![b'n'; n]].concat(), Mode::Dir)?;
		receive(&b, &[&b"C0644 "[..], &vec![b'1'; n], b" x\na\0"].concat(), Mode::Dir)?;
		receive(&b, &[&b"C"[..], &vec![b'0'; n]].concat(), Mode::Dir)?;
		receive(&b, &vec![b'C'; n], Mode::Dir)?;
		receive(&b, &vec![b'\n'; n], Mode::Dir)?;
		receive(&b, &vec![0; n], Mode::Dir)?;
		receive(&b, &vec![0xff; n], Mode::Dir)?;
		Ok((8, 8))
	});
	let big = [f("x", content(70000, 3)), f("y", content(33000, 4))];
	let s = stream(&big);
	let step = rep.by(1024, 128);
	let mut cut: Vec<usize> = (0..s.len()).step_by(step).collect();
	let h = header(70000, b"x").len();
	cut.extend([h, h + 1, h + 32767, h + 32768, h + 32769, h + 65535, h + 65536, h + 65537, h + 69999, h + 70000, h + 70001, s.len() - 1, s.len()]);
	rep.cases("large files cut short", cut.len(), |i| {
		receive(&b, &s[..cut[i]], Mode::Dir)?;
		receive(&b, &s[..cut[i]], Mode::Paths(2))?;
		Ok((2, 2))
	});
	local(rep, &b);
}

/// The sender cannot send what it has announced.
fn shrinking(rep: &mut Rep, b: &Bench) {
	rep.cases("sender: the file becomes smaller while it is sent", 18, |i| {
		let m20 = 1 << 20;
		let (n, m) = [(1, 0), (100, 0), (100, 99), (32768, 0), (32769, 32768), (70000, 10), (70000, 32768), (70000, 65536), (70000, 69999), (300_000, 1), (m20, m20 - 1), (m20 + 1, m20), (m20 + 1, 0), (3 * m20, 10), (3 * m20, m20), (3 * m20, 2 * m20 - 1), (3 * m20, 3 * m20 - 1), (9 * m20 + 5, m20 + 7)][i];
		let d = b.dir()?;
		let p = d.file("x", &content(n, 5))?;
		let mut r = b.start(&d.0, &[b"-f", b"x"])?;
		r.write(b"\0");
		if !r.expect(format!("C0644 {n} x\n").len()) {
			return Err("no header".into());
		}
		let f = std::fs::OpenOptions::new().write(true).open(&p).map_err(|e| format!("HARNESS:{e}"))?;
		f.set_len(m as u64).map_err(|e| format!("HARNESS:{e}"))?;
		r.write(b"\0\0");
		let (_, end) = r.finish()?;
		fails(&format!("file of {n} bytes cut to {m} after its header"), end)?;
		Ok((1, 3))
	});
}

/// The peer stops reading after each number of answers, and goes on sending.
fn hung_up(rep: &mut Rep, b: &Bench) {
	let max = 3;
	rep.cases("the peer stops reading after each number of answers", 3 * max * (1 + 2 * max) * 3, |i| {
		let (how, files, k, size) = (i % 3, 1 + i / 3 % max, i / 3 / max % (1 + 2 * max), [0, 3, 20_000][i / 3 / max / (1 + 2 * max)]);
		// Answers of the receiver: one at the start and two per file. Parts of the sender's output: two per file.
		if k > 2 * files {
			return Ok((0, 0));
		}
		let d = b.dir()?;
		d.mkdir("t")?;
		let names: Vec<Vec<u8>> = (0..files).map(|f| format!("f{f}").into_bytes()).collect();
		let data: Vec<Vec<u8>> = (0..files).map(|f| content(size, f as u8)).collect();
		let mut args: Vec<&[u8]> = [&[&b"-t"[..], b"-d", b"t"][..], &[b"-t"], &[b"-f"]][how].to_vec();
		if how > 0 {
			args.extend(names.iter().map(|n| &n[..]));
		}
		if how == 2 {
			for (n, c) in names.iter().zip(&data) {
				d.file(std::str::from_utf8(n).unwrap(), c)?;
			}
		}
		let mut r = b.start(&d.0, &args)?;
		// What it is given, and how much it has written in total before that.
		let mut parts: Vec<(Vec<u8>, usize)> = vec![];
		let mut total = 0;
		for (n, c) in names.iter().zip(&data) {
			if how < 2 {
				parts.push((header(c.len(), n), parts.len() + 1));
				parts.push(([&c[..], b"\0"].concat(), parts.len() + 1));
			} else {
				parts.push((vec![0], total));
				total += header(c.len(), n).len();
				parts.push((vec![0], total));
				total += c.len() + 1;
			}
		}
		if how == 2 {
			parts.push((vec![0], total));
		}
		let what = format!("{}, {files} file(s) of {size} bytes, no reader after {k} steps", show(&args.concat()));
		for (j, (give, wrote)) in parts.iter().enumerate() {
			if j == k {
				if j > 0 && !r.expect(*wrote) {
					return Err(format!("{what}: only {}", show(&r.out)));
				}
				r.hang_up()?;
			} else if j < k && !r.expect(*wrote) {
				return Err(format!("{what}: only {}", show(&r.out)));
			}
			r.write(give);
		}
		if k >= parts.len() {
			let want = parts.len() + usize::from(how < 2);
			if how < 2 && !r.expect(want) {
				return Err(format!("{what}: only {}", show(&r.out)));
			}
			r.hang_up()?;
		}
		let (_, end) = r.finish()?;
		// Whatever it has still to write fails.
		let all = 2 * files;
		if k < all {
			fails(&what, end)?;
		} else if end != End::Code(0) {
			return Err(format!("{what}: ended with {end:?}"));
		}
		Ok((1, parts.len() as u64))
	});
}

/// Files whose names no header can carry, at every position of a list.
fn unnameable(rep: &mut Rep, b: &Bench) {
	let bad: Vec<Vec<u8>> = [&b"\n"[..], b"a\n", b"\na", b"a\nb", b"a\n\nb", b"\n\n", b"f0\n", b"f0\nC0644 1 y", b" \n ", b"a\r\nb", b"x\ny\nz", b"\n.."].iter().map(|n| n.to_vec()).chain((1..40).map(|k| [&vec![b'a'; k][..], b"\n", &vec![b'b'; 40 - k][..]].concat())).collect();
	rep.cases("names with line feeds, at every position of a list", bad.len() * 3 * 2, |i| {
		use std::os::unix::ffi::OsStrExt;
		let (n, at, dir) = (&bad[i % bad.len()], i / bad.len() % 3, i / bad.len() / 3 == 1);
		let d = b.dir()?;
		d.mkdir("dir")?;
		let path = if dir { [b"dir/", &n[..]].concat() } else { n.clone() };
		std::fs::write(d.0.join(std::ffi::OsStr::from_bytes(&path)), b"abc").map_err(|e| format!("HARNESS:{e}"))?;
		let names: [&[u8]; 3] = [b"f0", b"f1", b"f2"];
		let mut args: Vec<&[u8]> = vec![b"-f"];
		let mut before = vec![];
		for k in 0..3 {
			if k == at {
				args.push(&path);
				continue;
			}
			d.file(&format!("f{k}"), &content(k + 2, 0))?;
			args.push(names[k]);
			if k < at {
				before.push(sent(&format!("f{k}"), content(k + 2, 0)));
			}
		}
		let (out, end) = b.feed(&d.0, &args, &[0; 7])?;
		let what = format!("file {at} is named {}", show(&path));
		fails(&what, end)?;
		if !(0..=before.len()).any(|n| sender_output(&out, &before[..n], 1 + 2 * n).is_ok()) {
			return Err(format!("{what}: it sent {}", show(&out)));
		}
		Ok((1, 1))
	});
	// In the directory part they do no harm.
	rep.cases("directories whose names have line feeds", bad.len(), |i| {
		use std::os::unix::ffi::OsStrExt;
		let d = b.dir()?;
		let path = [&bad[i][..], b"/x"].concat();
		let p = d.0.join(std::ffi::OsStr::from_bytes(&path));
		std::fs::create_dir_all(p.parent().unwrap()).map_err(|e| format!("HARNESS:{e}"))?;
		std::fs::write(&p, b"abc").map_err(|e| format!("HARNESS:{e}"))?;
		let (out, end) = b.feed(&d.0, &[b"-f", &path], &[0; 3])?;
		sender_output(&out, &[Sent { path: path.clone(), base: b"x".to_vec(), data: b"abc".to_vec() }], 3)?;
		if end != End::Code(0) {
			return Err(format!("path {}: ended with {end:?}", show(&path)));
		}
		Ok((1, 1))
	});
}

/// There is no room for the whole file: it is neither acknowledged nor reported as stored.
fn full_disk(rep: &mut Rep, b: &Bench) {
	let sizes = [1usize, 2, 100, 4096, 32767, 32768, 32769, 40000, 65536, 65537, 70000, 98304, 100_000];
	let mut all: Vec<(usize, usize)> = vec![];
	for n in sizes {
		for l in [0, 1, 50, 4096, 8192, 32768, 36864, 65536, n - 1, n, n + 1] {
			all.push((n, l));
		}
	}
	rep.cases("receiver: no room for the whole file", all.len() * 3, |i| {
		let ((n, l), mode) = (all[i / 3], i % 3);
		let d = b.dir()?;
		d.mkdir("t")?;
		let files = match mode {
			0 => vec![f("x", content(n, 3))],
			1 => vec![f("a", vec![]), f("x", content(n, 3)), f("c", vec![])],
			_ => vec![f("x", content(n, 3))],
		};
		let args: &[&[u8]] = if mode == 2 { &[b"-t", b"t/x"] } else { &[b"-t", b"-d", b"t"] };
		let (out, end) = b.limited(&d.0, args, &stream(&files), l as u64)?;
		let what = format!("file of {n} bytes, room for {l}, mode {mode}");
		if n <= l {
			let stored = std::fs::read(d.0.join("t/x")).unwrap_or_default();
			if end != End::Code(0) || out != vec![0; 1 + 2 * files.len()] || stored != content(n, 3) {
				return Err(format!("{what}: {end:?}, {} acknowledgements, {} bytes stored", out.len(), stored.len()));
			}
		} else {
			fails(&what, end)?;
			let most = if mode == 1 { 4 } else { 2 };
			if out.iter().filter(|b| **b == 0).count() > most {
				return Err(format!("{what}: acknowledged with {}", show(&out)));
			}
		}
		Ok((1, 1))
	});
}

/// What fails on our own side.
fn local(rep: &mut Rep, b: &Bench) {
	let two = stream(&[f("good", b"1".to_vec()), f("x", b"abc".to_vec())]);
	let one = stream(&[f("x", b"abc".to_vec())]);
	rep.cases("receiver: the file cannot be created or written", 9, |i| {
		let d = b.dir()?;
		d.mkdir("t")?;
		let (args, input, acked): (Vec<&[u8]>, &[u8], usize) = match i {
			0 => {
				// Not writable.
				std::fs::create_dir(d.0.join("ro")).map_err(|e| format!("HARNESS:{e}"))?;
				chmod(&d.0.join("ro"), 0o755)?;
				(vec![b"-t", b"-d", b"ro"], &one, 1)
			}
			1 => {
				std::fs::create_dir(d.0.join("ro")).map_err(|e| format!("HARNESS:{e}"))?;
				(vec![b"-t", b"ro/x"], &one, 1)
			}
			2 => {
				// A directory of that name.
				d.mkdir("t/x")?;
				(vec![b"-t", b"-d", b"t"], &two, 3)
			}
			3 => {
				d.mkdir("x")?;
				(vec![b"-t", b"x"], &one, 1)
			}
			4 => {
				// The parent is a file.
				d.file("p", b"q")?;
				(vec![b"-t", b"p/x"], &one, 1)
			}
			5 => {
				d.file("p", b"q")?;
				(vec![b"-t", b"-d", b"p"], &one, 0)
			}
			6 => {
				// Not ours.
				std::fs::write(d.0.join("t/x"), b"root's").map_err(|e| format!("HARNESS:{e}"))?;
				chmod(&d.0.join("t/x"), 0o644)?;
				(vec![b"-t", b"-d", b"t"], &two, 3)
			}
			// Created but cannot be written.
			7 => (vec![b"-t", b"/dev/full"], &one, 2),
			_ => {
				d.file("p", b"q")?;
				(vec![b"-t", b"out", b"p/x"], &two, 3)
			}
		};
		let (out, end) = b.feed(&d.0, &args, input)?;
		let what = format!("local failure {i}");
		fails(&what, end)?;
		let n = acks(&out)?;
		if n > acked {
			return Err(format!("{what}: {n} acknowledgements"));
		}
		if i == 2 && std::fs::read(d.0.join("t/good")).ok().as_deref() != Some(b"1") {
			return Err(format!("{what}: the file before it is not stored"));
		}
		Ok((1, 1))
	});
	rep.cases("sender: a file cannot be read, at every position of a list", 5 * 3, |i| {
		let d = b.dir()?;
		let at = i % 3;
		let bad: &[u8] = match i / 3 {
			0 => b"missing",
			1 => {
				d.mkdir("dir")?;
				b"dir"
			}
			2 => {
				let p = d.file("secret", b"s")?;
				chmod(&p, 0)?;
				b"secret"
			}
			3 => {
				d.file("p", b"q")?;
				b"p/x"
			}
			_ => b"",
		};
		let names: [&[u8]; 3] = [b"f0", b"f1", b"f2"];
		let mut args: Vec<&[u8]> = vec![b"-f"];
		let mut before = vec![];
		for k in 0..3 {
			if k == at {
				args.push(bad);
			} else {
				d.file(&format!("f{k}"), &content(k + 2, 0))?;
				args.push(names[k]);
				if k < at {
					before.push(sent(&format!("f{k}"), content(k + 2, 0)));
				}
			}
		}
		let (out, end) = b.feed(&d.0, &args, &[0; 7])?;
		let what = format!("file {at} is {}", show(bad));
		fails(&what, end)?;
		// Files before it may have been sent; nothing of it is.
		if i / 3 != 4 {
			let ok = (0..=before.len()).any(|n| sender_output(&out, &before[..n], 1 + 2 * n).is_ok());
			if !ok {
				return Err(format!("{what}: it sent {}", show(&out)));
			}
		}
		Ok((1, 1))
	});
	full_disk(rep, b);
	shrinking(rep, b);
	rep.cases("output that cannot be written", 6, |i| {
		let d = b.dir()?;
		d.mkdir("t")?;
		d.file("x", &content([1, 1, 1, 1, 100, 70000][i], 0))?;
		let args: Vec<&[u8]> = match i {
			0 | 1 => vec![b"-t", b"-d", b"t"],
			2 => vec![b"-t", b"out"],
			_ => vec![b"-f", b"x"],
		};
		let input: &[u8] = if i < 3 { &one } else { &[0; 3] };
		let end = b.unwritable(&d.0, &args, input)?;
		fails(&format!("output full, {}", show(&args.concat())), end)?;
		Ok((1, 1))
	});
	hung_up(rep, b);
	let bad: Vec<Vec<&[u8]>> = vec![
		vec![],
		vec![b"x"],
		vec![b"-d"],
		vec![b"-d", b"t"],
		vec![b"-z"],
		vec![b"-t", b"-z"],
		vec![b"-t", b"--help", b"t"],
		vec![b"-f", b"-q", b"x"],
		vec![b"-t", b"-d"],
		vec![b"-t", b"-d", b"t", b"u"],
		vec![b"-t", b"-d", b""],
		vec![b"-\xff"],
		vec![b"-t", b"-d", b"t\xff/../../\0"[..2].as_ref(), b"u"],
		vec![b"-t", b""],
		vec![b"-"],
	];
	rep.cases("arguments that make no sense", bad.len(), |i| {
		let d = b.dir()?;
		d.mkdir("t")?;
		d.file("x", b"abc")?;
		let what = format!("arguments {}", bad[i].iter().map(|a| show(a)).collect::<Vec<_>>().join(" "));
		let (_, end) = b.feed(&d.0, &bad[i], &one)?;
		// A lone non-UTF-8 flag and an empty path may be taken as paths; then the mode is missing or opening fails.
		fails(&what, end)?;
		let (_, end) = b.feed(&d.0, &bad[i], &[0; 3])?;
		fails(&what, end)?;
		Ok((2, 2))
	});
}
