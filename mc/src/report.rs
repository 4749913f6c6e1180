//! Command line, evidence and replay files.

use crate::explore::{self, explore, fmt_picks, parse_picks, Stats};
use crate::world::{self, Spec};
use std::collections::HashSet;
use std::path::PathBuf;
use std::sync::Arc;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier {
	Quick,
	Thorough,
}

pub struct Rep {
	pub id: String,
	pub tier: Tier,
	pub threads: usize,
	start: Instant,
	deadline: Instant,
	states: HashSet<u64>,
	extra_states: u64,
	transitions: u64,
	executions: u64,
	outcomes: HashSet<u64>,
	by_deviation: Vec<u64>,
	samples: Vec<String>,
	bounds: Vec<String>,
	pub rules: Vec<String>,
	pub assumptions: Vec<String>,
	capped: Vec<String>,
	replay: Option<(String, Vec<(u8, u8)>)>,
	replayed: bool,
}

pub fn root() -> PathBuf {
	std::env::var_os("NORA_MC_ROOT").map(PathBuf::from).unwrap_or_else(|| "/verif".into())
}

fn js(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
			c => o.push(c),
		}
	}
	o.push('"');
	o
}

fn cut(s: &str, n: usize) -> String {
	if s.len() <= n {
		return s.into();
	}
	let mut e = n;
	while !s.is_char_boundary(e) {
		e -= 1;
	}
	format!("{}...", &s[..e])
}

impl Rep {
	pub fn quick(&self) -> bool {
		self.tier == Tier::Quick
	}
	/// One of two values by tier.
	pub fn by<T>(&self, quick: T, thorough: T) -> T {
		if self.quick() {
			quick
		} else {
			thorough
		}
	}

	fn add(&mut self, name: &str, s: Stats, bound: usize, quiet: bool) {
		self.executions += s.executions;
		self.transitions += s.transitions;
		self.states.extend(s.states);
		self.outcomes.extend(s.outcomes);
		for (i, n) in s.by_deviation.iter().enumerate() {
			if self.by_deviation.len() <= i {
				self.by_deviation.push(0);
			}
			self.by_deviation[i] += n;
		}
		if s.capped {
			self.capped.push(format!("{name}: bound {bound} not completed"));
		}
		if !quiet {
			self.bounds.push(format!(
				"{name}: {} executions, all with at most {} deviations{}",
				s.executions,
				bound,
				if s.capped { " (cut short)" } else { "" }
			));
		}
		if let Some(x) = s.sample {
			if self.samples.len() < 6 {
				self.samples.push(format!("{name}: {}", cut(&x, 1500)));
			}
		}
	}

	fn judge(&mut self, spec: &Arc<Spec>, s: &Stats) {
		if let Some(e) = &s.error {
			eprintln!("HARNESS ERROR in {}: {e}", spec.name);
			bye(2);
		}
		if let Some((picks, msg, _)) = &s.violation {
			let again = world::run(spec, picks, true);
			self.violation(&spec.name, &fmt_picks(picks), msg, &again.log);
		}
	}

	pub fn violation(&mut self, scenario: &str, picks: &str, msg: &str, log: &[String]) -> ! {
		let dir = root().join("replays");
		let _ = std::fs::create_dir_all(&dir);
		let path = dir.join(format!("{}.replay", self.id));
		let text = format!(
			"property: {}\ntier: {}\nscenario: {scenario}\nchoices: {picks}\nmessage: {msg}\n\n{}\n",
			self.id,
			self.by("quick", "thorough"),
			log.join("\n")
		);
		let _ = std::fs::write(&path, text);
		println!("scenario: {scenario}");
		println!("choices: [{picks}]");
		println!("what failed: {msg}");
		for l in log.iter().rev().take(40).collect::<Vec<_>>().into_iter().rev() {
			println!("  {}", cut(l, 300));
		}
		println!("VIOLATION property={} replay={}", self.id, path.display());
		self.executions += 1;
		self.write_evidence(1);
		bye(1);
	}

	fn replaying(&mut self, specs: &[Arc<Spec>]) -> bool {
		let (name, picks) = match &self.replay {
			None => return false,
			Some(r) => r.clone(),
		};
		for s in specs {
			if s.name == name {
				let e = world::run(s, &picks, true);
				for l in &e.log {
					println!("{l}");
				}
				println!("{:?}", e.verdict);
				self.replayed = true;
				bye(if e.verdict.is_err() { 1 } else { 0 });
			}
		}
		true
	}

	/// Explore a few scenarios deeply, each on all cores.
	pub fn deep(&mut self, specs: Vec<Spec>, bound: usize) {
		let specs: Vec<_> = specs.into_iter().map(Arc::new).collect();
		if self.replaying(&specs) {
			return;
		}
		// First the lower bound for all of them, then the higher one.
		let n = specs.len();
		let mut low = vec![];
		for spec in &specs {
			let b = bound.saturating_sub(1);
			let s = explore(|p| world::run(spec, p, false), b, self.threads, self.deadline);
			self.judge(spec, &s);
			low.push(s);
		}
		for (i, (spec, s0)) in specs.into_iter().zip(low).enumerate() {
			if bound == 0 {
				self.add(&spec.name, s0, 0, false);
				continue;
			}
			let left = self.deadline.saturating_duration_since(Instant::now());
			// A scenario may use up to three times its fair share of what is left.
			let share = left.as_secs_f64() / (n - i) as f64 * 3.0;
			let deadline = Instant::now() + Duration::from_secs_f64(share.min(left.as_secs_f64()));
			let s = explore(|p| world::run(&spec, p, false), bound, self.threads, deadline);
			self.judge(&spec, &s);
			if !s.capped {
				self.add(&spec.name, s, bound, false);
			} else {
				// Report what is complete and what was seen beyond it.
				self.capped.push(format!("{}: bound {bound} cut short after {} executions", spec.name, s.executions));
				self.executions += s.executions;
				self.transitions += s.transitions;
				self.states.extend(s.states);
				self.add(&spec.name, s0, bound - 1, false);
			}
		}
	}

	/// Explore many scenarios, one per core.
	pub fn wide(&mut self, label: &str, specs: Vec<Spec>, bound: usize) {
		let specs: Vec<_> = specs.into_iter().map(Arc::new).collect();
		if self.replaying(&specs) {
			return;
		}
		// Many small ones are always finished.
		let deadline = self.deadline + Duration::from_secs(60);
		let all = std::sync::Mutex::new((Stats::default(), 0usize));
		let r = explore::par_cases(specs.len(), self.threads, |i| {
			if Instant::now() > deadline {
				all.lock().unwrap().0.capped = true;
				return Ok(0);
			}
			let mut s = explore(|p| world::run(&specs[i], p, false), bound, 1, deadline);
			let bad = s.violation.is_some() || s.error.is_some();
			s.sample = s.sample.map(|x| format!("{}: {x}", specs[i].name));
			let mut a = all.lock().unwrap();
			if bad && a.0.violation.is_none() && a.0.error.is_none() {
				a.1 = i;
			}
			a.0.merge(s);
			if bad {
				Err(String::new())
			} else {
				Ok(1)
			}
		});
		let _ = r;
		let (s, at) = all.into_inner().unwrap();
		if !specs.is_empty() {
			self.judge(&specs[at], &s);
		}
		self.bounds.push(format!("{label}: {} scenarios", specs.len()));
		self.add(label, s, bound, false);
	}

	/// Like `wide`, for scenarios made on demand.
	pub fn many<F>(&mut self, label: &str, n: usize, bound: usize, make: F)
	where
		F: Fn(usize) -> Spec + Sync,
	{
		let make = |i: usize| {
			let mut s = make(i);
			s.name = format!("{label} #{i}: {}", s.name);
			Arc::new(s)
		};
		if let Some((name, _)) = self.replay.clone() {
			if let Some(i) = name.strip_prefix(&format!("{label} #")).and_then(|r| r.split(':').next()).and_then(|i| i.parse().ok()) {
				self.replaying(&[make(i)]);
			}
			return;
		}
		let deadline = self.deadline;
		let parts = (self.threads * 64).min(n.max(1));
		let all = std::sync::Mutex::new((Stats::default(), 0usize, 0u64));
		let _ = explore::par_cases(parts, self.threads, |part| {
			let mut sum = Stats::default();
			let mut done = 0;
			let mut bad = None;
			for i in (part..n).step_by(parts) {
				if Instant::now() > deadline {
					sum.capped = true;
					break;
				}
				let spec = make(i);
				let mut s = explore(|p| world::run(&spec, p, false), bound, 1, deadline);
				done += 1;
				s.sample = s.sample.map(|x| format!("{}: {x}", spec.name));
				let stop = s.violation.is_some() || s.error.is_some();
				sum.merge(s);
				if stop {
					bad = Some(i);
					break;
				}
			}
			let mut a = all.lock().unwrap();
			if let Some(i) = bad {
				if a.0.violation.is_none() && a.0.error.is_none() {
					a.1 = i;
				}
			}
			a.0.merge(sum);
			a.2 += done;
			if bad.is_some() {
				Err(String::new())
			} else {
				Ok(1)
			}
		});
		let (s, at, done) = all.into_inner().unwrap();
		if n > 0 {
			self.judge(&make(at), &s);
		}
		self.bounds.push(format!("{label}: {done} of {n} scenarios"));
		self.add(label, s, bound, false);
	}

	/// CPU time one case of an enumeration may take, in seconds. Usual are a few.
	fn case_limit(&self) -> u64 {
		self.by(240, 700)
	}

	/// Record an exhaustive enumeration of inputs: `cases` inputs, `calls` evaluations on the implementation.
	pub fn enumerated(&mut self, what: &str, traces: u64, cases: u64, calls: u64, sample: String) {
		self.extra_states += cases;
		self.transitions += calls;
		self.executions += traces;
		self.bounds.push(format!("{what}: {cases} inputs in {traces} groups, {calls} calls"));
		if self.samples.len() < 12 {
			self.samples.push(format!("{what}: {}", cut(&sample, 800)));
		}
	}

	/// Run `n` independent cases of an enumeration on all cores. Each case returns (inputs, calls).
	pub fn cases<F>(&mut self, what: &str, n: usize, f: F)
	where
		F: Fn(usize) -> Result<(u64, u64), String> + Sync,
	{
		if self.replay.as_ref().map_or(false, |r| r.0 != what) {
			return;
		}
		let calls = std::sync::atomic::AtomicU64::new(0);
		let capped = std::sync::atomic::AtomicBool::new(false);
		let deadline = self.deadline;
		let limit = self.case_limit();
		let r = explore::par_cases(n, self.threads, |i| {
			crate::watch::about(&format!("{what}, case {i}"), &[]);
			let _w = crate::watch::running(limit);
			if Instant::now() > deadline {
				capped.store(true, std::sync::atomic::Ordering::Relaxed);
				return Ok(0);
			}
			match world::catch(|| f(i)) {
				Ok(Ok((a, b))) => {
					calls.fetch_add(b, std::sync::atomic::Ordering::Relaxed);
					Ok(a)
				}
				Ok(Err(e)) => Err(e),
				Err(p) => Err(format!("panicked: {p}")),
			}
		});
		match r {
			Ok(cases) => {
				if capped.into_inner() {
					self.capped.push(what.into());
				}
				self.enumerated(what, n as u64, cases, calls.into_inner(), format!("cases 0..{n} of this enumeration, all of them"))
			}
			Err((i, e)) => {
				if let Some(h) = e.strip_prefix("HARNESS:") {
					eprintln!("HARNESS ERROR in {what} case {i}: {h}");
					bye(2);
				}
				self.violation(what, "", &format!("case {i}: {e}"), &[])
			}
		}
	}

	pub fn sample(&mut self, s: String) {
		if self.samples.len() < 12 {
			self.samples.push(cut(&s, 1000));
		}
	}

	fn write_evidence(&self, violations: usize) {
		let list = |v: &[String]| format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "));
		let states = self.states.len() as u64 + self.extra_states;
		let mut samples = self.samples.clone();
		if samples.is_empty() {
			samples.push("none recorded".into());
		}
		let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(0);
		let text = format!(
			"{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"model_checking\",\n  \"coverage\": {{\n    \
			 \"states\": {},\n    \"transitions\": {},\n    \"traces_validated_against_impl\": {},\n    \"distinct_outcomes\": {},\n    \
			 \"executions_by_deviations\": [{}],\n    \"exhaustive\": {},\n    \"rule\": {},\n    \"bounds\": {},\n    \"cut_short\": {},\n    \
			 \"samples\": {}\n  }},\n  \"assumptions\": {},\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n",
			js(&self.id),
			js(self.by("quick", "thorough")),
			seed,
			states,
			self.transitions,
			self.executions,
			self.outcomes.len(),
			self.by_deviation.iter().map(|n| n.to_string()).collect::<Vec<_>>().join(", "),
			self.capped.is_empty(),
			js(&self.rules.join(" ")),
			list(&self.bounds),
			list(&self.capped),
			list(&samples),
			list(&self.assumptions),
			self.start.elapsed().as_secs_f64(),
			violations
		);
		let dir = root().join("evidence");
		let _ = std::fs::create_dir_all(&dir);
		if let Err(e) = std::fs::write(dir.join(format!("{}.json", self.id)), text) {
			eprintln!("cannot write evidence: {e}");
			bye(2);
		}
	}
}

/// End after removing what was created.
fn bye(code: i32) -> ! {
	crate::procs::clean();
	std::process::exit(code)
}

fn usage() -> ! {
	eprintln!("usage: nora-mc check ID [--tier quick|thorough] | nora-mc replay FILE");
	bye(2)
}

pub fn main() {
	let args: Vec<String> = std::env::args().collect();
	let threads = std::thread::available_parallelism().map_or(4, |n| n.get()).min(16);
	let mut tier = match std::env::var("VERIF_TIER").as_deref() {
		Ok("thorough") => Tier::Thorough,
		_ => Tier::Quick,
	};
	let (id, replay) = match args.get(1).map(|s| s.as_str()) {
		Some("check") => {
			let id = args.get(2).cloned().unwrap_or_else(|| usage());
			if let Some(i) = args.iter().position(|a| a == "--tier") {
				tier = match args.get(i + 1).map(|s| s.as_str()) {
					Some("quick") => Tier::Quick,
					Some("thorough") => Tier::Thorough,
					_ => usage(),
				};
			}
			(id, None)
		}
		Some("replay") => {
			let f = std::fs::read_to_string(args.get(2).cloned().unwrap_or_else(|| usage())).unwrap_or_else(|e| {
				eprintln!("{e}");
				bye(2)
			});
			let get = |k: &str| {
				f.lines().find_map(|l| l.strip_prefix(k)).map(|s| s.trim().to_string()).unwrap_or_default()
			};
			tier = if get("tier:") == "thorough" { Tier::Thorough } else { Tier::Quick };
			(get("property:"), Some((get("scenario:"), parse_picks(&get("choices:")))))
		}
		_ => usage(),
	};
	let start = Instant::now();
	let secs = std::env::var("NORA_MC_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(match tier {
		Tier::Quick => 240,
		Tier::Thorough => 780,
	});
	let make = move |id: &str, replay| Rep {
		id: id.into(),
		tier,
		threads,
		start,
		deadline: start + Duration::from_secs(secs),
		states: HashSet::new(),
		extra_states: 0,
		transitions: 0,
		executions: 0,
		outcomes: HashSet::new(),
		by_deviation: vec![],
		samples: vec![],
		bounds: vec![],
		rules: vec![],
		assumptions: vec![],
		capped: vec![],
		replay,
		replayed: false,
	};

	let of = id.clone();
	crate::watch::start(move |scenario, picks, msg| make(&of, None).violation(scenario, &fmt_picks(picks), &format!("the code under test {msg}"), &[]));
	let mut rep = make(&id, replay);
	if !crate::dispatch(&mut rep) {
		eprintln!("unknown property {id}");
		bye(2);
	}
	if rep.replay.is_some() {
		println!("no violation reproduced");
		bye(0);
	}
	rep.write_evidence(0);
	println!(
		"{}: held on {} executions, {} states, {} transitions, {} distinct outcomes, {:.1} s{}",
		rep.id,
		rep.executions,
		rep.states.len() as u64 + rep.extra_states,
		rep.transitions,
		rep.outcomes.len(),
		start.elapsed().as_secs_f64(),
		if rep.capped.is_empty() { "".into() } else { format!(" ({} explorations cut short)", rep.capped.len()) }
	);
	crate::procs::clean();
}
