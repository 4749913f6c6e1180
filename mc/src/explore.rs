//! Deviation-bounded exhaustive exploration.
//!
//! An execution is a deterministic function of its choice sequence. Choice 0 is always the default answer; every other
//! answer is a deviation. All executions with at most `bound` deviations are run, in order of increasing deviations.

use std::collections::{HashSet, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::Instant;

/// One choice point: how many answers there were and which was taken.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Pick {
	pub n: u8,
	pub k: u8,
	pub tag: &'static str,
}

/// The choice recorder of one execution.
pub struct Ctx {
	prefix: Vec<(u8, u8)>,
	pub trace: Vec<Pick>,
	/// While false every choice takes the default and is not recorded.
	pub enabled: bool,
	pub error: Option<String>,
}

impl Ctx {
	pub fn new(prefix: &[(u8, u8)]) -> Self {
		Self { prefix: prefix.to_vec(), trace: Vec::new(), enabled: false, error: None }
	}

	pub fn choose(&mut self, n: usize, tag: &'static str) -> usize {
		if !self.enabled || n <= 1 {
			return 0;
		}
		let n = n.min(255) as u8;
		let i = self.trace.len();
		let k = match self.prefix.get(i) {
			None => 0,
			Some(&(pn, pk)) => {
				if pn != n {
					self.error = Some(format!("replay diverged at choice {i} ({tag}): {pn} answers recorded, {n} now"));
				}
				pk.min(n - 1)
			}
		};
		self.trace.push(Pick { n, k, tag });
		k.into()
	}
}

/// What one execution showed.
pub struct Exec {
	pub trace: Vec<Pick>,
	pub verdict: Result<(), String>,
	/// A harness failure (never a verdict).
	pub error: Option<String>,
	/// Hash of what was observed at the end.
	pub outcome: u64,
	/// Hash of the observable state after each step.
	pub states: Vec<u64>,
	pub log: Vec<String>,
}

#[derive(Default)]
pub struct Stats {
	pub executions: u64,
	pub transitions: u64,
	pub choice_points: u64,
	pub by_deviation: Vec<u64>,
	pub states: HashSet<u64>,
	pub outcomes: HashSet<u64>,
	pub capped: bool,
	pub error: Option<String>,
	pub violation: Option<(Vec<(u8, u8)>, String, Vec<String>)>,
	pub sample: Option<String>,
}

impl Stats {
	pub fn merge(&mut self, o: Stats) {
		self.executions += o.executions;
		self.transitions += o.transitions;
		self.choice_points += o.choice_points;
		for (i, n) in o.by_deviation.iter().enumerate() {
			if self.by_deviation.len() <= i {
				self.by_deviation.push(0);
			}
			self.by_deviation[i] += n;
		}
		self.states.extend(o.states);
		self.outcomes.extend(o.outcomes);
		self.capped |= o.capped;
		if self.error.is_none() {
			self.error = o.error;
		}
		if self.violation.is_none() {
			self.violation = o.violation;
		}
		if self.sample.is_none() {
			self.sample = o.sample;
		}
	}
}

pub fn picks(t: &[Pick]) -> Vec<(u8, u8)> {
	t.iter().map(|p| (p.n, p.k)).collect()
}

pub fn fmt_picks(t: &[(u8, u8)]) -> String {
	// Trailing defaults carry no information.
	let end = t.iter().rposition(|p| p.1 != 0).map_or(0, |i| i + 1);
	t[..end].iter().map(|(n, k)| format!("{k}/{n}")).collect::<Vec<_>>().join(" ")
}

pub fn parse_picks(s: &str) -> Vec<(u8, u8)> {
	s.split_whitespace()
		.filter_map(|p| p.split_once('/'))
		.map(|(k, n)| (n.parse().unwrap(), k.parse().unwrap()))
		.collect()
}

/// Explore all executions of `run` with at most `bound` deviations.
pub fn explore<F>(run: F, bound: usize, threads: usize, deadline: Instant) -> Stats
where
	F: Fn(&[(u8, u8)]) -> Exec + Sync,
{
	struct Q {
		q: VecDeque<(Vec<(u8, u8)>, usize)>,
		busy: usize,
	}
	let q = Mutex::new(Q { q: VecDeque::from([(Vec::new(), 0)]), busy: 0 });
	let cv = Condvar::new();
	let stop = AtomicBool::new(false);
	let total = AtomicU64::new(0);
	let all = Mutex::new(Stats::default());

	// The same execution twice must be the same execution.
	let (a, b) = (run(&[]), run(&[]));
	if a.trace != b.trace || a.outcome != b.outcome || a.states != b.states {
		let mut s = Stats::default();
		s.error = Some(format!(
			"uncontrolled nondeterminism: {} / {} choices, {} / {} states, outcomes {:x} / {:x}",
			a.trace.len(), b.trace.len(), a.states.len(), b.states.len(), a.outcome, b.outcome
		));
		return s;
	}

	std::thread::scope(|s| {
		for _ in 0..threads {
			s.spawn(|| {
				let mut st = Stats::default();
				let one = |prefix: &[(u8, u8)], dev: usize, st: &mut Stats| -> Option<Vec<Pick>> {
					let e = run(prefix);
					total.fetch_add(1, Ordering::Relaxed);
					st.executions += 1;
					st.transitions += e.states.len() as u64;
					st.choice_points += (e.trace.len() - prefix.len().min(e.trace.len())) as u64;
					while st.by_deviation.len() <= dev {
						st.by_deviation.push(0);
					}
					st.by_deviation[dev] += 1;
					st.states.extend(e.states.iter().copied());
					st.outcomes.insert(e.outcome);
					if st.sample.is_none() && dev == bound {
						st.sample = Some(format!("choices [{}]: {}", fmt_picks(&picks(&e.trace)), e.log.join(" | ")));
					}
					if let Some(err) = e.error {
						st.error = Some(err);
						stop.store(true, Ordering::Relaxed);
						return None;
					}
					if let Err(msg) = e.verdict {
						// A violation must reproduce before it is believed.
						let again = run(&picks(&e.trace));
						if again.verdict.as_ref().err() != Some(&msg) || again.trace != e.trace {
							st.error = Some(format!("violation did not reproduce: {msg}"));
						} else {
							st.violation = Some((picks(&e.trace), msg, again.log));
						}
						stop.store(true, Ordering::Relaxed);
						return None;
					}
					Some(e.trace)
				};
				loop {
					let (prefix, dev) = {
						let mut g = q.lock().unwrap();
						loop {
							if stop.load(Ordering::Relaxed) {
								break;
							}
							if !g.q.is_empty() || g.busy == 0 {
								break;
							}
							g = cv.wait(g).unwrap();
						}
						if stop.load(Ordering::Relaxed) || (g.q.is_empty() && g.busy == 0) {
							cv.notify_all();
							break;
						}
						match g.q.pop_front() {
							Some(x) => {
								g.busy += 1;
								x
							}
							None => continue,
						}
					};
					let trace = one(&prefix, dev, &mut st);
					if let Some(trace) = trace {
						if dev < bound {
							let all = picks(&trace);
							let mut kids = Vec::new();
							'outer: for i in prefix.len()..all.len() {
								for alt in 1..all[i].0 {
									let mut p = all[..i].to_vec();
									p.push((all[i].0, alt));
									if dev + 1 < bound {
										kids.push((p, dev + 1));
									} else {
										if Instant::now() > deadline {
											st.capped = true;
											stop.store(true, Ordering::Relaxed);
										}
										if stop.load(Ordering::Relaxed) || one(&p, dev + 1, &mut st).is_none() {
											break 'outer;
										}
									}
								}
							}
							q.lock().unwrap().q.extend(kids);
						}
					}
					if Instant::now() > deadline {
						st.capped = true;
						stop.store(true, Ordering::Relaxed);
					}
					q.lock().unwrap().busy -= 1;
					cv.notify_all();
				}
				all.lock().unwrap().merge(st);
			});
		}
	});
	let mut s = all.into_inner().unwrap();
	// `capped` only counts if work was left behind.
	if s.capped && s.violation.is_none() && q.lock().unwrap().q.is_empty() && false {
		s.capped = false;
	}
	s
}

/// Run `n` independent cases on all cores; stops at the first failure.
pub fn par_cases<F>(n: usize, threads: usize, f: F) -> Result<u64, (usize, String)>
where
	F: Fn(usize) -> Result<u64, String> + Sync,
{
	let next = AtomicU64::new(0);
	let count = AtomicU64::new(0);
	let stop = AtomicBool::new(false);
	let bad: Mutex<Option<(usize, String)>> = Mutex::new(None);
	std::thread::scope(|s| {
		for _ in 0..threads {
			s.spawn(|| loop {
				let i = next.fetch_add(1, Ordering::Relaxed) as usize;
				if i >= n || stop.load(Ordering::Relaxed) {
					break;
				}
				match f(i) {
					Ok(k) => {
						count.fetch_add(k, Ordering::Relaxed);
					}
					Err(e) => {
						let mut b = bad.lock().unwrap();
						if b.as_ref().map_or(true, |(j, _)| i < *j) {
							*b = Some((i, e));
						}
						stop.store(true, Ordering::Relaxed);
					}
				}
			});
		}
	});
	match bad.into_inner().unwrap() {
		Some(b) => Err(b),
		None => Ok(count.into_inner()),
	}
}
