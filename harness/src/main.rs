mod alloc;
mod big;
mod camp;
mod case;
mod ctx;
mod elem;
mod emit;
mod exec;
mod r#gen;
mod hist;
mod monitor;

use camp::{Runner, Tier};
use case::Case;
use std::collections::{BTreeMap, HashMap, HashSet};

#[global_allocator]
static A: alloc::Tracker = alloc::Tracker;

fn main() {
	std::panic::set_hook(Box::new(|_| {}));
	let args: Vec<String> = std::env::args().collect();
	let mut opt: HashMap<String, String> = HashMap::new();
	let mut i = 2;
	while i + 1 < args.len() {
		opt.insert(args[i].trim_start_matches("--").to_string(), args[i + 1].clone());
		i += 2;
	}
	let num = |k: &str, d: u64| opt.get(k).map_or(d, |v| v.parse().expect("number"));
	let text = |k: &str, d: &str| opt.get(k).cloned().unwrap_or_else(|| d.to_string());
	// A deep but bounded stack: recursion that is not logarithmic overflows it.
	let cmd = args.get(1).cloned().unwrap_or_default();
	match cmd.as_str() {
		"run" => {
			let prop = text("prop", "C01");
			let dir = text("out", ".");
			let worker = num("worker", 0) as usize;
			let of = num("of", 1) as usize;
			let only = opt.get("only").map(|v| v.parse::<i64>().unwrap());
			let mut scen = vec![];
			if let Some(f) = opt.get("scen") {
				for l in std::fs::read_to_string(f).unwrap_or_default().lines() {
					if let Some((k, v)) = l.split_once(' ') {
						let v: Vec<i64> = v.split(',').filter_map(|x| x.trim().parse().ok()).collect();
						if !v.is_empty() {
							scen.push((k.to_string(), v));
						}
					}
				}
			}
			let hb = std::fs::File::create(format!("{dir}/hb-{worker}")).ok();
			let mut r = Runner {
				clauses: camp::clauses_of(&prop),
				prop,
				dir: dir.clone(),
				worker,
				tier: if text("tier", "quick") == "thorough" { Tier::Thorough } else { Tier::Quick },
				one: only.is_some(),
				seed: num("seed", 1),
				item: 0,
				evals: 0,
				distinct: HashSet::new(),
				flagged: vec![],
				samples: vec![],
				wides: vec![],
				sample_bytes: 0,
				sample_budget: num("samples", 60_000) as usize,
				kinds: BTreeMap::new(),
				refuted: 0,
				entailed: 0,
				cbs: 0,
				hb,
				scen,
				worst: BTreeMap::new(),
			};
			let h = std::thread::Builder::new()
				.stack_size(8 << 20)
				.spawn(move || {
					let t0 = std::time::Instant::now();
					let secs = num_of(&opt, "secs", 30);
					let items = num_of(&opt, "items", 1_000_000_000);
					let mut timed_out = false;
					match only {
						Some(i) if i >= 0 => {
							r.worker = worker;
							r.step(i as u64);
						}
						Some(_) => r.prologue(of),
						None => {
							r.item = u64::MAX;
							r.beat();
							r.prologue(of);
							let mut i = worker as u64;
							let mut done = 0;
							while done < items && !r.full() {
								if t0.elapsed().as_secs() >= secs {
									timed_out = true;
									break;
								}
								r.step(i);
								i += of as u64;
								done += 1;
							}
						}
					}
					r.item = u64::MAX - 1;
					r.beat();
					let mut f = String::new();
					for s in r.samples.iter().chain(&r.wides) {
						f.push_str(s);
					}
					std::fs::write(format!("{}/sample-{}.ndjson", r.dir, r.worker), f).unwrap();
					let q = |s: &str| s.replace('"', "'");
					let kinds: Vec<String> = r.kinds.iter().map(|(k, v)| format!("\"{}\":{}", q(k), v)).collect();
					let worst: Vec<String> = r.worst.iter().map(|(k, v)| format!("\"{}\":{:.3}", q(k), v)).collect();
					let flags: Vec<String> = r.flagged.iter().map(|k| format!("\"{}\"", q(k))).collect();
					let s = format!(
						"{{\"evals\":{},\"distinct\":{},\"callbacks\":{},\"samples\":{},\"entailed\":{},\"refuted\":{},\"timed_out\":{},\"secs\":{:.2},\"kinds\":{{{}}},\"worst\":{{{}}},\"flagged\":[{}]}}",
						r.evals,
						r.distinct.len(),
						r.cbs,
						r.samples.len(),
						r.entailed,
						r.refuted,
						timed_out,
						t0.elapsed().as_secs_f64(),
						kinds.join(","),
						worst.join(","),
						flags.join(",")
					);
					std::fs::write(format!("{}/sum-{}.json", r.dir, r.worker), s).unwrap();
				})
				.unwrap();
			if h.join().is_err() {
				eprintln!("harness thread panicked");
				std::process::exit(3);
			}
		}
		// digests of the corpus, one line per case
		"corpus" => {
			let seed = num("seed", 1);
			let (from, to) = (num("from", 0), num("to", 300));
			let mut out = String::new();
			for i in from..to {
				let c = camp::corpus(seed, i);
				if !c.op.available() {
					continue;
				}
				if let Some(f) = opt.get("hb") {
					std::fs::write(f, format!("{i}")).unwrap();
				}
				let o = exec::exec(&c);
				let b = monitor::broken(&c, &o, camp::clauses_of("C22"));
				out.push_str(&format!("{} {} {:x} {}\n", i, c.op.name(), camp::digest(&c, &o), b));
			}
			std::fs::write(text("out", "/dev/stdout"), out).unwrap();
		}
		// trace of one corpus case
		"dump" => {
			let c = camp::corpus(num("seed", 1), num("item", 0));
			let o = exec::exec(&c);
			print!("{}", emit::trace(&c, &o, "config"));
		}
		// a corpus case as text
		"text" => print!("{}", camp::corpus(num("seed", 1), num("item", 0)).to_text()),
		// trace of a call given as text
		"case" => {
			let c = Case::parse(&std::fs::read_to_string(text("file", "/dev/stdin")).unwrap());
			let o = exec::exec(&c);
			print!("{}", emit::trace(&c, &o, ""));
		}
		// trace header of a call given as text, without executing it
		"head" => {
			let c = Case::parse(&std::fs::read_to_string(text("file", "/dev/stdin")).unwrap());
			print!("{}{}{}", emit::new_line(&c, &c.ranks), emit::view_line(c.view), emit::call_line(&c, ""));
		}
		_ => {
			eprintln!("usage: slicev run|corpus|dump|case|head [--key value]...");
			std::process::exit(2);
		}
	}
}
fn num_of(o: &HashMap<String, String>, k: &str, d: u64) -> u64 {
	o.get(k).map_or(d, |v| v.parse().expect("number"))
}
