mod choice;
mod common;
mod ctx;
mod engine;
mod line;
mod model;
mod seam;
mod sim_bus;
mod sim_files;
mod sim_gateway;
mod sim_link;
mod sim_memory;
mod sim_readout;
mod sim_threads;
mod sim_seek;
mod sim_worn;

use engine::*;
use std::time::Duration;

#[global_allocator]
static ALLOC: seam::Alloc = seam::Alloc;

const PROPERTIES: &[Property] = &[
	Property { id: "C01", run: sim_link::c01, step_limit: 50_000_000, cpu_s: 60 },
	Property { id: "C02", run: sim_link::c02, step_limit: 50_000_000, cpu_s: 60 },
	Property { id: "C03", run: sim_link::c03, step_limit: 400_000_000, cpu_s: 60 },
	Property { id: "C04", run: sim_bus::c04, step_limit: 50_000_000, cpu_s: 60 },
	Property { id: "C05", run: sim_bus::c05, step_limit: 50_000_000, cpu_s: 60 },
	Property { id: "C06", run: sim_bus::c06, step_limit: 50_000_000, cpu_s: 60 },
	Property { id: "C07", run: sim_threads::c07, step_limit: 1_000_000_000, cpu_s: 60 },
	Property { id: "C08", run: sim_readout::c08, step_limit: 50_000_000, cpu_s: 60 },
	Property { id: "C09", run: sim_link::c09, step_limit: 50_000_000, cpu_s: 60 },
	Property { id: "C10", run: sim_memory::c10, step_limit: 400_000_000, cpu_s: 60 },
	Property { id: "C11", run: sim_files::c11, step_limit: 400_000_000, cpu_s: 60 },
	Property { id: "C12", run: sim_files::c12, step_limit: 400_000_000, cpu_s: 60 },
	Property { id: "C13", run: sim_link::c13, step_limit: 50_000_000, cpu_s: 60 },
	Property { id: "C17", run: sim_gateway::c17, step_limit: 400_000_000, cpu_s: 60 },
];

fn arg(args: &[String], name: &str, default: &str) -> String {
	args.iter()
		.position(|a| a == name)
		.and_then(|i| args.get(i + 1).cloned())
		.unwrap_or_else(|| default.into())
}

fn num(args: &[String], name: &str, default: u64) -> u64 {
	arg(args, name, &default.to_string()).parse().expect(name)
}

fn property(id: &str) -> &'static Property {
	PROPERTIES.iter().find(|p| p.id == id).unwrap_or_else(|| {
		eprintln!("unknown property {id}");
		std::process::exit(2)
	})
}

fn json(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			c if (c as u32) < 0x20 || (0x7F..0xA0).contains(&(c as u32)) => o.push_str(&format!("\\u{:04x}", c as u32)),
			c => o.push(c),
		}
	}
	o.push('"');
	o
}

fn main() {
	let args: Vec<String> = std::env::args().collect();
	seam::fixed_addresses();
	ctx::install_panic_hook();
	seam::make_rooms();
	line::corpus();
	let code = match args.get(1).map(|s| s.as_str()) {
		Some("explore") => cmd_explore(&args),
		Some("replay") => cmd_replay(&args),
		Some("one") => cmd_one(&args),
		_ => {
			eprintln!("usage: mbsim explore PROP | replay FILE | one PROP --seed S --run N");
			2
		}
	};
	std::process::exit(code);
}

/// 0 held, 1 violated, 2 error
fn cmd_explore(args: &[String]) -> i32 {
	let p = property(&args[2]);
	let seed = num(args, "--seed", 1);
	let from = num(args, "--from", 0);
	let to = num(args, "--to", 1000);
	let lanes = num(args, "--lanes", 8).min(to - from).max(1);
	let wall = num(args, "--wall", 600) as f64;
	let profile = arg(args, "--profile", if cfg!(debug_assertions) { "checked" } else { "release" });
	let out = arg(args, "--out", "");
	let e = explore(p, seed, from, to, lanes, wall);
	let mut replay = String::new();
	let mut code = 0;
	if let Some(h) = &e.harness {
		eprintln!("harness error: {h}");
		code = 2;
	} else if let Some(f) = &e.found {
		code = 1;
		let secs = num(args, "--minimise", 25);
		let (min, tries) = minimise(p, &f.choices, &f.class, Duration::from_secs(secs));
		let sh: *mut ctx::Shared = map_shared();
		// once more, with its event log
		let mut use_choices = min.clone();
		let mut o = execute(p, choice::Ch::replay(min.clone(), unsafe { &mut (*sh).rec }), sh, true);
		if !matches!(&o, Outcome::Violated { class, .. } if *class == f.class) {
			use_choices = f.choices.clone();
			o = execute(p, choice::Ch::replay(f.choices.clone(), unsafe { &mut (*sh).rec }), sh, true);
		}
		let (class, detail) = match o {
			Outcome::Violated { class, detail } => (class, detail),
			_ => (f.class.clone(), format!("{} (did not reproduce on replay)", f.detail)),
		};
		let trace = unsafe { (*sh).trace.get() };
		let dir = arg(args, "--replays", ".");
		let _ = std::fs::create_dir_all(&dir);
		replay = format!("{dir}/{}-{profile}-seed{seed}-run{}.replay", p.id, f.run);
		let text = format!(
			"mbsim replay 1\nproperty {}\nprofile {profile}\nseed {seed}\nrun {}\nclass {class}\ndecisions {} of originally {}, {tries} attempts\n{}\nend\n--- violation\n{detail}\n--- events\n{trace}",
			p.id,
			f.run,
			use_choices.len(),
			f.choices.len(),
			write_choices(&use_choices),
		);
		if std::fs::write(&replay, text).is_err() {
			eprintln!("cannot write {replay}");
			code = 2;
		}
		println!("{} run {} ({profile}): {class}: {detail}", p.id, f.run);
	}
	if !out.is_empty() {
		let counters: Vec<String> = ctx::NAMES
			.iter()
			.zip(&e.counters)
			.filter(|(_, v)| **v > 0)
			.map(|(k, v)| format!("{}: {v}", json(k)))
			.collect();
		let samples: Vec<String> = e.samples.iter().map(|s| json(s)).collect();
		let s = format!(
			"{{\"property\": {}, \"profile\": {}, \"seed\": {seed}, \"from\": {from}, \"to\": {to}, \"lanes\": {lanes}, \"runs\": {}, \"nontrivial\": {}, \"distinct\": {}, \"distinct_nontrivial\": {}, \"sim_s\": {}, \"steps\": {}, \"states\": {}, \"edges_hit\": {}, \"edges\": {}, \"wall_s\": {:.3}, \"cut_short\": {}, \"digest\": \"{:016x}\", \"counters\": {{{}}}, \"samples\": [{}], \"violation\": {}, \"replay\": {}}}\n",
			json(p.id),
			json(&profile),
			e.runs,
			e.nontrivial,
			e.distinct,
			e.distinct_nontrivial,
			e.sim_ns / 1_000_000_000,
			e.steps,
			e.states,
			e.edges_hit,
			e.edges,
			e.wall,
			e.cut_short,
			e.digest,
			counters.join(", "),
			samples.join(", "),
			match &e.found {
				Some(f) => json(&format!("{}: {}", f.class, f.detail)),
				None => "null".into(),
			},
			json(&replay),
		);
		if std::fs::write(&out, s).is_err() {
			code = 2;
		}
	} else {
		println!(
			"{} {profile}: {} runs ({} distinct), {:.1}s, {:.0} runs/s, steps {}, states {}, edges {}/{}, digest {:016x}",
			p.id,
			e.runs,
			e.distinct,
			e.wall,
			e.runs as f64 / e.wall,
			e.steps,
			e.states,
			e.edges_hit,
			e.edges,
			e.digest
		);
		for (k, v) in ctx::NAMES.iter().zip(&e.counters) {
			if *v > 0 {
				println!("  {k}: {v}");
			}
		}
	}
	if !replay.is_empty() {
		println!("REPLAY {replay}");
	}
	code
}

/// Reproduce a violation from its file: 1 if it shows again, 0 if not
fn cmd_replay(args: &[String]) -> i32 {
	let text = match std::fs::read_to_string(&args[2]) {
		Ok(t) => t,
		Err(e) => {
			eprintln!("{}: {e}", args[2]);
			return 2;
		}
	};
	let mut lines = text.lines();
	if lines.next() != Some("mbsim replay 1") {
		eprintln!("not a replay file");
		return 2;
	}
	let mut id = "";
	let mut class = "";
	let mut body = String::new();
	for l in lines {
		if l == "end" {
			break;
		}
		match l.split_once(' ') {
			Some(("property", v)) => id = v,
			Some(("class", v)) => class = v,
			Some(("profile" | "seed" | "run" | "decisions", _)) => {}
			_ => {
				body.push_str(l);
				body.push('\n');
			}
		}
	}
	let p = property(id);
	let Some(ch) = read_choices(&body) else {
		eprintln!("cannot read the decisions");
		return 2;
	};
	let sh: *mut ctx::Shared = map_shared();
	let o = execute(p, choice::Ch::replay(ch, unsafe { &mut (*sh).rec }), sh, true);
	print!("{}", unsafe { (*sh).trace.get() });
	match o {
		Outcome::Violated { class: c, detail } => {
			println!("--- {c}: {detail}");
			println!("{}", if c == class { "reproduced" } else { "another violation than recorded" });
			1
		}
		Outcome::Held => {
			println!("--- held");
			0
		}
		Outcome::Harness(d) => {
			println!("--- harness error: {d}");
			2
		}
	}
}

fn cmd_one(args: &[String]) -> i32 {
	let p = property(&args[2]);
	let run = num(args, "--run", 0);
	let sh: *mut ctx::Shared = map_shared();
	let ch = choice::Ch::generate(run_seed(num(args, "--seed", 1), p.id, run), unsafe { &mut (*sh).rec });
	let o = execute(p, ch, sh, true);
	print!("{}", unsafe { (*sh).trace.get() });
	println!("--- {o:?} digest {:016x} decisions {}", unsafe { (*sh).digest }, choices(sh).len());
	(o != Outcome::Held) as i32
}
