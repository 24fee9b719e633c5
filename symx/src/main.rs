mod exec;
mod expr;
mod ir;
mod solver;

fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) > 126 => r.push_str(&format!("\\u{:04x}", (c as u32).min(0xffff))),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn real_main() {
    let args: Vec<String> = std::env::args().collect();
    let mut ll = String::new();
    let mut entry = String::new();
    let mut out = String::new();
    let mut timeout = 60_000u32;
    let mut dump = None;
    let mut o = exec::Opts { max_paths: 2_000_000, max_steps: 12_000_000, max_total_steps: 20_000_000_000, max_time: 800.0, max_viol: 4, after_viol: 10.0, max_chain: 600, params: vec![], samples: 12, seed: 1 };
    let mut i = 1;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--ll" => ll = v,
            "--entry" => entry = v,
            "--out" => out = v,
            "--query-timeout-ms" => timeout = v.parse().unwrap(),
            "--max-time" => o.max_time = v.parse().unwrap(),
            "--max-paths" => o.max_paths = v.parse().unwrap(),
            "--max-steps" => o.max_steps = v.parse().unwrap(),
            "--after-viol" => o.after_viol = v.parse().unwrap(),
            "--max-viol" => o.max_viol = v.parse().unwrap(),
            "--samples" => o.samples = v.parse().unwrap(),
            "--dump" => dump = Some(v),
            "--params" => o.params = v.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
            x => {
                eprintln!("unknown option {}", x);
                std::process::exit(3);
            }
        }
        i += 2;
    }
    let t0 = std::time::Instant::now();
    let m = match ir::Module::load(&ll) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("cannot read IR: {}", e);
            std::process::exit(3);
        }
    };
    let load_s = t0.elapsed().as_secs_f64();
    let mut s = solver::Solver::new(timeout);
    s.dump = dump;
    let mut x = exec::Exec::new(m, s, o);
    x.run(&entry);
    let mut r = String::from("{\n");
    let (lines, fns) = x.coverage();
    r.push_str(&format!(" \"entry\": {}, \"solver\": {},\n", js(&entry), js(&solver::version())));
    r.push_str(&format!(" \"paths\": {}, \"infeasible\": {}, \"forks\": {}, \"instructions\": {}, \"symbolic_bytes\": {}, \"depth\": {}, \"nodes\": {},\n", x.paths, x.infeasible, x.forks, x.steps, x.max_sym, x.depth_max, expr::arena_len()));
    r.push_str(&format!(" \"queries\": {}, \"cache_hits\": {}, \"byte_domain\": {}, \"sat\": {}, \"unsat\": {}, \"solver_s\": {:.3}, \"max_query_s\": {:.3}, \"wall_s\": {:.3}, \"load_s\": {:.3}, \"uninit_loads\": {},\n", x.s.queries, x.s.cache_hits, x.s.byte_domain, x.s.sat, x.s.unsat, x.s.time, x.s.max_query, t0.elapsed().as_secs_f64(), load_s, x.uninit_loads));
    r.push_str(&format!(" \"checks\": {}, \"checks_trivial\": {},\n", x.checks, x.checks_trivial));
    let kv = |m: &std::collections::BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ");
    r.push_str(&format!(" \"check_names\": {{{}}},\n \"covers\": {{{}}},\n", kv(&x.check_names), kv(&x.covers)));
    r.push_str(&format!(" \"functions\": [{}],\n", fns.iter().map(|f| js(f)).collect::<Vec<_>>().join(", ")));
    r.push_str(&format!(" \"lines\": [{}],\n", lines.iter().map(|f| js(f)).collect::<Vec<_>>().join(", ")));
    r.push_str(&format!(" \"errors\": [{}],\n", x.errors.iter().map(|f| js(f)).collect::<Vec<_>>().join(", ")));
    r.push_str(&format!(
        " \"violations\": [{}],\n",
        x.violations
            .iter()
            .map(|v| format!("{{\"kind\": {}, \"msg\": {}, \"at\": {}, \"bytes\": \"{}\", \"trace\": [{}]}}", js(&v.kind), js(&v.msg), js(&v.at), hex(&v.bytes), v.trace.iter().map(|t| js(t)).collect::<Vec<_>>().join(", ")))
            .collect::<Vec<_>>()
            .join(", ")
    ));
    r.push_str(&format!(
        " \"samples\": [{}]\n}}\n",
        x.samples
            .iter()
            .map(|s| format!("{{\"bytes\": \"{}\", \"log\": [{}], \"marks\": [{}]}}", hex(&s.bytes), s.log.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(", "), s.marks.iter().map(|t| js(t)).collect::<Vec<_>>().join(", ")))
            .collect::<Vec<_>>()
            .join(", ")
    ));
    if out.is_empty() {
        print!("{}", r);
    } else {
        std::fs::write(&out, r).unwrap();
    }
}

fn main() {
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap();
    if h.join().is_err() {
        std::process::exit(3);
    }
}
