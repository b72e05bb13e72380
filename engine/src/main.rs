mod exec;
mod ir;
mod smt;
mod term;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn ins(v: &[(String, u128)]) -> String {
    let mut s = String::from("[");
    for (i, (_, x)) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let _ = write!(s, "\"{}\"", x);
    }
    s.push(']');
    s
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut i = 2;
    let mut entries: Vec<(String, Option<u64>)> = vec![];
    let mut cfg = exec::Cfg {
        max_paths: 2_000_000,
        max_steps: 20_000_000,
        max_time: 800.0,
        max_cex: 1,
        stubs: vec![],
        verbose: false,
        trace: false,
    };
    let mut out = None;
    let mut z3 = "z3-new".to_string();
    let mut tmo = 4000;
    let mut fb = 60;
    let mut log = None;
    while i < a.len() {
        let nx = |i: &mut usize| {
            *i += 1;
            a[*i].clone()
        };
        match a[i].as_str() {
            "--entry" => {
                let e = nx(&mut i);
                let (n, g) = match e.split_once(':') {
                    Some((n, g)) => (n.to_string(), Some(g.parse().unwrap())),
                    None => (e, None),
                };
                entries.push((n, g));
            }
            "--json" => out = Some(nx(&mut i)),
            "--stub" => {
                let s = nx(&mut i);
                let (p, t) = s.split_once('=').unwrap();
                cfg.stubs.push((p.into(), t.into()));
            }
            "--max-paths" => cfg.max_paths = nx(&mut i).parse().unwrap(),
            "--max-steps" => cfg.max_steps = nx(&mut i).parse().unwrap(),
            "--max-time" => cfg.max_time = nx(&mut i).parse().unwrap(),
            "--max-cex" => cfg.max_cex = nx(&mut i).parse().unwrap(),
            "--timeout" => tmo = nx(&mut i).parse().unwrap(),
            "--fallback" => fb = nx(&mut i).parse().unwrap(),
            "--z3" => z3 = nx(&mut i),
            "--log" => log = Some(nx(&mut i)),
            "-v" => cfg.verbose = true,
            "--trace" => cfg.trace = true,
            x => {
                eprintln!("unknown option {}", x);
                std::process::exit(2);
            }
        }
        i += 1;
    }
    let m = match ir::Module::load(&a[1]) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("{}", e);
            std::process::exit(2)
        }
    };
    let mut s = smt::Smt::new(z3);
    s.timeout_ms = tmo;
    s.fallback_s = fb;
    if let Some(l) = log {
        s.log = std::fs::File::create(l).ok();
    }
    let verbose = cfg.verbose;
    let mut ex = exec::Exec::new(m, s, cfg);
    let mut js = String::from("[\n");
    for (k, (e, g)) in entries.iter().enumerate() {
        let t0 = std::time::Instant::now();
        ex.rep = Default::default();
        ex.smt.stats = Default::default();
        let r = ex.run(e, *g);
        if let Err(x) = r {
            ex.rep.errors.push(x);
        }
        let rep = &ex.rep;
        let st = &ex.smt.stats;
        if k > 0 {
            js.push_str(",\n");
        }
        let _ = write!(js, "{{\"entry\":{},\"arg\":{},\"paths\":{},\"killed\":{},\"asserts\":{},\"steps\":{},\"forks\":{},\"incomplete\":{},\"wall_s\":{:.3},",
            esc(e), g.map(|x| x.to_string()).unwrap_or("null".into()), rep.paths, rep.killed, rep.asserts, rep.steps, rep.forks,
            rep.incomplete.as_ref().map(|x| esc(x)).unwrap_or("null".into()), t0.elapsed().as_secs_f64());
        let _ = write!(js, "\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"fallback\":{},\"abstracted\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},",
            st.queries, st.sat, st.unsat, st.unknown, st.cache_hits, st.fallback, st.abstracted, st.time, st.max_time);
        let cov: Vec<String> = rep.covers.iter().map(|(a, b)| format!("\"{}\":{}", a, b)).collect();
        let _ = write!(js, "\"covers\":{{{}}},", cov.join(","));
        let errs: Vec<String> = rep.errors.iter().map(|e| esc(e)).collect();
        let _ = write!(js, "\"errors\":[{}],", errs.join(","));
        let fs: Vec<String> = rep.funcs.iter().map(|e| esc(e)).collect();
        let _ = write!(js, "\"funcs\":[{}],", fs.join(","));
        let sm: Vec<String> = rep.sample_inputs.iter().map(|x| ins(x)).collect();
        let _ = write!(js, "\"samples\":[{}],", sm.join(","));
        let pb: Vec<String> = rep.probes.iter().map(|x| ins(x)).collect();
        let _ = write!(js, "\"probes\":[{}],", pb.join(","));
        let cx: Vec<String> = rep
            .cex
            .iter()
            .map(|x| format!("{{\"kind\":{},\"inputs\":{},\"trace\":[{}]}}", esc(&x.kind), ins(&x.inputs), x.trace.iter().map(|t| esc(t)).collect::<Vec<_>>().join(",")))
            .collect();
        let _ = write!(js, "\"cex\":[{}]}}", cx.join(","));
        if verbose {
            let mut p: Vec<_> = rep.branch_profile.iter().collect();
            p.sort_by_key(|x| std::cmp::Reverse(*x.1));
            for (n, c) in p.iter().take(25) {
                eprintln!("{:8} {}", c, n);
            }
            eprintln!("{} {:?}: paths {} killed {} asserts {} cex {} errors {} incomplete {:?} queries {} solver {:.2}s wall {:.2}s", e, g, rep.paths, rep.killed, rep.asserts, rep.cex.len(), rep.errors.len(), rep.incomplete, st.queries, st.time, t0.elapsed().as_secs_f64());
            for c in &rep.cex {
                eprintln!("CEX {} {:?} {:#?}", c.kind, c.inputs, c.trace);
            }
            for c in &rep.errors {
                eprintln!("ERR {}", c);
            }
        }
    }
    js.push_str("\n]\n");
    match out {
        Some(o) => std::fs::write(o, js).unwrap(),
        None => println!("{}", js),
    }
}
