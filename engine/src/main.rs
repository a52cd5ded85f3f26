mod exec;
mod explore;
mod ir;
mod smt;
mod sym;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jf(x: f64) -> String {
    if x.is_finite() {
        format!("{x:?}")
    } else {
        format!("\"{x:?}\"")
    }
}
fn jmap(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    format!("{{{}}}", v.join(","))
}
fn jin(m: &[(String, f64)]) -> String {
    let v: Vec<String> = m
        .iter()
        .map(|(k, v)| format!("{}:{}", js(k), jf(*v)))
        .collect();
    format!("{{{}}}", v.join(","))
}

fn main() {
    let mut a = std::env::args().skip(1);
    let ll = a
        .next()
        .expect("usage: velsym FILE.ll --out OUT [options] entry...");
    let mut o = explore::Opts {
        time: 60.0,
        max_paths: u64::MAX,
        threads: 8,
        steps: 50_000_000,
        depth: 2500,
        solver: vec!["z3-new".into(), "-in".into()],
        solver_ms: 4000,
        max_viol: 3,
        ignore: vec![],
        samples: 60,
        only: None,
        verbose: false,
        seed: 1,
    };
    let mut out = String::new();
    let mut entries: Vec<(String, f64)> = vec![];
    let mut cov = None;
    while let Some(x) = a.next() {
        let mut v = || a.next().expect("value");
        match x.as_str() {
            "--out" => out = v(),
            "--time" => o.time = v().parse().unwrap(),
            "--paths" => o.max_paths = v().parse().unwrap(),
            "--threads" => o.threads = v().parse().unwrap(),
            "--steps" => o.steps = v().parse().unwrap(),
            "--solver" => o.solver = v().split(' ').map(|s| s.to_string()).collect(),
            "--solver-ms" => o.solver_ms = v().parse().unwrap(),
            "--max-viol" => o.max_viol = v().parse().unwrap(),
            "--samples" => o.samples = v().parse().unwrap(),
            "--ignore" => o.ignore.push(v()),
            "--seed" => o.seed = v().parse().unwrap(),
            "--verbose" => o.verbose = true,
            "--cov" => cov = Some(v()),
            "--inputs" => {
                let t = std::fs::read_to_string(v()).unwrap();
                let mut m = HashMap::new();
                for l in t.lines() {
                    let mut p = l.rsplitn(2, ' ');
                    if let (Some(b), Some(a)) = (p.next(), p.next()) {
                        if let Ok(x) = b.parse() {
                            m.insert(a.to_string(), x);
                        }
                    }
                }
                o.only = Some(m);
            }
            e => {
                // entry or entry=seconds
                let (n, t) = match e.split_once('=') {
                    Some((n, t)) => (n.to_string(), t.parse().unwrap()),
                    None => (e.to_string(), f64::NAN),
                };
                entries.push((n, t));
            }
        }
    }
    let t0 = std::time::Instant::now();
    let m = match ir::Module::load(&ll, exec::hook) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("velsym: cannot load {ll}: {e}");
            std::process::exit(3);
        }
    };
    let load = t0.elapsed().as_secs_f64();
    if std::env::var("VELSYM_PARSEALL").is_ok() {
        let mut bad = 0;
        for i in 0..m.funcs.len() {
            if m.funcs[i].text.is_some() {
                if let Err(e) = m.body(i as u32) {
                    eprintln!("{e}");
                    bad += 1;
                }
            }
        }
        eprintln!("{} functions, {} unparsable", m.funcs.len(), bad);
    }
    let cache: smt::Cache = Default::default();
    let mut res = vec![];
    let mut allcov: Vec<Vec<bool>> = vec![vec![]; m.funcs.len()];
    for (e, t) in &entries {
        let Some(&fi) = m.fidx.get(e) else {
            eprintln!("velsym: no entry {e}");
            std::process::exit(3);
        };
        let oo = explore::Opts {
            time: if t.is_nan() { o.time } else { *t },
            solver: o.solver.clone(),
            ignore: o.ignore.clone(),
            only: o.only.clone(),
            ..o
        };
        let r = explore::explore(&m, fi, &oo, &cache);
        eprintln!(
            "{e}: paths={} ({} infeasible) left={} exhausted={} time={:.1}s checks={} (interval {} concrete {} solver {}: unsat {} unknown {} unconf {}) flips={} (unsat {} unknown {}) queries={} cached={} unknown={} nl={} solver={:.1}s max={:.2}s diverged={} slivers={} steps={} err={} viol={}",
            r.paths,
            r.infeasible,
            r.left,
            r.exhausted,
            r.time,
            r.close_total,
            r.close_trivial,
            r.close_conc,
            r.checks_queried,
            r.checks_unsat,
            r.checks_unknown,
            r.checks_unconfirmed,
            r.flips,
            r.flips_unsat,
            r.flips_unknown,
            r.stats.queries,
            r.stats.cached,
            r.stats.unknown,
            r.stats.nonlinear,
            r.stats.time,
            r.stats.max_time,
            r.diverged,
            r.slivers,
            r.steps,
            r.stats.errors,
            r.viol.len()
        );
        for (k, v) in &r.trouble {
            eprintln!("   trouble x{v}: {k}");
        }
        for (k, v) in &r.engine_errors {
            eprintln!("   ENGINE x{v}: {k}");
        }
        if !r.solver_error.is_empty() {
            eprintln!("   solver error: {}", r.solver_error);
        }
        for (k, v) in &r.covers {
            eprintln!("   cover x{v}: {k}");
        }
        for v in r.viol.iter().chain(&r.ignored) {
            eprintln!("   VIOL x{}: {}  {:?}", v.count, v.msg, v.inputs);
        }
        if o.verbose {
            let mut h: Vec<_> = r.hot.iter().collect();
            h.sort_by_key(|x| std::cmp::Reverse(*x.1));
            for (l, n) in h.into_iter().take(30) {
                eprintln!(
                    "   hot {n}: {} block {}",
                    m.funcs[(*l >> 12) as usize].demangled,
                    l & 4095
                );
            }
        }
        let mut fns: Vec<String> = vec![];
        let mut nfn = 0;
        for (i, c) in r.cov.iter().enumerate() {
            if c.is_empty() {
                continue;
            }
            nfn += 1;
            if m.funcs[i].is_velato {
                let d = &m.funcs[i].demangled;
                if (d.starts_with("velato::") || d.starts_with("<velato::"))
                    && !d.contains("drop_glue")
                {
                    fns.push(d.clone());
                }
            }
            if allcov[i].is_empty() {
                allcov[i].resize(c.len(), false);
            }
            for (x, y) in allcov[i].iter_mut().zip(c) {
                *x |= *y;
            }
        }
        let mut s = String::new();
        let _ = write!(
            s,
            "{{\"entry\":{},\"paths\":{},\"infeasible\":{},\"exhausted\":{},\"left\":{},\"time\":{:.3},\"decisions\":{},\"choices\":{},\"max_decisions\":{},\"steps\":{},\"close_total\":{},\"close_interval\":{},\"close_concrete\":{},\"checks_solver\":{},\"checks_unsat\":{},\"checks_unknown\":{},\"checks_unconfirmed\":{},\"flips\":{},\"flips_unsat\":{},\"flips_unknown\":{},\"queries\":{},\"q_sat\":{},\"q_unsat\":{},\"q_unknown\":{},\"q_cached\":{},\"q_errors\":{},\"q_nonlinear\":{},\"solver_time\":{:.3},\"diverged\":{},\"slivers\":{},\"edges\":{},\"load_time\":{load:.3},\"functions_executed\":{nfn},\"near\":{},\"near_unsat\":{},\"near_queries\":{},\"near_sat\":{}",
            js(e),
            r.paths,
            r.infeasible,
            r.exhausted,
            r.left,
            r.time,
            r.decisions,
            r.choices,
            r.max_decisions,
            r.steps,
            r.close_total,
            r.close_trivial,
            r.close_conc,
            r.checks_queried,
            r.checks_unsat,
            r.checks_unknown,
            r.checks_unconfirmed,
            r.flips,
            r.flips_unsat,
            r.flips_unknown,
            r.stats.queries,
            r.stats.sat,
            r.stats.unsat,
            r.stats.unknown,
            r.stats.cached,
            r.stats.errors,
            r.stats.nonlinear,
            r.stats.time,
            r.diverged,
            r.slivers,
            r.edges,
            r.stats.near,
            r.stats.near_unsat,
            r.stats.near_queries,
            r.stats.near_sat
        );
        let _ = write!(
            s,
            ",\"trouble\":{},\"engine_errors\":{},\"covers\":{}",
            jmap(&r.trouble),
            jmap(&r.engine_errors),
            jmap(&r.covers)
        );
        let vs = |v: &[explore::Violation]| -> String {
            let x: Vec<String> = v
                .iter()
                .map(|v| {
                    format!(
                        "{{\"msg\":{},\"kind\":{},\"count\":{},\"inputs\":{}}}",
                        js(&v.msg),
                        js(&v.kind),
                        v.count,
                        jin(&v.inputs)
                    )
                })
                .collect();
            format!("[{}]", x.join(","))
        };
        let _ = write!(
            s,
            ",\"violations\":{},\"ignored\":{}",
            vs(&r.viol),
            vs(&r.ignored)
        );
        let sm: Vec<String> = r
            .samples
            .iter()
            .map(|x| {
                let ob: Vec<String> = x.obs.iter().map(|(v, _)| jf(*v)).collect();
                format!(
                    "{{\"inputs\":{},\"hinted\":{},\"obs\":[{}]}}",
                    jin(&x.inputs),
                    x.hinted,
                    ob.join(",")
                )
            })
            .collect();
        let _ = write!(s, ",\"samples\":[{}]", sm.join(","));
        let vr: Vec<String> = r
            .vars
            .iter()
            .map(|(k, (lo, hi, lat, ch))| {
                format!(
                    "{}:{{\"lo\":{},\"hi\":{},\"grain\":{},\"choice\":{}}}",
                    js(k),
                    jf(*lo),
                    jf(*hi),
                    lat.map(|k| jf(2f64.powi(-k))).unwrap_or("null".into()),
                    ch
                )
            })
            .collect();
        let _ = write!(s, ",\"inputs\":{{{}}}", vr.join(","));
        fns.sort();
        fns.dedup();
        let _ = write!(
            s,
            ",\"functions\":[{}]}}",
            fns.iter().map(|f| js(f)).collect::<Vec<_>>().join(",")
        );
        res.push(s);
    }
    if let Some(c) = cov {
        let mut s = String::new();
        for (i, v) in allcov.iter().enumerate() {
            if !m.funcs[i].is_velato {
                continue;
            }
            let hit = v.iter().filter(|x| **x).count();
            if m.funcs[i].text.is_none() {
                continue;
            }
            let tot = m.body(i as u32).map(|b| b.blocks.len()).unwrap_or(0);
            let _ = writeln!(s, "{hit}/{tot} {}", m.funcs[i].demangled);
        }
        std::fs::write(c, s).unwrap();
    }
    if !out.is_empty() {
        std::fs::write(&out, format!("[{}]\n", res.join(",\n"))).unwrap();
    }
}
