//! Generational concolic search over one harness entry point.
use crate::exec::*;
use crate::ir::Module;
use crate::smt::*;
use crate::sym::*;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::sync::{Condvar, Mutex};
use std::time::Instant;

pub struct Opts {
    pub time: f64,
    pub max_paths: u64,
    pub threads: usize,
    pub steps: u64,
    pub depth: usize,
    pub solver: Vec<String>,
    pub solver_ms: u64,
    pub max_viol: usize,
    pub ignore: Vec<String>,
    pub samples: usize,
    pub only: Option<HashMap<String, f64>>,
    pub verbose: bool,
    pub seed: u64,
}

struct Job {
    inputs: HashMap<String, f64>,
    bound: usize,
    prefix: u64,
    /// the last decision of the prefix takes one of the pieces between these, where the atoms hold
    piece: Option<[(f64, Option<Atom>); 2]>,
    /// its inputs only exist within the rounding error of a comparison
    edge: bool,
    /// check confirmation run
    confirm: Option<String>,
}

#[derive(Clone)]
pub struct Violation {
    pub msg: String,
    pub kind: String,
    pub inputs: Vec<(String, f64)>,
    pub count: u64,
}
#[derive(Clone)]
pub struct Sample {
    pub inputs: Vec<(String, f64)>,
    pub obs: Vec<(f64, bool)>,
    pub hinted: bool,
}

#[derive(Default)]
pub struct Report {
    pub paths: u64,
    pub infeasible: u64,
    pub decisions: u64,
    pub choices: u64,
    pub flips: u64,
    pub flips_unsat: u64,
    pub flips_unknown: u64,
    pub diverged: u64,
    /// runs that left their path, whose inputs only exist within the rounding error of a comparison
    pub edges: u64,
    pub slivers: u64,
    pub checks: u64,
    pub checks_queried: u64,
    pub checks_unsat: u64,
    pub checks_unknown: u64,
    pub checks_unconfirmed: u64,
    pub close_total: u64,
    pub close_trivial: u64,
    pub close_conc: u64,
    pub max_decisions: usize,
    pub steps: u64,
    pub exhausted: bool,
    pub left: usize,
    pub trouble: BTreeMap<String, u64>,
    pub engine_errors: BTreeMap<String, u64>,
    pub viol: Vec<Violation>,
    pub ignored: Vec<Violation>,
    pub samples: Vec<Sample>,
    pub covers: BTreeMap<String, u64>,
    pub stats: Stats,
    pub cov: Vec<Vec<bool>>,
    pub time: f64,
    pub vars: BTreeMap<String, (f64, f64, Option<i32>, bool)>,
    pub solver_error: String,
    pub hot: BTreeMap<u32, u64>,
}

struct Shared {
    q: VecDeque<Job>,
    busy: usize,
    rep: Report,
    stop: bool,
    vkeys: HashSet<String>,
}

fn dec_hash(h: u64, d: &Dec) -> u64 {
    let (a, b) = match &d.kind {
        DecKind::Choice { n, taken, .. } => (*n | 1 << 40, *taken),
        DecKind::Branch { mask, taken, .. } => (*mask as u64 | 2 << 40, *taken as u64),
        DecKind::Piece { id, .. } => (3 << 40, (id + 0.0).to_bits()),
    };
    let mut h = h;
    for x in [a, b, d.loc as u64] {
        h = (h ^ x).wrapping_mul(0x100000001b3).rotate_left(17) ^ 0x9e37;
    }
    h
}
fn flipped(d: &Dec, other: u64) -> Dec {
    let mut e = d.clone();
    match &mut e.kind {
        DecKind::Choice { taken, .. } => *taken = other,
        DecKind::Branch { taken, .. } => *taken = !*taken,
        DecKind::Piece { .. } => unreachable!(),
    }
    e
}
fn vkey(s: &str) -> String {
    // group by message without numbers
    s.chars()
        .filter(|c| !c.is_ascii_digit())
        .take(160)
        .collect()
}

pub fn explore(m: &Module, entry: u32, o: &Opts, cache: &Cache) -> Report {
    let t0 = Instant::now();
    let sh = Mutex::new(Shared {
        q: VecDeque::new(),
        busy: 0,
        rep: Report {
            cov: vec![vec![]; m.funcs.len()],
            ..Default::default()
        },
        stop: false,
        vkeys: HashSet::new(),
    });
    let cv = Condvar::new();
    sh.lock().unwrap().q.push_back(Job {
        inputs: o.only.clone().unwrap_or_default(),
        bound: if o.only.is_some() { usize::MAX } else { 0 },
        prefix: 0,
        piece: None,
        edge: false,
        confirm: None,
    });
    std::thread::scope(|s| {
        for _ in 0..o.threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || worker(m, entry, o, cache, &sh, &cv, t0))
                .unwrap();
        }
    });
    let mut sh = sh.into_inner().unwrap();
    sh.rep.left = sh.q.len();
    sh.rep.exhausted = sh.q.is_empty() && !sh.stop;
    sh.rep.time = t0.elapsed().as_secs_f64();
    sh.rep
}

fn worker(
    m: &Module,
    entry: u32,
    o: &Opts,
    cache: &Cache,
    sh: &Mutex<Shared>,
    cv: &Condvar,
    t0: Instant,
) {
    let mut mach = Machine::new(
        m,
        Limits {
            steps: o.steps,
            depth: o.depth,
        },
    );
    mach.seed = o.seed;
    let mut solver = Solver::new(o.solver.clone(), o.solver_ms);
    loop {
        let job = {
            let mut g = sh.lock().unwrap();
            loop {
                if g.stop {
                    break None;
                }
                if t0.elapsed().as_secs_f64() > o.time || g.rep.paths >= o.max_paths {
                    g.stop = true;
                    cv.notify_all();
                    break None;
                }
                if let Some(j) = g.q.pop_front() {
                    g.busy += 1;
                    break Some(j);
                }
                if g.busy == 0 {
                    cv.notify_all();
                    break None;
                }
                g = cv
                    .wait_timeout(g, std::time::Duration::from_millis(200))
                    .unwrap()
                    .0;
            }
        };
        let Some(job) = job else { break };
        let inputs0 = job.inputs.clone();
        mach.reset(job.inputs.clone());
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| mach.run(entry)));
        let end = match r {
            Ok(e) => e,
            Err(p) => {
                let s = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                End::Engine(format!("internal: {s}"))
            }
        };
        if o.verbose {
            eprintln!(
                "path end={} decs={} steps={} in={:?}",
                end.text(),
                mach.sym.decs.len(),
                mach.steps,
                mach.used.iter().map(|u| (&u.0, u.1)).collect::<Vec<_>>()
            );
        }
        let mut used: Vec<(String, f64)> = mach.used.iter().map(|u| (u.0.clone(), u.1)).collect();
        used.dedup();
        let mut new_jobs: Vec<Job> = vec![];
        let mut rep = Report::default();
        let mut viol: Vec<Violation> = vec![];
        if end.is_violation() {
            let kind = match &end {
                End::Panic(_) => "panic",
                End::Assert(_) => "assert",
                End::Close(_) => "close",
                End::StackOverflow(_) => "stack",
                End::Steps(_) => "steps",
                End::Mem(_) => "memory",
                End::Segv(_) => "segv",
                _ => "?",
            };
            viol.push(Violation {
                msg: end.text(),
                kind: kind.into(),
                inputs: used.clone(),
                count: 1,
            });
        } else if let End::Engine(e) = &end {
            *rep.engine_errors.entry(e.clone()).or_insert(0) += 1;
        }
        if let Some(c) = &job.confirm {
            if !end.is_violation() {
                rep.checks_unconfirmed += 1;
                *rep.trouble
                    .entry(format!("unconfirmed model for {}", vkey(c)))
                    .or_insert(0) += 1;
            }
        } else {
            rep.paths = 1;
            if end == End::Infeasible {
                rep.infeasible = 1;
            }
            let decs = &mach.sym.decs;
            let mut h = 0u64;
            let mut hs = Vec::with_capacity(decs.len());
            for d in decs {
                hs.push(h);
                h = dec_hash(h, d);
            }
            hs.push(h);
            let mut bound = job.bound;
            let on_track = match &job.piece {
                None => {
                    bound == usize::MAX
                        || bound == 0
                        || (decs.len() >= bound && hs[bound] == job.prefix)
                }
                Some([(lo, _), (hi, _)]) => {
                    decs.len() >= bound
                        && hs[bound - 1] == job.prefix
                        && matches!(&decs[bound - 1].kind, DecKind::Piece { id, .. } if id > lo && id < hi)
                }
            };
            if !on_track {
                if job.edge {
                    rep.edges = 1;
                } else {
                    rep.diverged = 1;
                }
                if !job.edge && std::env::var("VELSYM_DIV").is_ok() {
                    eprintln!(
                        "DIVERGED bound {} have {} inputs {:?}",
                        bound,
                        decs.len(),
                        used
                    );
                    for d in decs.iter().take(bound) {
                        eprintln!("   {:?} {}", d.kind, m.funcs[(d.loc >> 12) as usize].demangled);
                    }
                }
                bound = usize::MAX;
            }
            rep.decisions = decs.len() as u64;
            rep.max_decisions = decs.len();
            rep.slivers = mach.sym.slivers as u64;
            for t in &mach.sym.trouble {
                *rep.trouble.entry(t.clone()).or_insert(0) += 1;
            }
            // value checks of the path
            let checks = std::mem::take(&mut mach.sym.checks);
            rep.checks = mach.close_total;
            rep.close_trivial = mach.close_trivial;
            rep.close_conc = mach.close_conc;
            rep.close_total = mach.close_total;
            mach.close_total = 0;
            mach.close_trivial = 0;
            mach.close_conc = 0;
            let near = std::mem::take(&mut mach.sym.near);
            if t0.elapsed().as_secs_f64() <= o.time {
                solver.confirm(&mach.sym, &near, cache);
            }
            for c in &checks {
                if t0.elapsed().as_secs_f64() > o.time * 1.5 + 5.0 {
                    rep.checks_unknown += 1;
                    continue;
                }
                rep.checks_queried += 1;
                match solver.solve(
                    &mach.sym,
                    &mach.sym.pc,
                    &Target::Far(c.poly.clone(), c.tol + c.eps),
                    cache,
                ) {
                    Res::Unsat => rep.checks_unsat += 1,
                    Res::Unknown => {
                        rep.checks_unknown += 1;
                        *rep.trouble
                            .entry(format!("undecided value check {}", vkey(&c.msg)))
                            .or_insert(0) += 1;
                    }
                    Res::Sat(mo, _) => {
                        let mut inp = inputs0.clone();
                        for (k, v) in &used {
                            inp.insert(k.clone(), *v);
                        }
                        for (v, x) in mo {
                            if mach.sym.vars[v].input {
                                inp.insert(mach.sym.vars[v].name.clone(), x);
                            }
                        }
                        new_jobs.push(Job {
                            inputs: inp,
                            bound: usize::MAX,
                            prefix: 0,
                            piece: None,
                            edge: false,
                            confirm: Some(c.msg.clone()),
                        });
                    }
                }
            }
            // flips
            if bound != usize::MAX {
                let decs = &mach.sym.decs;
                let base: HashMap<String, f64> = {
                    let mut b = inputs0.clone();
                    for (k, v) in &used {
                        b.insert(k.clone(), *v);
                    }
                    b
                };
                // the other pieces of the last decision of the prefix are this job's, too
                let first = if job.piece.is_some() {
                    bound - 1
                } else {
                    bound
                };
                for i in first..decs.len() {
                    let d = &decs[i];
                    match &d.kind {
                        DecKind::Piece { id, below, above } => {
                            let [lo, hi] = match &job.piece {
                                Some(p) if i + 1 == bound => p.clone(),
                                _ => [(f64::NEG_INFINITY, None), (f64::INFINITY, None)],
                            };
                            for dir in 0..2 {
                                // what is left below this piece, and above it
                                let (at, limit) = if dir == 0 {
                                    (below, &lo.1)
                                } else {
                                    (above, &hi.1)
                                };
                                let Some(at) = at else { continue };
                                let me = (*id, Some(at.clone()));
                                let piece = if dir == 0 {
                                    [lo.clone(), me]
                                } else {
                                    [me, hi.clone()]
                                };
                                rep.flips += 1;
                                if t0.elapsed().as_secs_f64() > o.time {
                                    rep.flips_unknown += 1;
                                    continue;
                                }
                                let mut pc = mach.sym.pc[..d.pc_len].to_vec();
                                pc.extend(limit.clone());
                                match solver.solve(&mach.sym, &pc, &Target::Atom(at.clone()), cache)
                                {
                                    Res::Unsat => rep.flips_unsat += 1,
                                    Res::Unknown => {
                                        rep.flips_unknown += 1;
                                        *rep.trouble
                                            .entry(format!(
                                                "undecided branch in {}",
                                                m.funcs[(d.loc >> 12) as usize].demangled
                                            ))
                                            .or_insert(0) += 1;
                                    }
                                    Res::Sat(mo, edge) => {
                                        let mut inp = base.clone();
                                        for (v, x) in mo {
                                            if mach.sym.vars[v].input {
                                                inp.insert(mach.sym.vars[v].name.clone(), x);
                                            }
                                        }
                                        new_jobs.push(Job {
                                            inputs: inp,
                                            bound: i + 1,
                                            prefix: hs[i],
                                            piece: Some(piece),
                                            edge,
                                            confirm: None,
                                        });
                                    }
                                }
                            }
                        }
                        DecKind::Choice { var, n, taken } => {
                            rep.choices += 1;
                            for k in 0..*n {
                                if k == *taken {
                                    continue;
                                }
                                let mut inp = base.clone();
                                inp.insert(mach.used[*var].0.clone(), k as f64);
                                // inputs consumed later are free again
                                for u in &mach.used[*var + 1..] {
                                    inp.remove(&u.0);
                                }
                                // ... but keep those constrained by the prefix (they were read before)
                                new_jobs.push(Job {
                                    inputs: inp,
                                    bound: i + 1,
                                    prefix: dec_hash(hs[i], &flipped(d, k)),
                                    piece: None,
                                    edge: false,
                                    confirm: None,
                                });
                            }
                        }
                        DecKind::Branch {
                            atom,
                            eps,
                            mask,
                            taken,
                        } => {
                            rep.flips += 1;
                            if o.verbose {
                                *rep.hot.entry(d.loc).or_insert(0) += 1;
                            }
                            if t0.elapsed().as_secs_f64() > o.time {
                                rep.flips_unknown += 1;
                                continue;
                            }
                            let nm = if *taken { 7 & !*mask } else { *mask };
                            let t = Target::Atom(Atom {
                                poly: atom.clone(),
                                eps: *eps,
                                mask: nm,
                            });
                            match solver.solve(&mach.sym, &mach.sym.pc[..d.pc_len], &t, cache) {
                                Res::Unsat => rep.flips_unsat += 1,
                                Res::Unknown => {
                                    rep.flips_unknown += 1;
                                    *rep.trouble
                                        .entry(format!(
                                            "undecided branch in {}",
                                            m.funcs[(d.loc >> 12) as usize].demangled
                                        ))
                                        .or_insert(0) += 1;
                                }
                                Res::Sat(mo, edge) => {
                                    let mut inp = base.clone();
                                    for (v, x) in mo {
                                        if mach.sym.vars[v].input {
                                            inp.insert(mach.sym.vars[v].name.clone(), x);
                                        }
                                    }
                                    new_jobs.push(Job {
                                        inputs: inp,
                                        bound: i + 1,
                                        prefix: dec_hash(hs[i], &flipped(d, 0)),
                                        piece: None,
                                        edge,
                                        confirm: None,
                                    });
                                }
                            }
                        }
                    }
                }
            }
        }
        let mut g = sh.lock().unwrap();
        let R = &mut g.rep;
        R.paths += rep.paths;
        R.infeasible += rep.infeasible;
        R.decisions += rep.decisions;
        R.choices += rep.choices;
        R.flips += rep.flips;
        R.flips_unsat += rep.flips_unsat;
        R.flips_unknown += rep.flips_unknown;
        R.diverged += rep.diverged;
        R.edges += rep.edges;
        R.slivers += rep.slivers;
        R.checks += rep.checks;
        R.checks_queried += rep.checks_queried;
        R.checks_unsat += rep.checks_unsat;
        R.checks_unknown += rep.checks_unknown;
        R.checks_unconfirmed += rep.checks_unconfirmed;
        R.close_total += rep.close_total;
        R.close_trivial += rep.close_trivial;
        R.close_conc += rep.close_conc;
        R.max_decisions = R.max_decisions.max(rep.max_decisions);
        R.steps += mach.steps;
        for (k, v) in rep.trouble {
            *R.trouble.entry(k).or_insert(0) += v;
        }
        for (k, v) in rep.hot {
            *R.hot.entry(k).or_insert(0) += v;
        }
        for (k, v) in rep.engine_errors {
            *R.engine_errors.entry(k).or_insert(0) += v;
        }
        for c in &mach.covers {
            *R.covers.entry(c.clone()).or_insert(0) += 1;
        }
        for u in &mach.used {
            if !R.vars.contains_key(&u.0) {
                R.vars.insert(u.0.clone(), (u.2, u.3, u.4, u.5));
            }
        }
        if end == End::Ok
            && (R.samples.len() < o.samples / 2
                || (R.paths % 17 == 0 && R.samples.len() < o.samples))
        {
            R.samples.push(Sample {
                inputs: used.clone(),
                obs: mach.obs.clone(),
                hinted: !mach.sym.roots.is_empty(),
            });
        }
        for v in viol {
            let k = vkey(&v.msg);
            let ig = o.ignore.iter().any(|p| v.msg.contains(p.as_str()));
            let fresh = g.vkeys.insert(k.clone());
            let list = if ig {
                &mut g.rep.ignored
            } else {
                &mut g.rep.viol
            };
            if fresh {
                list.push(v);
            } else if let Some(x) = list.iter_mut().find(|x| vkey(&x.msg) == k) {
                x.count += 1;
            }
            if g.rep.viol.len() >= o.max_viol {
                g.stop = true;
            }
        }
        if o.only.is_none() {
            // confirmation runs first
            for j in new_jobs {
                if j.confirm.is_some() {
                    g.q.push_front(j)
                } else {
                    g.q.push_back(j)
                }
            }
        }
        g.busy -= 1;
        cv.notify_all();
    }
    let mut g = sh.lock().unwrap();
    let s = &solver.stats;
    let t = &mut g.rep.stats;
    t.queries += s.queries;
    t.sat += s.sat;
    t.unsat += s.unsat;
    t.unknown += s.unknown;
    t.cached += s.cached;
    t.errors += s.errors;
    t.time += s.time;
    t.nonlinear += s.nonlinear;
    t.near += s.near;
    t.near_unsat += s.near_unsat;
    t.near_sat += s.near_sat;
    t.near_queries += s.near_queries;
    t.max_time = t.max_time.max(s.max_time);
    if !solver.last_error.is_empty() {
        g.rep.solver_error = solver.last_error.clone();
    }
    for (i, c) in mach.cov.iter().enumerate() {
        if c.is_empty() {
            continue;
        }
        let r = &mut g.rep.cov[i];
        if r.is_empty() {
            r.resize(c.len(), false);
        }
        for (x, y) in r.iter_mut().zip(c) {
            *x |= *y;
        }
    }
    solver.stop();
}
