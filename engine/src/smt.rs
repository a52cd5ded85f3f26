//! SMT back end: renders path conditions as SMT-LIB and drives a solver process.
use crate::sym::*;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::Arc;
use std::sync::Mutex;
use std::time::Instant;

pub enum Target {
    None,
    Atom(Atom),
    /// |poly| > bound
    Far(Arc<Poly>, f64),
}

#[derive(Clone, Debug)]
pub enum Res {
    /// values, and whether they only exist within the rounding error of a comparison
    Sat(Vec<(usize, f64)>, bool),
    Unsat,
    Unknown,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cached: u64,
    pub errors: u64,
    pub time: f64,
    pub nonlinear: u64,
    pub max_time: f64,
    /// assertions that ranges decide, and of them those the solver confirms, and the queries for it
    pub near: u64,
    pub near_unsat: u64,
    pub near_queries: u64,
    pub near_sat: u64,
}

#[derive(Clone, Debug)]
enum CRes {
    Sat(Vec<f64>, bool),
    Unsat,
    Unknown,
}

pub type Cache = Mutex<HashMap<(u64, u64), CRes_>>;
#[derive(Clone, Debug)]
pub struct CRes_(CRes);

pub struct Solver {
    child: Option<(Child, ChildStdin, std::sync::mpsc::Receiver<String>)>,
    cmd: Vec<String>,
    pub stats: Stats,
    pub timeout_ms: u64,
    pub last_error: String,
    n: u64,
}

fn num(x: f64, o: &mut String) {
    // exact rational
    if x == 0.0 {
        o.push_str("0.0");
        return;
    }
    let neg = x < 0.0;
    let b = x.abs().to_bits();
    let e = ((b >> 52) & 0x7ff) as i32;
    let m = b & ((1 << 52) - 1);
    let (mut m, mut e) = if e == 0 {
        (m, -1074)
    } else {
        (m | (1 << 52), e - 1075)
    };
    let tz = m.trailing_zeros() as i32;
    m >>= tz;
    e += tz;
    if neg {
        o.push_str("(- ");
    }
    if e >= 0 {
        let _ = write!(o, "{:.1}", x.abs());
    } else if e > -120 {
        let _ = write!(o, "(/ {m}.0 {}.0)", 1u128 << (-e));
    } else {
        let _ = write!(o, "(/ {m}.0 {:.1})", 2f64.powi(-e.max(-1000)));
    }
    if neg {
        o.push(')');
    }
}

fn poly_s(p: &Poly, name: &dyn Fn(usize) -> String, o: &mut String) {
    if p.t.is_empty() {
        o.push_str("0.0");
        return;
    }
    if p.t.len() > 1 {
        o.push_str("(+ ");
    }
    for (m, c) in &p.t {
        let f: Vec<usize> = mono_factors(*m).collect();
        if f.is_empty() {
            num(*c, o);
        } else {
            o.push_str("(* ");
            num(*c, o);
            for v in f {
                o.push(' ');
                o.push_str(&name(v));
            }
            o.push(')');
        }
        o.push(' ');
    }
    if p.t.len() > 1 {
        o.push(')');
    }
}

/// `strict`: demand the atom with a margin exceeding the rounding error
fn atom_s(a: &Atom, strict: bool, name: &dyn Fn(usize) -> String, o: &mut String) {
    let mut p = String::new();
    poly_s(&a.poly, name, &mut p);
    let mut e = String::new();
    num(a.eps, &mut e);
    let z = a.eps == 0.0;
    let lt = |s: &mut String| {
        if z {
            let _ = write!(s, "(< {p} 0.0)");
        } else if strict {
            let _ = write!(s, "(< {p} (- {e}))");
        } else {
            let _ = write!(s, "(< {p} {e})");
        }
    };
    let gt = |s: &mut String| {
        if z {
            let _ = write!(s, "(> {p} 0.0)");
        } else if strict {
            let _ = write!(s, "(> {p} {e})");
        } else {
            let _ = write!(s, "(> {p} (- {e}))");
        }
    };
    match a.mask {
        LT => lt(o),
        GT => gt(o),
        EQ => {
            if z {
                let _ = write!(o, "(= {p} 0.0)");
            } else {
                let _ = write!(o, "(and (<= {p} {e}) (>= {p} (- {e})))");
            }
        }
        3 => {
            // <=
            if z {
                let _ = write!(o, "(<= {p} 0.0)");
            } else if strict {
                let _ = write!(o, "(<= {p} (- {e}))");
            } else {
                let _ = write!(o, "(<= {p} {e})");
            }
        }
        6 => {
            if z {
                let _ = write!(o, "(>= {p} 0.0)");
            } else if strict {
                let _ = write!(o, "(>= {p} {e})");
            } else {
                let _ = write!(o, "(>= {p} (- {e}))");
            }
        }
        5 => {
            if z {
                let _ = write!(o, "(not (= {p} 0.0))");
            } else if strict {
                o.push_str("(or ");
                lt(o);
                gt(o);
                o.push(')');
            } else {
                o.push_str("true");
            }
        }
        _ => o.push_str(if a.mask == 0 { "false" } else { "true" }),
    }
}

fn holds(a: &Atom, vals: &dyn Fn(usize) -> f64) -> bool {
    let v = a.poly.eval(vals);
    let slack = a.eps;
    (a.mask & LT != 0 && v < -slack)
        || (a.mask & GT != 0 && v > slack)
        || (a.mask & EQ != 0 && v.abs() <= slack.max(if a.mask == EQ { 1e-12 } else { 0.0 }))
}

fn hash2(s: &str) -> (u64, u64) {
    let mut a = 0xcbf29ce484222325u64;
    let mut b = 0x9e3779b97f4a7c15u64;
    for c in s.as_bytes().chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        let w = u64::from_le_bytes(w);
        a = (a ^ w).wrapping_mul(0x100000001b3).rotate_left(23);
        b = (b.rotate_left(5) ^ w).wrapping_mul(0x517cc1b727220a95);
    }
    (a ^ s.len() as u64, b)
}

impl Solver {
    pub fn new(cmd: Vec<String>, timeout_ms: u64) -> Self {
        Solver {
            child: None,
            cmd,
            stats: Stats::default(),
            timeout_ms,
            last_error: String::new(),
            n: 0,
        }
    }
    fn start(&mut self) {
        let mut c = Command::new(&self.cmd[0])
            .args(&self.cmd[1..])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("solver not found");
        let i = c.stdin.take().unwrap();
        let mut o = BufReader::new(c.stdout.take().unwrap());
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            loop {
                let mut l = String::new();
                match o.read_line(&mut l) {
                    Ok(0) | Err(_) => return,
                    _ => {}
                }
                if tx.send(l).is_err() {
                    return;
                }
            }
        });
        let o = rx;
        self.child = Some((c, i, o));
    }
    pub fn stop(&mut self) {
        if let Some((mut c, _, _)) = self.child.take() {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
    /// returns the lines printed
    fn ask(&mut self, text: &str) -> Option<Vec<String>> {
        if self.child.is_none() {
            self.start();
        }
        self.n += 1;
        let mark = format!("done{}", self.n);
        let (_, i, o) = self.child.as_mut().unwrap();
        let full = format!("{text}\n(echo \"{mark}\")\n");
        if i.write_all(full.as_bytes()).is_err() || i.flush().is_err() {
            self.stop();
            return None;
        }
        let mut v = vec![];
        let end = std::time::Instant::now()
            + std::time::Duration::from_millis(self.timeout_ms * 3 / 2 + 500);
        loop {
            // solvers do not always honour their own time limit
            let left = end.saturating_duration_since(std::time::Instant::now());
            let l = match o.recv_timeout(left) {
                Ok(l) => l,
                Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {
                    self.stop();
                    return Some(vec!["timeout".into()]);
                }
                Err(_) => {
                    self.stop();
                    return None;
                }
            };
            let t = l.trim();
            if t == mark {
                return Some(v);
            }
            if !t.is_empty() {
                v.push(t.to_string());
            }
        }
    }

    /// Is `pc[..pc_len] /\ target` satisfiable over the declared input domains?
    pub fn solve(&mut self, sym: &Sym, pc: &[Atom], target: &Target, cache: &Cache) -> Res {
        // slice
        let mut vs = [0u64; 4];
        match target {
            Target::Atom(a) => a.poly.vars(&mut vs),
            Target::Far(p, _) => p.vars(&mut vs),
            Target::None => vs = [u64::MAX; 4],
        }
        let sets: Vec<[u64; 4]> = pc
            .iter()
            .map(|a| {
                let mut s = [0; 4];
                a.poly.vars(&mut s);
                s
            })
            .collect();
        let mut inc = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for (i, s) in sets.iter().enumerate() {
                if !inc[i] && (0..4).any(|k| s[k] & vs[k] != 0) {
                    inc[i] = true;
                    ch = true;
                    for k in 0..4 {
                        vs[k] |= s[k];
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut atoms: Vec<&Atom> = vec![];
        let mut seen: std::collections::HashSet<(usize, u8)> = Default::default();
        for (i, a) in pc.iter().enumerate() {
            if inc[i] && a.mask != 7 && seen.insert((Arc::as_ptr(&a.poly) as usize, a.mask)) {
                atoms.push(a);
            }
        }
        let vars: Vec<usize> = (1..sym.vars.len())
            .filter(|v| vs[v / 64] >> (v % 64) & 1 == 1)
            .collect();
        // canonical names by order of first occurrence in (target, atoms)
        let mut order: Vec<usize> = vec![];
        {
            let mut add = |p: &Poly| {
                for (m, _) in &p.t {
                    for v in mono_factors(*m) {
                        if !order.contains(&v) {
                            order.push(v);
                        }
                    }
                }
            };
            match target {
                Target::Atom(a) => add(&a.poly),
                Target::Far(p, _) => add(p),
                Target::None => {}
            }
            for a in &atoms {
                add(&a.poly);
            }
            for v in &vars {
                if !order.contains(v) {
                    order.push(*v);
                }
            }
        }
        let idx: HashMap<usize, usize> = order.iter().enumerate().map(|(i, v)| (*v, i)).collect();
        let linear = atoms.iter().all(|a| a.poly.degree() <= 1)
            && match target {
                Target::Atom(a) => a.poly.degree() <= 1,
                Target::Far(p, _) => p.degree() <= 1,
                _ => true,
            };
        let body = |strict: bool, name: &dyn Fn(usize) -> String| -> String {
            let mut s = String::new();
            for a in &atoms {
                s.push_str("(assert ");
                atom_s(a, strict, name, &mut s);
                s.push_str(")\n");
            }
            match target {
                Target::Atom(a) => {
                    s.push_str("(assert ");
                    atom_s(a, strict, name, &mut s);
                    s.push_str(")\n");
                }
                Target::Far(p, b) => {
                    let mut ps = String::new();
                    poly_s(p, name, &mut ps);
                    let mut bs = String::new();
                    num(*b, &mut bs);
                    let _ = write!(s, "(assert (or (> {ps} {bs}) (< {ps} (- {bs}))))\n");
                }
                Target::None => {}
            }
            s
        };
        let rname = |v: usize| format!("v{}", idx[&v]);
        let mut decl = String::new();
        for &v in &order {
            let var = &sym.vars[v];
            let n = rname(v);
            let _ = write!(decl, "(declare-const {n} Real)\n(assert (<= ");
            num(var.lo, &mut decl);
            let _ = write!(decl, " {n} ");
            num(var.hi, &mut decl);
            decl.push_str("))\n");
        }
        let relaxed = body(false, &rname);
        let mut lats = String::new();
        for &v in &order {
            let _ = write!(lats, "{:?},", sym.vars[v].lat);
        }
        let key = hash2(&format!("{lats}{decl}{relaxed}"));
        if let Some(r) = cache.lock().unwrap().get(&key) {
            self.stats.cached += 1;
            return match &r.0 {
                CRes::Sat(m, e) => {
                    Res::Sat(order.iter().copied().zip(m.iter().copied()).collect(), *e)
                }
                CRes::Unsat => Res::Unsat,
                CRes::Unknown => Res::Unknown,
            };
        }
        let t0 = Instant::now();
        let r = self.solve_(
            sym, &order, &decl, &relaxed, &body, &idx, &atoms, target, linear,
        );
        let dt = t0.elapsed().as_secs_f64();
        if let Ok(d) = std::env::var("VELSYM_SLOW") {
            if dt > 1.0 {
                let _ = std::fs::write(
                    format!("{d}/slow-{}-{}.smt2", std::process::id(), key.0),
                    format!("; {dt} {r:?}\n{decl}{relaxed}(check-sat)\n"),
                );
            }
        }
        self.stats.queries += 1;
        self.stats.time += dt;
        self.stats.max_time = self.stats.max_time.max(dt);
        if !linear {
            self.stats.nonlinear += 1;
        }
        match &r {
            CRes::Sat(..) => self.stats.sat += 1,
            CRes::Unsat => self.stats.unsat += 1,
            CRes::Unknown => self.stats.unknown += 1,
        }
        cache.lock().unwrap().insert(key, CRes_(r.clone()));
        match r {
            CRes::Sat(m, e) => Res::Sat(order.iter().copied().zip(m).collect(), e),
            CRes::Unsat => Res::Unsat,
            CRes::Unknown => Res::Unknown,
        }
    }
    /// Confirms assertions that ranges decide: no inputs at all take any of them out of its bound.
    pub fn confirm(&mut self, sym: &Sym, near: &[Near], cache: &Cache) {
        let mut fresh: Vec<(&Near, (u64, u64))> = vec![];
        let mut here: std::collections::HashSet<(usize, usize, u64)> = Default::default();
        for n in near {
            self.stats.near += 1;
            if n.a.t.is_empty() && n.b.t.is_empty()
                || !here.insert((Arc::as_ptr(&n.a) as usize, Arc::as_ptr(&n.b) as usize, n.bound.to_bits()))
            {
                self.stats.near_unsat += 1;
                continue;
            }
            let mut h = [0x243f6a8885a308d3u64, 0x13198a2e03707344];
            let mut mix = |x: u64| {
                h[0] = (h[0] ^ x).wrapping_mul(0x100000001b3).rotate_left(23);
                h[1] = (h[1].rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
            };
            let mut order: Vec<usize> = vec![];
            for p in [&n.a, &n.b] {
                mix(p.t.len() as u64);
                for (m, c) in &p.t {
                    mix(c.to_bits());
                    for v in mono_factors(*m) {
                        let i = order.iter().position(|x| *x == v).unwrap_or_else(|| {
                            order.push(v);
                            mix(sym.vars[v].lo.to_bits());
                            mix(sym.vars[v].hi.to_bits());
                            order.len() - 1
                        });
                        mix(i as u64 + 7);
                    }
                    mix(3);
                }
            }
            mix(n.bound.to_bits());
            let key = (h[0] ^ 0xa5a5, h[1]);
            match cache.lock().unwrap().get(&key) {
                Some(CRes_(CRes::Unsat)) => self.stats.near_unsat += 1,
                Some(_) => {}
                None => fresh.push((n, key)),
            }
        }
        for part in fresh.chunks(64) {
            let mut used = [0u64; 4];
            for (n, _) in part {
                n.a.vars(&mut used);
                n.b.vars(&mut used);
            }
            let name = |v: usize| format!("v{v}");
            let mut q = format!("(reset)\n(set-option :timeout 1000)\n");
            let linear = part.iter().all(|(n, _)| n.a.degree() <= 1 && n.b.degree() <= 1);
            let _ = write!(q, "(set-logic {})\n", if linear { "QF_LRA" } else { "QF_NRA" });
            for v in (1..sym.vars.len()).filter(|v| used[v / 64] >> (v % 64) & 1 == 1) {
                let _ = write!(q, "(declare-const v{v} Real)\n(assert (<= ");
                num(sym.vars[v].lo, &mut q);
                let _ = write!(q, " v{v} ");
                num(sym.vars[v].hi, &mut q);
                q.push_str("))\n");
            }
            q.push_str("(assert (or");
            for (n, _) in part {
                let (mut a, mut b, mut e) = (String::new(), String::new(), String::new());
                poly_s(&n.a, &name, &mut a);
                poly_s(&n.b, &name, &mut b);
                num(n.bound, &mut e);
                let _ = write!(q, "\n (> (- {a} {b}) {e}) (< (- {a} {b}) (- {e}))");
            }
            q.push_str("))\n(check-sat)");
            let t0 = Instant::now();
            let l = self.ask(&q);
            self.stats.time += t0.elapsed().as_secs_f64();
            self.stats.queries += 1;
            self.stats.near_queries += 1;
            let r = match l.as_ref().and_then(|l| l.first()).map(|s| s.as_str()) {
                Some("unsat") => {
                    self.stats.unsat += 1;
                    self.stats.near_unsat += part.len() as u64;
                    CRes::Unsat
                }
                Some("sat") => {
                    self.stats.sat += 1;
                    self.stats.near_sat += 1;
                    self.last_error = "the solver finds values outside a range".into();
                    CRes::Unknown
                }
                x => {
                    if let Some(e) = x.filter(|e| e.starts_with("(error")) {
                        self.stats.errors += 1;
                        self.last_error = e.to_string();
                    }
                    self.stats.unknown += 1;
                    CRes::Unknown
                }
            };
            let mut c = cache.lock().unwrap();
            for (_, k) in part {
                c.insert(*k, CRes_(r.clone()));
            }
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn solve_(
        &mut self,
        sym: &Sym,
        order: &[usize],
        decl: &str,
        relaxed: &str,
        body: &dyn Fn(bool, &dyn Fn(usize) -> String) -> String,
        idx: &HashMap<usize, usize>,
        atoms: &[&Atom],
        target: &Target,
        linear: bool,
    ) -> CRes {
        let rname = |v: usize| format!("v{}", idx[&v]);
        let names: String = order.iter().map(|v| rname(*v) + " ").collect();
        let logic = if linear { "QF_LRA" } else { "QF_NRA" };
        let strict = body(true, &rname);
        let has_lat = order.iter().any(|v| sym.vars[*v].lat.is_some());
        let ok = |m: &[f64]| -> bool {
            let f = |v: usize| m[idx[&v]];
            atoms.iter().all(|a| holds(a, &f))
                && match target {
                    Target::Atom(a) => holds(a, &f),
                    Target::Far(p, b) => p.eval(&f).abs() > *b,
                    Target::None => true,
                }
        };
        let snap = |m: &[f64], mode: usize| -> Vec<f64> {
            order
                .iter()
                .enumerate()
                .map(|(i, v)| {
                    let var = &sym.vars[*v];
                    if let Some(k) = var.lat {
                        let s = 2f64.powi(k);
                        let x = m[i] * s;
                        let r = match mode {
                            0 => x.round(),
                            1 => x.floor(),
                            2 => x.ceil(),
                            n => {
                                if (n >> (i % 16)) & 1 == 1 {
                                    x.floor()
                                } else {
                                    x.ceil()
                                }
                            }
                        };
                        (r / s).clamp(var.lo, var.hi)
                    } else {
                        m[i]
                    }
                })
                .collect()
        };
        let mut cand: Option<Vec<f64>> = None;
        let head = format!(
            "(reset)\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 30)\n(set-option :timeout {})\n",
            self.timeout_ms
        );
        let mut undec = false;
        let mut edge = false;
        let passes: &[(&str, &str)] = if strict == relaxed {
            &[("r", "")]
        } else {
            &[("s", ""), ("r", "")]
        };
        for (p, _) in passes {
            let b = if *p == "s" { &strict } else { relaxed };
            let q =
                format!("{head}(set-logic {logic})\n{decl}{b}(check-sat)\n(get-value ({names}))");
            let Some(l) = self.ask(&q) else {
                self.stats.errors += 1;
                undec = true;
                continue;
            };
            match l.first().map(|s| s.as_str()) {
                Some("unsat") => {
                    if *p == "r" {
                        return CRes::Unsat;
                    }
                    edge = true;
                }
                Some("sat") => {
                    if let Some(m) = parse_values(&l[1..].join(" "), order.len()) {
                        for mode in [0usize, 1, 2, 0x5555, 0x3333, 0x0f0f, 0xaaaa, 0xcccc] {
                            let s = snap(&m, mode);
                            if ok(&s) {
                                return CRes::Sat(s, false);
                            }
                        }
                        cand = Some(snap(&m, 0));
                    }
                    break;
                }
                Some(s) if s.starts_with("(error") => {
                    self.stats.errors += 1;
                    self.last_error = s.to_string();
                    undec = true;
                }
                _ => undec = true,
            }
        }
        // exact domain: inputs are integer multiples of their grain
        if has_lat && (cand.is_some() || undec) {
            let iname = |v: usize| -> String {
                match sym.vars[v].lat {
                    Some(0) => format!("(to_real k{})", idx[&v]),
                    Some(_) => format!("r{}", idx[&v]),
                    None => format!("v{}", idx[&v]),
                }
            };
            let mut d = String::new();
            for &v in order {
                let var = &sym.vars[v];
                let i = idx[&v];
                match var.lat {
                    Some(k) => {
                        let s = 2f64.powi(k);
                        let _ = write!(
                            d,
                            "(declare-const k{i} Int)\n(assert (<= {} k{i} {}))\n",
                            int_s((var.lo * s).ceil()),
                            int_s((var.hi * s).floor())
                        );
                        if k != 0 {
                            let mut sc = String::new();
                            num(1.0 / s, &mut sc);
                            let _ =
                                write!(d, "(define-fun r{i} () Real (* {sc} (to_real k{i})))\n");
                        }
                    }
                    None => {
                        let _ = write!(d, "(declare-const v{i} Real)\n(assert (<= ");
                        num(var.lo, &mut d);
                        let _ = write!(d, " v{i} ");
                        num(var.hi, &mut d);
                        d.push_str("))\n");
                    }
                }
            }
            let names: String = order
                .iter()
                .map(|v| {
                    if sym.vars[*v].lat.is_some() {
                        format!("k{} ", idx[v])
                    } else {
                        format!("v{} ", idx[v])
                    }
                })
                .collect();
            for st in if strict == relaxed {
                &[false][..]
            } else {
                &[true, false][..]
            } {
                let b = body(*st, &iname);
                let q = format!("{head}{d}{b}(check-sat)\n(get-value ({names}))");
                let Some(l) = self.ask(&q) else {
                    self.stats.errors += 1;
                    continue;
                };
                match l.first().map(|s| s.as_str()) {
                    Some("unsat") => {
                        if !*st {
                            return CRes::Unsat;
                        }
                        edge = true;
                    }
                    Some("sat") => {
                        if let Some(m) = parse_values(&l[1..].join(" "), order.len()) {
                            let m: Vec<f64> = order
                                .iter()
                                .enumerate()
                                .map(|(i, v)| match sym.vars[*v].lat {
                                    Some(k) => m[i] / 2f64.powi(k),
                                    None => m[i],
                                })
                                .collect();
                            return CRes::Sat(m, edge && !*st);
                        }
                    }
                    Some(s) if s.starts_with("(error") => {
                        self.stats.errors += 1;
                        self.last_error = s.to_string();
                    }
                    _ => {}
                }
            }
            return CRes::Unknown;
        }
        match cand {
            Some(m) => CRes::Sat(m, edge),
            None => CRes::Unknown,
        }
    }
}
fn int_s(x: f64) -> String {
    if x < 0.0 {
        format!("(- {:.0})", -x)
    } else {
        format!("{x:.0}")
    }
}

/// values of a `get-value` answer, in order
fn parse_values(s: &str, n: usize) -> Option<Vec<f64>> {
    let mut toks = vec![];
    let mut cur = String::new();
    for c in s.chars() {
        if c == '(' || c == ')' || c.is_whitespace() {
            if !cur.is_empty() {
                toks.push(std::mem::take(&mut cur));
            }
            if c == '(' || c == ')' {
                toks.push(c.to_string());
            }
        } else {
            cur.push(c);
        }
    }
    let mut p = 0;
    fn val(t: &[String], p: &mut usize) -> Option<f64> {
        let x = t.get(*p)?;
        *p += 1;
        if x == "(" {
            let op = t.get(*p)?.clone();
            *p += 1;
            let mut v = vec![];
            while t.get(*p)? != ")" {
                v.push(val(t, p)?);
            }
            *p += 1;
            match op.as_str() {
                "-" if v.len() == 1 => Some(-v[0]),
                "-" if v.len() == 2 => Some(v[0] - v[1]),
                "/" => Some(v[0] / v[1]),
                "to_real" => Some(v[0]),
                _ => None,
            }
        } else {
            x.trim_end_matches('?').parse().ok()
        }
    }
    let mut out = vec![];
    if toks.get(p)? != "(" {
        return None;
    }
    p += 1;
    while out.len() < n {
        if toks.get(p)? != "(" {
            return None;
        }
        p += 2; // name
        out.push(val(&toks, &mut p)?);
        if toks.get(p)? != ")" {
            return None;
        }
        p += 1;
    }
    Some(out)
}
