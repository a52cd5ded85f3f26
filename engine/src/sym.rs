//! Symbolic floating point values: multivariate polynomials over bounded input variables with a
//! rigorous bound on the accumulated IEEE-754 rounding error.
use std::collections::HashMap;
use std::sync::Arc;

pub type Mono = u128; // up to 16 one-byte variable ids (1..=255), sorted, 0 = none

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Poly {
    pub t: Vec<(Mono, f64)>,
}

#[derive(Clone, Debug)]
pub struct Var {
    pub name: String,
    pub lo: f64,
    pub hi: f64,
    /// value is an integer multiple of 2^-k
    pub lat: Option<i32>,
    pub val: f64,
    pub input: bool,
    /// var^power == poly
    pub rule: Option<(u8, Arc<Poly>)>,
}

#[derive(Clone, Debug)]
pub struct Node {
    pub poly: Arc<Poly>,
    pub eps: f64,
    pub lat: i32,
    pub lo: f64,
    pub hi: f64,
    pub c: f64,
}

pub const LT: u8 = 1;
pub const EQ: u8 = 2;
pub const GT: u8 = 4;

#[derive(Clone, Debug)]
pub struct Atom {
    pub poly: Arc<Poly>,
    pub eps: f64,
    pub mask: u8,
}

#[derive(Clone, Debug)]
pub enum DecKind {
    Choice {
        var: usize,
        n: u64,
        taken: u64,
    },
    Branch {
        atom: Arc<Poly>,
        eps: f64,
        mask: u8,
        taken: bool,
    },
    /// the value lies in the piece `id` of the line; the atoms tell what lies below and above it
    Piece {
        id: f64,
        below: Option<Atom>,
        above: Option<Atom>,
    },
}
#[derive(Clone, Debug)]
pub struct Dec {
    pub kind: DecKind,
    /// length of the path condition before this decision
    pub pc_len: usize,
    pub loc: u32,
}

pub struct Check {
    pub poly: Arc<Poly>,
    pub eps: f64,
    pub tol: f64,
    pub msg: String,
}

/// two values whose difference is known to stay within a bound
pub struct Near {
    pub a: Arc<Poly>,
    pub b: Arc<Poly>,
    pub bound: f64,
}

const NOLAT: i32 = i32::MAX;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Add,
    Sub,
    Mul,
    Div,
    Sqrt,
    Sin,
    Cos,
    Tan,
    Pow,
    Other(u16),
    Round32,
    Neg,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Opr {
    N(u32),
    C(u64),
}

pub struct Sym {
    /// varying argument, its sine and cosine variables
    trig: Vec<(Poly, usize, usize)>,
    pub vars: Vec<Var>, // index 0 unused
    pub nodes: Vec<Node>,
    cons: HashMap<(K, Opr, Opr), Opr>,
    mb: HashMap<Mono, (f64, f64)>,
    pub pc: Vec<Atom>,
    known: HashMap<Vec<(Mono, u64)>, u8>,
    pub decs: Vec<Dec>,
    pub checks: Vec<Check>,
    pub near: Vec<Near>,
    pub roots: Vec<u32>,
    any_roots: Vec<([Opr; 4], u32)>,
    pub has_rules: bool,
    pub trouble: Vec<String>,
    pub slivers: u32,
    pub loc: u32,
    pub identities: u64,
    wild_var: usize,
}

pub fn mono_factors(m: Mono) -> impl Iterator<Item = usize> {
    let b = m.to_le_bytes();
    b.into_iter().filter(|x| *x != 0).map(|x| x as usize)
}
fn mono_deg(m: Mono) -> usize {
    m.to_le_bytes().iter().filter(|x| **x != 0).count()
}
fn mono_make(mut f: Vec<u8>) -> Option<Mono> {
    if f.len() > 16 {
        return None;
    }
    f.sort_unstable();
    let mut b = [0u8; 16];
    b[..f.len()].copy_from_slice(&f);
    Some(u128::from_le_bytes(b))
}
pub fn mono_mul(a: Mono, b: Mono) -> Option<Mono> {
    if a == 0 {
        return Some(b);
    }
    if b == 0 {
        return Some(a);
    }
    let mut f: Vec<u8> = mono_factors(a).map(|x| x as u8).collect();
    f.extend(mono_factors(b).map(|x| x as u8));
    mono_make(f)
}
fn mono_div(a: Mono, b: Mono) -> Option<Mono> {
    let mut f: Vec<u8> = mono_factors(a).map(|x| x as u8).collect();
    for x in mono_factors(b) {
        let i = f.iter().position(|y| *y as usize == x)?;
        f.remove(i);
    }
    mono_make(f)
}

fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let bb = s - a;
    let e = (a - (s - bb)) + (b - bb);
    (s, e.abs())
}
fn two_prod(a: f64, b: f64) -> (f64, f64) {
    let p = a * b;
    let e = a.mul_add(b, -p);
    (
        p,
        if e == 0.0 && p.abs() < 1e-290 && a != 0.0 && b != 0.0 {
            1e-300
        } else {
            e.abs()
        },
    )
}
/// smallest k with c * 2^k integer
fn f_lat(c: f64) -> i32 {
    if c == 0.0 {
        return i32::MIN / 4;
    }
    let bits = c.to_bits();
    let e = ((bits >> 52) & 0x7ff) as i32;
    let m = bits & ((1 << 52) - 1);
    let (m, e) = if e == 0 {
        (m, -1074)
    } else {
        (m | (1 << 52), e - 1075)
    };
    -(e + m.trailing_zeros() as i32)
}

impl Poly {
    pub fn cst(c: f64) -> Poly {
        if c == 0.0 {
            Poly { t: vec![] }
        } else {
            Poly { t: vec![(0, c)] }
        }
    }
    pub fn is_const(&self) -> Option<f64> {
        match self.t.len() {
            0 => Some(0.0),
            1 if self.t[0].0 == 0 => Some(self.t[0].1),
            _ => None,
        }
    }
    pub fn vars(&self, set: &mut [u64; 4]) {
        for (m, _) in &self.t {
            for v in mono_factors(*m) {
                set[v / 64] |= 1 << (v % 64);
            }
        }
    }
    pub fn eval(&self, vals: &dyn Fn(usize) -> f64) -> f64 {
        let mut s = 0.0;
        for (m, c) in &self.t {
            let mut p = *c;
            for v in mono_factors(*m) {
                p *= vals(v);
            }
            s += p;
        }
        s
    }
    pub fn degree(&self) -> usize {
        self.t.iter().map(|(m, _)| mono_deg(*m)).max().unwrap_or(0)
    }
}

impl Sym {
    pub fn new() -> Sym {
        let dummy = Node {
            poly: Arc::new(Poly::default()),
            eps: 0.0,
            lat: 0,
            lo: 0.0,
            hi: 0.0,
            c: 0.0,
        };
        Sym {
            trig: vec![],
            vars: vec![Var {
                name: String::new(),
                lo: 0.0,
                hi: 0.0,
                lat: None,
                val: 0.0,
                input: false,
                rule: None,
            }],
            nodes: vec![dummy],
            cons: HashMap::new(),
            mb: HashMap::new(),
            pc: vec![],
            known: HashMap::new(),
            decs: vec![],
            checks: vec![],
            near: vec![],
            roots: vec![],
            any_roots: vec![],
            has_rules: false,
            trouble: vec![],
            slivers: 0,
            loc: 0,
            identities: 0,
            wild_var: 0,
        }
    }
    fn bad(&mut self, s: &str) {
        if self.trouble.len() < 20 {
            self.trouble.push(s.to_string());
        }
    }
    pub fn new_var(
        &mut self,
        name: String,
        lo: f64,
        hi: f64,
        lat: Option<i32>,
        val: f64,
        input: bool,
    ) -> usize {
        if self.vars.len() >= 255 {
            self.bad("more than 254 symbolic variables");
            return 254;
        }
        self.vars.push(Var {
            name,
            lo,
            hi,
            lat,
            val,
            input,
            rule: None,
        });
        self.vars.len() - 1
    }
    pub fn var_node(&mut self, v: usize) -> u32 {
        let p = Poly {
            t: vec![(v as u128, 1.0)],
        };
        let c = self.vars[v].val;
        self.push_node(p, 0.0, c)
    }
    fn mono_bound(&mut self, m: Mono) -> (f64, f64) {
        if m == 0 {
            return (1.0, 1.0);
        }
        if let Some(b) = self.mb.get(&m) {
            return *b;
        }
        let mut lo = 1.0f64;
        let mut hi = 1.0f64;
        let f: Vec<usize> = mono_factors(m).collect();
        let mut i = 0;
        while i < f.len() {
            let v = f[i];
            let mut n = 0;
            while i < f.len() && f[i] == v {
                n += 1;
                i += 1;
            }
            let (a, b) = (self.vars[v].lo, self.vars[v].hi);
            let (pa, pb) = (a.powi(n), b.powi(n));
            let (mut l, h) = (pa.min(pb), pa.max(pb));
            if n % 2 == 0 && a < 0.0 && b > 0.0 {
                l = 0.0;
            }
            let c = [lo * l, lo * h, hi * l, hi * h];
            lo = c.iter().cloned().fold(f64::INFINITY, f64::min);
            hi = c.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
        }
        self.mb.insert(m, (lo, hi));
        (lo, hi)
    }
    fn mono_lat(&self, m: Mono) -> i32 {
        let mut k = 0;
        for v in mono_factors(m) {
            match self.vars[v].lat {
                Some(l) => k += l,
                None => return NOLAT,
            }
        }
        k
    }
    pub fn bounds(&self, o: Opr) -> (f64, f64) {
        let (_, e, lo, hi) = self.poly_of(o);
        (lo - e, hi + e)
    }
    fn range(&mut self, p: &Poly) -> (f64, f64) {
        let mut lo = 0.0;
        let mut hi = 0.0;
        for &(m, c) in &p.t {
            let (a, b) = self.mono_bound(m);
            if c >= 0.0 {
                lo += c * a;
                hi += c * b;
            } else {
                lo += c * b;
                hi += c * a;
            }
        }
        // outward slack for the bound computation itself
        let s = 1e-14 * (f64::abs(lo).max(f64::abs(hi)));
        if p.t.len() <= 1 {
            (lo, hi)
        } else {
            (lo - s, hi + s)
        }
    }
    fn push_node(&mut self, p: Poly, eps: f64, c: f64) -> u32 {
        let (lo, hi) = self.range(&p);
        let mut lat = 0;
        if eps == 0.0 {
            lat = i32::MIN / 4;
            for &(m, k) in &p.t {
                let ml = self.mono_lat(m);
                if ml == NOLAT {
                    lat = NOLAT;
                    break;
                }
                lat = lat.max(f_lat(k) + ml);
            }
        } else {
            lat = lat.max(NOLAT);
        }
        self.nodes.push(Node {
            poly: Arc::new(p),
            eps,
            lat,
            lo,
            hi,
            c,
        });
        (self.nodes.len() - 1) as u32
    }
    /// node for a computed value: `p` with error `err` before the final rounding to `prec` bits
    fn rounded(&mut self, p: Poly, err: f64, prec: i32, c: f64) -> Opr {
        let id = self.push_node(p, err, c);
        let n = &self.nodes[id as usize];
        let m = n.lo.abs().max(n.hi.abs()) + err;
        let exact =
            err == 0.0 && n.lat != NOLAT && m * 2f64.powi(n.lat.max(-1000)) <= 2f64.powi(prec);
        if !exact {
            let e =
                err * (1.0 + 1e-9) + m * 2f64.powi(-prec) + if prec == 24 { 1e-44 } else { 5e-324 };
            let n = &mut self.nodes[id as usize];
            n.eps = e;
            n.lat = NOLAT;
            if !(m < 1e300) {
                return self.wild(c);
            }
        } else if self.nodes[id as usize].poly.is_const().is_some() {
            return Opr::C(c.to_bits());
        }
        if !c.is_finite() {
            return self.wild(c);
        }
        Opr::N(id)
    }
    pub fn node_of(&mut self, o: Opr) -> u32 {
        match o {
            Opr::N(i) => i,
            Opr::C(b) => {
                let c = f64::from_bits(b);
                self.push_node(Poly::cst(c), 0.0, c)
            }
        }
    }
    fn poly_of(&self, o: Opr) -> (Arc<Poly>, f64, f64, f64) {
        match o {
            Opr::N(i) => {
                let n = &self.nodes[i as usize];
                (n.poly.clone(), n.eps, n.lo, n.hi)
            }
            Opr::C(b) => {
                let c = f64::from_bits(b);
                (Arc::new(Poly::cst(c)), 0.0, c, c)
            }
        }
    }
    pub fn conc(&self, o: Opr) -> f64 {
        match o {
            Opr::N(i) => self.nodes[i as usize].c,
            Opr::C(b) => f64::from_bits(b),
        }
    }
    fn padd(&mut self, a: &Poly, b: &Poly, sub: bool) -> (Poly, f64) {
        let mut t = Vec::with_capacity(a.t.len() + b.t.len());
        let mut err = 0.0;
        let (mut i, mut j) = (0, 0);
        let sg = if sub { -1.0 } else { 1.0 };
        while i < a.t.len() || j < b.t.len() {
            if j >= b.t.len() || (i < a.t.len() && a.t[i].0 < b.t[j].0) {
                t.push(a.t[i]);
                i += 1;
            } else if i >= a.t.len() || b.t[j].0 < a.t[i].0 {
                t.push((b.t[j].0, sg * b.t[j].1));
                j += 1;
            } else {
                let m = a.t[i].0;
                let (s, e) = two_sum(a.t[i].1, sg * b.t[j].1);
                if e != 0.0 {
                    let (l, h) = self.mono_bound(m);
                    err += e * l.abs().max(h.abs());
                }
                if s != 0.0 {
                    t.push((m, s));
                }
                i += 1;
                j += 1;
            }
        }
        (Poly { t }, err)
    }
    fn pmul(&mut self, a: &Poly, b: &Poly) -> Option<(Poly, f64)> {
        let mut acc: HashMap<Mono, f64> = HashMap::with_capacity(a.t.len() * b.t.len());
        let mut err = 0.0;
        for &(ma, ca) in &a.t {
            for &(mb, cb) in &b.t {
                let m = mono_mul(ma, mb)?;
                let (p, e) = two_prod(ca, cb);
                let ent = acc.entry(m).or_insert(0.0);
                let (s, e2) = two_sum(*ent, p);
                *ent = s;
                if e + e2 != 0.0 {
                    let (l, h) = self.mono_bound(m);
                    err += (e + e2) * l.abs().max(h.abs());
                }
            }
        }
        let mut t: Vec<(Mono, f64)> = acc.into_iter().filter(|x| x.1 != 0.0).collect();
        t.sort_unstable_by_key(|x| x.0);
        let mut p = Poly { t };
        if self.has_rules {
            let (q, e) = self.reduce(p)?;
            p = q;
            err += e;
        }
        if p.t.len() > 4000 {
            self.bad("polynomial too large");
        }
        Some((p, err))
    }
    fn reduce(&mut self, mut p: Poly) -> Option<(Poly, f64)> {
        let mut err = 0.0;
        for _ in 0..64 {
            let mut hit = None;
            'o: for (i, (m, _)) in p.t.iter().enumerate() {
                let f: Vec<usize> = mono_factors(*m).collect();
                let mut k = 0;
                while k < f.len() {
                    let v = f[k];
                    let n = f[k..].iter().take_while(|x| **x == v).count();
                    if let Some((pw, _)) = &self.vars[v].rule {
                        if n >= *pw as usize {
                            hit = Some((i, v));
                            break 'o;
                        }
                    }
                    k += n;
                }
            }
            let Some((i, v)) = hit else {
                return Some((p, err));
            };
            let (m, c) = p.t.remove(i);
            let (pw, rp) = self.vars[v].rule.clone().unwrap();
            let mut rest = m;
            for _ in 0..pw {
                rest = mono_div(rest, v as u128)?;
            }
            let save = self.has_rules;
            self.has_rules = false;
            let q = self.pmul(&rp, &Poly { t: vec![(rest, c)] });
            self.has_rules = save;
            let (q, e) = q?;
            err += e;
            let (s, e) = self.padd(&p, &q, false);
            err += e;
            p = s;
        }
        None
    }
    /// exact (up to rounding of coefficients) multivariate division
    fn pdiv(&mut self, a: &Poly, b: &Poly) -> Option<(Poly, f64)> {
        if b.t.is_empty() || self.has_rules && b.is_const().is_none() {
            if b.t.is_empty() {
                return None;
            }
        }
        // lex leading term = largest by degree-lexicographic: use exponent-aware ordering
        fn key(m: Mono) -> (usize, Vec<u8>) {
            let mut f: Vec<u8> = mono_factors(m).map(|x| x as u8).collect();
            let d = f.len();
            f.sort_unstable_by(|a, b| b.cmp(a));
            (d, f)
        }
        let lead = |p: &Poly| -> (Mono, f64) { *p.t.iter().max_by_key(|x| key(x.0)).unwrap() };
        let (lb, cb) = lead(b);
        let mut rem = a.clone();
        let mut q: Vec<(Mono, f64)> = vec![];
        let mut err = 0.0;
        for _ in 0..200 {
            if rem.t.is_empty() {
                q.sort_unstable_by_key(|x| x.0);
                return Some((Poly { t: q }, err));
            }
            let (lr, cr) = lead(&rem);
            let m = mono_div(lr, lb)?;
            let c = cr / cb;
            let e = (c.mul_add(-cb, cr)).abs() / cb.abs();
            let (l, h) = self.mono_bound(m);
            err += e * l.abs().max(h.abs());
            if e != 0.0 && b.t.len() > 1 {
                return None;
            }
            q.push((m, c));
            let (pm, e1) = self.pmul(b, &Poly { t: vec![(m, c)] })?;
            if e1 != 0.0 && b.t.len() > 1 {
                return None;
            }
            let (mut s, _) = self.padd(&rem, &pm, true);
            if b.t.len() == 1 {
                // remove the leading term explicitly (coefficient rounding may leave dust)
                s.t.retain(|x| x.0 != lr);
            }
            rem = s;
        }
        None
    }
    /// A value nothing is known about but its concrete value `c` (the quotient of a division that
    /// may be by zero, an overflow): harmless as long as nothing is decided on it.
    fn wild(&mut self, c: f64) -> Opr {
        if self.wild_var == 0 {
            self.wild_var = self.new_var(
                "wild".into(),
                f64::NEG_INFINITY,
                f64::INFINITY,
                None,
                0.0,
                false,
            );
        }
        let v = self.wild_var;
        self.nodes.push(Node {
            poly: Arc::new(Poly {
                t: vec![(v as u128, 1.0)],
            }),
            eps: 0.0,
            lat: NOLAT,
            lo: f64::NEG_INFINITY,
            hi: f64::INFINITY,
            c,
        });
        Opr::N((self.nodes.len() - 1) as u32)
    }
    pub fn is_wild(&self, o: Opr) -> bool {
        matches!(o, Opr::N(i) if self.nodes[i as usize].lo == f64::NEG_INFINITY)
    }
    pub fn opaque(&mut self, name: String, lo: f64, hi: f64, c: f64) -> (usize, Opr) {
        let v = self.new_var(name, lo, hi, None, c, false);
        let n = self.var_node(v);
        (v, Opr::N(n))
    }

    /// IEEE binary operation; at least one operand symbolic.  `prec` 53 or 24
    pub fn bin(&mut self, k: K, a: Opr, b: Opr, prec: i32, c: f64) -> Opr {
        let key = (k, a, b);
        let use_cons = prec == 53;
        if use_cons {
            if let Some(r) = self.cons.get(&key) {
                return *r;
            }
            if matches!(k, K::Add | K::Mul) {
                if let Some(r) = self.cons.get(&(k, b, a)) {
                    return *r;
                }
            }
        }
        let r = self.bin_(k, a, b, prec, c);
        if use_cons {
            self.cons.insert(key, r);
        }
        r
    }
    fn bin_(&mut self, k: K, a: Opr, b: Opr, prec: i32, c: f64) -> Opr {
        let cf = |o: Opr| {
            if let Opr::C(b) = o {
                Some(f64::from_bits(b))
            } else {
                None
            }
        };
        for o in [a, b] {
            if let Some(x) = cf(o) {
                if !x.is_finite() {
                    if x.is_nan() || k == K::Add || k == K::Sub {
                        return Opr::C(c.to_bits());
                    }
                    // inf * x, inf / x, x / inf
                    let other = if o == a { b } else { a };
                    if k == K::Div && o == b {
                        return Opr::C(c.to_bits());
                    }
                    let z = Opr::C(0);
                    let eq = self.conc(other) == 0.0;
                    self.decide(other, z, EQ, eq);
                    if !eq {
                        let lt = self.conc(other) < 0.0;
                        self.decide(other, z, LT, lt);
                    }
                    return Opr::C(c.to_bits());
                }
            }
        }
        if self.is_wild(a) || self.is_wild(b) {
            if k == K::Mul && (cf(a) == Some(1.0) || cf(b) == Some(1.0))
                || k == K::Div && cf(b) == Some(1.0)
            {
                return if self.is_wild(a) { a } else { b };
            }
            return self.wild(c);
        }
        match k {
            K::Add | K::Sub => {
                if cf(b) == Some(0.0) {
                    return a;
                }
                if k == K::Add && cf(a) == Some(0.0) {
                    return b;
                }
                if k == K::Sub && a == b {
                    return Opr::C(0);
                }
                let (pa, ea, ..) = self.poly_of(a);
                let (pb, eb, ..) = self.poly_of(b);
                let (p, e) = self.padd(&pa, &pb, k == K::Sub);
                self.rounded(p, e + ea + eb, prec, c)
            }
            K::Mul => {
                for (x, y) in [(a, b), (b, a)] {
                    if cf(x) == Some(0.0) {
                        return Opr::C(0);
                    }
                    if cf(x) == Some(1.0) {
                        return y;
                    }
                }
                let (pa, ea, la, ha) = self.poly_of(a);
                let (pb, eb, lb, hb) = self.poly_of(b);
                match self.pmul(&pa, &pb) {
                    Some((p, e)) => {
                        let ma = la.abs().max(ha.abs());
                        let mb = lb.abs().max(hb.abs());
                        let e = e + ma * eb + mb * ea + ea * eb;
                        self.rounded(p, e, prec, c)
                    }
                    None => {
                        self.bad("degree overflow");
                        Opr::C(c.to_bits())
                    }
                }
            }
            K::Div => self.div(a, b, prec, c),
            _ => unreachable!(),
        }
    }
    fn div(&mut self, a: Opr, b: Opr, prec: i32, c: f64) -> Opr {
        if let Opr::C(bb) = b {
            let d = f64::from_bits(bb);
            if d == 1.0 {
                return a;
            }
            if d == 0.0 {
                let z = Opr::C(0);
                let eq = self.conc(a) == 0.0;
                if !self.decide(a, z, EQ, eq) {
                    let lt = self.conc(a) < 0.0;
                    self.decide(a, z, LT, lt);
                }
                return Opr::C(c.to_bits());
            }
            let (pa, ea, ..) = self.poly_of(a);
            let mut err = ea / d.abs() * (1.0 + 1e-15);
            let mut t = Vec::with_capacity(pa.t.len());
            for &(m, k) in &pa.t {
                let q = k / d;
                let e = (q.mul_add(-d, k)).abs() / d.abs();
                if e != 0.0 {
                    let (l, h) = self.mono_bound(m);
                    err += e * l.abs().max(h.abs()) * (1.0 + 1e-9);
                }
                if q != 0.0 {
                    t.push((m, q));
                }
            }
            return self.rounded(Poly { t }, err, prec, c);
        }
        // symbolic divisor
        let z = Opr::C(0);
        let cb = self.conc(b);
        if self.decide(b, z, EQ, cb == 0.0) {
            let ca = self.conc(a);
            if !self.decide(a, z, EQ, ca == 0.0) {
                self.decide(a, z, LT, ca < 0.0);
            }
            return Opr::C(c.to_bits());
        }
        if a == b {
            return Opr::C(1f64.to_bits());
        }
        if let Opr::C(ab) = a {
            if f64::from_bits(ab) == 0.0 {
                return Opr::C(0);
            }
        }
        let (pa, ea, la, ha) = self.poly_of(a);
        let (pb, eb, lb, hb) = self.poly_of(b);
        let latb = if let Opr::N(i) = b {
            self.nodes[i as usize].lat
        } else {
            NOLAT
        };
        // lower bound on |b|
        let mut bmin = if lb > 0.0 {
            lb
        } else if hb < 0.0 {
            -hb
        } else if latb != NOLAT {
            2f64.powi(-latb)
        } else {
            0.0
        };
        bmin -= eb;
        if bmin > 0.0 || (ea == 0.0 && eb == 0.0) {
            if let Some((q, e)) = self.pdiv(&pa, &pb) {
                let (ql, qh) = self.range(&q);
                let mq = ql.abs().max(qh.abs());
                let err = if ea == 0.0 && eb == 0.0 {
                    e
                } else {
                    e + (ea + mq * eb) / bmin * (1.0 + 1e-9)
                };
                return self.rounded(q, err, prec, c);
            }
        }
        let ma = la.abs().max(ha.abs());
        let (lo, hi) = if bmin > 0.0 {
            let m = (ma + ea) / bmin * (1.0 + 1e-9);
            let apos = la - ea >= 0.0;
            let aneg = ha + ea <= 0.0;
            let bpos = lb > 0.0;
            let bneg = hb < 0.0;
            let (l, h) = if (apos && bpos) || (aneg && bneg) {
                (0.0, m)
            } else if (apos && bneg) || (aneg && bpos) {
                (-m, 0.0)
            } else {
                (-m, m)
            };
            (l, h)
        } else {
            return self.wild(c);
        };
        let (v, q) = self.opaque(format!("div{}", self.vars.len()), lo, hi, c);
        // define q := exact quotient; computed value = q(1+d)
        if ea == 0.0 && eb == 0.0 {
            if let Some((qb, e)) = self.pmul(
                &Poly {
                    t: vec![(v as u128, 1.0)],
                },
                &pb,
            ) {
                let (d, e2) = self.padd(&qb, &pa, true);
                self.pc.push(Atom {
                    poly: Arc::new(d),
                    eps: e + e2,
                    mask: EQ,
                });
            }
            let Opr::N(i) = q else { unreachable!() };
            let n = &mut self.nodes[i as usize];
            n.eps = lo.abs().max(hi.abs()) * 2f64.powi(-prec);
            n.lat = NOLAT;
        } else if bmin > 0.0 {
            let mq = lo.abs().max(hi.abs());
            if let Some((qb, e)) = self.pmul(
                &Poly {
                    t: vec![(v as u128, 1.0)],
                },
                &pb,
            ) {
                let (d, e2) = self.padd(&qb, &pa, true);
                self.pc.push(Atom {
                    poly: Arc::new(d),
                    eps: e + e2 + ea + mq * eb,
                    mask: EQ,
                });
            }
            let Opr::N(i) = q else { unreachable!() };
            let n = &mut self.nodes[i as usize];
            n.eps = mq * 2f64.powi(-prec);
            n.lat = NOLAT;
        }
        q
    }
    pub fn neg(&mut self, a: u32) -> Opr {
        let key = (K::Neg, Opr::N(a), Opr::C(0));
        if let Some(r) = self.cons.get(&key) {
            return *r;
        }
        let n = self.nodes[a as usize].clone();
        if self.is_wild(Opr::N(a)) {
            return self.wild(-n.c);
        }
        let p = Poly {
            t: n.poly.t.iter().map(|(m, c)| (*m, -c)).collect(),
        };
        let id = self.push_node(p, n.eps, -n.c);
        self.nodes[id as usize].lat = n.lat;
        self.cons.insert(key, Opr::N(id));
        self.cons.insert((K::Neg, Opr::N(id), Opr::C(0)), Opr::N(a));
        Opr::N(id)
    }
    /// f64 -> f32
    pub fn round32(&mut self, a: u32, c: f64) -> Opr {
        if self.is_wild(Opr::N(a)) {
            return self.wild(c);
        }
        let key = (K::Round32, Opr::N(a), Opr::C(0));
        if let Some(r) = self.cons.get(&key) {
            return *r;
        }
        let n = self.nodes[a as usize].clone();
        let r = if n.eps == 0.0 {
            self.rounded((*n.poly).clone(), 0.0, 24, c)
        } else {
            self.rounded((*n.poly).clone(), n.eps, 24, c)
        };
        self.cons.insert(key, r);
        r
    }
    pub fn abs(&mut self, a: u32) -> Opr {
        let c = self.nodes[a as usize].c;
        if self.is_wild(Opr::N(a)) {
            return self.wild(c.abs());
        }
        if self.decide(Opr::N(a), Opr::C(0), LT, c < 0.0) {
            self.neg(a)
        } else {
            Opr::N(a)
        }
    }
    pub fn sqrt(&mut self, a: u32, c: f64) -> Opr {
        if self.is_wild(Opr::N(a)) {
            return self.wild(c);
        }
        let key = (K::Sqrt, Opr::N(a), Opr::C(0));
        if let Some(r) = self.cons.get(&key) {
            return *r;
        }
        let ca = self.nodes[a as usize].c;
        if self.decide(Opr::N(a), Opr::C(0), LT, ca < 0.0) {
            return Opr::C(f64::NAN.to_bits());
        }
        let n = self.nodes[a as usize].clone();
        let r = 'r: {
            // perfect square of a linear form?
            if let Some(root) = self.poly_sqrt(&n.poly) {
                let cr = root.eval(&|v| self.vars[v].val);
                let id = self.push_node(root, 0.0, cr);
                let ab = self.abs(id);
                if n.eps == 0.0 {
                    let (p, _, _, _) = self.poly_of(ab);
                    break 'r self.rounded((*p).clone(), 0.0, 53, c);
                }
                let (p, _, _, _) = self.poly_of(ab);
                break 'r self.rounded((*p).clone(), n.eps.sqrt(), 53, c);
            }
            let hi = (n.hi + n.eps).max(0.0).sqrt() * (1.0 + 1e-15);
            let (v, q) = self.opaque(format!("sqrt{}", self.vars.len()), 0.0, hi, c);
            self.vars[v].rule = Some((2, n.poly.clone()));
            self.has_rules = true;
            let sq = Poly {
                t: vec![(mono_mul(v as u128, v as u128).unwrap(), 1.0)],
            };
            let (d, e) = self.padd(&sq, &n.poly, true);
            self.pc.push(Atom {
                poly: Arc::new(d),
                eps: e,
                mask: EQ,
            });
            let Opr::N(i) = q else { unreachable!() };
            let nd = &mut self.nodes[i as usize];
            let low = (n.lo - n.eps).max(0.0).sqrt();
            nd.eps = n.eps.sqrt().min(n.eps / (2.0 * low)) + hi * 2f64.powi(-52);
            nd.lat = NOLAT;
            q
        };
        self.cons.insert(key, r);
        r
    }
    fn poly_sqrt(&mut self, p: &Poly) -> Option<Poly> {
        if p.t.is_empty() {
            return None;
        }
        // candidates: monomials with even exponents give root terms; signs resolved by verification
        let mut roots: Vec<(Mono, f64)> = vec![];
        for (m, c) in &p.t {
            let f: Vec<usize> = mono_factors(*m).collect();
            if f.len() % 2 == 0 && f.chunks(2).all(|x| x[0] == x[1]) && *c > 0.0 {
                let h = mono_make(f.chunks(2).map(|x| x[0] as u8).collect())?;
                let r = c.sqrt();
                if r * r != *c {
                    return None;
                }
                roots.push((h, r));
            }
        }
        if roots.is_empty() || roots.len() > 6 {
            return None;
        }
        roots.sort_unstable_by_key(|x| x.0);
        let n = roots.len();
        for mask in 0..(1u32 << (n - 1)) {
            let t: Vec<(Mono, f64)> = roots
                .iter()
                .enumerate()
                .map(|(i, (m, c))| {
                    (
                        *m,
                        if i > 0 && mask >> (i - 1) & 1 == 1 {
                            -c
                        } else {
                            *c
                        },
                    )
                })
                .collect();
            let r = Poly { t };
            let (sq, e) = self.pmul(&r, &r)?;
            if e == 0.0 && sq == *p {
                return Some(r);
            }
        }
        None
    }
    /// uninterpreted function of the (computed) argument values; the result is the computed float
    pub fn uf(&mut self, k: K, name: &str, a: Opr, b: Opr, lo: f64, hi: f64, c: f64) -> Opr {
        if self.is_wild(a) || self.is_wild(b) || !c.is_finite() {
            return self.wild(c);
        }
        if let Some(r) = self.cons.get(&(k, a, b)) {
            return *r;
        }
        let (v, q) = self.opaque(format!("{name}{}", self.vars.len()), lo, hi, c);
        let _ = v;
        if let Opr::N(i) = q {
            self.nodes[i as usize].lat = NOLAT;
        }
        self.cons.insert((k, a, b), q);
        q
    }
    /// sin or cos of node `a` with concrete value `c`.  The argument is split into a varying part,
    /// whose sine and cosine are a pair of unknowns on the unit circle, and a constant phase.
    pub fn sincos(&mut self, a: u32, cos: bool, c: f64) -> Opr {
        let k = if cos { K::Cos } else { K::Sin };
        if self.is_wild(Opr::N(a)) {
            return self.wild(c);
        }
        if let Some(r) = self.cons.get(&(k, Opr::N(a), Opr::C(0))) {
            return *r;
        }
        let p = self.nodes[a as usize].poly.clone();
        let e = self.nodes[a as usize].eps;
        let c0 = p.t.iter().find(|x| x.0 == 0).map(|x| x.1).unwrap_or(0.0);
        let nc = Poly {
            t: p.t.iter().filter(|x| x.0 != 0).copied().collect(),
        };
        let mut found = None;
        for (i, (q, ..)) in self.trig.iter().enumerate() {
            if q.t.len() != nc.t.len() {
                continue;
            }
            for sg in [1.0, -1.0] {
                if q.t
                    .iter()
                    .zip(&nc.t)
                    .all(|(x, y)| x.0 == y.0 && (x.1 - sg * y.1).abs() <= 1e-12 * x.1.abs())
                {
                    found = Some((i, sg));
                    break;
                }
            }
            if found.is_some() {
                break;
            }
        }
        let (i, sg) = found.unwrap_or_else(|| {
            let arg = self.nodes[a as usize].c - c0;
            let (vs, _) = self.opaque(format!("sin{}", self.vars.len()), -1.0, 1.0, arg.sin());
            let (vc, _) = self.opaque(format!("cos{}", self.vars.len()), -1.0, 1.0, arg.cos());
            let sq = |v: usize| mono_mul(v as u128, v as u128).unwrap();
            let mut t = vec![(0u128, -1.0), (sq(vs), 1.0), (sq(vc), 1.0)];
            t.sort_by_key(|x| x.0);
            self.pc.push(Atom {
                poly: Arc::new(Poly { t }),
                eps: 1e-15,
                mask: EQ,
            });
            self.trig.push((nc.clone(), vs, vc));
            (self.trig.len() - 1, 1.0)
        });
        let (q, vs, vc) = self.trig[i].clone();
        // spread of the base argument against this one
        let diff = Poly {
            t: q.t
                .iter()
                .zip(&nc.t)
                .map(|(x, y)| (x.0, x.1 - sg * y.1))
                .filter(|x| x.1 != 0.0)
                .collect(),
        };
        let (lo, hi) = self.range(&diff);
        let de = e + lo.abs().max(hi.abs());
        let (s0, k0) = (c0.sin(), c0.cos());
        let (ks, kc) = if cos { (-sg * s0, k0) } else { (sg * k0, s0) };
        let mut t: Vec<(Mono, f64)> = [(vs as u128, ks), (vc as u128, kc)]
            .into_iter()
            .filter(|x| x.1 != 0.0)
            .collect();
        t.sort_by_key(|x| x.0);
        let id = self.push_node(Poly { t }, 0.0, c);
        self.nodes[id as usize].eps = de + 8e-16;
        self.nodes[id as usize].lat = NOLAT;
        let r = Opr::N(id);
        self.cons.insert((k, Opr::N(a), Opr::C(0)), r);
        r
    }

    // ---------------------------------------------------------------- decisions
    /// The atom up to a positive factor (so that multiples of one comparison, also when they
    /// were rounded, are one comparison) and whether the sign was turned.
    fn norm_key(p: &Poly) -> (Vec<(Mono, u64)>, bool) {
        let neg = p.t.first().map(|x| x.1 < 0.0).unwrap_or(false);
        let m =
            p.t.iter()
                .filter(|x| x.0 != 0)
                .fold(0.0f64, |m, x| m.max(x.1.abs()));
        let m = if m > 0.0 { m } else { 1.0 };
        let m = if neg { -m } else { m };
        (
            p.t.iter()
                .map(|(mo, c)| (*mo, ((c / m * 68719476736.0).round() + 0.0).to_bits()))
                .collect(),
            neg,
        )
    }
    fn flip_mask(m: u8) -> u8 {
        (m & EQ) | if m & LT != 0 { GT } else { 0 } | if m & GT != 0 { LT } else { 0 }
    }
    /// decide `sign(a-b) in mask`; `truth` is the concrete outcome.  Returns the outcome used.
    pub fn decide(&mut self, a: Opr, b: Opr, mask: u8, truth: bool) -> bool {
        if a == b && !self.is_wild(a) {
            return truth;
        }
        if self.is_wild(a) || self.is_wild(b) {
            self.bad("decision on a value that may be infinite");
            return truth;
        }
        let (pa, ea, ..) = self.poly_of(a);
        let (pb, eb, ..) = self.poly_of(b);
        let (d, e) = self.padd(&pa, &pb, true);
        let eps = ea + eb + e;
        self.decide_poly(d, eps, mask, truth)
    }
    pub fn decide_poly(&mut self, d: Poly, eps: f64, mask: u8, truth: bool) -> bool {
        if d.is_const().is_some() && eps == 0.0 {
            return truth;
        }
        let (lo, hi) = self.range(&d);
        let mut poss = 0;
        if lo - eps < 0.0 {
            poss |= LT;
        }
        if hi + eps > 0.0 {
            poss |= GT;
        }
        if lo - eps <= 0.0 && hi + eps >= 0.0 {
            poss |= EQ;
        }
        let (key, neg) = Self::norm_key(&d);
        if let Some(k) = self.known.get(&key) {
            poss &= if neg { Self::flip_mask(*k) } else { *k };
        }
        if poss & mask == poss || poss & mask == 0 {
            let implied = poss & mask != 0;
            if implied != truth {
                // rounding sliver: trust the concrete execution
                self.slivers += 1;
            }
            return truth;
        }
        let d = Arc::new(d);
        let taken_mask = if truth { mask } else { 7 & !mask };
        self.decs.push(Dec {
            kind: DecKind::Branch {
                atom: d.clone(),
                eps,
                mask,
                taken: truth,
            },
            pc_len: self.pc.len(),
            loc: self.loc,
        });
        self.pc.push(Atom {
            poly: d,
            eps,
            mask: taken_mask,
        });
        let np = poss & taken_mask;
        self.known
            .insert(key, if neg { Self::flip_mask(np) } else { np });
        truth
    }
    pub fn choice(&mut self, var: usize, n: u64, taken: u64) {
        self.decs.push(Dec {
            kind: DecKind::Choice { var, n, taken },
            pc_len: self.pc.len(),
            loc: self.loc,
        });
    }
    /// one piece of a line cut into many: a <= q (or <) and q < b (or <=)
    pub fn piece(&mut self, q: Opr, id: f64, lo: (f64, bool), hi: (f64, bool)) {
        let n = self.decs.len();
        let pc_len = self.pc.len();
        self.decide(
            q,
            Opr::C(lo.0.to_bits()),
            if lo.1 { EQ | GT } else { GT },
            true,
        );
        let below = (self.decs.len() > n).then(|| self.decs.pop().unwrap());
        self.decide(
            q,
            Opr::C(hi.0.to_bits()),
            if hi.1 { EQ | LT } else { LT },
            true,
        );
        let above = (self.decs.len() > n).then(|| self.decs.pop().unwrap());
        let not = |d: Option<Dec>| {
            d.map(|d| match d.kind {
                DecKind::Branch {
                    atom, eps, mask, ..
                } => Atom {
                    poly: atom,
                    eps,
                    mask: 7 & !mask,
                },
                _ => unreachable!(),
            })
        };
        if below.is_some() || above.is_some() {
            self.decs.push(Dec {
                kind: DecKind::Piece {
                    id,
                    below: not(below),
                    above: not(above),
                },
                pc_len,
                loc: self.loc,
            });
        }
    }
    pub fn pin(&mut self, a: u32) {
        // concretize: x == its concrete value (incomplete)
        if self.is_wild(Opr::N(a)) {
            return self.bad("a value that may be infinite is made concrete");
        }
        let n = self.nodes[a as usize].clone();
        let (d, e) = self.padd(&n.poly.clone(), &Poly::cst(n.c), true);
        self.pc.push(Atom {
            poly: Arc::new(d),
            eps: n.eps + e,
            mask: EQ,
        });
    }
    pub fn diff(&mut self, a: Opr, b: Opr) -> (Poly, f64, f64, f64) {
        if self.is_wild(a) || self.is_wild(b) {
            self.bad("check of a value that may be infinite");
        }
        let (pa, ea, ..) = self.poly_of(a);
        let (pb, eb, ..) = self.poly_of(b);
        let (d, e) = self.padd(&pa, &pb, true);
        let (lo, hi) = self.range(&d);
        (d, ea + eb + e, lo, hi)
    }
    /// keeps an assertion that ranges decide, for the solver to confirm
    pub fn keep_near(&mut self, a: Opr, b: Opr, tol: f64) {
        let (pa, ea, ..) = self.poly_of(a);
        let (pb, eb, ..) = self.poly_of(b);
        self.near.push(Near {
            a: pa,
            b: pb,
            bound: tol - (ea + eb),
        });
    }
    /// a root about which only its range is known, the same one for the same coefficients
    pub fn any_root(&mut self, c: [Opr; 4], conc: f64) -> u32 {
        if let Some((_, u)) = self.any_roots.iter().find(|(k, _)| *k == c) {
            return *u;
        }
        let (_, q) = self.opaque(format!("root{}", self.vars.len()), 0.0, 1.0, conc);
        let Opr::N(u) = q else { unreachable!() };
        self.any_roots.push((c, u));
        u
    }
    /// hinted roots: does some registered u satisfy c0 + c1 u + c2 u^2 + c3 u^3 == 0 identically?
    pub fn root_hint(&mut self, c: [Opr; 4]) -> Option<u32> {
        if c.iter().any(|x| self.is_wild(*x)) {
            return None;
        }
        for u in self.roots.clone().into_iter().rev() {
            let pu = self.nodes[u as usize].poly.clone();
            let mut acc = Poly::default();
            let mut ok = true;
            let mut slack = 1e-9;
            for i in (0..4).rev() {
                let Some((m, _)) = self.pmul(&acc, &pu) else {
                    ok = false;
                    break;
                };
                let (p, e, ..) = self.poly_of(c[i]);
                slack += e * 1e3;
                let (s, _) = self.padd(&m, &p, false);
                acc = s;
            }
            if ok {
                let (lo, hi) = self.range(&acc);
                if lo.abs().max(hi.abs()) < slack.min(1e-6) {
                    return Some(u);
                }
            }
        }
        None
    }
}
