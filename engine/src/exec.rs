//! Concolic interpreter for the parsed LLVM IR.
use crate::ir::*;
use crate::sym::*;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Ok,
    Infeasible,
    Panic(String),
    Assert(String),
    Close(String),
    StackOverflow(String),
    Steps(String),
    Mem(String),
    Segv(String),
    Engine(String),
}
impl End {
    pub fn is_violation(&self) -> bool {
        !matches!(self, End::Ok | End::Infeasible | End::Engine(_))
    }
    pub fn text(&self) -> String {
        match self {
            End::Ok => "ok".into(),
            End::Infeasible => "assumption false".into(),
            End::Panic(s) => format!("panic: {s}"),
            End::Assert(s) => format!("assertion failed: {s}"),
            End::Close(s) => format!("values differ: {s}"),
            End::StackOverflow(s) => format!("unbounded recursion: {s}"),
            End::Steps(s) => format!("step limit exceeded (non-termination?): {s}"),
            End::Mem(s) => format!("memory exhausted: {s}"),
            End::Segv(s) => format!("invalid memory access: {s}"),
            End::Engine(s) => format!("engine: {s}"),
        }
    }
}

const S_BOOL: u32 = 1 << 31;
const S_ABS: u32 = 1 << 30;
const S_EXP: u32 = 1 << 29;
/// two single-precision values in one 64-bit word (see Machine::packs)
const S_PACK: u32 = 1 << 28;
/// the bits of a negative number with all but the sign flipped (f64::total_cmp)
const S_TOT: u32 = 1 << 27;
const S_FLAGS: u32 = S_BOOL | S_ABS | S_EXP | S_PACK | S_TOT;
const SH_CONT: u32 = 1 << 30;
const SH_F32: u32 = 1 << 29;
const SH_ID: u32 = (1 << 29) - 1;
/// the word holds bytes of a symbolic value at an odd address (see Machine::mis)
const SH_MIS: u32 = SH_ID;

pub const STACK: u64 = 8 << 20;
pub const MEM: usize = 512 << 20;

pub mod hk {
    pub const PANIC: u32 = 1;
    pub const MALLOC: u32 = 2;
    pub const CALLOC: u32 = 3;
    pub const REALLOC: u32 = 4;
    pub const FREE: u32 = 5;
    pub const MEMALIGN: u32 = 6;
    pub const MEMCMP: u32 = 7;
    pub const STRLEN: u32 = 8;
    pub const BCMP: u32 = 13;
    pub const TAN: u32 = 9;
    pub const ATAN2: u32 = 10;
    pub const CBRT: u32 = 11;
    pub const CUBIC: u32 = 12;
    pub const GETRANDOM: u32 = 14;
    pub const ZERO: u32 = 15;
    pub const WRITE: u32 = 16;
    pub const FLOATFMT: u32 = 17;
    pub const ABORT: u32 = 18;
    pub const SYSCALL: u32 = 19;
    pub const V_CHOICE: u32 = 30;
    pub const V_NUM: u32 = 31;
    pub const V_ASSERT: u32 = 32;
    pub const V_CLOSE: u32 = 33;
    pub const V_ASSUME: u32 = 34;
    pub const V_COVER: u32 = 35;
    pub const V_OBS: u32 = 36;
    pub const V_ROOT: u32 = 37;
    pub const V_ISSYM: u32 = 38;
    pub const ZMIJ: u32 = 20;
    pub const HYPOT: u32 = 21;
}
pub fn hook(name: &str, dem: &str) -> u32 {
    use hk::*;
    match name {
        "malloc" => return MALLOC,
        "calloc" => return CALLOC,
        "realloc" => return REALLOC,
        "free" => return FREE,
        "posix_memalign" => return MEMALIGN,
        "memcmp" => return MEMCMP,
        "bcmp" => return BCMP,
        "strlen" => return STRLEN,
        "tan" => return TAN,
        "atan2" => return ATAN2,
        "cbrt" => return CBRT,
        "hypot" => return HYPOT,
        "getrandom" => return GETRANDOM,
        "syscall" => return SYSCALL,
        "getenv"
        | "__cxa_thread_atexit_impl"
        | "pthread_setspecific"
        | "pthread_key_create"
        | "pthread_key_delete"
        | "gettid" => return ZERO,
        "write" => return WRITE,
        "abort" => return ABORT,
        "vs_choice" => return V_CHOICE,
        "vs_num" => return V_NUM,
        "vs_assert" => return V_ASSERT,
        "vs_close" => return V_CLOSE,
        "vs_assume" => return V_ASSUME,
        "vs_cover" => return V_COVER,
        "vs_observe" => return V_OBS,
        "vs_root_hint" => return V_ROOT,
        "vs_symbolic" => return V_ISSYM,
        _ => {}
    }
    if dem.starts_with("core::panicking::")
        || dem.starts_with("std::panicking::begin_panic")
        || dem.starts_with("std::panicking::rust_panic")
        || dem.starts_with("alloc::alloc::handle_alloc_error")
        || dem.starts_with("alloc::raw_vec::handle_error")
        || dem.starts_with("alloc::raw_vec::capacity_overflow")
        || dem.starts_with("core::option::unwrap_failed")
        || dem.starts_with("core::option::expect_failed")
        || dem.starts_with("core::result::unwrap_failed")
        || dem.starts_with("core::slice::index::slice_")
        || dem.starts_with("core::str::slice_error_fail")
        || dem.starts_with("core::cell::panic_already")
    {
        return PANIC;
    }
    if dem.starts_with("std::process::abort")
        || dem.starts_with("std::sys::pal::unix::abort_internal")
    {
        return ABORT;
    }
    if dem.starts_with("kurbo::common::solve_cubic") {
        return CUBIC;
    }
    if dem.starts_with("core::fmt::float::float_to") {
        return FLOATFMT;
    }
    if dem.contains("write_to_zmij_buffer") {
        return ZMIJ;
    }
    0
}

#[derive(Clone, Copy)]
struct PB {
    a: Opr,
    b: Opr,
    mask: u8,
}

struct Frame<'m> {
    f: &'m Func,
    fi: u32,
    b: u32,
    ip: u32,
    base: usize,
    sp: u64,
    /// where the caller wants the result (absolute register index)
    dst: usize,
    dn: u32,
    /// block to continue at in the caller (invoke) or MAX
    cont: u32,
}

pub struct Limits {
    pub steps: u64,
    pub depth: usize,
}

pub struct Machine<'m> {
    m: &'m Module,
    mem: Vec<u8>,
    sh: Vec<u32>,
    heap_base: u64,
    heap: u64,
    stack_hi: u64,
    sp: u64,
    regs: Vec<Val>,
    frames: Vec<Frame<'m>>,
    pub sym: Sym,
    pend: Vec<PB>,
    /// the symbolic values, if any, of the low and high halves of packed words
    packs: Vec<[u32; 2]>,
    pub inputs: HashMap<String, f64>,
    counts: HashMap<String, u32>,
    pub used: Vec<(String, f64, f64, f64, Option<i32>, bool)>, // name value lo hi lat is_choice
    pub steps: u64,
    pub cov: Vec<Vec<bool>>,
    pub obs: Vec<(f64, bool)>,
    pub covers: Vec<String>,
    pub lim: Limits,
    pub seed: u64,
    tmp: Vec<Val>,
    pub close_trivial: u64,
    pub close_conc: u64,
    pub close_total: u64,
    dirty: bool,
    /// symbolic values lying at addresses that are not word-aligned: address -> (id, length)
    mis: std::collections::BTreeMap<u64, (u32, u8)>,
}

type X<T> = Result<T, End>;

impl<'m> Machine<'m> {
    pub fn new(m: &'m Module, lim: Limits) -> Self {
        let heap_base = (m.gend + STACK + 4095) / 4096 * 4096;
        Machine {
            m,
            mem: vec![0; MEM],
            sh: vec![0; MEM / 4],
            heap_base,
            heap: heap_base,
            stack_hi: m.gend,
            sp: m.gend,
            regs: vec![],
            frames: vec![],
            sym: Sym::new(),
            pend: vec![],
            packs: vec![],
            inputs: HashMap::new(),
            counts: HashMap::new(),
            used: vec![],
            steps: 0,
            cov: vec![vec![]; m.funcs.len()],
            obs: vec![],
            covers: vec![],
            lim,
            seed: 1,
            tmp: vec![],
            close_trivial: 0,
            close_conc: 0,
            close_total: 0,
            dirty: true,
            mis: Default::default(),
        }
    }
    pub fn reset(&mut self, inputs: HashMap<String, f64>) {
        let g = self.m.gend as usize;
        self.mem[..g].copy_from_slice(&self.m.image);
        let _ = self.dirty;
        let s = self.stack_hi as usize;
        self.mem[g..s].fill(0);
        self.sh[..(s + 7) / 4].fill(0);
        let (hb, h) = (self.heap_base as usize, self.heap as usize);
        self.mem[hb..h].fill(0);
        self.sh[hb / 4..(h + 7) / 4].fill(0);
        self.heap = self.heap_base;
        self.sp = self.m.gend;
        self.stack_hi = self.sp;
        self.regs.clear();
        self.frames.clear();
        self.sym = Sym::new();
        self.pend.clear();
        self.packs.clear();
        self.inputs = inputs;
        self.counts.clear();
        self.used.clear();
        self.steps = 0;
        self.obs.clear();
        self.covers.clear();
        self.mis.clear();
    }
    fn where_(&self) -> String {
        self.frames
            .last()
            .map(|f| self.m.funcs[f.fi as usize].demangled.clone())
            .unwrap_or_default()
    }
    pub fn backtrace(&self) -> String {
        let mut v = vec![];
        for f in self.frames.iter().rev().take(400) {
            let d = &self.m.funcs[f.fi as usize].demangled;
            if d.contains("velato") || v.is_empty() {
                let mut d = d.clone();
                if d.len() > 100 {
                    d.truncate(
                        d.char_indices()
                            .map(|x| x.0)
                            .take_while(|x| *x <= 100)
                            .last()
                            .unwrap_or(0),
                    );
                }
                if v.last() != Some(&d) {
                    v.push(d);
                }
            }
            if v.len() >= 6 {
                break;
            }
        }
        v.join(" < ")
    }
    fn bad(&mut self, s: &str) {
        let w = self.where_();
        if self.sym.trouble.len() < 20 {
            self.sym.trouble.push(format!("{s} in {w}"));
        }
    }
    fn pin(&mut self, v: Val, why: &str) -> Val {
        if v.s == 0 {
            return v;
        }
        if v.s & S_BOOL != 0 {
            return self.resolve(v);
        }
        let id = v.s & !S_FLAGS;
        self.bad(why);
        if v.s & S_PACK != 0 {
            for h in self.packs[id as usize] {
                if h != 0 {
                    self.sym.pin(h);
                }
            }
        } else {
            self.sym.pin(id);
        }
        Val { s: 0, ..v }
    }
    /// a 64-bit word whose halves are the single-precision values `h`
    fn pack(&mut self, lo: u64, h: [u32; 2]) -> Val {
        if h == [0, 0] {
            return Val::i(lo);
        }
        self.packs.push(h);
        Val {
            lo,
            hi: 0,
            s: S_PACK | (self.packs.len() as u32 - 1),
        }
    }
    fn halves(&self, v: &Val) -> Option<[u32; 2]> {
        if v.s == 0 {
            Some([0, 0])
        } else if v.s & S_PACK != 0 {
            Some(self.packs[(v.s & !S_FLAGS) as usize])
        } else {
            None
        }
    }
    /// shifting, masking and joining words of packed halves
    fn pack_bin(&mut self, b: Bin, x: Val, y: Val) -> Option<Val> {
        let (h, g) = (self.halves(&x)?, self.halves(&y)?);
        let half = |v: &Val, k: usize| (v.lo >> (32 * k)) as u32;
        match b {
            Bin::Shl if y.s == 0 && y.lo == 32 => Some(self.pack(x.lo << 32, [0, h[0]])),
            Bin::LShr if y.s == 0 && y.lo == 32 => Some(self.pack(x.lo >> 32, [h[1], 0])),
            Bin::And | Bin::Or | Bin::Xor | Bin::Add => {
                let mut o = [0, 0];
                for k in 0..2 {
                    if h[k] == 0 && g[k] == 0 {
                        continue;
                    }
                    let (s, c, cs) = if h[k] != 0 { (h[k], half(&y, k), g[k]) } else { (g[k], half(&x, k), 0) };
                    if cs != 0 {
                        return None;
                    }
                    o[k] = match (b, c) {
                        (Bin::And, u32::MAX) => s,
                        (Bin::And, 0) => 0,
                        (Bin::Or | Bin::Xor | Bin::Add, 0) => s,
                        _ => return None,
                    };
                }
                // a carry from constants in the low half would reach the high one
                let lo = match b {
                    Bin::And => x.lo & y.lo,
                    Bin::Or => x.lo | y.lo,
                    Bin::Xor => x.lo ^ y.lo,
                    _ if half(&x, 0).checked_add(half(&y, 0)).is_none() => return None,
                    _ => x.lo.wrapping_add(y.lo),
                };
                Some(self.pack(lo, o))
            }
            _ => None,
        }
    }
    /// are the bytes the same, deciding it word by word where they are symbolic; None if they cannot
    /// be told apart that way
    fn same_bytes(&mut self, p: u64, q: u64, l: u64) -> Option<bool> {
        if (p | q | l) & 3 != 0 {
            return None;
        }
        let mut i = 0;
        while i < l {
            let (a, b) = (((p + i) / 4) as usize, ((q + i) / 4) as usize);
            let (s, t) = (self.sh[a], self.sh[b]);
            let mut n = 4;
            let (x, y, m);
            if s == 0 && t == 0 {
                m = self.raw(p + i, 4) == self.raw(q + i, 4);
                (x, y) = (Opr::C(0), Opr::C(0));
            } else if s == SH_MIS || t == SH_MIS {
                return None;
            } else if (s == 0 || s & SH_F32 != 0) && (t == 0 || t & SH_F32 != 0) {
                let c = |r: u128| f32::from_bits(r as u32);
                let (u, v) = (c(self.raw(p + i, 4)), c(self.raw(q + i, 4)));
                if !u.is_finite() || !v.is_finite() {
                    return None;
                }
                x = if s != 0 { Opr::N(s & SH_ID) } else { Opr::C((u as f64).to_bits()) };
                y = if t != 0 { Opr::N(t & SH_ID) } else { Opr::C((v as f64).to_bits()) };
                m = u == v;
            } else {
                if i + 8 > l {
                    return None;
                }
                let whole = |s: u32, n: u32| s == 0 && n == 0 || s != 0 && s & (SH_CONT | SH_F32) == 0 && n == s | SH_CONT;
                if !whole(s, self.sh[a + 1]) || !whole(t, self.sh[b + 1]) {
                    return None;
                }
                let c = |r: u128| f64::from_bits(r as u64);
                let (u, v) = (c(self.raw(p + i, 8)), c(self.raw(q + i, 8)));
                if !u.is_finite() || !v.is_finite() {
                    return None;
                }
                x = if s != 0 { Opr::N(s) } else { Opr::C(u.to_bits()) };
                y = if t != 0 { Opr::N(t) } else { Opr::C(v.to_bits()) };
                m = u == v;
                n = 8;
            }
            if s | t != 0 {
                self.set_loc();
                self.sym.decide(x, y, EQ, m);
            }
            if !m {
                return Some(false);
            }
            i += n;
        }
        Some(true)
    }
    fn resolve(&mut self, v: Val) -> Val {
        if v.s & S_BOOL != 0 {
            let p = self.pend[(v.s & !S_BOOL) as usize];
            self.set_loc();
            self.sym.decide(p.a, p.b, p.mask, v.lo & 1 == 1);
            return Val { s: 0, ..v };
        }
        v
    }
    fn set_loc(&mut self) {
        if let Some(f) = self.frames.last() {
            self.sym.loc = f.fi.wrapping_mul(4096).wrapping_add(f.b);
        }
    }
    // ---------------------------------------------------------------- memory
    #[inline]
    fn chk(&self, a: u64, n: u64) -> X<()> {
        if a < GBASE || a.wrapping_add(n) > self.heap.max(self.heap_base) || a.wrapping_add(n) < a {
            return Err(End::Segv(format!(
                "address {a:#x} size {n}: {}",
                self.backtrace()
            )));
        }
        Ok(())
    }
    fn raw(&self, a: u64, n: u64) -> u128 {
        let a = a as usize;
        match n {
            8 => u64::from_le_bytes(self.mem[a..a + 8].try_into().unwrap()) as u128,
            4 => u32::from_le_bytes(self.mem[a..a + 4].try_into().unwrap()) as u128,
            1 => self.mem[a] as u128,
            2 => u16::from_le_bytes(self.mem[a..a + 2].try_into().unwrap()) as u128,
            _ => {
                let mut b = [0u8; 16];
                b[..n as usize].copy_from_slice(&self.mem[a..a + n as usize]);
                u128::from_le_bytes(b)
            }
        }
    }
    fn pin_range(&mut self, a: u64, n: u64, why: &str) {
        let mut seen = vec![];
        for w in a / 4..(a + n + 3) / 4 {
            let s = self.sh[w as usize];
            if s == SH_MIS {
                let v: Vec<u32> = self
                    .mis
                    .range(a.saturating_sub(7)..a + n)
                    .filter(|(k, v)| **k + v.1 as u64 > a)
                    .map(|(_, v)| v.0)
                    .collect();
                for id in v {
                    if !seen.contains(&id) {
                        seen.push(id);
                        self.bad(why);
                        self.sym.pin(id);
                    }
                }
            } else if s != 0 {
                let id = s & SH_ID;
                if !seen.contains(&id) {
                    seen.push(id);
                    self.bad(why);
                    self.sym.pin(id);
                }
            }
        }
    }
    fn load(&mut self, a: u64, sc: Sc) -> X<Val> {
        let n = sc.bytes();
        self.chk(a, n)?;
        let mut v = Val::w(self.raw(a, n));
        let wi = (a / 4) as usize;
        match n {
            8 if a & 3 == 0 => {
                let (w, w2) = (self.sh[wi], self.sh[wi + 1]);
                if w | w2 != 0 {
                    if w != 0 && w & (SH_CONT | SH_F32) == 0 && w2 == w | SH_CONT {
                        v.s = w;
                    } else if [w, w2].iter().all(|w| *w == 0 || *w != SH_MIS && *w & SH_F32 != 0) && sc != Sc::F64 {
                        return Ok(self.pack(v.lo, [w & SH_ID, w2 & SH_ID]));
                    } else {
                        self.pin_range(a, 8, "partial 8-byte load of symbolic data");
                    }
                }
            }
            4 if a & 3 == 0 => {
                let w = self.sh[wi];
                if w != 0 {
                    if w & SH_F32 != 0 {
                        v.s = w & SH_ID;
                    } else {
                        self.pin_range(a, 4, "4-byte load of symbolic f64");
                    }
                }
            }
            _ => {
                let e = ((a + n + 3) / 4) as usize;
                if self.sh[wi..e].iter().any(|x| *x != 0) {
                    if let Some((id, l)) = self.mis.get(&a) {
                        if *l as u64 == n {
                            v.s = *id;
                            return Ok(v);
                        }
                    }
                    self.pin_range(a, n, "odd load of symbolic data");
                }
            }
        }
        if let Sc::I(w) = sc {
            if w & 7 != 0 {
                let x = mask(v.u128(), w);
                v.lo = x as u64;
                v.hi = (x >> 64) as u64;
            }
        }
        Ok(v)
    }
    fn store(&mut self, a: u64, sc: Sc, v: Val) -> X<()> {
        let n = sc.bytes();
        self.chk(a, n)?;
        let mut v = v;
        if v.s & S_PACK != 0 && n == 8 && a & 3 == 0 {
            let h = self.packs[(v.s & !S_FLAGS) as usize];
            for k in 0..2 {
                self.store(a + 4 * k, Sc::F32, Val { lo: (v.lo >> (32 * k)) & 0xffff_ffff, hi: 0, s: h[k as usize] })?;
            }
            return Ok(());
        }
        if v.s & S_FLAGS != 0 {
            v = if v.s & S_BOOL != 0 {
                self.resolve(v)
            } else if v.s & S_ABS != 0 && matches!(sc, Sc::F64 | Sc::F32) {
                self.unflag(v, n == 4)
            } else {
                self.pin(v, "store of derived bits")
            };
        }
        let ai = a as usize;
        match n {
            8 => self.mem[ai..ai + 8].copy_from_slice(&v.lo.to_le_bytes()),
            4 => self.mem[ai..ai + 4].copy_from_slice(&(v.lo as u32).to_le_bytes()),
            1 => self.mem[ai] = v.lo as u8,
            2 => self.mem[ai..ai + 2].copy_from_slice(&(v.lo as u16).to_le_bytes()),
            _ => {
                let b = v.u128().to_le_bytes();
                self.mem[ai..ai + n as usize].copy_from_slice(&b[..n as usize]);
            }
        }
        let wi = ai / 4;
        if v.s != 0 {
            if a & 3 != 0 && (n == 8 || n == 4) {
                self.clear(a, n);
                self.put_sh(a, v.s, n);
                return Ok(());
            }
            if !(n == 8 || n == 4) {
                self.pin(v, "unaligned store of symbolic data");
                self.clear(a, n);
                return Ok(());
            }
            if self.mis.is_empty() {
                self.clear_edges(a, n);
            } else {
                self.clear(a, n);
            }
            if n == 8 {
                self.sh[wi] = v.s;
                self.sh[wi + 1] = v.s | SH_CONT;
            } else {
                self.sh[wi] = v.s | SH_F32;
            }
        } else {
            match n {
                8 if a & 3 == 0 => {
                    if self.sh[wi] | self.sh[wi + 1] != 0 {
                        self.clear(a, n);
                    }
                }
                _ => self.clear(a, n),
            }
        }
        Ok(())
    }
    /// the 8-byte values straddling the ends of [a, a+n) lose their annotation (their surviving
    /// half is pinned)
    fn clear_edges(&mut self, a: u64, n: u64) {
        let w0 = (a / 4) as usize;
        let w1 = ((a + n + 3) / 4) as usize;
        let s = self.sh[w0];
        if s & SH_CONT != 0 && s != 0 {
            // head precedes
            self.sh[w0 - 1] = 0;
        }
        let e = self.sh[w1];
        if e & SH_CONT != 0 {
            self.sh[w1] = 0;
        }
    }
    fn clear(&mut self, a: u64, n: u64) {
        if n == 0 {
            return;
        }
        let w0 = (a / 4) as usize;
        let w1 = ((a + n + 3) / 4) as usize;
        if self.sh[w0..w1].iter().all(|x| *x == 0) {
            return;
        }
        if !self.mis.is_empty() {
            self.mis_drop(a, n);
        }
        self.clear_edges(a, n);
        for w in w0..w1 {
            if self.sh[w] != SH_MIS {
                self.sh[w] = 0;
            }
        }
    }
    fn memcpy(&mut self, d: u64, s: u64, n: u64) -> X<()> {
        if n == 0 || d == s {
            return Ok(());
        }
        self.chk(d, n)?;
        self.chk(s, n)?;
        self.mem
            .copy_within(s as usize..(s + n) as usize, d as usize);
        self.shcpy(d, s, n);
        Ok(())
    }
    /// moves the symbolic shadow of a copied range
    fn shcpy(&mut self, d: u64, s: u64, n: u64) {
        if n == 0 {
            return;
        }
        let s0 = (s / 4) as usize;
        let s1 = ((s + n + 3) / 4) as usize;
        let any = self.sh[s0..s1].iter().any(|x| *x != 0);
        if !any {
            self.clear(d, n);
            return;
        }
        if d & 3 == 0 && s & 3 == 0 && n & 3 == 0 && self.mis.is_empty() {
            self.clear_edges(d, n);
            self.sh.copy_within(s0..s1, (d / 4) as usize);
            // halves cut at the ends
            let d0 = (d / 4) as usize;
            let d1 = ((d + n) / 4) as usize;
            if self.sh[d0] & SH_CONT != 0 {
                self.pin_range(s, 4, "memcpy splits symbolic value");
                self.sh[d0] = 0;
            }
            let l = self.sh[d1 - 1];
            if l != 0 && l & (SH_CONT | SH_F32) == 0 {
                self.pin_range(s + n - 4, 4, "memcpy splits symbolic value");
                self.sh[d1 - 1] = 0;
            }
            return;
        }
        // whole values move to wherever they land, cut ones are pinned
        let mut items: Vec<(u64, u32, u64)> = vec![];
        let first = if self.sh[s0] & SH_CONT != 0 {
            s0 - 1
        } else {
            s0
        };
        for w in first..s1 {
            let x = self.sh[w];
            if x == 0 || x == SH_MIS || x & SH_CONT != 0 {
                continue;
            }
            let (a, l) = (w as u64 * 4, if x & SH_F32 != 0 { 4 } else { 8 });
            if a >= s && a + l <= s + n {
                items.push((a - s, x & SH_ID, l));
            } else {
                self.bad("memcpy splits symbolic value");
                self.sym.pin(x & SH_ID);
            }
        }
        let ms: Vec<(u64, (u32, u8))> = self
            .mis
            .range(s.saturating_sub(7)..s + n)
            .map(|(k, v)| (*k, *v))
            .collect();
        for (a, (id, l)) in ms {
            let l = l as u64;
            if a >= s && a + l <= s + n {
                items.push((a - s, id, l));
            } else if a + l > s {
                self.bad("memcpy splits symbolic value");
                self.sym.pin(id);
            }
        }
        self.clear(d, n);
        for (o, id, l) in items {
            self.put_sh(d + o, id, l);
        }
    }
    /// annotates [a, a+l) (already cleared) as holding the symbolic value `id`
    fn put_sh(&mut self, a: u64, id: u32, l: u64) {
        let w = (a / 4) as usize;
        if a & 3 == 0 {
            if l == 8 {
                self.sh[w] = id;
                self.sh[w + 1] = id | SH_CONT;
            } else {
                self.sh[w] = id | SH_F32;
            }
        } else {
            for x in w..=((a + l - 1) / 4) as usize {
                // a live aligned value cannot share the word: its bytes were cleared
                self.sh[x] = SH_MIS;
            }
            self.mis.insert(a, (id, l as u8));
        }
    }
    /// forgets the misaligned values overlapping [a, a+n)
    fn mis_drop(&mut self, a: u64, n: u64) {
        let ks: Vec<(u64, u64)> = self
            .mis
            .range(a.saturating_sub(7)..a + n)
            .filter(|(k, v)| **k + v.1 as u64 > a)
            .map(|(k, v)| (*k, v.1 as u64))
            .collect();
        for (k, l) in ks {
            self.mis.remove(&k);
            for w in k / 4..=(k + l - 1) / 4 {
                let (lo, hi) = (w * 4, w * 4 + 4);
                let live = self
                    .mis
                    .range(lo.saturating_sub(7)..hi)
                    .any(|(k, v)| *k + v.1 as u64 > lo);
                if !live && self.sh[w as usize] == SH_MIS {
                    self.sh[w as usize] = 0;
                }
            }
        }
    }
    fn alloc(&mut self, n: u64, al: u64) -> X<u64> {
        let al = al.max(16);
        let a = (self.heap + 16 + al - 1) / al * al;
        if n > (1 << 40) {
            // a real allocator refuses
            return Ok(0);
        }
        if a.saturating_add(n).saturating_add(64) > MEM as u64 {
            return Err(End::Mem(format!(
                "allocation of {n} bytes: {}",
                self.backtrace()
            )));
        }
        self.heap = (a + n + 15) / 16 * 16 + 16;
        self.mem[a as usize - 8..a as usize].copy_from_slice(&n.to_le_bytes());
        Ok(a)
    }

    // ---------------------------------------------------------------- operands
    #[inline]
    fn o(&self, base: usize, o: &Opd, k: usize) -> Val {
        match o {
            Opd::Reg(r) => self.regs[base + *r as usize + k],
            Opd::C(v) => *v,
            Opd::Agg(b) => b[k],
        }
    }
    fn push(&mut self, fi: u32, args: &[Val], dst: usize, dn: u32, cont: u32) -> X<()> {
        let f: &'m Func = self.m.body(fi).map_err(End::Engine)?;
        if self.frames.len() >= self.lim.depth {
            return Err(End::StackOverflow(self.backtrace()));
        }
        let base = self.regs.len();
        self.regs.resize(base + f.nslots as usize, Val::default());
        let n = f.nparams as usize;
        if args.len() < n {
            return Err(End::Engine(format!(
                "argument count calling {}",
                self.m.funcs[fi as usize].name
            )));
        }
        self.regs[base..base + n].copy_from_slice(&args[..n]);
        let cv = &mut self.cov[fi as usize];
        if cv.is_empty() {
            cv.resize(f.blocks.len().max(1), false);
        }
        cv[0] = true;
        self.frames.push(Frame {
            f,
            fi,
            b: 0,
            ip: 0,
            base,
            sp: self.sp,
            dst,
            dn,
            cont,
        });
        Ok(())
    }
    fn goto(&mut self, nb: u32) {
        let fr = self.frames.last_mut().unwrap();
        let prev = fr.b;
        fr.b = nb;
        fr.ip = 0;
        let (f, base, fi) = (fr.f, fr.base, fr.fi);
        self.cov[fi as usize][nb as usize] = true;
        let blk = &f.blocks[nb as usize];
        if blk.phis.is_empty() {
            return;
        }
        let mut tmp = std::mem::take(&mut self.tmp);
        tmp.clear();
        for p in &blk.phis {
            let o = &p.inc.iter().find(|x| x.0 == prev).expect("phi pred").1;
            for k in 0..p.n as usize {
                tmp.push(self.o(base, o, k));
            }
        }
        let mut i = 0;
        for p in &blk.phis {
            for k in 0..p.n as usize {
                self.regs[base + p.dst as usize + k] = tmp[i];
                i += 1;
            }
        }
        self.tmp = tmp;
    }
    pub fn run(&mut self, entry: u32) -> End {
        match self.run_(entry) {
            Ok(()) => End::Ok,
            Err(e) => e,
        }
    }
    fn run_(&mut self, entry: u32) -> X<()> {
        self.push(entry, &[], 0, 0, u32::MAX)?;
        let mut argv: Vec<Val> = Vec::with_capacity(64);
        loop {
            let fr = self.frames.last_mut().unwrap();
            let f = fr.f;
            let base = fr.base;
            let ins: &'m Ins = &f.blocks[fr.b as usize].ins[fr.ip as usize];
            fr.ip += 1;
            self.steps += 1;
            if self.steps > self.lim.steps {
                return Err(End::Steps(self.backtrace()));
            }
            let d = base.wrapping_add(ins.dst as usize);
            match &ins.op {
                Op::Bin(b, w) => {
                    for k in 0..ins.n as usize {
                        let x = self.o(base, &ins.args[0], k);
                        let y = self.o(base, &ins.args[1], k);
                        self.regs[d + k] = self.bin(*b, *w, x, y)?;
                    }
                }
                Op::FBin(b, is32) => {
                    for k in 0..ins.n as usize {
                        let x = self.o(base, &ins.args[0], k);
                        let y = self.o(base, &ins.args[1], k);
                        self.regs[d + k] = self.fbin(*b, *is32, x, y);
                    }
                }
                Op::FNeg(is32) => {
                    for k in 0..ins.n as usize {
                        let x = self.o(base, &ins.args[0], k);
                        let c = x.lo ^ if *is32 { 1 << 31 } else { 1 << 63 };
                        let mut r = Val::i(c);
                        if x.s != 0 {
                            if let Opr::N(i) = self.sym.neg(x.s) {
                                r.s = i;
                            }
                        }
                        self.regs[d + k] = r;
                    }
                }
                Op::ICmp(p, w) => {
                    for k in 0..ins.n as usize {
                        let x = self.o(base, &ins.args[0], k);
                        let y = self.o(base, &ins.args[1], k);
                        self.regs[d + k] = self.icmp(*p, *w, x, y);
                    }
                }
                Op::FCmp(p, is32) => {
                    for k in 0..ins.n as usize {
                        let x = self.o(base, &ins.args[0], k);
                        let y = self.o(base, &ins.args[1], k);
                        self.regs[d + k] = self.fcmp(*p, *is32, x, y);
                    }
                }
                Op::Cast(c, s, t) => {
                    for k in 0..ins.n as usize {
                        let x = self.o(base, &ins.args[0], k);
                        self.regs[d + k] = self.cast(*c, *s, *t, x);
                    }
                }
                Op::VBitcast(fs, ts) => {
                    let v: Vec<Val> = (0..fs.len())
                        .map(|k| self.o(base, &ins.args[0], k))
                        .collect();
                    if fs.len() == ts.len()
                        && fs.iter().zip(ts.iter()).all(|(a, b)| a.bits() == b.bits())
                    {
                        for (k, x) in v.into_iter().enumerate() {
                            self.regs[d + k] = x;
                        }
                    } else if fs.len() == 2 && ts.len() == 1 && fs[0].bits() == 32 && ts[0] != Sc::F64 && v.iter().all(|x| x.s & S_FLAGS == 0) {
                        self.regs[d] = self.pack(v[0].lo & 0xffff_ffff | v[1].lo << 32, [v[0].s, v[1].s]);
                    } else if fs.len() == 1 && ts.len() == 2 && ts[0].bits() == 32 && v[0].s & S_PACK != 0 {
                        let h = self.packs[(v[0].s & !S_FLAGS) as usize];
                        for k in 0..2 {
                            self.regs[d + k] = Val { lo: (v[0].lo >> (32 * k)) & 0xffff_ffff, hi: 0, s: h[k] };
                        }
                    } else {
                        let mut bits: Vec<bool> = vec![];
                        for (s, x) in fs.iter().zip(v) {
                            let x = self.pin(x, "vector bitcast");
                            let u = x.u128();
                            for i in 0..s.bits() {
                                bits.push(u >> i & 1 == 1);
                            }
                        }
                        let mut p = 0;
                        for (k, t) in ts.iter().enumerate() {
                            let mut u = 0u128;
                            for i in 0..t.bits() {
                                u |= (bits[p] as u128) << i;
                                p += 1;
                            }
                            self.regs[d + k] = Val::w(u);
                        }
                    }
                }
                Op::Load(lv) => {
                    let p = self.o(base, &ins.args[0], 0).lo;
                    for (k, (off, sc)) in lv.iter().enumerate() {
                        self.regs[d + k] = self.load(p.wrapping_add(*off), *sc)?;
                    }
                }
                Op::Store(lv) => {
                    let p = self.o(base, &ins.args[1], 0).lo;
                    for (k, (off, sc)) in lv.iter().enumerate() {
                        let v = self.o(base, &ins.args[0], k);
                        self.store(p.wrapping_add(*off), *sc, v)?;
                    }
                }
                Op::LoadBits(w) => {
                    let p = self.o(base, &ins.args[0], 0).lo;
                    for k in 0..ins.n as u64 {
                        let mut u = 0u64;
                        for i in 0..*w as u64 {
                            let bit = k * *w as u64 + i;
                            let b = self.load(p.wrapping_add(bit / 8), Sc::I(8))?;
                            let b = self.pin(b, "packed vector");
                            u |= (b.lo >> (bit % 8) & 1) << i;
                        }
                        self.regs[d + k as usize] = Val::w(u as u128);
                    }
                }
                Op::StoreBits(w, n) => {
                    let p = self.o(base, &ins.args[1], 0).lo;
                    let mut bytes = vec![0u8; (*w as usize * *n as usize).div_ceil(8)];
                    for k in 0..*n as usize {
                        let v = self.o(base, &ins.args[0], k);
                        let v = self.pin(v, "packed vector");
                        for i in 0..*w as usize {
                            let bit = k * *w as usize + i;
                            bytes[bit / 8] |= ((v.lo >> i & 1) as u8) << (bit % 8);
                        }
                    }
                    for (k, b) in bytes.into_iter().enumerate() {
                        self.store(p.wrapping_add(k as u64), Sc::I(8), Val::w(b as u128))?;
                    }
                }
                Op::Gep(off, sc) => {
                    let mut a = self.o(base, &ins.args[0], 0).lo.wrapping_add(*off as u64);
                    for (i, (s, w)) in sc.iter().enumerate() {
                        let v = self.o(base, &ins.args[i + 1], 0);
                        let v = self.pin(v, "symbolic address");
                        a = a.wrapping_add((sext64(v.lo, *w) as u64).wrapping_mul(*s));
                    }
                    self.regs[d] = Val::i(a);
                }
                Op::Alloca(n, al) => {
                    let a = (self.sp + al - 1) / al * al;
                    self.sp = a + n;
                    if self.sp > self.m.gend + STACK - 64 {
                        return Err(End::StackOverflow(self.backtrace()));
                    }
                    if self.sp > self.stack_hi {
                        self.stack_hi = self.sp;
                    }
                    let (w0, w1) = ((a / 4) as usize, ((a + n + 3) / 4) as usize);
                    if !self.mis.is_empty() {
                        self.mis_drop(a, *n);
                    }
                    self.sh[w0..w1].fill(0);
                    self.regs[d] = Val::i(a);
                }
                Op::Select(lanes) => {
                    if *lanes == 1 {
                        let c = self.o(base, &ins.args[0], 0);
                        // select of booleans as and/or
                        if ins.n == 1 && c.s & S_BOOL != 0 {
                            let a = self.o(base, &ins.args[1], 0);
                            let b = self.o(base, &ins.args[2], 0);
                            if a.s == 0 && b.s == 0 && a == b {
                                self.regs[d] = a;
                                continue;
                            }
                        }
                        let c = self.resolve(c);
                        let o = &ins.args[if c.lo & 1 == 1 { 1 } else { 2 }];
                        for k in 0..ins.n as usize {
                            self.regs[d + k] = self.o(base, o, k);
                        }
                    } else {
                        for k in 0..ins.n as usize {
                            let c = self.o(base, &ins.args[0], k);
                            let c = self.resolve(c);
                            let o = &ins.args[if c.lo & 1 == 1 { 1 } else { 2 }];
                            self.regs[d + k] = self.o(base, o, k);
                        }
                    }
                }
                Op::Extract(off) => {
                    for k in 0..ins.n as usize {
                        self.regs[d + k] = self.o(base, &ins.args[0], *off as usize + k);
                    }
                }
                Op::Insert(x) => {
                    let (off, nv) = ((*x >> 8) as usize, (*x & 255) as usize);
                    let v: Vec<Val> = (0..nv).map(|k| self.o(base, &ins.args[1], k)).collect();
                    for k in 0..ins.n as usize {
                        let t = self.o(base, &ins.args[0], k);
                        self.regs[d + k] = t;
                    }
                    for (k, x) in v.into_iter().enumerate() {
                        self.regs[d + off + k] = x;
                    }
                }
                Op::ExtractElt => {
                    let i = self.o(base, &ins.args[1], 0).lo as usize;
                    self.regs[d] = self.o(base, &ins.args[0], i);
                }
                Op::InsertElt => {
                    let i = self.o(base, &ins.args[2], 0).lo as usize;
                    let v = self.o(base, &ins.args[1], 0);
                    for k in 0..ins.n as usize {
                        let t = self.o(base, &ins.args[0], k);
                        self.regs[d + k] = t;
                    }
                    self.regs[d + i] = v;
                }
                Op::Shuffle(mk, n) => {
                    let v: Vec<Val> = mk
                        .iter()
                        .map(|&i| {
                            if i < 0 {
                                Val::i(0)
                            } else if (i as u32) < *n {
                                self.o(base, &ins.args[0], i as usize)
                            } else {
                                self.o(base, &ins.args[1], i as usize - *n as usize)
                            }
                        })
                        .collect();
                    self.regs[d..d + v.len()].copy_from_slice(&v);
                }
                Op::CmpXchg(sc) => {
                    let p = self.o(base, &ins.args[0], 0).lo;
                    let c = self.o(base, &ins.args[1], 0);
                    let n = self.o(base, &ins.args[2], 0);
                    let old = self.load(p, *sc)?;
                    let ok = old.u128() == c.u128();
                    if ok {
                        self.store(p, *sc, n)?;
                    }
                    self.regs[d] = old;
                    self.regs[d + 1] = Val::i(ok as u64);
                }
                Op::Rmw(k, sc) => {
                    let p = self.o(base, &ins.args[0], 0).lo;
                    let v = self.o(base, &ins.args[1], 0);
                    let old = self.load(p, *sc)?;
                    let (a, b) = (old.u128(), v.u128());
                    let r = match k {
                        0 => b,
                        1 => a.wrapping_add(b),
                        2 => a.wrapping_sub(b),
                        3 => a & b,
                        4 => a | b,
                        _ => a ^ b,
                    };
                    self.store(p, *sc, Val::w(mask(r, sc.bits())))?;
                    self.regs[d] = old;
                }
                Op::Nop => {}
                Op::Freeze => {
                    for k in 0..ins.n as usize {
                        let v = self.o(base, &ins.args[0], k);
                        self.regs[d + k] = v;
                    }
                }
                Op::Br(b) => self.goto(*b),
                Op::CondBr(a, b) => {
                    let c = self.o(base, &ins.args[0], 0);
                    let c = self.resolve(c);
                    self.goto(if c.lo & 1 == 1 { *a } else { *b });
                }
                Op::Switch(df, cs) => {
                    let v = self.o(base, &ins.args[0], 0);
                    let v = self.pin(v, "switch on symbolic bits");
                    let t = cs.iter().find(|x| x.0 == v.lo).map(|x| x.1).unwrap_or(*df);
                    self.goto(t);
                }
                Op::Ret => {
                    let fr = self.frames.pop().unwrap();
                    self.sp = fr.sp;
                    if fr.dn > 0 {
                        for k in 0..fr.dn as usize {
                            let v = self.o(base, &ins.args[0], k);
                            self.regs[fr.dst + k] = v;
                        }
                    }
                    self.regs.truncate(fr.base);
                    if self.frames.is_empty() {
                        return Ok(());
                    }
                    if fr.cont != u32::MAX {
                        self.goto(fr.cont);
                    }
                }
                Op::Unreachable => {
                    return Err(End::Panic(format!(
                        "reached unreachable: {}",
                        self.backtrace()
                    )));
                }
                Op::Call(c, ns) | Op::Invoke(c, ns, _) => {
                    let cont = if let Op::Invoke(_, _, b) = &ins.op {
                        *b
                    } else {
                        u32::MAX
                    };
                    match c {
                        Callee::Intrinsic(i, w) => {
                            self.intrinsic(*i, *w, ins, base, d)?;
                            if cont != u32::MAX {
                                self.goto(cont);
                            }
                        }
                        Callee::Asm(t) => {
                            // cpuid, barriers, identities
                            for k in 0..ins.n as usize {
                                let v = if t.contains("cpuid") || ins.args.is_empty() {
                                    Val::i(0)
                                } else {
                                    self.o(base, &ins.args[0], k)
                                };
                                self.regs[d + k] = v;
                            }
                            if cont != u32::MAX {
                                self.goto(cont);
                            }
                        }
                        Callee::Direct(_) | Callee::Ind(_) => {
                            let fi = match c {
                                Callee::Direct(i) => *i,
                                Callee::Ind(o) => {
                                    let a = self.o(base, o, 0).lo;
                                    if a < FBASE || (a - FBASE) / 16 >= self.m.funcs.len() as u64 {
                                        return Err(End::Segv(format!(
                                            "call through bad pointer {a:#x}: {}",
                                            self.backtrace()
                                        )));
                                    }
                                    ((a - FBASE) / 16) as u32
                                }
                                _ => unreachable!(),
                            };
                            argv.clear();
                            for (a, n) in ins.args.iter().zip(ns.iter()) {
                                for k in 0..*n as usize {
                                    argv.push(self.o(base, a, k));
                                }
                            }
                            let h = self.m.funcs[fi as usize].hook;
                            let handled = if h != 0 {
                                self.hooked(h, fi, &argv, d, ins.n)?
                            } else {
                                false
                            };
                            if handled {
                                if cont != u32::MAX {
                                    self.goto(cont);
                                }
                            } else {
                                self.push(fi, &argv, d, ins.n, cont)?;
                            }
                        }
                    }
                }
            }
        }
    }
    // ---------------------------------------------------------------- scalar semantics
    fn bin(&mut self, b: Bin, w: u32, mut x: Val, mut y: Val) -> X<Val> {
        if (x.s | y.s) != 0 {
            // booleans
            if w == 1 && ((x.s & S_BOOL) != 0 || (y.s & S_BOOL) != 0) {
                match b {
                    Bin::Xor => {
                        for (p, q) in [(x, y), (y, x)] {
                            if p.s & S_BOOL != 0 && q.s == 0 {
                                if q.lo & 1 == 0 {
                                    return Ok(p);
                                }
                                let pb = self.pend[(p.s & !S_BOOL) as usize];
                                self.pend.push(PB {
                                    mask: 7 & !pb.mask,
                                    ..pb
                                });
                                return Ok(Val {
                                    lo: (p.lo ^ 1) & 1,
                                    hi: 0,
                                    s: S_BOOL | (self.pend.len() as u32 - 1),
                                });
                            }
                        }
                    }
                    Bin::And | Bin::Or => {
                        let absorb = if b == Bin::And { 0 } else { 1 };
                        for (p, q) in [(x, y), (y, x)] {
                            if p.s == 0 {
                                return Ok(if p.lo & 1 == absorb {
                                    Val::i(absorb)
                                } else {
                                    q
                                });
                            }
                        }
                        // both pending: the first one is decided first, whatever the second is,
                        // so that inputs with the same decisions make the same ones next
                        self.resolve(x);
                        if x.lo & 1 == absorb {
                            return Ok(Val::i(absorb));
                        }
                        return Ok(y);
                    }
                    _ => {}
                }
            }
            x = self.resolve(x);
            y = self.resolve(y);
            if w == 64 && (x.s | y.s) & S_PACK != 0 {
                if let Some(v) = self.pack_bin(b, x, y) {
                    return Ok(v);
                }
            }
            if (x.s | y.s) != 0 {
                let sgn = 1u64 << (w - 1);
                let ones = if w == 64 { u64::MAX } else { (1 << w) - 1 };
                let expm = if w == 64 {
                    0x7ff0_0000_0000_0000
                } else {
                    0x7f80_0000
                };
                for (p, q) in [(x, y), (y, x)] {
                    if p.s != 0 && p.s & S_FLAGS == 0 && q.s == 0 {
                        match b {
                            Bin::And if q.lo == ones & !sgn => {
                                return Ok(Val {
                                    lo: p.lo & q.lo,
                                    hi: 0,
                                    s: p.s | S_ABS,
                                });
                            }
                            Bin::And if q.lo == expm => {
                                return Ok(Val {
                                    lo: p.lo & q.lo,
                                    hi: 0,
                                    s: p.s | S_EXP,
                                });
                            }
                            Bin::Xor if q.lo == ones & !sgn && self.sign(p) => {
                                return Ok(Val {
                                    lo: p.lo ^ q.lo,
                                    hi: 0,
                                    s: p.s | S_TOT,
                                });
                            }
                            Bin::And if q.lo == sgn => {
                                self.sign(p);
                                return Ok(Val::i(p.lo & q.lo));
                            }
                            Bin::Xor if q.lo == sgn => {
                                let r = self.sym.neg(p.s);
                                if let Opr::N(i) = r {
                                    return Ok(Val {
                                        lo: p.lo ^ sgn,
                                        hi: 0,
                                        s: i,
                                    });
                                }
                            }
                            Bin::Or if q.lo == sgn => {
                                // -|p|
                                let neg = self.sign(p);
                                if neg {
                                    return Ok(p);
                                }
                                if let Opr::N(i) = self.sym.neg(p.s) {
                                    return Ok(Val {
                                        lo: p.lo | sgn,
                                        hi: 0,
                                        s: i,
                                    });
                                }
                            }
                            Bin::Or | Bin::Xor | Bin::Add if q.lo == 0 => return Ok(p),
                            _ => {}
                        }
                    }
                }
                if x.s != 0
                    && x.s & S_FLAGS == 0
                    && y.s == 0
                    && y.lo == w as u64 - 1
                    && matches!(b, Bin::LShr | Bin::AShr)
                {
                    self.sign(x);
                    x.s = 0;
                }
                if std::env::var_os("VELSYM_BITS").is_some() {
                    eprintln!("bits: {b:?} {w} {x:x?} {y:x?}");
                }
                x = self.pin(x, "integer arithmetic on float bits");
                y = self.pin(y, "integer arithmetic on float bits");
            }
        }
        if w <= 64 {
            let (a, c) = (x.lo, y.lo);
            let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
            let r = match b {
                Bin::Add => a.wrapping_add(c),
                Bin::Sub => a.wrapping_sub(c),
                Bin::Mul => a.wrapping_mul(c),
                Bin::And => a & c,
                Bin::Or => a | c,
                Bin::Xor => a ^ c,
                Bin::Shl => {
                    if c >= w as u64 {
                        0
                    } else {
                        a << c
                    }
                }
                Bin::LShr => {
                    if c >= w as u64 {
                        0
                    } else {
                        a >> c
                    }
                }
                Bin::AShr => (sext64(a, w) >> c.min(63)) as u64,
                Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem if c == 0 => {
                    return Err(End::Panic("division by zero".into()));
                }
                Bin::UDiv => a / c,
                Bin::URem => a % c,
                Bin::SDiv => sext64(a, w).wrapping_div(sext64(c, w)) as u64,
                Bin::SRem => sext64(a, w).wrapping_rem(sext64(c, w)) as u64,
            };
            return Ok(Val::i(r & m));
        }
        let (a, c) = (x.u128(), y.u128());
        let sx = |v: u128| -> i128 {
            if w >= 128 {
                v as i128
            } else {
                ((v << (128 - w)) as i128) >> (128 - w)
            }
        };
        let r = match b {
            Bin::Add => a.wrapping_add(c),
            Bin::Sub => a.wrapping_sub(c),
            Bin::Mul => a.wrapping_mul(c),
            Bin::And => a & c,
            Bin::Or => a | c,
            Bin::Xor => a ^ c,
            Bin::Shl => {
                if c >= w as u128 {
                    0
                } else {
                    a << c
                }
            }
            Bin::LShr => {
                if c >= w as u128 {
                    0
                } else {
                    a >> c
                }
            }
            Bin::AShr => (sx(a) >> c.min(127)) as u128,
            _ if c == 0 => return Err(End::Panic("division by zero".into())),
            Bin::UDiv => a / c,
            Bin::URem => a % c,
            Bin::SDiv => sx(a).wrapping_div(sx(c)) as u128,
            Bin::SRem => sx(a).wrapping_rem(sx(c)) as u128,
        };
        Ok(Val::w(mask(r, w)))
    }
    /// is the sign bit set (decides x < 0)
    fn sign(&mut self, p: Val) -> bool {
        self.set_loc();
        let neg = self.sym.nodes[p.s as usize].c < 0.0;
        self.sym.decide(Opr::N(p.s), Opr::C(0), LT, neg);
        neg
    }
    /// The numbers whose order is that of `x` and `y` as signed integers, where these are what
    /// total_cmp makes of floats: non-negative ones as they are, negative ones flipped.
    fn total(&mut self, x: Val, y: Val, w: u32) -> Option<(Opr, Opr, std::cmp::Ordering)> {
        let sgn = 1u64 << (w - 1);
        let mut r = vec![];
        for v in [x, y] {
            if v.s & (S_FLAGS & !S_TOT) != 0 {
                return None;
            }
            let neg = v.lo & sgn != 0;
            let bits = if neg { v.lo ^ (sgn - 1) } else { v.lo };
            let f = if w == 32 { f32::from_bits(bits as u32) as f64 } else { f64::from_bits(bits) };
            if !f.is_finite() || f == 0.0 && bits != 0 {
                return None;
            }
            if v.s == 0 {
                r.push((Opr::C(f.to_bits()), f));
                continue;
            }
            if v.s & S_TOT == 0 && self.sign(v) {
                return None;
            }
            r.push((Opr::N(v.s & !S_FLAGS), f));
        }
        Some((r[0].0, r[1].0, r[0].1.partial_cmp(&r[1].1)?))
    }
    fn icmp(&mut self, p: IP, w: u32, mut x: Val, mut y: Val) -> Val {
        if (x.s | y.s) != 0 {
            x = self.resolve(x);
            y = self.resolve(y);
        }
        if (x.s | y.s) != 0 {
            let (x0, y0) = (x, y);
            let fb = |c: u64| {
                if w == 32 {
                    f32::from_bits(c as u32) as f64
                } else {
                    f64::from_bits(c)
                }
            };
            let truth = icmp_c(p, w, &x, &y);
            let inf = if w == 32 {
                0x7f80_0000
            } else {
                0x7ff0_0000_0000_0000
            };
            let sgn = 1u64 << (w - 1);
            if w == 64 && (x.s | y.s) & S_PACK != 0 && matches!(p, IP::Eq | IP::Ne) {
                if let (Some(g), Some(h)) = (self.halves(&x), self.halves(&y)) {
                    let c = |v: u64, k: usize| f32::from_bits((v >> (32 * k)) as u32) as f64;
                    if (0..2).all(|k| g[k] | h[k] == 0 || c(x.lo, k).is_finite() && c(y.lo, k).is_finite()) {
                        let mut same = true;
                        for k in 0..2 {
                            let (u, v) = (c(x.lo, k), c(y.lo, k));
                            let o = |s: u32, c: f64| if s != 0 { Opr::N(s) } else { Opr::C(c.to_bits()) };
                            let m = if g[k] | h[k] == 0 { (x.lo >> (32 * k)) as u32 == (y.lo >> (32 * k)) as u32 } else { u == v };
                            if g[k] | h[k] != 0 {
                                self.set_loc();
                                self.sym.decide(o(g[k], u), o(h[k], v), EQ, m);
                            }
                            if !m {
                                same = false;
                                break;
                            }
                        }
                        return Val::i((same == (p == IP::Eq)) as u64);
                    }
                }
            }
            // both plain
            if x.s & S_FLAGS == 0 && y.s & S_FLAGS == 0 {
                if x.s != 0 && y.s != 0 && matches!(p, IP::Eq | IP::Ne) {
                    self.pend.push(PB {
                        a: Opr::N(x.s),
                        b: Opr::N(y.s),
                        mask: if p == IP::Eq { EQ } else { LT | GT },
                    });
                    return Val {
                        lo: truth as u64,
                        hi: 0,
                        s: S_BOOL | (self.pend.len() as u32 - 1),
                    };
                }
                if x.s != 0 && y.s == 0 {
                    match p {
                        IP::Eq | IP::Ne => {
                            let c = fb(y.lo);
                            if c.is_finite() {
                                self.pend.push(PB {
                                    a: Opr::N(x.s),
                                    b: Opr::C(c.to_bits()),
                                    mask: if p == IP::Eq { EQ } else { LT | GT },
                                });
                                return Val {
                                    lo: truth as u64,
                                    hi: 0,
                                    s: S_BOOL | (self.pend.len() as u32 - 1),
                                };
                            }
                            return Val::i(truth as u64);
                        }
                        IP::Slt if y.lo == 0 => {
                            self.sign(x);
                            return Val::i(truth as u64);
                        }
                        IP::Sgt if y.lo == (sgn | (sgn - 1)) => {
                            self.sign(x);
                            return Val::i(truth as u64);
                        }
                        _ => {}
                    }
                }
            }
            if let Some((a, b, o)) = self.total(x, y, w) {
                use std::cmp::Ordering::*;
                let mk = match p {
                    IP::Eq => Some(EQ),
                    IP::Ne => Some(LT | GT),
                    IP::Slt => Some(LT),
                    IP::Sle => Some(LT | EQ),
                    IP::Sgt => Some(GT),
                    IP::Sge => Some(GT | EQ),
                    _ => None,
                };
                if let Some(mk) = mk {
                    let now = match o { Less => LT, Equal => EQ, Greater => GT };
                    let t = now & mk != 0;
                    debug_assert_eq!(t, truth);
                    self.set_loc();
                    self.sym.decide(a, b, mk, t);
                    return Val::i(t as u64);
                }
            }
            for (q, c, p) in [(x, y, p), (y, x, swap(p))] {
                if q.s & S_ABS != 0 && c.s == 0 {
                    if c.lo >= inf {
                        // finite value against inf/nan bits
                        return Val::i(truth as u64);
                    }
                    let id = q.s & !S_FLAGS;
                    self.set_loc();
                    let r = self.sym.abs(id);
                    let mk = match p {
                        IP::Eq => EQ,
                        IP::Ne => LT | GT,
                        IP::Ult | IP::Slt => LT,
                        IP::Ule | IP::Sle => LT | EQ,
                        IP::Ugt | IP::Sgt => GT,
                        IP::Uge | IP::Sge => GT | EQ,
                    };
                    self.sym.decide(r, Opr::C(fb(c.lo).to_bits()), mk, truth);
                    return Val::i(truth as u64);
                }
                if q.s & S_EXP != 0 && c.s == 0 && c.lo == inf {
                    return Val::i(truth as u64);
                }
            }
            x = self.pin(x0, "integer comparison of float bits");
            y = self.pin(y0, "integer comparison of float bits");
        }
        Val::i(icmp_c(p, w, &x, &y) as u64)
    }
    fn opr(&self, v: Val, is32: bool) -> Opr {
        if v.s != 0 {
            Opr::N(v.s)
        } else if is32 {
            Opr::C((v.f32() as f64).to_bits())
        } else {
            Opr::C(v.lo)
        }
    }
    fn wrap(&self, r: Opr, bits: u64) -> Val {
        Val {
            lo: bits,
            hi: 0,
            s: if let Opr::N(i) = r { i } else { 0 },
        }
    }
    fn unflag(&mut self, v: Val, is32: bool) -> Val {
        if v.s & S_FLAGS == 0 {
            return v;
        }
        if v.s & S_ABS != 0 {
            self.set_loc();
            let r = self.sym.abs(v.s & !S_FLAGS);
            let _ = is32;
            return self.wrap(r, v.lo);
        }
        self.pin(v, "float use of derived bits")
    }
    fn fcmp(&mut self, p: FP, is32: bool, x: Val, y: Val) -> Val {
        // a magnitude against a constant it can never reach
        for (q, c) in [(x, y), (y, x)] {
            if q.s & S_ABS != 0 && q.s & (S_FLAGS & !S_ABS) == 0 && c.s == 0 {
                let k = if is32 { c.f32() as f64 } else { c.f64() };
                let n = &self.sym.nodes[(q.s & !S_FLAGS) as usize];
                let top = n.lo.abs().max(n.hi.abs()) * (1.0 + 1e-15) + n.eps;
                if k < 0.0 || k > top {
                    let (x, y) = (Val { s: 0, ..x }, Val { s: 0, ..y });
                    return self.fcmp(p, is32, x, y);
                }
            }
        }
        let (x, y) = (self.unflag(x, is32), self.unflag(y, is32));
        let (a, b) = if is32 {
            (x.f32() as f64, y.f32() as f64)
        } else {
            (x.f64(), y.f64())
        };
        let un = a.is_nan() || b.is_nan();
        let t = match p {
            FP::False => false,
            FP::True => true,
            FP::Ord => !un,
            FP::Uno => un,
            FP::Oeq => a == b,
            FP::Ogt => a > b,
            FP::Oge => a >= b,
            FP::Olt => a < b,
            FP::Ole => a <= b,
            FP::One => a < b || a > b,
            FP::Ueq => un || a == b,
            FP::Ugt => un || a > b,
            FP::Uge => un || a >= b,
            FP::Ult => un || a < b,
            FP::Ule => un || a <= b,
            FP::Une => un || a != b,
        };
        for v in [x, y] {
            if v.s != 0 && v.s & S_PACK == 0 && self.sym.is_wild(Opr::N(v.s & !S_FLAGS)) {
                self.bad("decision on a value that may be infinite");
                return Val::i(t as u64);
            }
        }
        if (x.s | y.s) == 0
            || un
            || a.is_infinite()
            || b.is_infinite()
            || matches!(p, FP::False | FP::True | FP::Ord | FP::Uno)
        {
            return Val::i(t as u64);
        }
        let m = match p {
            FP::Oeq | FP::Ueq => EQ,
            FP::Ogt | FP::Ugt => GT,
            FP::Oge | FP::Uge => GT | EQ,
            FP::Olt | FP::Ult => LT,
            FP::Ole | FP::Ule => LT | EQ,
            _ => LT | GT,
        };
        if x.s == y.s {
            return Val::i(t as u64);
        }
        self.pend.push(PB {
            a: self.opr(x, is32),
            b: self.opr(y, is32),
            mask: m,
        });
        Val {
            lo: t as u64,
            hi: 0,
            s: S_BOOL | (self.pend.len() as u32 - 1),
        }
    }
    fn fbin(&mut self, b: FBin, is32: bool, x: Val, y: Val) -> Val {
        let bits = if is32 {
            let (a, c) = (x.f32(), y.f32());
            (match b {
                FBin::Add => a + c,
                FBin::Sub => a - c,
                FBin::Mul => a * c,
                FBin::Div => a / c,
                FBin::Rem => a % c,
            })
            .to_bits() as u64
        } else {
            let (a, c) = (x.f64(), y.f64());
            (match b {
                FBin::Add => a + c,
                FBin::Sub => a - c,
                FBin::Mul => a * c,
                FBin::Div => a / c,
                FBin::Rem => a % c,
            })
            .to_bits()
        };
        if (x.s | y.s) == 0 {
            return Val::i(bits);
        }
        let (x, y) = (self.unflag(x, is32), self.unflag(y, is32));
        if (x.s | y.s) == 0 {
            return Val::i(bits);
        }
        let c = if is32 {
            f32::from_bits(bits as u32) as f64
        } else {
            f64::from_bits(bits)
        };
        let (a, d) = (self.opr(x, is32), self.opr(y, is32));
        self.set_loc();
        let prec = if is32 { 24 } else { 53 };
        let k = match b {
            FBin::Add => K::Add,
            FBin::Sub => K::Sub,
            FBin::Mul => K::Mul,
            FBin::Div => K::Div,
            FBin::Rem => {
                // x - trunc(x/y)*y, exact in IEEE arithmetic
                if y.s != 0 {
                    let v = self.pin(y, "remainder by a symbolic value");
                    let _ = v;
                }
                let yc = if is32 { y.f32() as f64 } else { y.f64() };
                let xc = if is32 { x.f32() as f64 } else { x.f64() };
                if !yc.is_finite() || yc == 0.0 {
                    return if yc == 0.0 { Val::i(bits) } else { x };
                }
                let q = self.sym.bin(K::Div, a, Opr::C(yc.to_bits()), prec, xc / yc);
                let t = self.trunc_of(q, ((xc - c) / yc).round());
                let prod = Opr::C((t * yc).to_bits());
                let r = self.sym.bin(K::Sub, a, prod, prec, c);
                return self.wrap(r, bits);
            }
        };
        let r = self.sym.bin(k, a, d, prec, c);
        if let Opr::C(_) = r {
            return Val::i(bits);
        }
        self.wrap(r, bits)
    }
    /// decide the integer part (towards zero) of a symbolic value; `t` is its concrete result
    fn trunc_of(&mut self, q: Opr, t: f64) -> f64 {
        let Opr::N(_) = q else { return t };
        self.set_loc();
        if t > 0.0 {
            self.sym.piece(q, t, (t, true), (t + 1.0, false));
        } else if t < 0.0 {
            self.sym.piece(q, t, (t - 1.0, false), (t, true));
        } else {
            self.sym.piece(q, t, (-1.0, false), (1.0, false));
        }
        t
    }
    fn cast(&mut self, c: Cast, s: Sc, t: Sc, x: Val) -> Val {
        match c {
            Cast::Bitcast => {
                if x.s & S_ABS != 0 && matches!(t, Sc::F64 | Sc::F32) {
                    return self.unflag(x, t == Sc::F32);
                }
                x
            }
            Cast::PtrInt => x,
            Cast::ZExt => {
                let x = self.resolve(x);
                if x.s != 0 && x.s & S_FLAGS == 0 && s.bits() == 32 && t.bits() == 64 {
                    return self.pack(x.lo, [x.s, 0]);
                }
                if x.s != 0 {
                    return self.pin(x, "zext of float bits");
                }
                x
            }
            Cast::SExt => {
                let x = self.resolve(x);
                let x = self.pin(x, "sext of float bits");
                let w = s.bits();
                let v = if w >= 128 {
                    x.u128() as i128
                } else {
                    ((x.u128() << (128 - w)) as i128) >> (128 - w)
                };
                Val::w(mask(v as u128, t.bits()))
            }
            Cast::Trunc => {
                let x = self.resolve(x);
                if x.s & S_PACK != 0 && t.bits() == 32 {
                    return Val { lo: x.lo & 0xffff_ffff, hi: 0, s: self.packs[(x.s & !S_FLAGS) as usize][0] };
                }
                let x = self.pin(x, "trunc of float bits");
                Val::w(mask(x.u128(), t.bits()))
            }
            Cast::FpTrunc => {
                let r = x.f64() as f32;
                let x = self.unflag(x, false);
                if x.s != 0 {
                    let o = self.sym.round32(x.s, r as f64);
                    return self.wrap(o, r.to_bits() as u64);
                }
                Val::i(r.to_bits() as u64)
            }
            Cast::FpExt => {
                let x = self.unflag(x, true);
                Val {
                    lo: (x.f32() as f64).to_bits(),
                    hi: 0,
                    s: x.s,
                }
            }
            Cast::FpToSi | Cast::FpToUi => {
                let is32 = s == Sc::F32;
                let x = self.unflag(x, is32);
                let f = if is32 { x.f32() as f64 } else { x.f64() };
                let tr = f.trunc();
                if x.s != 0 {
                    self.trunc_of(Opr::N(x.s), tr);
                }
                let v = if c == Cast::FpToSi {
                    tr as i128 as u128
                } else {
                    tr as u128
                };
                Val::w(mask(v, t.bits()))
            }
            Cast::UiToFp | Cast::SiToFp => {
                let x = self.resolve(x);
                let x = self.pin(x, "int to float of float bits");
                let w = s.bits();
                let f = if c == Cast::UiToFp {
                    let u = x.u128();
                    if t == Sc::F32 {
                        (u as f32) as f64
                    } else {
                        u as f64
                    }
                } else {
                    let v = if w >= 128 {
                        x.u128() as i128
                    } else {
                        ((x.u128() << (128 - w)) as i128) >> (128 - w)
                    };
                    if t == Sc::F32 {
                        (v as f32) as f64
                    } else {
                        v as f64
                    }
                };
                if t == Sc::F32 {
                    Val::i((f as f32).to_bits() as u64)
                } else {
                    Val::f(f)
                }
            }
        }
    }
    fn f1(&mut self, i: In, w: u32, x: Val) -> Val {
        let is32 = w == 32;
        if matches!(i, In::Fabs) && x.s != 0 && x.s & (S_FLAGS & !S_ABS) == 0 {
            // the sign is only decided when the magnitude is used
            let lo = if is32 {
                (x.lo as u32 & 0x7fff_ffff) as u64
            } else {
                x.lo & !(1 << 63)
            };
            return Val {
                lo,
                hi: 0,
                s: x.s | S_ABS,
            };
        }
        let x = self.unflag(x, is32);
        let a = if is32 { x.f32() as f64 } else { x.f64() };
        let r = match i {
            In::Sqrt => {
                if is32 {
                    x.f32().sqrt() as f64
                } else {
                    a.sqrt()
                }
            }
            In::Fabs => a.abs(),
            In::Ceil => a.ceil(),
            In::Floor => a.floor(),
            In::Trunc => a.trunc(),
            In::Round => a.round(),
            In::Rint | In::Nearbyint | In::Roundeven => a.round_ties_even(),
            In::Sin => a.sin(),
            In::Cos => a.cos(),
            In::Tan => a.tan(),
            In::Log => a.ln(),
            In::Log2 => a.log2(),
            In::Log10 => a.log10(),
            In::Exp => a.exp(),
            In::Exp2 => a.exp2(),
            _ => unreachable!(),
        };
        let bits = if is32 {
            (r as f32).to_bits() as u64
        } else {
            r.to_bits()
        };
        if x.s == 0 {
            return Val::i(bits);
        }
        self.set_loc();
        let q = Opr::N(x.s);
        let c = |x: f64| Opr::C(x.to_bits());
        let o = match i {
            In::Sqrt => self.sym.sqrt(x.s, r),
            In::Fabs => self.sym.abs(x.s),
            In::Ceil => {
                self.sym.piece(q, r, (r - 1.0, false), (r, true));
                return Val::i(bits);
            }
            In::Floor => {
                self.sym.piece(q, r, (r, true), (r + 1.0, false));
                return Val::i(bits);
            }
            In::Trunc => {
                self.trunc_of(q, r);
                return Val::i(bits);
            }
            In::Round => {
                // half away from zero
                self.sym.piece(q, r, (r - 0.5, r > 0.0), (r + 0.5, r < 0.0));
                return Val::i(bits);
            }
            In::Rint | In::Nearbyint | In::Roundeven => {
                let even = r.rem_euclid(2.0) != 1.0;
                self.sym.piece(q, r, (r - 0.5, even), (r + 0.5, even));
                return Val::i(bits);
            }
            In::Sin => self.sym.sincos(x.s, false, r),
            In::Cos => self.sym.sincos(x.s, true, r),
            In::Tan => {
                let (lo, hi) = self.sym.bounds(q);
                let (lo, hi) = if lo > -1.57 && hi < 1.57 {
                    (lo.tan() - 1e-12, hi.tan() + 1e-12)
                } else {
                    (-1e17, 1e17)
                };
                self.sym.uf(K::Tan, "tan", q, c(0.0), lo, hi, r)
            }
            _ => self
                .sym
                .uf(K::Other(i as u16 + 100), "fn", q, c(0.0), -1e17, 1e17, r),
        };
        self.wrap(o, bits)
    }
    fn f2(&mut self, i: In, w: u32, x: Val, y: Val) -> Val {
        let is32 = w == 32;
        let (x, y) = (self.unflag(x, is32), self.unflag(y, is32));
        let (a, b) = if is32 {
            (x.f32() as f64, y.f32() as f64)
        } else {
            (x.f64(), y.f64())
        };
        match i {
            In::Copysign => {
                let sgn = if is32 { 1u64 << 31 } else { 1u64 << 63 };
                let bits = (x.lo & !sgn) | (y.lo & sgn);
                if (x.s | y.s) == 0 {
                    return Val::i(bits);
                }
                let ys = if y.s != 0 {
                    self.sign(y)
                } else {
                    y.lo & sgn != 0
                };
                if x.s == 0 {
                    return Val::i(bits);
                }
                self.set_loc();
                let m = self.sym.abs(x.s);
                let o = if ys {
                    let n = self.sym.node_of(m);
                    self.sym.neg(n)
                } else {
                    m
                };
                self.wrap(o, bits)
            }
            In::Maximumnum
            | In::Maxnum
            | In::Maximum
            | In::Minimumnum
            | In::Minnum
            | In::Minimum => {
                let mx = matches!(i, In::Maximumnum | In::Maxnum | In::Maximum);
                if a.is_nan() {
                    return y;
                }
                if b.is_nan() {
                    return x;
                }
                let pick_x = if mx {
                    a > b || (a == b && a.is_sign_positive())
                } else {
                    a < b || (a == b && a.is_sign_negative())
                };
                if (x.s | y.s) != 0 && a.is_finite() && b.is_finite() {
                    self.set_loc();
                    let (p, q) = (self.opr(x, is32), self.opr(y, is32));
                    // decide a<=b (min) / a>=b (max); ties are equal values
                    let m = if mx { GT | EQ } else { LT | EQ };
                    let t = if mx { a >= b } else { a <= b };
                    self.sym.decide(p, q, m, t);
                    if a == b {
                        // prefer the symbolic side consistently with the recorded decision
                        return x;
                    }
                }
                if pick_x { x } else { y }
            }
            In::Pow => {
                let r = if is32 {
                    x.f32().powf(y.f32()) as f64
                } else {
                    a.powf(b)
                };
                let bits = if is32 {
                    (r as f32).to_bits() as u64
                } else {
                    r.to_bits()
                };
                if (x.s | y.s) == 0 {
                    return Val::i(bits);
                }
                self.set_loc();
                let (p, q) = (self.opr(x, is32), self.opr(y, is32));
                // growing for a fixed positive exponent
                let (lo, hi) = self.sym.bounds(p);
                let (lo, hi) = if y.s == 0 && b > 0.0 && lo >= 0.0 && hi.is_finite() {
                    (lo.powf(b) * (1.0 - 1e-6), hi.powf(b) * (1.0 + 1e-6))
                } else {
                    (-1e17, 1e17)
                };
                let o = self.sym.uf(K::Pow, "pow", p, q, lo, hi, r);
                self.wrap(o, bits)
            }
            _ => unreachable!(),
        }
    }
    fn intrinsic(&mut self, i: In, w: u32, ins: &'m Ins, base: usize, d: usize) -> X<()> {
        let n = ins.n as usize;
        let a = |s: &Self, j: usize, k: usize| s.o(base, &ins.args[j], k);
        match i {
            In::Memcpy | In::Memmove => {
                let (x, y, z) = (a(self, 0, 0).lo, a(self, 1, 0).lo, a(self, 2, 0).lo);
                self.memcpy(x, y, z)?;
            }
            In::Memset => {
                let (p, v, l) = (a(self, 0, 0).lo, a(self, 1, 0), a(self, 2, 0).lo);
                if l > 0 {
                    self.chk(p, l)?;
                    self.mem[p as usize..(p + l) as usize].fill(v.lo as u8);
                    self.clear(p, l);
                }
            }
            In::Trap => return Err(End::Panic(format!("trap: {}", self.backtrace()))),
            In::X86Sse2Pause | In::Prefetch => {}
            In::X86Xgetbv => self.regs[d] = Val::i(0),
            In::ThreadlocalAddress | In::Expect | In::Ptrmask => {
                let v = a(self, 0, 0);
                self.regs[d] = if i == In::Ptrmask {
                    Val::i(v.lo & a(self, 1, 0).lo)
                } else {
                    v
                };
            }
            In::IsConstant => self.regs[d] = Val::i(0),
            In::IsFpclass => {
                let v = a(self, 0, 0);
                let m = a(self, 1, 0).lo;
                let f = if w == 32 { v.f32() as f64 } else { v.f64() };
                if v.s != 0 && v.s & S_FLAGS == 0 && f.is_finite() {
                    // not a number: no; zero or not; negative or not
                    self.set_loc();
                    if (m & 96 != 0) != (m & 264 != 0) || m & 96 != 96 && m & 96 != 0 || m & 264 != 264 && m & 264 != 0 {
                        self.sym.decide(Opr::N(v.s), Opr::C(0), EQ, f == 0.0);
                        if f != 0.0 && m & 264 != 264 && m & 264 != 0 {
                            self.sign(v);
                        }
                    }
                } else {
                    self.pin(v, "is.fpclass");
                }
                use std::num::FpCategory::*;
                let bit = match (f.classify(), f.is_sign_negative()) {
                    (Nan, _) => 3,
                    (Infinite, true) => 4,
                    (Normal, true) => 8,
                    (Subnormal, true) => 16,
                    (Zero, true) => 32,
                    (Zero, false) => 64,
                    (Subnormal, false) => 128,
                    (Normal, false) => 256,
                    (Infinite, false) => 512,
                };
                self.regs[d] = Val::i((m & bit != 0) as u64);
            }
            In::UaddWithOverflow
            | In::UsubWithOverflow
            | In::UmulWithOverflow
            | In::SaddWithOverflow
            | In::SsubWithOverflow
            | In::SmulWithOverflow => {
                let (x, y) = (a(self, 0, 0), a(self, 1, 0));
                let (x, y) = (self.pin(x, "arith"), self.pin(y, "arith"));
                let (r, ov) = if matches!(
                    i,
                    In::UaddWithOverflow | In::UsubWithOverflow | In::UmulWithOverflow
                ) {
                    let (x, y) = (x.u128(), y.u128());
                    let (r, o) = match i {
                        In::UaddWithOverflow => x.overflowing_add(y),
                        In::UsubWithOverflow => x.overflowing_sub(y),
                        _ => x.overflowing_mul(y),
                    };
                    (mask(r, w), o || mask(r, w) != r)
                } else {
                    let sx = |v: u128| {
                        if w >= 128 {
                            v as i128
                        } else {
                            ((v << (128 - w)) as i128) >> (128 - w)
                        }
                    };
                    let (x, y) = (sx(x.u128()), sx(y.u128()));
                    let (r, o) = match i {
                        In::SaddWithOverflow => x.overflowing_add(y),
                        In::SsubWithOverflow => x.overflowing_sub(y),
                        _ => x.overflowing_mul(y),
                    };
                    let m = mask(r as u128, w);
                    (m, o || sx(m) != r)
                };
                self.regs[d] = Val::w(r);
                self.regs[d + 1] = Val::i(ov as u64);
            }
            In::Fshl | In::Fshr => {
                for k in 0..n {
                    let (x, y, s) = (a(self, 0, k), a(self, 1, k), a(self, 2, k).lo % w as u64);
                    let (x, y) = (self.pin(x, "shift"), self.pin(y, "shift"));
                    let (x, y) = (x.lo, y.lo);
                    let m = if w == 64 { u64::MAX } else { (1 << w) - 1 };
                    let r = if s == 0 {
                        if i == In::Fshl { x } else { y }
                    } else if i == In::Fshl {
                        (x << s) | (y >> (w as u64 - s))
                    } else {
                        (x << (w as u64 - s)) | (y >> s)
                    };
                    self.regs[d + k] = Val::i(r & m);
                }
            }
            In::Sqrt
            | In::Fabs
            | In::Ceil
            | In::Floor
            | In::Trunc
            | In::Round
            | In::Rint
            | In::Nearbyint
            | In::Roundeven
            | In::Sin
            | In::Cos
            | In::Tan
            | In::Log
            | In::Log2
            | In::Log10
            | In::Exp
            | In::Exp2 => {
                for k in 0..n {
                    let x = a(self, 0, k);
                    self.regs[d + k] = self.f1(i, w, x);
                }
            }
            In::Copysign
            | In::Maximumnum
            | In::Maxnum
            | In::Maximum
            | In::Minimumnum
            | In::Minnum
            | In::Minimum
            | In::Pow => {
                for k in 0..n {
                    let (x, y) = (a(self, 0, k), a(self, 1, k));
                    self.regs[d + k] = self.f2(i, w, x, y);
                }
            }
            In::Powi => {
                let (x, e) = (a(self, 0, 0), a(self, 1, 0).lo as u32 as i32);
                if x.s == 0 {
                    self.regs[d] = if w == 32 {
                        Val::i(x.f32().powi(e).to_bits() as u64)
                    } else {
                        Val::f(x.f64().powi(e))
                    };
                } else {
                    let is32 = w == 32;
                    let mut b = x;
                    let mut r = if is32 {
                        Val::i(1f32.to_bits() as u64)
                    } else {
                        Val::f(1.0)
                    };
                    let mut k = e.unsigned_abs();
                    while k > 0 {
                        if k & 1 == 1 {
                            r = self.fbin(FBin::Mul, is32, r, b);
                        }
                        k >>= 1;
                        if k > 0 {
                            b = self.fbin(FBin::Mul, is32, b, b);
                        }
                    }
                    if e < 0 {
                        let one = if is32 {
                            Val::i(1f32.to_bits() as u64)
                        } else {
                            Val::f(1.0)
                        };
                        r = self.fbin(FBin::Div, is32, one, r);
                    }
                    self.regs[d] = r;
                }
            }
            In::Fma | In::Fmuladd => {
                for k in 0..n {
                    let (x, y, z) = (a(self, 0, k), a(self, 1, k), a(self, 2, k));
                    let is32 = w == 32;
                    let bits = if is32 {
                        x.f32().mul_add(y.f32(), z.f32()).to_bits() as u64
                    } else {
                        x.f64().mul_add(y.f64(), z.f64()).to_bits()
                    };
                    let r = if (x.s | y.s | z.s) == 0 {
                        Val::i(bits)
                    } else {
                        let p = self.fbin(FBin::Mul, is32, x, y);
                        let q = self.fbin(FBin::Add, is32, p, z);
                        Val { lo: bits, ..q }
                    };
                    self.regs[d + k] = r;
                }
            }
            In::FptouiSat | In::FptosiSat => {
                for k in 0..n {
                    let x = a(self, 0, k);
                    let is32 = w & 0xffff == 32;
                    let x = self.unflag(x, is32);
                    let f = if is32 { x.f32() as f64 } else { x.f64() };
                    let bits = w >> 16;
                    // the ends of the type (as doubles: those of 64 bits are a little beyond)
                    let (lo, hi) = if i == In::FptouiSat {
                        (0.0, 2f64.powi(bits as i32) - 1.0)
                    } else {
                        (-(2f64.powi(bits as i32 - 1)), 2f64.powi(bits as i32 - 1) - 1.0)
                    };
                    let tr = f.trunc();
                    if x.s != 0 && !f.is_nan() {
                        self.set_loc();
                        if tr <= lo {
                            // up to lo, and what is cut off to it
                            let top = if lo == 0.0 { 1.0 } else { lo };
                            self.sym.piece(Opr::N(x.s), lo, (-1e300, false), (top, lo != 0.0));
                        } else if tr >= hi {
                            self.sym.piece(Opr::N(x.s), hi, (hi, true), (1e300, false));
                        } else {
                            self.trunc_of(Opr::N(x.s), tr);
                        }
                    }
                    let m = if bits >= 64 { u64::MAX } else { (1 << bits) - 1 };
                    let r = if i == In::FptouiSat {
                        (f as u64).min(m)
                    } else if bits >= 64 {
                        f as i64 as u64
                    } else {
                        (f as i64).clamp(-(1 << (bits - 1)), (1 << (bits - 1)) - 1) as u64 & m
                    };
                    self.regs[d + k] = Val::i(r);
                }
            }
            In::VectorReduceOr | In::VectorReduceAnd | In::VectorReduceAdd => {
                let Opd::Reg(_) = &ins.args[0] else {
                    return Err(End::Engine("reduce const".into()));
                };
                return Err(End::Engine("vector reduce".into()));
            }
            _ => {
                for k in 0..n {
                    let x = a(self, 0, k);
                    if i == In::Scmp && (w == 64 || w == 32) {
                        let (x, y) = (self.resolve(x), a(self, 1, k));
                        let y = self.resolve(y);
                        if x.s | y.s != 0 && let Some((p, q, o)) = self.total(x, y, w) {
                            use std::cmp::Ordering::*;
                            self.set_loc();
                            self.sym.decide(p, q, LT, o == Less);
                            if o != Less {
                                self.sym.decide(p, q, EQ, o == Equal);
                            }
                            self.regs[d + k] = Val::i(o as i8 as u8 as u64);
                            continue;
                        }
                    }
                    let x = self.pin(x, "integer intrinsic on float bits");
                    let y = if ins.args.len() > 1 && !matches!(i, In::Cttz | In::Ctlz | In::Abs) {
                        let y = a(self, 1, k);
                        self.pin(y, "integer intrinsic on float bits")
                    } else {
                        Val::i(0)
                    };
                    let sx = |v: u128| {
                        if w >= 128 {
                            v as i128
                        } else {
                            ((v << (128 - w)) as i128) >> (128 - w)
                        }
                    };
                    let (u, v) = (x.u128(), y.u128());
                    let smax = (1i128 << (w.min(127) - 1)) - 1;
                    let r: u128 = match i {
                        In::Umin => u.min(v),
                        In::Umax => u.max(v),
                        In::Smin => sx(u).min(sx(v)) as u128,
                        In::Smax => sx(u).max(sx(v)) as u128,
                        In::Cttz => {
                            if u == 0 {
                                w as u128
                            } else {
                                u.trailing_zeros() as u128
                            }
                        }
                        In::Ctlz => {
                            if u == 0 {
                                w as u128
                            } else {
                                (u.leading_zeros() - (128 - w)) as u128
                            }
                        }
                        In::Ctpop => u.count_ones() as u128,
                        In::UaddSat => u.saturating_add(v).min(mask(u128::MAX, w)),
                        In::UsubSat => u.saturating_sub(v),
                        In::SaddSat => sx(u).saturating_add(sx(v)).clamp(-smax - 1, smax) as u128,
                        In::SsubSat => sx(u).saturating_sub(sx(v)).clamp(-smax - 1, smax) as u128,
                        In::Ucmp => (u.cmp(&v) as i8) as i128 as u128 & 0xff,
                        In::Scmp => (sx(u).cmp(&sx(v)) as i8) as i128 as u128 & 0xff,
                        In::Abs => sx(u).unsigned_abs(),
                        In::Bswap => {
                            let mut b = u.to_le_bytes();
                            let nb = (w / 8) as usize;
                            b[..nb].reverse();
                            u128::from_le_bytes(b)
                        }
                        In::Bitreverse => {
                            let mut r = 0u128;
                            for q in 0..w {
                                r |= (u >> q & 1) << (w - 1 - q);
                            }
                            r
                        }
                        _ => return Err(End::Engine(format!("intrinsic {i:?}"))),
                    };
                    let rw = if matches!(i, In::Ucmp | In::Scmp) {
                        8
                    } else {
                        w
                    };
                    self.regs[d + k] = Val::w(mask(r, rw));
                }
            }
        }
        Ok(())
    }
    fn string(&self, p: u64, n: u64) -> String {
        let n = n.min(4096);
        if self.chk(p, n).is_err() {
            return "?".into();
        }
        String::from_utf8_lossy(&self.mem[p as usize..(p + n) as usize]).into_owned()
    }
    fn fresh_name(&mut self, s: String) -> String {
        let c = self.counts.entry(s.clone()).or_insert(0);
        *c += 1;
        if *c == 1 { s } else { format!("{s}#{c}") }
    }
    fn hooked(&mut self, h: u32, fi: u32, a: &[Val], d: usize, n: u32) -> X<bool> {
        use hk::*;
        match h {
            PANIC => {
                let name = &self.m.funcs[fi as usize].demangled;
                let mut msg = name.clone();
                if (name == "core::panicking::panic"
                    || name.starts_with("core::option::expect_failed")
                    || name.starts_with("core::result::unwrap_failed"))
                    && a.len() >= 2
                {
                    msg = format!("{} ({})", self.string(a[0].lo, a[1].lo), name);
                } else if name == "core::panicking::panic_fmt" && a.len() >= 2 {
                    // a constant message is encoded as pointer, length*2+1
                    if a[1].lo & 1 == 1 && a[1].lo < 4096 {
                        msg = format!("{} ({})", self.string(a[0].lo, a[1].lo >> 1), name);
                    }
                }
                Err(End::Panic(format!("{msg}: {}", self.backtrace())))
            }
            ABORT => Err(End::Panic(format!("abort: {}", self.backtrace()))),
            MALLOC => {
                let p = self.alloc(a[0].lo, 16)?;
                self.regs[d] = Val::i(p);
                Ok(true)
            }
            CALLOC => {
                let Some(sz) = a[0].lo.checked_mul(a[1].lo) else {
                    self.regs[d] = Val::i(0);
                    return Ok(true);
                };
                let p = self.alloc(sz, 16)?;
                self.regs[d] = Val::i(p);
                Ok(true)
            }
            MEMALIGN => {
                let p = self.alloc(a[2].lo, a[1].lo)?;
                self.store(a[0].lo, Sc::P, Val::i(p))?;
                self.regs[d] = Val::i(0);
                Ok(true)
            }
            REALLOC => {
                let (p, sz) = (a[0].lo, a[1].lo);
                if p == 0 {
                    let q = self.alloc(sz, 16)?;
                    self.regs[d] = Val::i(q);
                    return Ok(true);
                }
                let old = self.raw(p - 8, 8) as u64;
                let q = self.alloc(sz, 16)?;
                if q != 0 {
                    self.memcpy(q, p, old.min(sz))?;
                }
                self.regs[d] = Val::i(q);
                Ok(true)
            }
            FREE => Ok(true),
            MEMCMP | BCMP => {
                let (p, q, l) = (a[0].lo, a[1].lo, a[2].lo);
                let mut r = 0i32;
                if l > 0 {
                    self.chk(p, l)?;
                    self.chk(q, l)?;
                    match self.same_bytes(p, q, l) {
                        Some(true) => {}
                        Some(false) if h == BCMP => {}
                        _ => {
                            self.pin_range(p, l, "memcmp of symbolic data");
                            self.pin_range(q, l, "memcmp of symbolic data");
                        }
                    }
                    let x = &self.mem[p as usize..(p + l) as usize];
                    let y = &self.mem[q as usize..(q + l) as usize];
                    r = match x.cmp(y) {
                        std::cmp::Ordering::Less => -1,
                        std::cmp::Ordering::Equal => 0,
                        std::cmp::Ordering::Greater => 1,
                    };
                }
                self.regs[d] = Val::i(r as u32 as u64);
                Ok(true)
            }
            STRLEN => {
                let mut p = a[0].lo;
                let st = p;
                loop {
                    self.chk(p, 1)?;
                    if self.mem[p as usize] == 0 {
                        break;
                    }
                    p += 1;
                }
                self.regs[d] = Val::i(p - st);
                Ok(true)
            }
            TAN => {
                self.regs[d] = self.f1(In::Tan, 64, a[0]);
                Ok(true)
            }
            HYPOT => {
                let x = self.fbin(FBin::Mul, false, a[0], a[0]);
                let y = self.fbin(FBin::Mul, false, a[1], a[1]);
                let q = self.fbin(FBin::Add, false, x, y);
                self.regs[d] = if q.s == 0 {
                    Val::f(a[0].f64().hypot(a[1].f64()))
                } else {
                    self.f1(In::Sqrt, 64, q)
                };
                Ok(true)
            }
            CBRT => {
                let x = self.unflag(a[0], false);
                let r = x.f64().cbrt();
                let mut v = Val::f(r);
                if x.s != 0 {
                    let o =
                        self.sym
                            .uf(K::Other(1), "cbrt", Opr::N(x.s), Opr::C(0), -1e17, 1e17, r);
                    v = self.wrap(o, r.to_bits());
                }
                self.regs[d] = v;
                Ok(true)
            }
            ATAN2 => {
                let (x, y) = (self.unflag(a[0], false), self.unflag(a[1], false));
                let r = x.f64().atan2(y.f64());
                let mut v = Val::f(r);
                if (x.s | y.s) != 0 {
                    let (p, q) = (self.opr(x, false), self.opr(y, false));
                    let o = self.sym.uf(
                        K::Other(2),
                        "atan2",
                        p,
                        q,
                        -3.1415926535897936,
                        3.1415926535897936,
                        r,
                    );
                    v = self.wrap(o, r.to_bits());
                }
                self.regs[d] = v;
                Ok(true)
            }
            CUBIC => self.cubic(a),
            GETRANDOM => {
                let (p, l) = (a[0].lo, a[1].lo);
                self.chk(p, l)?;
                self.mem[p as usize..(p + l) as usize].fill(0x5a);
                self.regs[d] = Val::i(l);
                Ok(true)
            }
            SYSCALL => {
                // getrandom(318)
                if a[0].lo == 318 {
                    let (p, l) = (a[1].lo, a[2].lo);
                    self.chk(p, l)?;
                    self.mem[p as usize..(p + l) as usize].fill(0x5a);
                    self.regs[d] = Val::i(l);
                    return Ok(true);
                }
                Err(End::Engine(format!("syscall {}", a[0].lo)))
            }
            ZERO => {
                if n > 0 {
                    self.regs[d] = Val::i(0);
                }
                Ok(true)
            }
            WRITE => {
                self.regs[d] = a[2];
                Ok(true)
            }
            ZMIJ => {
                // text of a symbolic number (only ever part of an error message)
                if a[0].s != 0 {
                    let p = a[1].lo;
                    self.chk(p, 3)?;
                    self.mem[p as usize..p as usize + 3].copy_from_slice(b"1.5");
                    self.clear(p, 3);
                    self.regs[d] = Val::i(p + 3);
                    return Ok(true);
                }
                Ok(false)
            }
            FLOATFMT => {
                if a.iter().any(|v| v.s != 0) {
                    if n > 0 {
                        self.regs[d] = Val::i(0);
                    }
                    return Ok(true);
                }
                Ok(false)
            }
            V_CHOICE => {
                let name = self.string(a[0].lo, a[1].lo);
                let name = self.fresh_name(name);
                let cnt = a[2].lo.max(1);
                let v = self.inputs.get(&name).copied().unwrap_or(0.0) as u64;
                let v = v.min(cnt - 1);
                self.used
                    .push((name.clone(), v as f64, 0.0, (cnt - 1) as f64, None, true));
                self.set_loc();
                let idx = self.used.len() - 1;
                self.sym.choice(idx, cnt, v);
                self.regs[d] = Val::i(v);
                Ok(true)
            }
            V_NUM => {
                let name = self.string(a[0].lo, a[1].lo);
                let name = self.fresh_name(name);
                let (lo, hi) = (a[2].f64(), a[3].f64());
                let k = a[4].lo as i32;
                let sc = 2f64.powi(k);
                let v = match self.inputs.get(&name) {
                    Some(v) => *v,
                    None => {
                        // a generic interior point, a function of the name
                        let mut h = 0xcbf29ce484222325u64 ^ self.seed;
                        for b in name.bytes() {
                            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
                        }
                        let t = ((h >> 20) % 1000) as f64 / 1000.0;
                        (((lo + (hi - lo) * t) * sc).round() / sc).clamp(lo, hi)
                    }
                };
                self.used.push((name.clone(), v, lo, hi, Some(k), false));
                if lo == hi {
                    self.regs[d] = Val::f(v);
                    return Ok(true);
                }
                let var = self.sym.new_var(name, lo, hi, Some(k), v, true);
                let id = self.sym.var_node(var);
                self.regs[d] = Val {
                    lo: v.to_bits(),
                    hi: 0,
                    s: id,
                };
                Ok(true)
            }
            V_ASSERT => {
                let c = self.resolve(a[0]);
                if c.lo & 1 == 0 {
                    return Err(End::Assert(self.string(a[1].lo, a[2].lo)));
                }
                Ok(true)
            }
            V_ASSUME => {
                let c = self.resolve(a[0]);
                if c.lo & 1 == 0 {
                    return Err(End::Infeasible);
                }
                Ok(true)
            }
            V_COVER => {
                let s = self.string(a[0].lo, a[1].lo);
                if !self.covers.contains(&s) {
                    self.covers.push(s);
                }
                Ok(true)
            }
            V_OBS => {
                self.obs.push((a[0].f64(), a[0].s != 0));
                Ok(true)
            }
            V_ROOT => {
                if a[0].s != 0 {
                    self.sym.roots.push(a[0].s);
                }
                Ok(true)
            }
            V_ISSYM => {
                self.regs[d] = Val::i(1);
                Ok(true)
            }
            V_CLOSE => {
                let (x, y, tol) = (a[0], a[1], a[2].f64());
                let (x, y) = (self.unflag(x, false), self.unflag(y, false));
                self.close_total += 1;
                let (p, q) = (x.f64(), y.f64());
                self.obs.push((p, x.s != 0));
                let msg = format!("{}[{}]", self.string(a[3].lo, a[4].lo), a[5].lo);
                let ok = (p - q).abs() <= tol || p == q;
                if !ok {
                    return Err(End::Close(format!("{msg}: {p:?} vs {q:?}")));
                }
                if (x.s | y.s) == 0 {
                    self.close_conc += 1;
                    return Ok(true);
                }
                let (po, qo) = (self.opr(x, false), self.opr(y, false));
                let (poly, eps, lo, hi) = self.sym.diff(po, qo);
                if lo.abs().max(hi.abs()) + eps <= tol {
                    self.close_trivial += 1;
                    self.sym.keep_near(po, qo, tol);
                } else {
                    self.sym.checks.push(Check {
                        poly: std::sync::Arc::new(poly),
                        eps,
                        tol,
                        msg,
                    });
                }
                Ok(true)
            }
            _ => Err(End::Engine(format!("hook {h}"))),
        }
    }
    /// kurbo's cubic solver: `sret ArrayVec<f64, 3>`, then c0..c3
    fn cubic(&mut self, a: &[Val]) -> X<bool> {
        if a.len() < 5 {
            return Err(End::Engine("solve_cubic signature changed".into()));
        }
        if a[1..5].iter().all(|v| v.s == 0) {
            return Ok(false);
        }
        let mut c = [Opr::C(0); 4];
        for i in 0..4 {
            let v = self.unflag(a[i + 1], false);
            c[i] = self.opr(v, false);
        }
        if let Some(u) = self.sym.root_hint(c) {
            let uc = self.sym.nodes[u as usize].c;
            let cc: Vec<f64> = c.iter().map(|o| self.sym.conc(*o)).collect();
            // the named root, among others about which only the side of [0, 1] they are on is known
            let mut roots = kurbo_roots(cc[0], cc[1], cc[2], cc[3]);
            let near = |x: &f64| (x - uc).abs();
            let at = (0..roots.len()).min_by(|a, b| near(&roots[*a]).total_cmp(&near(&roots[*b])));
            let at = match at {
                Some(at) if near(&roots[at]) < 1e-4 => at,
                _ => {
                    roots = vec![uc];
                    0
                }
            };
            let mut vals = vec![];
            for (i, r) in roots.into_iter().enumerate() {
                if i == at {
                    vals.push(Val { lo: uc.to_bits(), hi: 0, s: u });
                    continue;
                }
                let (lo, hi) = if r < -1e-6 {
                    (-1e17, -1e-6)
                } else if r > 1.0 + 1e-6 {
                    (1.0 + 1e-6, 1e17)
                } else {
                    continue;
                };
                let (_, q) = self.sym.opaque(format!("root{}", self.sym.vars.len()), lo, hi, r);
                vals.push(self.wrap(q, r.to_bits()));
            }
            return self.put_roots(a[0].lo, &vals);
        }
        // any number in [0, 1]: the caller picks the first root there, or an end of the interval
        let cc: Vec<f64> = c.iter().map(|o| self.sym.conc(*o)).collect();
        let r = solve_cubic(cc[0], cc[1], cc[2], cc[3]);
        let u = self.sym.any_root(c, r);
        self.put_roots(
            a[0].lo,
            &[Val {
                lo: r.to_bits(),
                hi: 0,
                s: u,
            }],
        )
    }
    fn put_roots(&mut self, p: u64, v: &[Val]) -> X<bool> {
        // #[repr(C)] ArrayVec<f64, 3> { len: u32, xs: [f64; 3] }
        for (i, x) in v.iter().enumerate() {
            self.store(p + 8 + 8 * i as u64, Sc::F64, *x)?;
        }
        self.store(p, Sc::I(32), Val::i(v.len() as u64))?;
        Ok(true)
    }
}
/// the roots kurbo's solver finds, in its order
fn kurbo_roots(c0: f64, c1: f64, c2: f64, c3: f64) -> Vec<f64> {
    let k = 1.0 / 3.0;
    let (s2, s1, s0) = (c2 * (k / c3), c1 * (k / c3), c0 / c3);
    if !(s0.is_finite() && s1.is_finite() && s2.is_finite()) {
        let (q0, q1) = (c0 / c2, c1 / c2);
        if !q0.is_finite() || !q1.is_finite() {
            let r = -c0 / c1;
            return if r.is_finite() { vec![r] } else { vec![] };
        }
        let arg = q1 * q1 - 4.0 * q0;
        if arg < 0.0 {
            return vec![];
        }
        let r1 = -0.5 * (q1 + arg.sqrt().copysign(q1));
        let r2 = q0 / r1;
        return if r2.is_finite() { vec![r1.min(r2), r1.max(r2)] } else { vec![r1] };
    }
    let d0 = s1 - s2 * s2;
    let d1 = s0 - s1 * s2;
    let d2 = s2 * s0 - s1 * s1;
    let d = 4.0 * d0 * d2 - d1 * d1;
    let de = d1 - 2.0 * s2 * d0;
    if d < 0.0 {
        let sq = (-0.25 * d).sqrt();
        let r = -0.5 * de;
        vec![(r + sq).cbrt() + (r - sq).cbrt() - s2]
    } else if d == 0.0 {
        let t = (-d0).sqrt().copysign(de);
        vec![t - s2, -2.0 * t - s2]
    } else {
        let th = d.sqrt().atan2(-de) * k;
        let (sin, cos) = th.sin_cos();
        let w = sin * 3.0f64.sqrt();
        let t = 2.0 * (-d0).sqrt();
        vec![t * cos - s2, t * 0.5 * (w - cos) - s2, t * 0.5 * (-w - cos) - s2]
    }
}
/// a root in [0, 1], or the end of it that is nearer to being one
fn solve_cubic(c0: f64, c1: f64, c2: f64, c3: f64) -> f64 {
    let f = |t: f64| ((c3 * t + c2) * t + c1) * t + c0;
    let (mut a, mut b) = (0.0, 1.0);
    if f(a) * f(b) > 0.0 {
        return if f(a).abs() <= f(b).abs() { a } else { b };
    }
    for _ in 0..80 {
        let m = 0.5 * (a + b);
        if f(a) * f(m) <= 0.0 { b = m } else { a = m }
    }
    0.5 * (a + b)
}
fn swap(p: IP) -> IP {
    match p {
        IP::Ult => IP::Ugt,
        IP::Ule => IP::Uge,
        IP::Ugt => IP::Ult,
        IP::Uge => IP::Ule,
        IP::Slt => IP::Sgt,
        IP::Sle => IP::Sge,
        IP::Sgt => IP::Slt,
        IP::Sge => IP::Sle,
        p => p,
    }
}
fn icmp_c(p: IP, w: u32, x: &Val, y: &Val) -> bool {
    let sx = |v: &Val| -> i128 {
        if w >= 128 {
            v.u128() as i128
        } else {
            ((v.u128() << (128 - w)) as i128) >> (128 - w)
        }
    };
    match p {
        IP::Eq => x.lo == y.lo && x.hi == y.hi,
        IP::Ne => x.lo != y.lo || x.hi != y.hi,
        IP::Ult => x.u128() < y.u128(),
        IP::Ule => x.u128() <= y.u128(),
        IP::Ugt => x.u128() > y.u128(),
        IP::Uge => x.u128() >= y.u128(),
        IP::Slt => sx(x) < sx(y),
        IP::Sle => sx(x) <= sx(y),
        IP::Sgt => sx(x) > sx(y),
        IP::Sge => sx(x) >= sx(y),
    }
}
