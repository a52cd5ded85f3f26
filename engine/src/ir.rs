//! Parser for the textual LLVM IR that rustc emits.  Globals are laid out eagerly, function bodies
//! are parsed on first use.
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    Ptr,
    Struct(Vec<Ty>, bool),
    Array(u64, Box<Ty>),
    Vector(u64, Box<Ty>),
    Other,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sc {
    I(u32),
    F32,
    F64,
    P,
}
impl Sc {
    pub fn bytes(self) -> u64 {
        match self {
            Sc::I(w) => int_bytes(w),
            Sc::F32 => 4,
            Sc::F64 | Sc::P => 8,
        }
    }
    pub fn bits(self) -> u32 {
        match self {
            Sc::I(w) => w,
            Sc::F32 => 32,
            Sc::F64 | Sc::P => 64,
        }
    }
}
pub fn int_bytes(w: u32) -> u64 {
    // store size
    ((w + 7) / 8) as u64
}
fn int_align(w: u32) -> u64 {
    let b = int_bytes(w);
    let mut a = 1;
    while a < b {
        a *= 2;
    }
    a.min(16)
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(w) => int_align(*w),
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Array(_, t) => t.align(),
            Ty::Vector(n, t) => {
                let s = (*n * t.bit_size() + 7) / 8;
                s.next_power_of_two()
            }
        }
    }
    fn bit_size(&self) -> u64 {
        match self {
            Ty::Int(w) => *w as u64,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            _ => self.size() * 8,
        }
    }
    /// alloc size (stride)
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let a = int_align(*w);
                (int_bytes(*w) + a - 1) / a * a
            }
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            Ty::Array(n, t) => n * t.size(),
            Ty::Vector(n, t) => {
                let s = (*n * t.bit_size() + 7) / 8;
                s.next_power_of_two()
            }
        }
    }
    pub fn field_offset(&self, i: u64) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k as u64 == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Array(_, t) | Ty::Vector(_, t) => i * t.size(),
            _ => panic!("field of scalar"),
        }
    }
    pub fn field(&self, i: u64) -> &Ty {
        match self {
            Ty::Struct(f, _) => &f[i as usize],
            Ty::Array(_, t) | Ty::Vector(_, t) => t,
            _ => panic!("field of scalar"),
        }
    }
    pub fn leaves(&self, off: u64, out: &mut Vec<(u64, Sc)>) {
        match self {
            Ty::Void | Ty::Other => {}
            Ty::Int(w) => out.push((off, Sc::I(*w))),
            Ty::F32 => out.push((off, Sc::F32)),
            Ty::F64 => out.push((off, Sc::F64)),
            Ty::Ptr => out.push((off, Sc::P)),
            Ty::Struct(f, _) => {
                for (i, t) in f.iter().enumerate() {
                    t.leaves(off + self.field_offset(i as u64), out);
                }
            }
            Ty::Array(n, t) | Ty::Vector(n, t) => {
                for i in 0..*n {
                    t.leaves(off + i * t.size(), out);
                }
            }
        }
    }
    /// Vectors of integers that do not fill bytes are packed in memory; returns
    /// the width of their elements.
    pub fn packed_bits(&self) -> Option<u32> {
        match self {
            Ty::Vector(_, t) => match **t {
                Ty::Int(w) if w % 8 != 0 => Some(w),
                _ => None,
            },
            _ => None,
        }
    }
    pub fn nleaves(&self) -> usize {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Struct(f, _) => f.iter().map(|t| t.nleaves()).sum(),
            Ty::Array(n, t) | Ty::Vector(n, t) => *n as usize * t.nleaves(),
            _ => 1,
        }
    }
    pub fn scalar(&self) -> Sc {
        match self {
            Ty::Int(w) => Sc::I(*w),
            Ty::F32 => Sc::F32,
            Ty::F64 => Sc::F64,
            Ty::Ptr => Sc::P,
            Ty::Vector(_, t) => t.scalar(),
            t => panic!("not scalar: {t:?}"),
        }
    }
}

/// A scalar value: concrete bits plus an optional symbolic annotation.
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Val {
    pub lo: u64,
    pub hi: u64,
    pub s: u32,
}
impl Val {
    #[inline]
    pub fn i(x: u64) -> Val {
        Val { lo: x, hi: 0, s: 0 }
    }
    #[inline]
    pub fn w(x: u128) -> Val {
        Val {
            lo: x as u64,
            hi: (x >> 64) as u64,
            s: 0,
        }
    }
    #[inline]
    pub fn u128(&self) -> u128 {
        self.lo as u128 | ((self.hi as u128) << 64)
    }
    #[inline]
    pub fn f(x: f64) -> Val {
        Val::i(x.to_bits())
    }
    #[inline]
    pub fn f64(&self) -> f64 {
        f64::from_bits(self.lo)
    }
    #[inline]
    pub fn f32(&self) -> f32 {
        f32::from_bits(self.lo as u32)
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    C(Val),
    Agg(Box<[Val]>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FBin {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum IP {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FP {
    False,
    Oeq,
    Ogt,
    Oge,
    Olt,
    Ole,
    One,
    Ord,
    Ueq,
    Ugt,
    Uge,
    Ult,
    Ule,
    Une,
    Uno,
    True,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    FpTrunc,
    FpExt,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    Bitcast,
    PtrInt,
}

#[derive(Clone, Debug)]
pub enum Op {
    Bin(Bin, u32),
    FBin(FBin, bool),
    FNeg(bool),
    ICmp(IP, u32),
    FCmp(FP, bool),
    Cast(Cast, Sc, Sc),
    /// bitcast involving vectors
    VBitcast(Box<[Sc]>, Box<[Sc]>),
    /// vectors of integers that do not fill bytes: the width (and the number of elements)
    LoadBits(u32),
    StoreBits(u32, u32),
    Load(Box<[(u64, Sc)]>),
    Store(Box<[(u64, Sc)]>),
    /// args: base, dynamic indices; const offset; scales
    Gep(i64, Box<[(u64, u32)]>),
    Alloca(u64, u64),
    Select(u32),
    Call(Callee, Box<[u32]>),
    Extract(u32),
    Insert(u32),
    ExtractElt,
    InsertElt,
    Shuffle(Box<[i32]>, u32),
    CmpXchg(Sc),
    Rmw(u8, Sc),
    Nop,
    Freeze,
    // terminators
    Br(u32),
    CondBr(u32, u32),
    Switch(u32, Box<[(u64, u32)]>),
    Ret,
    Unreachable,
    /// call then branch
    Invoke(Callee, Box<[u32]>, u32),
}
#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32),
    Intrinsic(In, u32),
    Ind(Opd),
    Asm(String),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum In {
    ThreadlocalAddress,
    UaddWithOverflow,
    UsubWithOverflow,
    UmulWithOverflow,
    SaddWithOverflow,
    SsubWithOverflow,
    SmulWithOverflow,
    VectorReduceAnd,
    VectorReduceAdd,
    VectorReduceOr,
    X86Sse2Pause,
    IsConstant,
    Maximumnum,
    Minimumnum,
    FptouiSat,
    FptosiSat,
    Bitreverse,
    X86Xgetbv,
    IsFpclass,
    Roundeven,
    Nearbyint,
    UaddSat,
    UsubSat,
    SaddSat,
    SsubSat,
    Copysign,
    Prefetch,
    Memmove,
    Maximum,
    Minimum,
    Fmuladd,
    Ptrmask,
    Memcpy,
    Memset,
    Maxnum,
    Minnum,
    Expect,
    Ctpop,
    Floor,
    Round,
    Trunc,
    Log10,
    Bswap,
    Umin,
    Umax,
    Smin,
    Smax,
    Fshl,
    Fshr,
    Cttz,
    Ctlz,
    Ucmp,
    Scmp,
    Sqrt,
    Fabs,
    Ceil,
    Rint,
    Powi,
    Log2,
    Exp2,
    Trap,
    Sin,
    Cos,
    Tan,
    Pow,
    Fma,
    Log,
    Exp,
    Abs,
}
fn intrinsic(n: &str) -> Option<In> {
    let r = n.strip_prefix("llvm.")?;
    const T: &[(&str, In)] = &[
        ("threadlocal.address", In::ThreadlocalAddress),
        ("uadd.with.overflow", In::UaddWithOverflow),
        ("usub.with.overflow", In::UsubWithOverflow),
        ("umul.with.overflow", In::UmulWithOverflow),
        ("sadd.with.overflow", In::SaddWithOverflow),
        ("ssub.with.overflow", In::SsubWithOverflow),
        ("smul.with.overflow", In::SmulWithOverflow),
        ("vector.reduce.and", In::VectorReduceAnd),
        ("vector.reduce.add", In::VectorReduceAdd),
        ("vector.reduce.or", In::VectorReduceOr),
        ("x86.sse2.pause", In::X86Sse2Pause),
        ("is.constant", In::IsConstant),
        ("maximumnum", In::Maximumnum),
        ("minimumnum", In::Minimumnum),
        ("fptoui.sat", In::FptouiSat),
        ("fptosi.sat", In::FptosiSat),
        ("bitreverse", In::Bitreverse),
        ("x86.xgetbv", In::X86Xgetbv),
        ("is.fpclass", In::IsFpclass),
        ("roundeven", In::Roundeven),
        ("nearbyint", In::Nearbyint),
        ("uadd.sat", In::UaddSat),
        ("usub.sat", In::UsubSat),
        ("sadd.sat", In::SaddSat),
        ("ssub.sat", In::SsubSat),
        ("copysign", In::Copysign),
        ("prefetch", In::Prefetch),
        ("memmove", In::Memmove),
        ("maximum", In::Maximum),
        ("minimum", In::Minimum),
        ("fmuladd", In::Fmuladd),
        ("ptrmask", In::Ptrmask),
        ("memcpy", In::Memcpy),
        ("memset", In::Memset),
        ("maxnum", In::Maxnum),
        ("minnum", In::Minnum),
        ("expect", In::Expect),
        ("ctpop", In::Ctpop),
        ("floor", In::Floor),
        ("round", In::Round),
        ("trunc", In::Trunc),
        ("log10", In::Log10),
        ("bswap", In::Bswap),
        ("umin", In::Umin),
        ("umax", In::Umax),
        ("smin", In::Smin),
        ("smax", In::Smax),
        ("fshl", In::Fshl),
        ("fshr", In::Fshr),
        ("cttz", In::Cttz),
        ("ctlz", In::Ctlz),
        ("ucmp", In::Ucmp),
        ("scmp", In::Scmp),
        ("sqrt", In::Sqrt),
        ("fabs", In::Fabs),
        ("ceil", In::Ceil),
        ("rint", In::Rint),
        ("powi", In::Powi),
        ("log2", In::Log2),
        ("exp2", In::Exp2),
        ("trap", In::Trap),
        ("sin", In::Sin),
        ("cos", In::Cos),
        ("tan", In::Tan),
        ("pow", In::Pow),
        ("fma", In::Fma),
        ("log", In::Log),
        ("exp", In::Exp),
        ("abs", In::Abs),
    ];
    T.iter()
        .find(|(k, _)| {
            r.strip_prefix(k)
                .is_some_and(|x| x.is_empty() || x.starts_with('.'))
        })
        .map(|x| x.1)
}
#[derive(Clone, Debug)]
pub struct Ins {
    pub op: Op,
    pub dst: u32,
    pub n: u32,
    pub args: Vec<Opd>,
}
#[derive(Clone, Debug)]
pub struct Phi {
    pub dst: u32,
    pub n: u32,
    pub inc: Vec<(u32, Opd)>,
}
#[derive(Clone, Debug, Default)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub ins: Vec<Ins>,
}
#[derive(Clone, Debug)]
pub struct Func {
    pub nslots: u32,
    pub nparams: u32,
    pub blocks: Vec<Block>,
    pub ret: Vec<Sc>,
}

pub struct FuncDecl {
    pub name: String,
    pub demangled: String,
    /// byte range of the body text (None: declaration)
    pub text: Option<(usize, usize)>,
    pub body: OnceLock<Result<Arc<Func>, String>>,
    pub hook: u32,
    pub is_velato: bool,
}

pub struct Module {
    pub text: String,
    pub funcs: Vec<FuncDecl>,
    pub fidx: HashMap<String, u32>,
    pub gaddr: HashMap<String, u64>,
    pub image: Vec<u8>,
    /// ranges of writable globals
    pub writable: Vec<(u64, u64)>,
    pub gend: u64,
}

pub const GBASE: u64 = 0x1000;
pub const FBASE: u64 = 0x7000_0000_0000;

#[derive(Clone, Copy, Debug, PartialEq)]
enum T<'a> {
    Id(&'a str),
    Loc(&'a str),
    Glob(&'a str),
    Num(&'a str),
    Str(&'a str),
    Meta(&'a str),
    P(u8),
    End,
}

struct Lex<'a> {
    s: &'a str,
    b: &'a [u8],
    p: usize,
}
fn idch(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}
impl<'a> Lex<'a> {
    fn new(s: &'a str) -> Self {
        Lex {
            s,
            b: s.as_bytes(),
            p: 0,
        }
    }
    fn name(&mut self) -> &'a str {
        if self.p < self.b.len() && self.b[self.p] == b'"' {
            let st = self.p + 1;
            let mut q = st;
            while self.b[q] != b'"' {
                q += 1;
            }
            self.p = q + 1;
            &self.s[st..q]
        } else {
            let st = self.p;
            while self.p < self.b.len() && idch(self.b[self.p]) {
                self.p += 1;
            }
            &self.s[st..self.p]
        }
    }
    fn next(&mut self) -> T<'a> {
        while self.p < self.b.len() && (self.b[self.p] as char).is_ascii_whitespace() {
            self.p += 1;
        }
        if self.p >= self.b.len() {
            return T::End;
        }
        let c = self.b[self.p];
        match c {
            b'/' if self.b.get(self.p + 1) == Some(&b'*') => {
                while self.p < self.b.len() && !self.b[self.p..].starts_with(b"*/") {
                    self.p += 1;
                }
                self.p = (self.p + 2).min(self.b.len());
                self.next()
            }
            b';' => {
                while self.p < self.b.len() && self.b[self.p] != b'\n' {
                    self.p += 1;
                }
                self.next()
            }
            b'%' => {
                self.p += 1;
                T::Loc(self.name())
            }
            b'@' => {
                self.p += 1;
                T::Glob(self.name())
            }
            b'!' => {
                self.p += 1;
                T::Meta(self.name())
            }
            b'"' => T::Str(self.name()),
            b'#' => {
                self.p += 1;
                let n = self.name();
                T::Meta(n)
            }
            b'-' | b'+' | b'0'..=b'9' => {
                let st = self.p;
                self.p += 1;
                while self.p < self.b.len()
                    && (idch(self.b[self.p])
                        || (self.b[self.p] == b'+' && matches!(self.b[self.p - 1], b'e' | b'E')))
                {
                    self.p += 1;
                }
                T::Num(&self.s[st..self.p])
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
                let st = self.p;
                while self.p < self.b.len() && idch(self.b[self.p]) {
                    self.p += 1;
                }
                let id = &self.s[st..self.p];
                if id.starts_with("f0x") {
                    T::Num(id)
                } else {
                    T::Id(id)
                }
            }
            _ => {
                self.p += 1;
                T::P(c)
            }
        }
    }
    fn peek(&mut self) -> T<'a> {
        let p = self.p;
        let t = self.next();
        self.p = p;
        t
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == T::P(c) {
            self.next();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) -> R<()> {
        let q = self.p;
        let t = self.next();
        if t == T::P(c) {
            Ok(())
        } else {
            Err(format!(
                "expected '{}' got {t:?} near {:?}",
                c as char,
                &self.s[q..(q + 80).min(self.s.len())]
            ))
        }
    }
    fn skip_parens(&mut self) {
        // current token is '('
        let mut d = 0;
        loop {
            match self.next() {
                T::P(b'(') => d += 1,
                T::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                T::End => return,
                _ => {}
            }
        }
    }
}
type R<X> = Result<X, String>;

fn try_type<'a>(l: &mut Lex<'a>) -> R<Option<Ty>> {
    let t = match l.peek() {
        T::Id("void") => Ty::Void,
        T::Id("double") => Ty::F64,
        T::Id("float") => Ty::F32,
        T::Id("ptr") => Ty::Ptr,
        T::Id("metadata") | T::Id("label") | T::Id("token") | T::Id("x86_fp80") => Ty::Other,
        T::Id(s)
            if s.len() > 1 && s.starts_with('i') && s[1..].bytes().all(|c| c.is_ascii_digit()) =>
        {
            Ty::Int(s[1..].parse().unwrap())
        }
        T::P(b'{') => {
            l.next();
            let f = type_list(l, b'}')?;
            return Ok(Some(Ty::Struct(f, false)));
        }
        T::P(b'[') => {
            l.next();
            let n = num(l)?;
            if l.next() != T::Id("x") {
                return Err("array".into());
            }
            let t = parse_type(l)?;
            l.expect(b']')?;
            return Ok(Some(Ty::Array(n, Box::new(t))));
        }
        T::P(b'<') => {
            l.next();
            if l.eat(b'{') {
                let f = type_list(l, b'}')?;
                l.expect(b'>')?;
                return Ok(Some(Ty::Struct(f, true)));
            }
            let n = num(l)?;
            if l.next() != T::Id("x") {
                return Err("vector".into());
            }
            let t = parse_type(l)?;
            l.expect(b'>')?;
            return Ok(Some(Ty::Vector(n, Box::new(t))));
        }
        _ => return Ok(None),
    };
    l.next();
    Ok(Some(t))
}
fn num(l: &mut Lex) -> R<u64> {
    match l.next() {
        T::Num(s) => s
            .parse::<i64>()
            .map(|x| x as u64)
            .or_else(|_| s.parse::<u64>())
            .map_err(|e| format!("{e} {s}")),
        t => Err(format!("number expected, got {t:?}")),
    }
}
fn type_list(l: &mut Lex, end: u8) -> R<Vec<Ty>> {
    let mut v = vec![];
    if l.eat(end) {
        return Ok(v);
    }
    loop {
        v.push(parse_type(l)?);
        if l.eat(b',') {
            continue;
        }
        l.expect(end)?;
        return Ok(v);
    }
}
fn parse_type(l: &mut Lex) -> R<Ty> {
    let p = l.p;
    match try_type(l)? {
        Some(t) => Ok(t),
        None => Err(format!(
            "type expected near {:?}",
            &l.s[p..(p + 60).min(l.s.len())]
        )),
    }
}

pub fn mask(v: u128, w: u32) -> u128 {
    if w >= 128 { v } else { v & ((1u128 << w) - 1) }
}

/// flattened constant, with global addresses resolved
fn parse_const<'a>(l: &mut Lex<'a>, ty: &Ty, m: &Consts) -> R<Vec<Val>> {
    let n = ty.nleaves();
    let p0 = l.p;
    let t = l.next();
    Ok(match t {
        T::Id("null") | T::Id("none") => vec![Val::i(0)],
        T::Id("true") => vec![Val::i(1)],
        T::Id("false") => vec![Val::i(0)],
        T::Id("undef") | T::Id("poison") | T::Id("zeroinitializer") => vec![Val::i(0); n],
        T::Id("splat") => {
            l.expect(b'(')?;
            let et = parse_type(l)?;
            let c = parse_const(l, &et, m)?;
            l.expect(b')')?;
            vec![c[0]; n]
        }
        T::Id("c") => match l.next() {
            T::Str(s) => unescape(s).into_iter().map(|b| Val::i(b as u64)).collect(),
            t => return Err(format!("c{t:?}")),
        },
        T::Num(s) => match ty {
            Ty::Int(w) => {
                let v: u128 = if let Some(r) = s.strip_prefix('-') {
                    (r.parse::<u128>().map_err(|e| e.to_string())?).wrapping_neg()
                } else {
                    s.parse::<u128>().map_err(|e| format!("{e} {s}"))?
                };
                vec![Val::w(mask(v, *w))]
            }
            Ty::F64 => vec![Val::f(parse_f64(s)?)],
            Ty::F32 => {
                if let Some(h) = s.strip_prefix("f0x") {
                    vec![Val::i(
                        u32::from_str_radix(h, 16).map_err(|e| e.to_string())? as u64,
                    )]
                } else {
                    let d = parse_f64(s)?;
                    vec![Val::i((d as f32).to_bits() as u64)]
                }
            }
            _ => return Err(format!("number for {ty:?}")),
        },
        T::Glob(g) => vec![Val::i(m.addr(g)?)],
        T::P(b'{') => agg(l, b'}', m)?,
        T::P(b'[') => agg(l, b']', m)?,
        T::P(b'<') => {
            if l.eat(b'{') {
                let v = agg(l, b'}', m)?;
                l.expect(b'>')?;
                v
            } else {
                agg(l, b'>', m)?
            }
        }
        T::Id("getelementptr") => {
            while let T::Id(f) = l.peek() {
                l.next();
                if f == "inrange" {
                    l.skip_parens();
                }
            }
            l.expect(b'(')?;
            let t = parse_type(l)?;
            l.expect(b',')?;
            let pt = parse_type(l)?;
            let base = parse_const(l, &pt, m)?[0].lo;
            let mut idx = vec![];
            while l.eat(b',') {
                let it = parse_type(l)?;
                let Ty::Int(w) = it else {
                    return Err("gep idx".into());
                };
                let v = parse_const(l, &it, m)?[0].lo;
                idx.push(sext64(v, w));
            }
            l.expect(b')')?;
            let mut off = idx[0].wrapping_mul(t.size() as i64);
            let mut cur = &t;
            for &i in &idx[1..] {
                off = off.wrapping_add(cur.field_offset(i as u64) as i64);
                cur = cur.field(i as u64);
            }
            vec![Val::i(base.wrapping_add(off as u64))]
        }
        T::Id("ptrtoint")
        | T::Id("inttoptr")
        | T::Id("bitcast")
        | T::Id("trunc")
        | T::Id("zext")
        | T::Id("addrspacecast") => {
            l.expect(b'(')?;
            let ft = parse_type(l)?;
            let v = parse_const(l, &ft, m)?;
            if l.next() != T::Id("to") {
                return Err("cast".into());
            }
            let tt = parse_type(l)?;
            l.expect(b')')?;
            let mut v = v;
            if let Ty::Int(w) = tt {
                v[0] = Val::w(mask(v[0].u128(), w));
            }
            v
        }
        T::Id(op @ ("add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" | "lshr")) => {
            while let T::Id("nuw" | "nsw") = l.peek() {
                l.next();
            }
            l.expect(b'(')?;
            let ft = parse_type(l)?;
            let a = parse_const(l, &ft, m)?[0].lo;
            l.expect(b',')?;
            let ft2 = parse_type(l)?;
            let b = parse_const(l, &ft2, m)?[0].lo;
            l.expect(b')')?;
            let r = match op {
                "add" => a.wrapping_add(b),
                "sub" => a.wrapping_sub(b),
                "mul" => a.wrapping_mul(b),
                "xor" => a ^ b,
                "and" => a & b,
                "or" => a | b,
                "shl" => a.wrapping_shl(b as u32),
                _ => a.wrapping_shr(b as u32),
            };
            let w = if let Ty::Int(w) = ft { w } else { 64 };
            vec![Val::i(mask(r as u128, w) as u64)]
        }
        _ => {
            return Err(format!(
                "const {t:?} near {:?}",
                &l.s[p0..(p0 + 80).min(l.s.len())]
            ));
        }
    })
}
fn agg(l: &mut Lex, end: u8, m: &Consts) -> R<Vec<Val>> {
    let mut v = vec![];
    if l.eat(end) {
        return Ok(v);
    }
    loop {
        let t = parse_type(l)?;
        v.extend(parse_const(l, &t, m)?);
        if l.eat(b',') {
            continue;
        }
        l.expect(end)?;
        return Ok(v);
    }
}
fn parse_f64(s: &str) -> R<f64> {
    if let Some(h) = s.strip_prefix("f0x") {
        return Ok(f64::from_bits(
            u64::from_str_radix(h, 16).map_err(|e| e.to_string())?,
        ));
    }
    if let Some(h) = s.strip_prefix("0x") {
        return Ok(f64::from_bits(
            u64::from_str_radix(h, 16).map_err(|e| e.to_string())?,
        ));
    }
    match s {
        "+inf" | "inf" => return Ok(f64::INFINITY),
        "-inf" => return Ok(f64::NEG_INFINITY),
        _ => {}
    }
    if s.contains("nan") {
        return Ok(f64::NAN);
    }
    s.parse().map_err(|e| format!("{e}: {s}"))
}
fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}
pub fn sext64(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

struct Consts<'a> {
    gaddr: &'a HashMap<String, u64>,
    fidx: &'a HashMap<String, u32>,
}
impl Consts<'_> {
    fn addr(&self, g: &str) -> R<u64> {
        if let Some(a) = self.gaddr.get(g) {
            return Ok(*a);
        }
        if let Some(f) = self.fidx.get(g) {
            return Ok(FBASE + 16 * *f as u64);
        }
        Err(format!("unknown global @{g}"))
    }
}

impl Module {
    pub fn load(path: &str, hook: impl Fn(&str, &str) -> u32) -> R<Module> {
        let text = std::fs::read_to_string(path).map_err(|e| format!("{path}: {e}"))?;
        let mut funcs: Vec<FuncDecl> = vec![];
        let mut fidx = HashMap::new();
        let mut gdefs: Vec<(String, usize, usize)> = vec![];
        let mut aliases: Vec<(String, String)> = vec![];
        let b = text.as_bytes();
        let mut p = 0;
        let mut last_comment: &str = "";
        while p < b.len() {
            let e = memchr(b, p, b'\n');
            let line = &text[p..e];
            if line.starts_with("; ") && !line.starts_with("; Function Attrs") {
                last_comment = &line[2..];
            } else if line.starts_with("define ") || line.starts_with("declare ") {
                let at = line.find('@').ok_or("no @")?;
                let mut l = Lex::new(&line[at..]);
                let T::Glob(name) = l.next() else {
                    return Err("name".into());
                };
                let name = name.to_string();
                let mut txt = None;
                let mut ne = e;
                let demangled = if line.starts_with("define ") {
                    // find "\n}\n"
                    let mut q = e;
                    loop {
                        if b[q] == b'\n'
                            && b[q + 1] == b'}'
                            && (q + 2 >= b.len() || b[q + 2] == b'\n')
                        {
                            break;
                        }
                        q += 1;
                    }
                    txt = Some((p, q));
                    ne = q + 2;
                    last_comment.to_string()
                } else {
                    name.clone()
                };
                last_comment = "";
                let h = hook(&name, &demangled);
                fidx.insert(name.clone(), funcs.len() as u32);
                let is_velato = demangled.contains("velato::");
                funcs.push(FuncDecl {
                    name,
                    demangled,
                    text: txt,
                    body: OnceLock::new(),
                    hook: h,
                    is_velato,
                });
                p = ne + 1;
                continue;
            } else if line.starts_with('@') {
                let mut l = Lex::new(line);
                let T::Glob(name) = l.next() else {
                    return Err("gname".into());
                };
                if line.contains(" = ") {
                    let rest = &line[..line.len().min(300)];
                    if rest.contains(" alias ") {
                        let tgt = line.rsplit('@').next().unwrap();
                        let mut l2 = Lex::new(tgt);
                        aliases.push((name.to_string(), l2.name().to_string()));
                    } else {
                        gdefs.push((name.to_string(), p, e));
                    }
                }
            }
            p = e + 1;
        }
        for (a, t) in aliases {
            if let Some(&i) = fidx.get(&t) {
                fidx.insert(a, i);
            }
        }
        // layout: parse type of each global
        struct G {
            addr: u64,
            ty: Ty,
            init: Option<usize>,
            end: usize,
            writable: bool,
        }
        let mut gs: Vec<(String, G)> = vec![];
        for (name, s, e) in &gdefs {
            let line = &text[*s..*e];
            let mut l = Lex::new(line);
            l.next();
            l.expect(b'=')?;
            let mut writable = false;
            let mut external = false;
            loop {
                match l.next() {
                    T::Id("global") => {
                        writable = true;
                        break;
                    }
                    T::Id("constant") => break,
                    T::Id("external") | T::Id("extern_weak") => external = true,
                    T::Id("thread_local") => {
                        if l.peek() == T::P(b'(') {
                            l.skip_parens();
                        }
                    }
                    T::Id(_) => {}
                    t => {
                        return Err(format!(
                            "global header {t:?}: {}",
                            &line[..line.len().min(200)]
                        ));
                    }
                }
            }
            let ty = parse_type(&mut l)?;
            let init = if external { None } else { Some(*s + l.p) };
            gs.push((
                name.clone(),
                G {
                    addr: 0,
                    ty,
                    init,
                    end: *e,
                    writable,
                },
            ));
        }
        let mut addr = GBASE;
        let mut gaddr = HashMap::new();
        let mut writable = vec![];
        for pass in 0..2 {
            for (name, g) in gs.iter_mut() {
                if g.writable != (pass == 1) {
                    continue;
                }
                let a = g.ty.align().max(16);
                addr = (addr + a - 1) / a * a;
                g.addr = addr;
                if g.writable {
                    writable.push((addr, addr + g.ty.size()));
                }
                addr += g.ty.size().max(1);
                gaddr.insert(name.clone(), g.addr);
            }
        }
        addr = (addr + 4095) / 4096 * 4096;
        let mut image = vec![0u8; addr as usize];
        {
            let c = Consts {
                gaddr: &gaddr,
                fidx: &fidx,
            };
            for (name, g) in &gs {
                if name.starts_with("llvm.") {
                    continue;
                }
                if let Some(ip) = g.init {
                    let mut l = Lex::new(&text[ip..g.end]);
                    let v = parse_const(&mut l, &g.ty, &c).map_err(|e| format!("@{name}: {e}"))?;
                    let mut lv = vec![];
                    g.ty.leaves(0, &mut lv);
                    if lv.len() != v.len() {
                        return Err(format!("@{name}: leaves {} vs {}", lv.len(), v.len()));
                    }
                    for ((o, sc), v) in lv.iter().zip(v) {
                        let a = (g.addr + o) as usize;
                        let n = sc.bytes() as usize;
                        let by = v.u128().to_le_bytes();
                        image[a..a + n].copy_from_slice(&by[..n]);
                    }
                }
            }
        }
        Ok(Module {
            text,
            funcs,
            fidx,
            gaddr,
            image,
            writable,
            gend: addr,
        })
    }

    pub fn body(&self, f: u32) -> Result<&Arc<Func>, String> {
        let fd = &self.funcs[f as usize];
        fd.body
            .get_or_init(|| {
                let (s, e) = fd.text.ok_or_else(|| format!("no body for {}", fd.name))?;
                parse_func(&self.text[s..e], self)
                    .map(Arc::new)
                    .map_err(|er| format!("parsing {}: {er}", fd.name))
            })
            .as_ref()
            .map_err(|e| e.clone())
    }
}
fn memchr(b: &[u8], mut p: usize, c: u8) -> usize {
    while p < b.len() && b[p] != c {
        p += 1;
    }
    p
}

// ---------------------------------------------------------------------------------------------
struct FP_<'a, 'm> {
    m: &'m Module,
    names: HashMap<&'a str, u32>,
    tys: Vec<Option<Ty>>,
    labels: HashMap<&'a str, u32>,
}
impl<'a> FP_<'a, '_> {
    fn id(&mut self, n: &'a str) -> u32 {
        if let Some(i) = self.names.get(n) {
            return *i;
        }
        let i = self.tys.len() as u32;
        self.names.insert(n, i);
        self.tys.push(None);
        i
    }
    fn label(&mut self, n: &'a str) -> R<u32> {
        self.labels
            .get(n)
            .copied()
            .ok_or_else(|| format!("label {n}"))
    }
    fn operand(&mut self, l: &mut Lex<'a>, ty: &Ty) -> R<Opd> {
        if let T::Loc(n) = l.peek() {
            l.next();
            return Ok(Opd::Reg(self.id(n)));
        }
        let c = Consts {
            gaddr: &self.m.gaddr,
            fidx: &self.m.fidx,
        };
        let v = parse_const(l, ty, &c)?;
        if v.len() == 1 {
            Ok(Opd::C(v[0]))
        } else {
            Ok(Opd::Agg(v.into_boxed_slice()))
        }
    }
    fn ty_op(&mut self, l: &mut Lex<'a>) -> R<(Ty, Opd)> {
        let t = parse_type(l)?;
        let o = self.operand(l, &t)?;
        Ok((t, o))
    }
}
fn skip_attrs(l: &mut Lex) {
    // parameter attributes before an operand
    loop {
        match l.peek() {
            T::Id(
                "null" | "true" | "false" | "undef" | "poison" | "zeroinitializer" | "splat"
                | "none" | "getelementptr" | "ptrtoint" | "inttoptr" | "trunc" | "bitcast" | "add"
                | "sub" | "c",
            ) => return,
            T::Id("align") => {
                l.next();
                if let T::Num(_) = l.peek() {
                    l.next();
                }
            }
            T::Id(_) => {
                l.next();
                if l.peek() == T::P(b'(') {
                    l.skip_parens();
                }
            }
            T::Str(_) => {
                l.next();
                if l.eat(b'=') {
                    l.next();
                }
            }
            _ => return,
        }
    }
}

fn parse_func(text: &str, m: &Module) -> R<Func> {
    let mut fp = FP_ {
        m,
        names: HashMap::new(),
        tys: vec![],
        labels: HashMap::new(),
    };
    // header
    let nl = text.find('\n').unwrap_or(text.len());
    let header = &text[..nl];
    let mut l = Lex::new(header);
    l.next(); // define
    let ret_ty;
    loop {
        if let Some(t) = {
            match l.peek() {
                T::Id(_) | T::P(b'{' | b'[' | b'<') => try_type(&mut l)?,
                _ => None,
            }
        } {
            ret_ty = t;
            break;
        }
        match l.next() {
            T::End => return Err("header".into()),
            T::Id(_) => {
                if l.peek() == T::P(b'(') {
                    l.skip_parens();
                }
            }
            _ => {}
        }
    }
    let T::Glob(_) = l.next() else {
        return Err("fname".into());
    };
    l.expect(b'(')?;
    let mut params = vec![];
    if !l.eat(b')') {
        loop {
            if l.peek() == T::P(b'.') || l.peek() == T::Id("...") {
                l.next();
                l.expect(b')')?;
                break;
            }
            let t = parse_type(&mut l)?;
            skip_attrs(&mut l);
            let n = if let T::Loc(n) = l.peek() {
                l.next();
                n
            } else {
                return Err(format!("param name: {header}"));
            };
            let id = fp.id(n);
            fp.tys[id as usize] = Some(t);
            params.push(id);
            if l.eat(b',') {
                continue;
            }
            l.expect(b')')?;
            break;
        }
    }
    // blocks
    let body = &text[nl + 1..];
    let mut nb = 0u32;
    let mut first = true;
    for line in body.lines() {
        if line.is_empty() {
            continue;
        }
        let c = line.as_bytes()[0];
        if c != b' ' && c != b';' && c != b'\t' {
            if let Some(q) = line.find(':') {
                let lab = line[..q].trim_matches('"');
                fp.labels.insert(lab, nb);
                nb += 1;
                first = false;
            }
        } else if first && c == b' ' {
            // implicit entry label: number = count of params (unnamed)
            fp.labels.insert("__entry", nb);
            // numbered entry: name is next unnamed value number
            nb += 1;
            first = false;
        }
    }
    // implicit entry may be referenced in phis by its number
    if fp.labels.contains_key("__entry") {
        let n = params.len();
        // leak small string for the numeric label
        let s: &'static str = Box::leak(n.to_string().into_boxed_str());
        fp.labels.entry(s).or_insert(0);
    }
    let mut blocks: Vec<Block> = vec![Block::default(); nb as usize];
    let mut cur: i64 = -1;
    let mut lines = body.lines().peekable();
    while let Some(line) = lines.next() {
        if line.is_empty() {
            continue;
        }
        let c = line.as_bytes()[0];
        if c == b';' {
            continue;
        }
        if c != b' ' && c != b'\t' {
            if line.find(':').is_some() {
                cur += 1;
            }
            continue;
        }
        if cur < 0 {
            cur = 0;
        }
        let tr = line.trim_start();
        if tr.starts_with('#') || tr.starts_with(';') {
            continue;
        }
        let full: std::borrow::Cow<str>;
        let start = line.as_ptr() as usize - text.as_ptr() as usize;
        // multi-line instructions
        let mut end = start + line.len();
        if tr.starts_with("switch ") {
            if !line.contains(']') {
                for l2 in lines.by_ref() {
                    end = l2.as_ptr() as usize - text.as_ptr() as usize + l2.len();
                    if l2.trim_start().starts_with(']') {
                        break;
                    }
                }
            }
        } else if tr.starts_with("invoke ") || tr.contains("= invoke ") {
            let l2 = lines.next().ok_or("invoke")?;
            end = l2.as_ptr() as usize - text.as_ptr() as usize + l2.len();
        } else if tr.contains("= landingpad ") {
            while let Some(l2) = lines.peek() {
                let t2 = l2.trim_start();
                if t2.starts_with("cleanup") || t2.starts_with("catch") || t2.starts_with("filter")
                {
                    lines.next();
                } else {
                    break;
                }
            }
        }
        full = std::borrow::Cow::Borrowed(&text[start..end]);
        let full: &str = match full {
            std::borrow::Cow::Borrowed(s) => s,
            _ => unreachable!(),
        };
        parse_ins(full, &mut fp, &mut blocks[cur as usize])
            .map_err(|e| format!("{e}\n   in: {}", full.chars().take(300).collect::<String>()))?;
    }
    // slots
    let mut slot = vec![(0u32, 0u32); fp.tys.len()];
    let mut next = 0u32;
    for &p in &params {
        let n = fp.tys[p as usize].as_ref().unwrap().nleaves() as u32;
        slot[p as usize] = (next, n);
        next += n;
    }
    let nparams = next;
    for (i, t) in fp.tys.iter().enumerate() {
        if params.contains(&(i as u32)) {
            continue;
        }
        let n = t.as_ref().map(|t| t.nleaves()).unwrap_or(0) as u32;
        slot[i] = (next, n);
        next += n;
    }
    let fix = |o: &mut Opd| {
        if let Opd::Reg(r) = o {
            *r = slot[*r as usize].0;
        }
    };
    for b in &mut blocks {
        for ph in &mut b.phis {
            let (s, n) = slot[ph.dst as usize];
            ph.dst = s;
            ph.n = n;
            for (_, o) in &mut ph.inc {
                fix(o);
            }
        }
        for i in &mut b.ins {
            if i.dst != u32::MAX {
                let (s, n) = slot[i.dst as usize];
                i.dst = s;
                i.n = n;
            } else {
                i.n = 0;
            }
            for a in &mut i.args {
                fix(a);
            }
            match &mut i.op {
                Op::Call(Callee::Ind(o), _) | Op::Invoke(Callee::Ind(o), _, _) => fix(o),
                _ => {}
            }
        }
    }
    let mut rl = vec![];
    ret_ty.leaves(0, &mut rl);
    Ok(Func {
        nslots: next,
        nparams,
        blocks,
        ret: rl.into_iter().map(|x| x.1).collect(),
    })
}

fn flags(l: &mut Lex) {
    while let T::Id(
        "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "nnan" | "ninf" | "nsz"
        | "arcp" | "contract" | "afn" | "reassoc" | "fast" | "inbounds" | "nusw" | "volatile"
        | "atomic" | "weak",
    ) = l.peek()
    {
        l.next();
    }
}

fn parse_ins<'a>(line: &'a str, fp: &mut FP_<'a, '_>, blk: &mut Block) -> R<()> {
    let mut l = Lex::new(line);
    let l = &mut l;
    let mut dst = u32::MAX;
    if let T::Loc(n) = l.peek() {
        let p = l.p;
        l.next();
        if l.eat(b'=') {
            dst = fp.id(n);
        } else {
            l.p = p;
        }
    }
    let T::Id(mut opn) = l.next() else {
        return Err("opcode".into());
    };
    if matches!(opn, "tail" | "musttail" | "notail") {
        let T::Id(o) = l.next() else {
            return Err("opcode".into());
        };
        opn = o;
    }
    macro_rules! emit {
        ($op:expr, $args:expr, $ty:expr) => {{
            let op = $op;
            if dst != u32::MAX {
                fp.tys[dst as usize] = Some($ty);
            }
            blk.ins.push(Ins {
                op,
                dst,
                n: 0,
                args: $args,
            });
            Ok(())
        }};
    }
    let bin = match opn {
        "add" => Some(Bin::Add),
        "sub" => Some(Bin::Sub),
        "mul" => Some(Bin::Mul),
        "udiv" => Some(Bin::UDiv),
        "sdiv" => Some(Bin::SDiv),
        "urem" => Some(Bin::URem),
        "srem" => Some(Bin::SRem),
        "shl" => Some(Bin::Shl),
        "lshr" => Some(Bin::LShr),
        "ashr" => Some(Bin::AShr),
        "and" => Some(Bin::And),
        "or" => Some(Bin::Or),
        "xor" => Some(Bin::Xor),
        _ => None,
    };
    if let Some(b) = bin {
        flags(l);
        let (t, a) = fp.ty_op(l)?;
        l.expect(b',')?;
        let c = fp.operand(l, &t)?;
        let w = t.scalar().bits();
        return emit!(Op::Bin(b, w), vec![a, c], t);
    }
    let fbin = match opn {
        "fadd" => Some(FBin::Add),
        "fsub" => Some(FBin::Sub),
        "fmul" => Some(FBin::Mul),
        "fdiv" => Some(FBin::Div),
        "frem" => Some(FBin::Rem),
        _ => None,
    };
    if let Some(b) = fbin {
        flags(l);
        let (t, a) = fp.ty_op(l)?;
        l.expect(b',')?;
        let c = fp.operand(l, &t)?;
        let is32 = t.scalar() == Sc::F32;
        return emit!(Op::FBin(b, is32), vec![a, c], t);
    }
    let cast = match opn {
        "trunc" => Some(Cast::Trunc),
        "zext" => Some(Cast::ZExt),
        "sext" => Some(Cast::SExt),
        "fptrunc" => Some(Cast::FpTrunc),
        "fpext" => Some(Cast::FpExt),
        "fptoui" => Some(Cast::FpToUi),
        "fptosi" => Some(Cast::FpToSi),
        "uitofp" => Some(Cast::UiToFp),
        "sitofp" => Some(Cast::SiToFp),
        "bitcast" => Some(Cast::Bitcast),
        "ptrtoint" | "inttoptr" | "ptrtoaddr" => Some(Cast::PtrInt),
        _ => None,
    };
    if let Some(c) = cast {
        flags(l);
        let (t, a) = fp.ty_op(l)?;
        if l.next() != T::Id("to") {
            return Err("to".into());
        }
        let t2 = parse_type(l)?;
        if c == Cast::Bitcast && (matches!(t, Ty::Vector(..)) || matches!(t2, Ty::Vector(..))) {
            let mut a1 = vec![];
            t.leaves(0, &mut a1);
            let mut a2 = vec![];
            t2.leaves(0, &mut a2);
            return emit!(
                Op::VBitcast(
                    a1.into_iter().map(|x| x.1).collect(),
                    a2.into_iter().map(|x| x.1).collect()
                ),
                vec![a],
                t2
            );
        }
        return emit!(Op::Cast(c, t.scalar(), t2.scalar()), vec![a], t2);
    }
    match opn {
        "fneg" => {
            flags(l);
            let (t, a) = fp.ty_op(l)?;
            let is32 = t.scalar() == Sc::F32;
            emit!(Op::FNeg(is32), vec![a], t)
        }
        "freeze" => {
            let (t, a) = fp.ty_op(l)?;
            emit!(Op::Freeze, vec![a], t)
        }
        "icmp" => {
            flags(l);
            let T::Id(p) = l.next() else {
                return Err("pred".into());
            };
            let p = match p {
                "eq" => IP::Eq,
                "ne" => IP::Ne,
                "ult" => IP::Ult,
                "ule" => IP::Ule,
                "ugt" => IP::Ugt,
                "uge" => IP::Uge,
                "slt" => IP::Slt,
                "sle" => IP::Sle,
                "sgt" => IP::Sgt,
                "sge" => IP::Sge,
                _ => return Err("pred".into()),
            };
            let (t, a) = fp.ty_op(l)?;
            l.expect(b',')?;
            let c = fp.operand(l, &t)?;
            let w = t.scalar().bits();
            let rt = match &t {
                Ty::Vector(n, _) => Ty::Vector(*n, Box::new(Ty::Int(1))),
                _ => Ty::Int(1),
            };
            emit!(Op::ICmp(p, w), vec![a, c], rt)
        }
        "fcmp" => {
            flags(l);
            let T::Id(p) = l.next() else {
                return Err("pred".into());
            };
            let p = match p {
                "false" => FP::False,
                "oeq" => FP::Oeq,
                "ogt" => FP::Ogt,
                "oge" => FP::Oge,
                "olt" => FP::Olt,
                "ole" => FP::Ole,
                "one" => FP::One,
                "ord" => FP::Ord,
                "ueq" => FP::Ueq,
                "ugt" => FP::Ugt,
                "uge" => FP::Uge,
                "ult" => FP::Ult,
                "ule" => FP::Ule,
                "une" => FP::Une,
                "uno" => FP::Uno,
                "true" => FP::True,
                _ => return Err("pred".into()),
            };
            let (t, a) = fp.ty_op(l)?;
            l.expect(b',')?;
            let c = fp.operand(l, &t)?;
            let rt = match &t {
                Ty::Vector(n, _) => Ty::Vector(*n, Box::new(Ty::Int(1))),
                _ => Ty::Int(1),
            };
            emit!(Op::FCmp(p, t.scalar() == Sc::F32), vec![a, c], rt)
        }
        "load" => {
            flags(l);
            let t = parse_type(l)?;
            l.expect(b',')?;
            let (_, p) = fp.ty_op(l)?;
            if let Some(w) = t.packed_bits() {
                return emit!(Op::LoadBits(w), vec![p], t);
            }
            let mut lv = vec![];
            t.leaves(0, &mut lv);
            emit!(Op::Load(lv.into_boxed_slice()), vec![p], t)
        }
        "store" => {
            flags(l);
            let (t, v) = fp.ty_op(l)?;
            l.expect(b',')?;
            let (_, p) = fp.ty_op(l)?;
            if let Some(w) = t.packed_bits() {
                let Ty::Vector(n, _) = t else { unreachable!() };
                return emit!(Op::StoreBits(w, n as u32), vec![v, p], Ty::Void);
            }
            let mut lv = vec![];
            t.leaves(0, &mut lv);
            emit!(Op::Store(lv.into_boxed_slice()), vec![v, p], Ty::Void)
        }
        "alloca" => {
            flags(l);
            let t = parse_type(l)?;
            let mut n = 1;
            let mut al = t.align();
            while l.eat(b',') {
                if l.peek() == T::Id("align") {
                    l.next();
                    al = num(l)?;
                } else if let T::Meta(_) = l.peek() {
                    break;
                } else {
                    let (_, o) = fp.ty_op(l)?;
                    if let Opd::C(v) = o {
                        n = v.lo;
                    } else {
                        return Err("dynamic alloca".into());
                    }
                }
            }
            emit!(Op::Alloca(t.size() * n, al), vec![], Ty::Ptr)
        }
        "getelementptr" => {
            loop {
                flags(l);
                if l.peek() == T::Id("inrange") {
                    l.next();
                    l.skip_parens();
                } else {
                    break;
                }
            }
            let t = parse_type(l)?;
            l.expect(b',')?;
            let (_, base) = fp.ty_op(l)?;
            let mut args = vec![base];
            let mut off = 0i64;
            let mut sc = vec![];
            let mut curt: Option<&Ty> = None;
            let mut first = true;
            while l.eat(b',') {
                if let T::Meta(_) = l.peek() {
                    break;
                }
                let (it, o) = fp.ty_op(l)?;
                let Ty::Int(w) = it else {
                    return Err("gep idx".into());
                };
                if first {
                    first = false;
                    match o {
                        Opd::C(v) => {
                            off = off.wrapping_add(sext64(v.lo, w).wrapping_mul(t.size() as i64))
                        }
                        o => {
                            sc.push((t.size(), w));
                            args.push(o);
                        }
                    }
                    curt = Some(&t);
                } else {
                    let ct = curt.unwrap();
                    match o {
                        Opd::C(v) => {
                            let i = sext64(v.lo, w);
                            if let Ty::Array(_, e) | Ty::Vector(_, e) = ct {
                                off = off.wrapping_add(i.wrapping_mul(e.size() as i64));
                                curt = Some(e);
                            } else {
                                off = off.wrapping_add(ct.field_offset(i as u64) as i64);
                                curt = Some(ct.field(i as u64));
                            }
                        }
                        o => {
                            let e = ct.field(0);
                            sc.push((e.size(), w));
                            args.push(o);
                            curt = Some(e);
                        }
                    }
                }
            }
            emit!(Op::Gep(off, sc.into_boxed_slice()), args, Ty::Ptr)
        }
        "select" => {
            flags(l);
            let (ct, c) = fp.ty_op(l)?;
            l.expect(b',')?;
            let (t, a) = fp.ty_op(l)?;
            l.expect(b',')?;
            let (_, b) = fp.ty_op(l)?;
            let lanes = if let Ty::Vector(n, _) = ct {
                n as u32
            } else {
                1
            };
            emit!(Op::Select(lanes), vec![c, a, b], t)
        }
        "extractvalue" => {
            let (t, a) = fp.ty_op(l)?;
            let mut off = 0;
            let mut cur = t.clone();
            while l.eat(b',') {
                if let T::Meta(_) = l.peek() {
                    break;
                }
                let i = num(l)?;
                for k in 0..i {
                    off += cur.field(k).nleaves();
                }
                cur = cur.field(i).clone();
            }
            emit!(Op::Extract(off as u32), vec![a], cur)
        }
        "insertvalue" => {
            let (t, a) = fp.ty_op(l)?;
            l.expect(b',')?;
            let (_, v) = fp.ty_op(l)?;
            let mut off = 0;
            let mut cur = t.clone();
            while l.eat(b',') {
                if let T::Meta(_) = l.peek() {
                    break;
                }
                let i = num(l)?;
                for k in 0..i {
                    off += cur.field(k).nleaves();
                }
                cur = cur.field(i).clone();
            }
            let nv = cur.nleaves() as u32;
            emit!(Op::Insert((off as u32) << 8 | nv), vec![a, v], t)
        }
        "extractelement" => {
            let (t, a) = fp.ty_op(l)?;
            l.expect(b',')?;
            let (_, i) = fp.ty_op(l)?;
            let e = t.field(0).clone();
            emit!(Op::ExtractElt, vec![a, i], e)
        }
        "insertelement" => {
            let (t, a) = fp.ty_op(l)?;
            l.expect(b',')?;
            let (_, v) = fp.ty_op(l)?;
            l.expect(b',')?;
            let (_, i) = fp.ty_op(l)?;
            emit!(Op::InsertElt, vec![a, v, i], t)
        }
        "shufflevector" => {
            let (t, a) = fp.ty_op(l)?;
            l.expect(b',')?;
            let (_, b) = fp.ty_op(l)?;
            l.expect(b',')?;
            let mt = parse_type(l)?;
            let mo = fp.operand(l, &mt)?;
            let (Ty::Vector(n, e), Ty::Vector(mn, _)) = (&t, &mt) else {
                return Err("shuffle".into());
            };
            let mk: Vec<i32> = match mo {
                Opd::Agg(v) => v.iter().map(|v| v.lo as u32 as i32).collect(),
                Opd::C(v) => vec![v.lo as u32 as i32],
                _ => return Err("mask".into()),
            };
            let rt = Ty::Vector(*mn, e.clone());
            emit!(
                Op::Shuffle(mk.into_boxed_slice(), *n as u32),
                vec![a, b],
                rt
            )
        }
        "cmpxchg" => {
            flags(l);
            let (_, p) = fp.ty_op(l)?;
            l.expect(b',')?;
            let (t, c) = fp.ty_op(l)?;
            l.expect(b',')?;
            let (_, n) = fp.ty_op(l)?;
            let rt = Ty::Struct(vec![t.clone(), Ty::Int(1)], false);
            emit!(Op::CmpXchg(t.scalar()), vec![p, c, n], rt)
        }
        "atomicrmw" => {
            flags(l);
            let T::Id(o) = l.next() else {
                return Err("rmw".into());
            };
            let k = match o {
                "xchg" => 0,
                "add" => 1,
                "sub" => 2,
                "and" => 3,
                "or" => 4,
                "xor" => 5,
                _ => return Err(format!("rmw {o}")),
            };
            let (_, p) = fp.ty_op(l)?;
            l.expect(b',')?;
            let (t, v) = fp.ty_op(l)?;
            emit!(Op::Rmw(k, t.scalar()), vec![p, v], t)
        }
        "fence" => Ok(()),
        "phi" => {
            flags(l);
            let t = parse_type(l)?;
            let mut inc = vec![];
            loop {
                l.expect(b'[')?;
                let o = fp.operand(l, &t)?;
                l.expect(b',')?;
                let T::Loc(lb) = l.next() else {
                    return Err("phi label".into());
                };
                l.expect(b']')?;
                inc.push((fp.label(lb)?, o));
                if l.peek() == T::P(b',') {
                    let p = l.p;
                    l.next();
                    if l.peek() == T::P(b'[') {
                        continue;
                    }
                    l.p = p;
                }
                break;
            }
            fp.tys[dst as usize] = Some(t);
            blk.phis.push(Phi { dst, n: 0, inc });
            Ok(())
        }
        "br" => {
            if l.peek() == T::Id("label") {
                l.next();
                let T::Loc(n) = l.next() else {
                    return Err("label".into());
                };
                let b = fp.label(n)?;
                return emit!(Op::Br(b), vec![], Ty::Void);
            }
            let (_, c) = fp.ty_op(l)?;
            l.expect(b',')?;
            l.next();
            let T::Loc(n1) = l.next() else {
                return Err("label".into());
            };
            l.expect(b',')?;
            l.next();
            let T::Loc(n2) = l.next() else {
                return Err("label".into());
            };
            let (a, b) = (fp.label(n1)?, fp.label(n2)?);
            emit!(Op::CondBr(a, b), vec![c], Ty::Void)
        }
        "switch" => {
            let (t, v) = fp.ty_op(l)?;
            l.expect(b',')?;
            l.next();
            let T::Loc(d) = l.next() else {
                return Err("label".into());
            };
            let d = fp.label(d)?;
            l.expect(b'[')?;
            let mut cs = vec![];
            while !l.eat(b']') {
                let ct = parse_type(l)?;
                let Opd::C(v) = fp.operand(l, &ct)? else {
                    return Err("case".into());
                };
                l.expect(b',')?;
                l.next();
                let T::Loc(n) = l.next() else {
                    return Err("label".into());
                };
                cs.push((v.lo, fp.label(n)?));
            }
            let _ = t;
            emit!(Op::Switch(d, cs.into_boxed_slice()), vec![v], Ty::Void)
        }
        "ret" => {
            let t = parse_type(l)?;
            if t == Ty::Void {
                emit!(Op::Ret, vec![], Ty::Void)
            } else {
                let o = fp.operand(l, &t)?;
                emit!(Op::Ret, vec![o], Ty::Void)
            }
        }
        "unreachable" | "resume" => emit!(Op::Unreachable, vec![], Ty::Void),
        "landingpad" => {
            let t = parse_type(l)?;
            emit!(Op::Nop, vec![], t)
        }
        "call" | "invoke" => {
            // return type
            let rt;
            loop {
                if let Some(t) = match l.peek() {
                    T::Id(_) | T::P(b'{' | b'[' | b'<') => try_type(l)?,
                    _ => None,
                } {
                    rt = t;
                    break;
                }
                match l.next() {
                    T::End => return Err("call".into()),
                    T::Id(_) => {
                        if l.peek() == T::P(b'(') {
                            l.skip_parens();
                        }
                    }
                    _ => {}
                }
            }
            if l.peek() == T::P(b'(') {
                l.skip_parens(); // function type params
            }
            let callee;
            // the width of what a saturating conversion yields, of .iN. or .vMiN. in its name
            let mut sat = 0;
            match l.peek() {
                T::Glob(n) => {
                    l.next();
                    if let Some(t) = n.strip_prefix("llvm.fptoui.sat.").or(n.strip_prefix("llvm.fptosi.sat.")) {
                        let t = t.split('.').next().unwrap();
                        sat = t[t.rfind('i').ok_or("sat")? + 1..].parse().map_err(|_| "sat width")?;
                    }
                    if n.starts_with("llvm.") {
                        if n.starts_with("llvm.lifetime")
                            || n.starts_with("llvm.experimental")
                            || n.starts_with("llvm.dbg")
                            || n.starts_with("llvm.assume")
                            || n.starts_with("llvm.pseudoprobe")
                            || n.starts_with("llvm.invariant")
                        {
                            return Ok(());
                        }
                        callee = Callee::Intrinsic(
                            intrinsic(n).ok_or_else(|| format!("intrinsic {n}"))?,
                            0,
                        );
                    } else {
                        let i = *fp.m.fidx.get(n).ok_or_else(|| format!("callee {n}"))?;
                        callee = Callee::Direct(i);
                    }
                }
                T::Loc(n) => {
                    l.next();
                    callee = Callee::Ind(Opd::Reg(fp.id(n)));
                }
                T::Id("asm") => {
                    let st = l.p;
                    l.next();
                    let mut tpl = "";
                    loop {
                        match l.next() {
                            T::Str(s) => {
                                tpl = s;
                                break;
                            }
                            T::Id(_) => {}
                            _ => return Err("asm".into()),
                        }
                    }
                    l.expect(b',')?;
                    l.next();
                    let _ = st;
                    callee = Callee::Asm(tpl.to_string());
                }
                _ => {
                    let o = fp.operand(l, &Ty::Ptr)?;
                    if let Opd::C(v) = &o {
                        if v.lo >= FBASE {
                            callee = Callee::Direct(((v.lo - FBASE) / 16) as u32);
                        } else {
                            callee = Callee::Ind(o);
                        }
                    } else {
                        callee = Callee::Ind(o);
                    }
                }
            }
            l.expect(b'(')?;
            let mut args = vec![];
            let mut ns = vec![];
            let mut callee = callee;
            if !l.eat(b')') {
                loop {
                    let t = parse_type(l)?;
                    if t == Ty::Other {
                        // metadata argument
                        loop {
                            match l.peek() {
                                T::P(b',') | T::P(b')') | T::End => break,
                                _ => {
                                    l.next();
                                }
                            }
                        }
                    } else {
                        skip_attrs(l);
                        let o = fp.operand(l, &t)?;
                        if let Callee::Intrinsic(_, w) = &mut callee {
                            if args.is_empty() {
                                *w = match &t {
                                    Ty::Vector(..) | Ty::Int(_) | Ty::F32 | Ty::F64 | Ty::Ptr => {
                                        t.scalar().bits()
                                    }
                                    _ => 0,
                                };
                            }
                        }
                        ns.push(t.nleaves() as u32);
                        args.push(o);
                    }
                    if l.eat(b',') {
                        continue;
                    }
                    l.expect(b')')?;
                    break;
                }
            }
            if let (Callee::Intrinsic(_, w), true) = (&mut callee, sat > 0) {
                *w |= sat << 16;
            }
            if opn == "invoke" {
                // find "to label %X"
                loop {
                    match l.next() {
                        T::Id("to") => break,
                        T::End => return Err("invoke to".into()),
                        _ => {}
                    }
                }
                l.next();
                let T::Loc(n) = l.next() else {
                    return Err("label".into());
                };
                let b = fp.label(n)?;
                return emit!(Op::Invoke(callee, ns.into_boxed_slice(), b), args, rt);
            }
            emit!(Op::Call(callee, ns.into_boxed_slice()), args, rt)
        }
        _ => Err(format!("unknown opcode {opn}")),
    }
}
