//! The public operations as the reference model sees them: names, argument generation and exact
//! sequential semantics (written from the documentation, not from the implementation).
use crate::util::{Rng, J};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Ty { I8, U8, I16, U16, I32, U32, I64, U64, I128, U128, Isize, Usize, F32, F64, F16, F128, Bool, Ptr, Misc }
pub use Ty::*;
pub const ALL_TY: [Ty; 16] = [I8, U8, I16, U16, I32, U32, I64, U64, I128, U128, Isize, Usize, F32, F64, Bool, Ptr];
impl Ty {
    pub fn name(self) -> &'static str {
        match self { I8 => "i8", U8 => "u8", I16 => "i16", U16 => "u16", I32 => "i32", U32 => "u32", I64 => "i64", U64 => "u64", I128 => "i128", U128 => "u128", Isize => "isize", Usize => "usize", F32 => "f32", F64 => "f64", F16 => "f16", F128 => "f128", Bool => "bool", Ptr => "ptr", Misc => "misc" }
    }
    pub fn from_name(s: &str) -> Option<Ty> { ALL_TY.iter().chain(&[F16, F128, Misc]).copied().find(|t| t.name() == s) }
    pub fn size(self, word: u32) -> u32 {
        match self { I8 | U8 | Bool => 1, I16 | U16 | F16 => 2, I32 | U32 | F32 => 4, I64 | U64 | F64 => 8, I128 | U128 | F128 => 16, Isize | Usize | Ptr => word, Misc => word }
    }
    pub fn signed(self) -> bool { matches!(self, I8 | I16 | I32 | I64 | I128 | Isize) }
    pub fn is_int(self) -> bool { !self.is_float() && !matches!(self, Bool | Ptr | Misc) }
    pub fn is_float(self) -> bool { matches!(self, F32 | F64 | F16 | F128) }
    /// Explicit significand bits of a float type.
    pub fn frac(self) -> u32 { match self { F16 => 10, F32 => 23, F64 => 52, _ => 112 } }
}

macro_rules! ops {
    ($($v:ident $s:literal),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
        pub enum Op { $($v),* }
        pub const ALL_OPS: &[Op] = &[$(Op::$v),*];
        impl Op {
            pub fn name(self) -> &'static str { match self { $(Op::$v => $s),* } }
            pub fn from_name(s: &str) -> Option<Op> { match s { $($s => Some(Op::$v),)* _ => None } }
        }
    };
}
ops! {
    Load "load", Store "store", Swap "swap", Cas "cas", CasW "casw",
    FpLoad "fp_load", FpStore "fp_store", FpSwap "fp_swap", FpCas "fp_cas", FpFetchAdd "fp_fetch_add",
    New "new", From "from", Default "default", GetMutRead "get_mut_read", GetMutWrite "get_mut_write",
    IntoInner "into_inner", AsPtr "as_ptr", RawRead "raw_read", RawWrite "raw_write", Debug "debug", Ser "ser", De "de",
    FetchAdd "fetch_add", FetchSub "fetch_sub", FetchAnd "fetch_and", FetchOr "fetch_or", FetchXor "fetch_xor",
    FetchNand "fetch_nand", FetchNot "fetch_not", FetchNeg "fetch_neg", FetchAbs "fetch_abs", FetchMax "fetch_max", FetchMin "fetch_min",
    FetchUpdate "fetch_update", Add "add", Sub "sub", And "and", Or "or", Xor "xor", Not "not", Neg "neg",
    BitSet "bit_set", BitClear "bit_clear", BitToggle "bit_toggle",
    BitsLoad "bits_load", BitsStore "bits_store", BitsSwap "bits_swap", BitsFetchXor "bits_fetch_xor",
    FetchPtrAdd "fetch_ptr_add", FetchPtrSub "fetch_ptr_sub", FetchByteAdd "fetch_byte_add", FetchByteSub "fetch_byte_sub",
    LockFree "lockfree", Fence "fence", CFence "cfence", Spin "spin", Wait "wait",
    NaLoad8 "na_load8", NaStore8 "na_store8", NaLoad32 "na_load32", NaStore32 "na_store32", NaLoadU "na_load_usize", NaStoreU "na_store_usize",
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Shape {
    /// returns nothing
    Unit,
    /// returns the value (old value or loaded value)
    Val,
    /// returns Result<T,T>
    Res,
    /// returns bool
    Flag,
    Other,
}
impl Op {
    pub fn shape(self) -> Shape {
        use Op::*;
        match self {
            Store | FpStore | New | From | Default | GetMutWrite | RawWrite | Add | Sub | And | Or | Xor | Not | Neg | BitsStore | Fence | CFence | Spin | NaStore8 | NaStore32 | NaStoreU => Shape::Unit,
            Cas | CasW | FpCas | FetchUpdate => Shape::Res,
            BitSet | BitClear | BitToggle => Shape::Flag,
            Debug | Ser | De | LockFree | AsPtr => Shape::Other,
            _ => Shape::Val,
        }
    }
    pub fn is_load(self) -> bool { matches!(self, Op::Load | Op::FpLoad | Op::BitsLoad | Op::Debug | Op::Ser | Op::Wait) }
    pub fn is_store(self) -> bool { matches!(self, Op::Store | Op::FpStore | Op::BitsStore) }
    pub fn is_cas(self) -> bool { matches!(self, Op::Cas | Op::CasW | Op::FpCas) }
    /// Requires exclusive access (no concurrent operation).
    pub fn exclusive(self) -> bool { matches!(self, Op::New | Op::From | Op::Default | Op::GetMutRead | Op::GetMutWrite | Op::IntoInner | Op::RawRead | Op::RawWrite | Op::De) }
    pub fn is_rmw(self) -> bool {
        !self.is_load() && !self.is_store() && !self.exclusive() && !matches!(self, Op::AsPtr | Op::LockFree | Op::Fence | Op::CFence | Op::Spin | Op::NaLoad8 | Op::NaStore8 | Op::NaLoad32 | Op::NaStore32 | Op::NaLoadU | Op::NaStoreU)
    }
    pub fn bit_op(self) -> bool { matches!(self, Op::BitSet | Op::BitClear | Op::BitToggle) }
}
/// The operations a type has (concurrent ones).
pub fn ops_for(t: Ty) -> Vec<Op> {
    use Op::*;
    let mut v = vec![Load, Store, Swap, Cas, CasW, FpLoad, FpStore, FpSwap, FpCas, FetchUpdate];
    if t.is_int() {
        v.extend([FetchAdd, FetchSub, FetchAnd, FetchOr, FetchXor, FetchNand, FetchNot, FetchNeg, FetchMax, FetchMin, Add, Sub, And, Or, Xor, Not, Neg, BitSet, BitClear, BitToggle, FpFetchAdd]);
    } else if t.is_float() {
        v.extend([FetchAdd, FetchSub, FetchMax, FetchMin, FetchNeg, FetchAbs, BitsLoad, BitsStore, BitsSwap, BitsFetchXor, FpFetchAdd]);
    } else if t == Bool {
        v.extend([FetchAnd, FetchOr, FetchXor, FetchNand, FetchNot, And, Or, Xor, Not]);
    } else if t == Ptr {
        v.extend([FetchPtrAdd, FetchPtrSub, FetchByteAdd, FetchByteSub, FetchAnd, FetchOr, FetchXor, BitSet, BitClear, BitToggle]);
    }
    v
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum CloRet { Const(u128), Add(u128), Xor(u128), Decline, DeclineIf(u128, u128), Panic }
#[derive(Clone, PartialEq, Debug)]
pub struct Clo {
    pub ret: CloRet,
    /// Panic at this invocation (1-based), 0 = never.
    pub panic_at: u32,
    /// Operation on the same or another atomic performed inside the first invocation.
    pub nested: Option<Box<Call>>,
}
/// The operation twice in one compiled function, between plain accesses to two bytes of data:
/// `*w = v1; y0 = *r; op; *w = v2; y1 = *r; op`.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Fuse { pub w: usize, pub r: usize, pub v1: u8, pub v2: u8 }
#[derive(Clone, PartialEq, Debug)]
pub struct Call {
    pub fuse: Option<Fuse>,
    pub ty: Ty,
    pub op: Op,
    pub obj: usize,
    pub o1: u8,
    pub o2: u8,
    pub fmt: u8,
    /// On a local copy the compiler can see through, moved out and back (needs exclusive access).
    pub local: bool,
    pub a: u128,
    pub b: u128,
    /// AtomicPtr element size selector.
    pub es: u8,
    pub clo: Option<Clo>,
}
pub const ORD: [&str; 5] = ["Relaxed", "Acquire", "Release", "AcqRel", "SeqCst"];
impl Call {
    pub fn new(ty: Ty, op: Op, obj: usize) -> Call { Call { fuse: None, ty, op, obj, o1: 4, o2: 4, fmt: 0, local: false, a: 0, b: 0, es: 1, clo: None } }
    pub fn sym(&self) -> String {
        let t = if self.ty == Ptr && self.es != 1 && ptr_sized(self.op) { format!("ptr{}", self.es) } else { self.ty.name().to_string() };
        if self.op == Op::Debug && self.fmt >= 7 { return format!("{}_ptr_fmtp", if self.local { "z" } else { "g" }); }
        format!("{}_{}_{}", if self.fuse.is_some() { "m" } else if self.local { "z" } else { "g" }, t, self.op.name())
    }
    pub fn show(&self) -> String {
        let mut s = format!("x{}: Atomic<{}>.{}(", self.obj, self.ty.name(), self.op.name());
        use Op::*;
        match self.op {
            Cas | CasW | FpCas => s += &format!("{:#x}, {:#x}, {}, {}", self.a, self.b, ORD[self.o1 as usize], ORD[self.o2 as usize]),
            FetchUpdate => s += &format!("{}, {}, {:?}", ORD[self.o1 as usize], ORD[self.o2 as usize], self.clo),
            _ => {
                if has_arg(self.op) { s += &format!("{:#x}, ", self.a); }
                s += ORD[self.o1 as usize];
            }
        }
        if let Some(f) = self.fuse { return format!("{{ x{} = {}; y0 = x{}; {s}); x{} = {}; y1 = x{}; {s}) }}", f.w, f.v1, f.r, f.w, f.v2, f.r); }
        s + ")"
    }
    pub fn to_j(&self) -> J {
        let mut j = J::obj().set("ty", self.ty.name()).set("op", self.op.name()).set("obj", self.obj).set("o1", self.o1 as u64).set("o2", self.o2 as u64).set("fmt", self.fmt as u64).set("local", self.local).set("a", self.a).set("b", self.b).set("es", self.es as u64);
        if let Some(f) = self.fuse { j.put("fuse", J::Arr([f.w, f.r, f.v1 as usize, f.v2 as usize].iter().map(|v| J::from(*v)).collect())); }
        if let Some(c) = &self.clo {
            let (k, x, y) = match c.ret { CloRet::Const(x) => ("const", x, 0), CloRet::Add(x) => ("add", x, 0), CloRet::Xor(x) => ("xor", x, 0), CloRet::Decline => ("decline", 0, 0), CloRet::DeclineIf(x, y) => ("declineif", x, y), CloRet::Panic => ("panic", 0, 0) };
            let mut cj = J::obj().set("ret", k).set("x", x).set("y", y).set("panic_at", c.panic_at as u64);
            if let Some(n) = &c.nested { cj.put("nested", n.to_j()); }
            j.put("clo", cj);
        }
        j
    }
    pub fn from_j(j: &J) -> Option<Call> {
        let mut c = Call::new(Ty::from_name(j.get("ty").str())?, Op::from_name(j.get("op").str())?, j.get("obj").int() as usize);
        c.o1 = j.get("o1").int() as u8;
        c.o2 = j.get("o2").int() as u8;
        c.fmt = j.get("fmt").int() as u8;
        c.local = j.get("local").bool();
        let f = j.get("fuse").arr();
        if f.len() == 4 { let n = |i: usize| f[i].int() as u64; c.fuse = Some(Fuse { w: n(0) as usize, r: n(1) as usize, v1: n(2) as u8, v2: n(3) as u8 }); }
        c.a = j.get("a").u128();
        c.b = j.get("b").u128();
        c.es = j.get("es").int() as u8;
        if let J::Obj(_) = j.get("clo") {
            let k = j.get("clo");
            let (x, y) = (k.get("x").u128(), k.get("y").u128());
            let ret = match k.get("ret").str() { "const" => CloRet::Const(x), "add" => CloRet::Add(x), "xor" => CloRet::Xor(x), "decline" => CloRet::Decline, "declineif" => CloRet::DeclineIf(x, y), _ => CloRet::Panic };
            let nested = match k.get("nested") { J::Null => None, n => Some(Box::new(Call::from_j(n)?)) };
            c.clo = Some(Clo { ret, panic_at: k.get("panic_at").int() as u32, nested });
        }
        Some(c)
    }
}
pub fn has_arg(op: Op) -> bool {
    use Op::*;
    !matches!(op, Load | FpLoad | GetMutRead | IntoInner | AsPtr | RawRead | Debug | Ser | De | FetchNot | FetchNeg | FetchAbs | Not | Neg | BitsLoad | LockFree | Fence | CFence | Spin | NaLoad8 | NaLoad32 | NaLoadU | FetchUpdate | Default)
}
pub fn ptr_sized(op: Op) -> bool {
    use Op::*;
    matches!(op, FetchPtrAdd | FetchPtrSub | FetchByteAdd | FetchByteSub | FetchAnd | FetchOr | FetchXor | BitSet | BitClear | BitToggle)
}
/// Orderings an operation accepts (first, second).
pub fn valid_ord(op: Op, o1: u8, o2: u8) -> bool {
    use Op::*;
    match op {
        Load | FpLoad | BitsLoad | Wait => matches!(o1, 0 | 1 | 4),
        Store | FpStore | BitsStore => matches!(o1, 0 | 2 | 4),
        Fence | CFence => o1 != 0,
        Cas | CasW | FpCas | FetchUpdate => matches!(o2, 0 | 1 | 4),
        _ => true,
    }
}
pub fn rand_ord(r: &mut Rng, op: Op) -> (u8, u8) {
    loop {
        let (a, b) = (r.below(5) as u8, r.below(5) as u8);
        if valid_ord(op, a, b) { return (a, b); }
    }
}

/// Sequential state of one atomic.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum St { Val(u128), AnyNan }

pub fn mask_bits(bits: u32) -> u128 { if bits >= 128 { !0 } else { (1u128 << bits) - 1 } }
fn sx(v: u128, bits: u32) -> i128 { if bits == 128 { v as i128 } else { ((v << (128 - bits)) as i128) >> (128 - bits) } }

pub fn is_nan(t: Ty, v: u128) -> bool { let k = t.size(8) * 8 - 1; v & mask_bits(k) > mask_bits(k) ^ mask_bits(t.frac()) }
fn is_snan(t: Ty, v: u128) -> bool { is_nan(t, v) && v >> (t.frac() - 1) & 1 == 0 }
pub fn qnan(t: Ty) -> u128 { let k = t.size(8) * 8 - 1; mask_bits(k) ^ mask_bits(t.frac() - 1) }

/// IEEE 754 addition, round to nearest even (None: a NaN).
pub fn soft_add(t: Ty, x: u128, y: u128) -> Option<u128> {
    let (m, k) = (t.frac(), t.size(8) * 8 - 1);
    let (inf, sgn) = (mask_bits(k) ^ mask_bits(m), 1u128 << k);
    if is_nan(t, x) || is_nan(t, y) { return None; }
    // larger magnitude first
    let (x, y) = if y & !sgn > x & !sgn { (y, x) } else { (x, y) };
    if x & inf == inf { return if y & inf == inf && (x ^ y) & sgn != 0 { None } else { Some(x) }; }
    let un = |v: u128| { let e = (v & inf) >> m; let f = v & mask_bits(m); if e == 0 { (1, f << 3) } else { (e as i64, (f | 1 << m) << 3) } };
    let ((mut e, fx), (ey, fy)) = (un(x), un(y));
    let d = (e - ey) as u32;
    let fy = if d == 0 { fy } else if d > m + 4 { (fy != 0) as u128 } else { fy >> d | (fy & mask_bits(d) != 0) as u128 };
    let mut f = if (x ^ y) & sgn == 0 { fx + fy } else { fx - fy };
    // exact cancellation gives +0, except when both are -0
    if f == 0 { return Some(x & y & sgn); }
    if f >> (m + 4) != 0 { f = f >> 1 | f & 1; e += 1; }
    while f >> (m + 3) == 0 && e > 1 { f <<= 1; e -= 1; }
    let (mut q, r) = (f >> 3, f & 7);
    if r > 4 || r == 4 && q & 1 != 0 { q += 1; }
    // a carry out of the significand moves the exponent up by itself
    let v = if q >> m == 0 { q } else { q + ((e as u128 - 1) << m) };
    Some(x & sgn | if v >= inf { inf } else { v })
}
fn fbin(t: Ty, op: Op, x: u128, y: u128) -> Vec<St> {
    let neg = 1u128 << (t.size(8) * 8 - 1);
    let r = match op {
        Op::FetchAdd | Op::FpFetchAdd => soft_add(t, x, y),
        Op::FetchSub => if is_nan(t, y) { None } else { soft_add(t, x, y ^ neg) },
        _ => return fminmax(t, op, x, y),
    };
    vec![r.map_or(St::AnyNan, St::Val)]
}
/// IEEE 754-2008 minNum/maxNum as Rust documents f32::min/max: the non-NaN operand wins; with
/// signed zeros either may be returned; a signaling NaN may also give a NaN.
fn fminmax(t: Ty, op: Op, x: u128, y: u128) -> Vec<St> {
    let (nx, ny) = (is_nan(t, x), is_nan(t, y));
    if nx && ny { return vec![St::AnyNan]; }
    if nx || ny {
        let mut v = vec![St::Val(if nx { y } else { x })];
        if is_snan(t, x) || is_snan(t, y) { v.push(St::AnyNan); }
        return v;
    }
    // order as sign-magnitude numbers
    let k = t.size(8) * 8 - 1;
    let ord = |v: u128| if v >> k & 1 != 0 { !(v & mask_bits(k)) as i128 + 1 } else { v as i128 };
    let (a, b) = (ord(x), ord(y));
    if a == b { return if x == y { vec![St::Val(x)] } else { vec![St::Val(x), St::Val(y)] }; }
    let first = if op == Op::FetchMax { a > b } else { a < b };
    vec![St::Val(if first { x } else { y })]
}

/// What one completed operation returned.
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Ret { pub val: u128, pub ok: bool, pub text: Option<Vec<u8>> }

pub struct Sem { pub word: u32, pub be: bool }
impl Sem {
    pub fn bits(&self, t: Ty) -> u32 { t.size(self.word) * 8 }
    /// New value of an integer/bool/ptr RMW (None: not an RMW of this form).
    pub fn rmw(&self, c: &Call, v: u128) -> Option<u128> {
        use Op::*;
        let bits = if c.ty == Bool { 1 } else { self.bits(c.ty) };
        let mk = mask_bits(bits);
        let a = c.a & mk;
        let es = if c.es == 0 { 0 } else { c.es as u128 };
        Some(match c.op {
            Swap | FpSwap | Store | FpStore | BitsStore | BitsSwap | New | From | GetMutWrite | RawWrite | NaStore8 | NaStore32 | NaStoreU => a,
            Default => 0,
            FetchAdd | FpFetchAdd | Add => v.wrapping_add(a),
            FetchSub | Sub => v.wrapping_sub(a),
            FetchAnd | And => v & a,
            FetchOr | Or => v | a,
            FetchXor | Xor | BitsFetchXor => v ^ a,
            FetchNand => !(v & a),
            FetchNot | Not => !v,
            FetchNeg | Neg => v.wrapping_neg(),
            FetchMax => if c.ty.signed() { if sx(v, bits) > sx(a, bits) { v } else { a } } else { v.max(a) },
            FetchMin => if c.ty.signed() { if sx(v, bits) < sx(a, bits) { v } else { a } } else { v.min(a) },
            BitSet => v | 1 << (c.a as u32 % bits),
            BitClear => v & !(1 << (c.a as u32 % bits)),
            BitToggle => v ^ 1 << (c.a as u32 % bits),
            FetchPtrAdd => v.wrapping_add(a.wrapping_mul(es)),
            FetchPtrSub => v.wrapping_sub(a.wrapping_mul(es)),
            FetchByteAdd => v.wrapping_add(a),
            FetchByteSub => v.wrapping_sub(a),
            _ => return None,
        } & if matches!(c.op, NaStore8) { 0xff } else { mk })
    }
    /// All states the atomic may be in after `c` took effect in state `s` and returned `r`
    /// (`None`: still pending, any return). Empty: impossible.
    pub fn step(&self, c: &Call, s: St, r: Option<&Ret>, clo: &[(u128, Option<u128>)]) -> Vec<St> {
        use Op::*;
        let bits = if c.ty == Bool { 1 } else { self.bits(c.ty) };
        let mk = mask_bits(bits);
        // resolve an unknown NaN through an observed old value
        let seen = match (c.op.shape(), r) { (Shape::Val, Some(r)) | (Shape::Res, Some(r)) => Some(r.val), _ => None };
        let v = match s {
            St::Val(v) => {
                if let Some(o) = seen { if o != v { return vec![]; } }
                v
            }
            St::AnyNan => match seen {
                Some(o) => { if !is_nan(c.ty, o) { return vec![]; } o }
                None => match c.op {
                    Store | FpStore | BitsStore => return vec![St::Val(c.a & mk)],
                    Debug => { return if r.map_or(true, |r| self.render(c, 0, true).map_or(true, |t| r.text.as_deref() == Some(&t[..]) || !r.ok)) { vec![s] } else { vec![] } }
                    Ser => { let Some(r) = r else { return vec![s] }; return if !r.ok || is_nan(c.ty, r.val) { vec![s] } else { vec![] } }
                    _ => qnan(c.ty),
                },
            },
        };
        let me = |x: u128| vec![St::Val(x)];
        match c.op {
            Wait => if r.is_some() && v == c.a & mk { vec![] } else { me(v) },
            Load | FpLoad | BitsLoad | GetMutRead | RawRead | IntoInner => me(v),
            Debug => {
                match r {
                    None => vec![s],
                    Some(r) if !r.ok => vec![s],
                    Some(r) => if self.render(c, v, false).map_or(true, |t| r.text.as_deref() == Some(&t[..])) { vec![s] } else { vec![] },
                }
            }
            Ser => match r { Some(r) if r.ok && r.val != v => vec![], _ => vec![s] },
            De => match r { Some(r) if !r.ok => vec![s], _ => me(c.a & mk) },
            Cas | CasW | FpCas => {
                let m = v == c.a & mk;
                match r {
                    Some(r) if r.ok => if m { me(c.b & mk) } else { vec![] },
                    Some(_) => if m && c.op != CasW { vec![] } else { me(v) },
                    None => if m { me(c.b & mk) } else { me(v) },
                }
            }
            FetchUpdate => match r {
                Some(r) => {
                    let Some(last) = clo.last() else { return vec![] };
                    if last.0 & mk != v { return vec![]; }
                    match (last.1, r.ok) {
                        (Some(n), true) => me(n & mk),
                        (None, false) => me(v),
                        _ => vec![],
                    }
                }
                None => {
                    let mut o = vec![s];
                    if let Some((x, Some(n))) = clo.last() { if *x & mk == v { o.push(St::Val(*n & mk)); } }
                    o
                }
            },
            BitSet | BitClear | BitToggle => {
                if let Some(r) = r { if r.ok != (v >> (c.a as u32 % bits) & 1 != 0) { return vec![]; } }
                me(self.rmw(c, v).unwrap())
            }
            FetchAdd | FetchSub | FetchMax | FetchMin | FpFetchAdd if c.ty.is_float() => fbin(c.ty, c.op, v, c.a & mk),
            FetchNeg if c.ty.is_float() => me(v ^ 1 << (bits - 1)),
            FetchAbs => me(v & !(1 << (bits - 1))),
            Default => me(0),
            _ => match self.rmw(c, v) { Some(n) => me(n), None => vec![s] },
        }
    }
    /// Debug output the documentation promises: the value's own Debug output.
    pub fn render(&self, c: &Call, v: u128, anynan: bool) -> Option<Vec<u8>> {
        macro_rules! f { ($x:expr) => { match c.fmt { 1 => format!("{:x?}", $x), 2 => format!("{:#?}", $x), 3 => format!("{:+?}", $x), 4 => format!("{:>12?}", $x), 5 => format!("{:.2?}", $x), 6 => format!("{:#010X?}", $x), _ => format!("{:?}", $x) } }; }
        let s = match c.ty {
            _ if anynan => f!(f64::NAN),
            I8 => f!(v as i8), U8 => f!(v as u8), I16 => f!(v as i16), U16 => f!(v as u16), I32 => f!(v as i32), U32 => f!(v as u32),
            I64 => f!(v as i64), U64 => f!(v as u64), I128 => f!(v as i128), U128 => f!(v),
            Isize => match self.word { 8 => f!(v as i64), 4 => f!(v as i32), _ => f!(v as i16) },
            Usize => match self.word { 8 => f!(v as u64), 4 => f!(v as u32), _ => f!(v as u16) },
            F32 => f!(f32::from_bits(v as u32)), F64 => f!(f64::from_bits(v as u64)),
            Bool => f!(v != 0),
            Ptr if (4..7).contains(&c.fmt) => f!(v as usize as *const u8),
            Ptr => match c.fmt { 2 | 8 => format!("0x{:0w$x}", v, w = self.word as usize * 2), 3 => format!("+0x{v:x}"), _ => format!("0x{v:x}") },
            Misc | F16 | F128 => return None,
        };
        Some(s.into_bytes())
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn soft_add_agrees_with_the_host() {
        let mut r = Rng::new(7);
        for i in 0..4_000_000u64 {
            let f = |r: &mut Rng, m: u64, e: u64, w: u64| { let mut v = r.next(); if i & 1 != 0 { v = v & !(e << m) | (e / 2 + r.below(8)) << m } if i & 6 == 6 { v &= !(e << m) | r.below(3) << m } if i & 24 == 24 { v &= !0 << r.below(m) } v & (!0 >> (64 - w)) };
            let (a, b) = (f(&mut r, 23, 255, 32), f(&mut r, 23, 255, 32));
            let h = f32::from_bits(a as u32) + f32::from_bits(b as u32);
            assert_eq!(soft_add(F32, a as u128, b as u128), if h.is_nan() { None } else { Some(h.to_bits() as u128) }, "{a:x} {b:x}");
            let (a, b) = (f(&mut r, 52, 2047, 64), f(&mut r, 52, 2047, 64));
            let h = f64::from_bits(a) + f64::from_bits(b);
            assert_eq!(soft_add(F64, a as u128, b as u128), if h.is_nan() { None } else { Some(h.to_bits() as u128) }, "{a:x} {b:x}");
        }
    }
}
