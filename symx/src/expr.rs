//! Hash-consed bit-vector terms with a simplifying constructor per operator.
use crate::ir::{mask, sext, B, P};
use std::cell::RefCell;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_isize(&mut self, x: isize) {
        self.write_u64(x as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type E = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum N {
    Const(u128),
    Var(u32),
    Bin(B, E, E),
    Cmp(P, E, E), // Eq, Ult, Ule, Slt, Sle only
    Extract(E, u32),
    Concat(E, E), // hi, lo
    Zext(E),
    Sext(E),
    Ite(E, E, E),
    Table(u32, E),
    /// floating point on the IEEE bits (32 or 64 wide); the second operand of a
    /// unary operator repeats the first
    Fp(F, E, E),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum F {
    Add,
    Sub,
    Mul,
    Div,
    Sqrt,
    Lt,
    Le,
    Eq,
    FromU,
    FromS,
    /// only meaningful when the truncated value fits
    ToU,
    ToS,
    Cvt,
    Floor,
    Ceil,
    Trunc,
    Even,
    Away,
}

pub struct Node {
    pub n: N,
    pub w: u32,
    pub lo: u128,
    pub hi: u128,
    pub vars: Rc<[u32]>,
}

#[derive(Default)]
pub struct Arena {
    pub nodes: Vec<Node>,
    map: FxMap<(N, u32), E>,
    /// tables: value at each byte offset (entry width = node width)
    pub tables: Vec<Rc<Vec<u64>>>,
    tmap: HashMap<Rc<Vec<u64>>, u32>,
    empty: Option<Rc<[u32]>>,
}

thread_local! {
    pub static A: RefCell<Arena> = RefCell::new(Arena::default());
    /// floating point terms exist
    pub static FLT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn with<R>(f: impl FnOnce(&Arena) -> R) -> R {
    A.with(|a| f(&a.borrow()))
}
pub fn node(e: E) -> (N, u32) {
    with(|a| (a.nodes[e as usize].n.clone(), a.nodes[e as usize].w))
}
pub fn width(e: E) -> u32 {
    with(|a| a.nodes[e as usize].w)
}
pub fn range(e: E) -> (u128, u128) {
    with(|a| (a.nodes[e as usize].lo, a.nodes[e as usize].hi))
}
pub fn vars(e: E) -> Rc<[u32]> {
    with(|a| a.nodes[e as usize].vars.clone())
}
pub fn nnodes() -> usize {
    with(|a| a.nodes.len())
}
pub fn is_const(e: E) -> Option<u128> {
    with(|a| match a.nodes[e as usize].n {
        N::Const(v) => Some(v),
        _ => None,
    })
}

fn union(a: &Rc<[u32]>, b: &Rc<[u32]>) -> Rc<[u32]> {
    if Rc::ptr_eq(a, b) || b.is_empty() {
        return a.clone();
    }
    if a.is_empty() || a == b {
        return b.clone();
    }
    let mut o = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i] < b[j]) {
            o.push(a[i]);
            i += 1;
        } else if i >= a.len() || b[j] < a[i] {
            o.push(b[j]);
            j += 1;
        } else {
            o.push(a[i]);
            i += 1;
            j += 1;
        }
    }
    if o.len() == a.len() {
        return a.clone();
    }
    if o.len() == b.len() {
        return b.clone();
    }
    o.into()
}

thread_local! {
    /// set when an operation on more than 128 bits could not be represented
    pub static WIDE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

fn umul256(a: u128, b: u128) -> (u128, u128) {
    let m = u64::MAX as u128;
    let (ah, al, bh, bl) = (a >> 64, a & m, b >> 64, b & m);
    let ll = al * bl;
    let t = ah * bl + (ll >> 64);
    let u = al * bh + (t & m);
    (ah * bh + (t >> 64) + (u >> 64), (u << 64) | (ll & m))
}

/// Operations on more than 128 bits: only what the formatting of u128 needs,
/// (zext(x) * c) >> s, either on constants or as an exact division.
fn wide_bin(op: B, a: E, b: E, w: u32) -> E {
    let (ca, cb) = (is_const(a), is_const(b));
    match op {
        B::Mul => {
            if let (Some(x), Some(y)) = (ca, cb) {
                let (h, l) = umul256(x, y);
                if h == 0 {
                    return cst(l, w);
                }
            }
            let (a, b) = if ca.is_some() && cb.is_none() { (b, a) } else { (a, b) };
            let ok = |e: E| match node(e).0 {
                N::Const(_) => true,
                N::Zext(x) => width(x) <= 128,
                _ => false,
            };
            if w == 256 && ok(a) && ok(b) {
                return mk(N::Bin(B::Mul, a, b), w);
            }
        }
        B::LShr => {
            if let (N::Bin(B::Mul, x, c), Some(s)) = (node(a).0, cb) {
                if let (Some(c), true) = (is_const(c), (128..256).contains(&s)) {
                    if let Some(v) = is_const(x) {
                        return cst(umul256(v, c).0 >> (s - 128), w);
                    }
                    // multiplication by a reciprocal: (x * c) >> s == x / d for every
                    // x < 2^128 when 0 <= c * d - 2^s <= 2^(s - 128)
                    let (mut lo, mut hi) = (1u128, u128::MAX);
                    while lo < hi {
                        // smallest d with c * d >= 2^s
                        let m = lo + (hi - lo) / 2;
                        if umul256(c, m).0 >= 1u128 << (s - 128) {
                            hi = m;
                        } else {
                            lo = m + 1;
                        }
                    }
                    let (h, l) = umul256(c, lo);
                    if h == 1u128 << (s - 128) && l <= 1u128 << (s - 128) {
                        if let N::Zext(y) = node(x).0 {
                            let y = zext(y, 128);
                            return zext(bin(B::UDiv, y, cst(lo, 128)), w);
                        }
                    }
                }
            }
        }
        _ => {}
    }
    WIDE.set(true);
    cst(0, w)
}

fn mk(n: N, w: u32) -> E {
    if w > 128 && !matches!(n, N::Const(_) | N::Zext(_) | N::Bin(B::Mul, ..)) {
        WIDE.set(true);
    }
    A.with(|a| {
        let mut a = a.borrow_mut();
        if let Some(e) = a.map.get(&(n.clone(), w)) {
            return *e;
        }
        let empty = a.empty.get_or_insert_with(|| Vec::new().into()).clone();
        let full = mask(u128::MAX, w);
        let (mut lo, mut hi) = (0u128, full);
        let g = |e: &E| &a.nodes[*e as usize];
        let vs = match &n {
            N::Const(v) => {
                lo = *v;
                hi = *v;
                empty
            }
            N::Var(v) => vec![*v].into(),
            N::Bin(op, x, y) => {
                let (x, y) = (g(x), g(y));
                match op {
                    B::And => hi = x.hi.min(y.hi),
                    B::Or => {
                        lo = x.lo.max(y.lo);
                        let m = x.hi.max(y.hi);
                        hi = if m == 0 { 0 } else { mask(u128::MAX, 128 - m.leading_zeros()) };
                    }
                    B::Xor => {
                        let m = x.hi.max(y.hi);
                        hi = if m == 0 { 0 } else { mask(u128::MAX, 128 - m.leading_zeros()) };
                    }
                    B::Add => {
                        if let Some(h) = x.hi.checked_add(y.hi) {
                            if h <= full {
                                lo = x.lo + y.lo;
                                hi = h;
                            } else if let Some(l) = x.lo.checked_add(y.lo) {
                                // both ends wrap exactly once
                                if l > full && w < 127 && h >> w == 1 {
                                    lo = l & full;
                                    hi = h & full;
                                }
                            }
                        }
                    }
                    B::Sub => {
                        if x.lo >= y.hi {
                            lo = x.lo - y.hi;
                            hi = x.hi - y.lo;
                        }
                    }
                    B::Mul => {
                        if let Some(h) = x.hi.checked_mul(y.hi) {
                            if h <= full {
                                lo = x.lo * y.lo;
                                hi = h;
                            }
                        }
                    }
                    B::UDiv => {
                        if y.lo > 0 {
                            lo = x.lo / y.hi;
                            hi = x.hi / y.lo;
                        }
                    }
                    B::URem => {
                        if y.lo > 0 {
                            hi = x.hi.min(y.hi - 1);
                        }
                    }
                    B::LShr => {
                        if y.lo == y.hi && y.lo < 128 {
                            lo = x.lo >> y.lo;
                            hi = x.hi >> y.lo;
                        } else {
                            hi = x.hi;
                        }
                    }
                    _ => {}
                }
                union(&x.vars, &y.vars)
            }
            N::Cmp(_, x, y) | N::Fp(_, x, y) => union(&g(x).vars, &g(y).vars),
            N::Extract(x, l) => {
                let x = g(x);
                if *l == 0 && x.hi <= full {
                    lo = x.lo;
                    hi = x.hi;
                } else if *l > 0 && (x.hi >> *l) <= full {
                    lo = x.lo >> *l;
                    hi = x.hi >> *l;
                }
                x.vars.clone()
            }
            N::Concat(x, y) => {
                let (x, y) = (g(x), g(y));
                lo = (x.lo << y.w) + y.lo;
                hi = (x.hi << y.w) + y.hi;
                union(&x.vars, &y.vars)
            }
            N::Zext(x) => {
                lo = g(x).lo;
                hi = g(x).hi;
                g(x).vars.clone()
            }
            N::Sext(x) => {
                let x = g(x);
                if x.hi < 1u128 << (x.w - 1) {
                    lo = x.lo;
                    hi = x.hi;
                }
                x.vars.clone()
            }
            N::Ite(c, x, y) => {
                lo = g(x).lo.min(g(y).lo);
                hi = g(x).hi.max(g(y).hi);
                let t = union(&g(c).vars, &g(x).vars);
                union(&t, &g(y).vars)
            }
            N::Table(t, x) => {
                let t = &a.tables[*t as usize];
                lo = *t.iter().min().unwrap() as u128;
                hi = *t.iter().max().unwrap() as u128;
                g(x).vars.clone()
            }
        };
        let e = a.nodes.len() as E;
        a.nodes.push(Node { n: n.clone(), w, lo, hi, vars: vs });
        a.map.insert((n, w), e);
        e
    })
}

pub fn cst(v: u128, w: u32) -> E {
    mk(N::Const(mask(v, w)), w)
}
pub fn var(i: u32) -> E {
    mk(N::Var(i), 8)
}
pub fn tru() -> E {
    cst(1, 1)
}
pub fn fls() -> E {
    cst(0, 1)
}

fn ckd(e: E, w: u32) -> E {
    // a node whose range is a single value is that value
    let (lo, hi) = range(e);
    if lo == hi {
        cst(lo, w)
    } else {
        e
    }
}

/// concrete semantics
pub fn ev_bin(op: B, a: u128, b: u128, w: u32) -> u128 {
    let r = match op {
        B::Add => a.wrapping_add(b),
        B::Sub => a.wrapping_sub(b),
        B::Mul => a.wrapping_mul(b),
        B::UDiv => {
            if b == 0 {
                u128::MAX
            } else {
                a / b
            }
        }
        B::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        B::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    u128::MAX
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        B::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        B::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        B::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        B::AShr => {
            let x = sext(a, w);
            (if b >= w as u128 { if x < 0 { -1 } else { 0 } } else { x >> b }) as u128
        }
        B::And => a & b,
        B::Or => a | b,
        B::Xor => a ^ b,
    };
    mask(r, w)
}
pub fn ev_cmp(p: P, a: u128, b: u128, w: u32) -> bool {
    match p {
        P::Eq => a == b,
        P::Ne => a != b,
        P::Ult => a < b,
        P::Ule => a <= b,
        P::Ugt => a > b,
        P::Uge => a >= b,
        P::Slt => sext(a, w) < sext(b, w),
        P::Sle => sext(a, w) <= sext(b, w),
        P::Sgt => sext(a, w) > sext(b, w),
        P::Sge => sext(a, w) >= sext(b, w),
    }
}

/// A floating point operation on IEEE bits; `xw` is the width of the operands, `w` of
/// the result.  Every NaN result is the canonical one.
pub fn ev_fp(op: F, x: u128, y: u128, xw: u32, w: u32) -> u128 {
    let b64 = |f: f64| (if f.is_nan() { f64::NAN.to_bits() & (u64::MAX >> 1) } else { f.to_bits() }) as u128;
    let b32 = |f: f32| (if f.is_nan() { f32::NAN.to_bits() & (u32::MAX >> 1) } else { f.to_bits() }) as u128;
    match op {
        F::FromU => return if w == 64 { b64(x as f64) } else { b32(x as f32) },
        F::FromS => return if w == 64 { b64(sext(x, xw) as f64) } else { b32(sext(x, xw) as f32) },
        F::Cvt if xw == 32 => return b64(f32::from_bits(x as u32) as f64),
        F::Cvt => return b32(f64::from_bits(x as u64) as f32),
        _ => {}
    }
    macro_rules! go {
        ($f:expr, $g:expr, $b:expr) => {{
            let (f, g) = ($f, $g);
            match op {
                F::Add => $b(f + g),
                F::Sub => $b(f - g),
                F::Mul => $b(f * g),
                F::Div => $b(f / g),
                F::Sqrt => $b(f.sqrt()),
                F::Lt => (f < g) as u128,
                F::Le => (f <= g) as u128,
                F::Eq => (f == g) as u128,
                F::ToU => mask(f as u128, w),
                F::ToS => mask(f as i128 as u128, w),
                F::Floor => $b(f.floor()),
                F::Ceil => $b(f.ceil()),
                F::Trunc => $b(f.trunc()),
                F::Even => $b(f.round_ties_even()),
                F::Away => $b(f.round()),
                F::FromU | F::FromS | F::Cvt => unreachable!(),
            }
        }};
    }
    if xw == 64 {
        go!(f64::from_bits(x as u64), f64::from_bits(y as u64), b64)
    } else {
        go!(f32::from_bits(x as u32), f32::from_bits(y as u32), b32)
    }
}
pub fn fp(op: F, a: E, b: E, w: u32) -> E {
    if let (Some(x), Some(y)) = (is_const(a), is_const(b)) {
        return cst(ev_fp(op, x, y, width(a), w), w);
    }
    FLT.set(true);
    mk(N::Fp(op, a, b), w)
}

pub fn not(e: E) -> E {
    let (n, w) = node(e);
    if w == 1 {
        match n {
            N::Cmp(P::Ult, a, b) => return mk(N::Cmp(P::Ule, b, a), 1),
            N::Cmp(P::Ule, a, b) => return mk(N::Cmp(P::Ult, b, a), 1),
            N::Cmp(P::Slt, a, b) => return mk(N::Cmp(P::Sle, b, a), 1),
            N::Cmp(P::Sle, a, b) => return mk(N::Cmp(P::Slt, b, a), 1),
            N::Ite(c, a, b) if is_const(a).is_some() || is_const(b).is_some() => return ite(c, not(a), not(b)),
            _ => {}
        }
    }
    bin(B::Xor, e, cst(u128::MAX, w))
}

fn trailing_ones(c: u128) -> Option<u32> {
    if c != 0 && c & c.wrapping_add(1) == 0 {
        Some(128 - c.leading_zeros())
    } else {
        None
    }
}

pub fn bin(op: B, mut a: E, mut b: E) -> E {
    let w = width(a);
    debug_assert_eq!(w, width(b), "{:?}", op);
    if w > 128 {
        return wide_bin(op, a, b, w);
    }
    let (mut ca, mut cb) = (is_const(a), is_const(b));
    if let (Some(x), Some(y)) = (ca, cb) {
        return cst(ev_bin(op, x, y, w), w);
    }
    let comm = matches!(op, B::Add | B::Mul | B::And | B::Or | B::Xor);
    if comm && (ca.is_some() || (cb.is_none() && a > b)) {
        std::mem::swap(&mut a, &mut b);
        std::mem::swap(&mut ca, &mut cb);
    }
    let full = mask(u128::MAX, w);
    match op {
        B::Sub => {
            if a == b {
                return cst(0, w);
            }
            if let Some(y) = cb {
                return bin(B::Add, a, cst(y.wrapping_neg(), w));
            }
            if let (N::Bin(B::Add, x, k), _) = node(a) {
                if x == b {
                    return k;
                }
                if k == b {
                    return x;
                }
            }
        }
        B::Add => {
            if cb == Some(0) {
                return a;
            }
            if w == 1 {
                return bin(B::Xor, a, b);
            }
            if let Some(y) = cb {
                if let (N::Bin(B::Add, x, k), _) = node(a) {
                    if let Some(kv) = is_const(k) {
                        return bin(B::Add, x, cst(kv.wrapping_add(y), w));
                    }
                }
                if let (N::Ite(c, p, q), _) = node(a) {
                    if is_const(p).is_some() && is_const(q).is_some() {
                        return ite(c, bin(B::Add, p, b), bin(B::Add, q, b));
                    }
                }
            }
        }
        B::Mul => {
            if let Some(y) = cb {
                if y == 0 {
                    return cst(0, w);
                }
                if y == 1 {
                    return a;
                }
                if y.is_power_of_two() {
                    return bin(B::Shl, a, cst(y.trailing_zeros() as u128, w));
                }
            }
        }
        B::And => {
            if a == b {
                return a;
            }
            if let Some(y) = cb {
                if y == 0 {
                    return cst(0, w);
                }
                if y == full {
                    return a;
                }
                if let Some(k) = trailing_ones(y) {
                    return zext(extract(a, 0, k), w);
                }
                let tz = y.trailing_zeros();
                if tz > 0 {
                    if let Some(k) = trailing_ones(y >> tz) {
                        // contiguous field
                        let mid = extract(a, tz, k);
                        let lowp = concat(mid, cst(0, tz));
                        return zext(lowp, w);
                    }
                }
                if let (N::Ite(c, p, q), _) = node(a) {
                    if is_const(p).is_some() && is_const(q).is_some() {
                        return ite(c, bin(B::And, p, b), bin(B::And, q, b));
                    }
                }
                if let (N::Zext(x), _) = node(a) {
                    let xw = width(x);
                    return zext(bin(B::And, x, cst(y, xw)), w);
                }
                if let (N::Bin(B::And, x, k), _) = node(a) {
                    if let Some(kv) = is_const(k) {
                        return bin(B::And, x, cst(kv & y, w));
                    }
                }
            }
            if w == 1 {
                if not(a) == b {
                    return fls();
                }
                // absorption
                if let (N::Bin(B::And, x, y), _) = node(b) {
                    if x == a || y == a {
                        return b;
                    }
                }
                if let (N::Bin(B::And, x, y), _) = node(a) {
                    if x == b || y == b {
                        return a;
                    }
                }
            }
        }
        B::Or => {
            if a == b {
                return a;
            }
            if let Some(y) = cb {
                if y == 0 {
                    return a;
                }
                if y == full {
                    return b;
                }
                if let (N::Ite(c, p, q), _) = node(a) {
                    if is_const(p).is_some() && is_const(q).is_some() {
                        return ite(c, bin(B::Or, p, b), bin(B::Or, q, b));
                    }
                }
            }
            if w == 1 && not(a) == b {
                return tru();
            }
            // disjoint fields: hi part | low part
            for (x, y) in [(a, b), (b, a)] {
                if let (N::Concat(h, l), _) = node(x) {
                    let lw = width(l);
                    if is_const(l) == Some(0) && range(y).1 <= mask(u128::MAX, lw) {
                        return concat(h, extract(y, 0, lw));
                    }
                }
                if let (N::Zext(z), _) = node(x) {
                    if let (N::Concat(h, l), zw) = node(z) {
                        let lw = width(l);
                        if is_const(l) == Some(0) && range(y).1 <= mask(u128::MAX, lw) {
                            let _ = zw;
                            return zext(concat(h, extract(y, 0, lw)), w);
                        }
                    }
                }
            }
        }
        B::Xor => {
            if a == b {
                return cst(0, w);
            }
            if let Some(y) = cb {
                if y == 0 {
                    return a;
                }
                if let (N::Bin(B::Xor, x, k), _) = node(a) {
                    if let Some(kv) = is_const(k) {
                        return bin(B::Xor, x, cst(kv ^ y, w));
                    }
                }
                if let (N::Ite(c, p, q), _) = node(a) {
                    if is_const(p).is_some() && is_const(q).is_some() {
                        return ite(c, bin(B::Xor, p, b), bin(B::Xor, q, b));
                    }
                }
                if w == 1 {
                    match node(a).0 {
                        N::Cmp(P::Ult, x, y) => return mk(N::Cmp(P::Ule, y, x), 1),
                        N::Cmp(P::Ule, x, y) => return mk(N::Cmp(P::Ult, y, x), 1),
                        N::Cmp(P::Slt, x, y) => return mk(N::Cmp(P::Sle, y, x), 1),
                        N::Cmp(P::Sle, x, y) => return mk(N::Cmp(P::Slt, y, x), 1),
                        _ => {}
                    }
                }
            }
        }
        B::Shl => {
            if let Some(k) = cb {
                if k == 0 {
                    return a;
                }
                if k >= w as u128 {
                    return cst(0, w);
                }
                let k = k as u32;
                return concat(extract(a, 0, w - k), cst(0, k));
            }
        }
        B::LShr => {
            if let Some(k) = cb {
                if k == 0 {
                    return a;
                }
                if k >= w as u128 {
                    return cst(0, w);
                }
                let k = k as u32;
                return zext(extract(a, k, w - k), w);
            }
        }
        B::AShr => {
            if let Some(k) = cb {
                if k == 0 {
                    return a;
                }
                if range(a).1 < 1u128 << (w - 1) {
                    return bin(B::LShr, a, b);
                }
                let k = (k as u32).min(w - 1);
                return sextend(extract(a, k, w - k), w);
            }
        }
        B::UDiv => {
            if let Some(k) = cb {
                if k == 1 {
                    return a;
                }
                if k.is_power_of_two() {
                    return bin(B::LShr, a, cst(k.trailing_zeros() as u128, w));
                }
                let (_, hi) = range(a);
                if hi < k {
                    return cst(0, w);
                }
                // divide at the narrowest width that holds both
                let nw = (128 - hi.max(k).leading_zeros()).max(1);
                if nw < w {
                    return zext(mk(N::Bin(op, extract(a, 0, nw), cst(k, nw)), nw), w);
                }
            }
        }
        B::URem => {
            if let Some(k) = cb {
                if k.is_power_of_two() {
                    return bin(B::And, a, cst(k - 1, w));
                }
                let (_, hi) = range(a);
                if hi < k {
                    return a;
                }
                let nw = (128 - hi.max(k).leading_zeros()).max(1);
                if nw < w {
                    return zext(mk(N::Bin(op, extract(a, 0, nw), cst(k, nw)), nw), w);
                }
            }
        }
        B::SDiv | B::SRem => {
            let top = 1u128 << (w - 1);
            if range(a).1 < top && range(b).1 < top {
                return bin(if op == B::SDiv { B::UDiv } else { B::URem }, a, b);
            }
        }
    }
    let e = mk(N::Bin(op, a, b), w);
    ckd(e, w)
}

pub fn cmp(p: P, a: E, b: E) -> E {
    let w = width(a);
    debug_assert_eq!(w, width(b));
    match p {
        P::Ne => return not(cmp(P::Eq, a, b)),
        P::Ugt => return cmp(P::Ult, b, a),
        P::Uge => return cmp(P::Ule, b, a),
        P::Sgt => return cmp(P::Slt, b, a),
        P::Sge => return cmp(P::Sle, b, a),
        _ => {}
    }
    if w > 128 {
        let plain = |e: E| matches!(node(e).0, N::Const(_) | N::Zext(_));
        if !plain(a) || !plain(b) || matches!(p, P::Slt | P::Sle) {
            WIDE.set(true);
            return fls();
        }
    }
    let (ca, cb) = (is_const(a), is_const(b));
    if let (Some(x), Some(y)) = (ca, cb) {
        return cst(ev_cmp(p, x, y, w) as u128, 1);
    }
    let (al, ah) = range(a);
    let (bl, bh) = range(b);
    if a == b {
        return cst(matches!(p, P::Eq | P::Ule | P::Sle) as u128, 1);
    }
    match p {
        P::Eq => {
            if ah < bl || bh < al {
                return fls();
            }
            if ca.is_some() {
                return cmp(P::Eq, b, a);
            }
            if let Some(k) = cb {
                if w == 1 {
                    return if k == 1 { a } else { not(a) };
                }
                match node(a).0 {
                    N::Zext(x) => {
                        let xw = width(x);
                        return if k > mask(u128::MAX, xw) { fls() } else { cmp(P::Eq, x, cst(k, xw)) };
                    }
                    N::Sext(x) => {
                        let xw = width(x);
                        let t = mask(k, xw);
                        return if mask(sext(t, xw) as u128, w) == k { cmp(P::Eq, x, cst(t, xw)) } else { fls() };
                    }
                    N::Bin(B::Add, x, y) => {
                        if let Some(c) = is_const(y) {
                            return cmp(P::Eq, x, cst(k.wrapping_sub(c), w));
                        }
                    }
                    N::Bin(B::Sub, x, y) if k == 0 => return cmp(P::Eq, x, y),
                    N::Table(t, x) => {
                        // which indices hold the value, when that is a few intervals
                        let vals = with(|a| a.tables[t as usize].clone());
                        let (xl, xh) = range(x);
                        if xh < vals.len() as u128 {
                            let mut runs: Vec<(u128, u128)> = vec![];
                            for i in xl..=xh {
                                if vals[i as usize] as u128 == k {
                                    match runs.last_mut() {
                                        Some(r) if r.1 + 1 == i => r.1 = i,
                                        _ => runs.push((i, i)),
                                    }
                                }
                            }
                            if runs.len() <= 6 {
                                let xw = width(x);
                                let mut r = fls();
                                for (lo, hi) in runs {
                                    let c = if lo == hi {
                                        cmp(P::Eq, x, cst(lo, xw))
                                    } else {
                                        let l = cmp(P::Ule, cst(lo, xw), x);
                                        let h = cmp(P::Ule, x, cst(hi, xw));
                                        bin(B::And, l, h)
                                    };
                                    r = bin(B::Or, r, c);
                                }
                                return r;
                            }
                        }
                    }
                    N::Bin(B::Xor, x, y) => {
                        if let Some(c) = is_const(y) {
                            return cmp(P::Eq, x, cst(k ^ c, w));
                        }
                        if k == 0 {
                            return cmp(P::Eq, x, y);
                        }
                    }
                    N::Bin(B::Or, x, y) if k == 0 => {
                        return bin(B::And, cmp(P::Eq, x, b), cmp(P::Eq, y, b));
                    }
                    N::Concat(h, l) => {
                        let lw = width(l);
                        return bin(B::And, cmp(P::Eq, h, cst(k >> lw, w - lw)), cmp(P::Eq, l, cst(k, lw)));
                    }
                    N::Ite(c, x, y) => {
                        let (kx, ky) = (is_const(x), is_const(y));
                        if kx.is_some() || ky.is_some() {
                            let ex = cmp(P::Eq, x, b);
                            let ey = cmp(P::Eq, y, b);
                            return ite(c, ex, ey);
                        }
                    }
                    _ => {}
                }
            } else {
                if let (N::Zext(x), N::Zext(y)) = (node(a).0, node(b).0) {
                    if width(x) == width(y) {
                        return cmp(P::Eq, x, y);
                    }
                }
                if let (N::Concat(h, l), N::Concat(h2, l2)) = (node(a).0, node(b).0) {
                    if width(l) == width(l2) {
                        return bin(B::And, cmp(P::Eq, h, h2), cmp(P::Eq, l, l2));
                    }
                }
                if a > b {
                    return mk(N::Cmp(P::Eq, b, a), 1);
                }
            }
        }
        P::Ult => {
            if ah < bl {
                return tru();
            }
            if al >= bh {
                return fls();
            }
            if cb == Some(1) {
                return cmp(P::Eq, a, cst(0, w));
            }
            if ca == Some(0) {
                return not(cmp(P::Eq, b, a));
            }
            if w > 1 && ca.map(|x| x == mask(u128::MAX, w) - 1).unwrap_or(false) {
                return cmp(P::Eq, b, cst(u128::MAX, w));
            }
            if let Some(r) = narrow(p, a, b) {
                return r;
            }
        }
        P::Ule => {
            if ah <= bl {
                return tru();
            }
            if al > bh {
                return fls();
            }
            if cb == Some(0) {
                return cmp(P::Eq, a, b);
            }
            // x <= k  ==  x < k+1
            if let Some(k) = cb {
                if k < mask(u128::MAX, w) {
                    return cmp(P::Ult, a, cst(k + 1, w));
                }
            }
            if let Some(k) = ca {
                if k > 0 {
                    return cmp(P::Ult, cst(k - 1, w), b);
                }
            }
            if let Some(r) = narrow(p, a, b) {
                return r;
            }
        }
        P::Slt | P::Sle => {
            let top = 1u128 << (w - 1);
            if ah < top && bh < top {
                return cmp(if p == P::Slt { P::Ult } else { P::Ule }, a, b);
            }
            if al >= top && bl >= top {
                return cmp(if p == P::Slt { P::Ult } else { P::Ule }, a, b);
            }
            if ah < top && bl >= top {
                return fls();
            }
            if al >= top && bh < top {
                return tru();
            }
            if w > 1 && ((p == P::Slt && cb == Some(0)) || (p == P::Sle && cb == Some(mask(u128::MAX, w)))) {
                return extract(a, w - 1, 1);
            }
            if w > 1 && ((p == P::Sle && ca == Some(0)) || (p == P::Slt && ca == Some(mask(u128::MAX, w)))) {
                return not(extract(b, w - 1, 1));
            }
            if let (N::Sext(x), Some(k)) = (node(a).0, cb) {
                let xw = width(x);
                let t = mask(k, xw);
                if mask(sext(t, xw) as u128, w) == k {
                    return cmp(p, x, cst(t, xw));
                }
            }
            if let (N::Sext(x), Some(k)) = (node(b).0, ca) {
                let xw = width(x);
                let t = mask(k, xw);
                if mask(sext(t, xw) as u128, w) == k {
                    return cmp(p, cst(t, xw), x);
                }
            }
            if let (N::Ite(c, x, y), Some(_)) = (node(a).0, cb) {
                if is_const(x).is_some() || is_const(y).is_some() {
                    return ite(c, cmp(p, x, b), cmp(p, y, b));
                }
            }
            if let (N::Ite(c, x, y), Some(_)) = (node(b).0, ca) {
                if is_const(x).is_some() || is_const(y).is_some() {
                    return ite(c, cmp(p, a, x), cmp(p, a, y));
                }
            }
        }
        _ => {}
    }
    mk(N::Cmp(p, a, b), 1)
}

fn narrow(p: P, a: E, b: E) -> Option<E> {
    // unsigned comparison of zero-extended terms at the narrower width
    let (na, nb) = (node(a).0, node(b).0);
    match (&na, &nb) {
        (N::Zext(x), N::Zext(y)) if width(*x) == width(*y) => Some(cmp(p, *x, *y)),
        (N::Zext(x), N::Const(k)) => {
            let xw = width(*x);
            if *k <= mask(u128::MAX, xw) {
                Some(cmp(p, *x, cst(*k, xw)))
            } else {
                Some(tru())
            }
        }
        (N::Const(k), N::Zext(y)) => {
            let yw = width(*y);
            if *k <= mask(u128::MAX, yw) {
                Some(cmp(p, cst(*k, yw), *y))
            } else {
                Some(fls())
            }
        }
        (N::Ite(c, x, y), N::Const(_)) if is_const(*x).is_some() || is_const(*y).is_some() => Some(ite(*c, cmp(p, *x, b), cmp(p, *y, b))),
        (N::Const(_), N::Ite(c, x, y)) if is_const(*x).is_some() || is_const(*y).is_some() => Some(ite(*c, cmp(p, a, *x), cmp(p, a, *y))),
        _ => None,
    }
}

pub fn extract(a: E, lo: u32, w: u32) -> E {
    let (n, aw) = node(a);
    debug_assert!(lo + w <= aw && w > 0, "extract {} {} of {}", lo, w, aw);
    if lo == 0 && w == aw {
        return a;
    }
    match n {
        N::Const(v) => return cst(if lo < 128 { v >> lo } else { 0 }, w),
        N::Bin(..) if aw > 128 => {
            WIDE.set(true);
            return cst(0, w);
        }
        N::Extract(x, l) => return extract(x, l + lo, w),
        N::Concat(h, l) => {
            let lw = width(l);
            if lo >= lw {
                return extract(h, lo - lw, w);
            }
            if lo + w <= lw {
                return extract(l, lo, w);
            }
            return concat(extract(h, 0, lo + w - lw), extract(l, lo, lw - lo));
        }
        N::Zext(x) => {
            let xw = width(x);
            if lo >= xw {
                return cst(0, w);
            }
            if lo + w <= xw {
                return extract(x, lo, w);
            }
            return zext(extract(x, lo, xw - lo), w);
        }
        N::Sext(x) => {
            let xw = width(x);
            if lo + w <= xw {
                return extract(x, lo, w);
            }
            if lo < xw {
                return sextend(extract(x, lo, xw - lo), w);
            }
            return sextend(extract(x, xw - 1, 1), w);
        }
        N::Ite(c, x, y) => {
            if is_const(x).is_some() || is_const(y).is_some() {
                return ite(c, extract(x, lo, w), extract(y, lo, w));
            }
        }
        N::Bin(op @ (B::And | B::Or | B::Xor), x, y) => {
            return bin(op, extract(x, lo, w), extract(y, lo, w));
        }
        N::Bin(op @ (B::Add | B::Sub | B::Mul), x, y) if lo == 0 => {
            return bin(op, extract(x, 0, w), extract(y, 0, w));
        }
        _ => {}
    }
    let e = mk(N::Extract(a, lo), w);
    ckd(e, w)
}

pub fn concat(h: E, l: E) -> E {
    let (nh, hw) = node(h);
    let (nl, lw) = node(l);
    let w = hw + lw;
    match (&nh, &nl) {
        (N::Const(0), N::Const(y)) => return cst(*y, w),
        _ if w > 128 && !matches!(nh, N::Const(0)) => {
            WIDE.set(true);
            return cst(0, w);
        }
        (N::Const(x), N::Const(y)) => return cst((x << lw) | y, w),
        (N::Const(0), _) => return zext(l, w),
        (N::Zext(x), _) => {
            let x = *x;
            return zext(concat(x, l), w);
        }
        _ => {}
    }
    // adjacent extracts of the same term
    let (hx, hl) = match nh {
        N::Extract(x, l) => (x, l),
        _ => (h, 0),
    };
    let (lx, ll) = match nl {
        N::Extract(x, l) => (x, l),
        _ => (l, 0),
    };
    if hx == lx && hl == ll + lw {
        return extract(lx, ll, w);
    }
    // right-nest: (a ++ b) ++ c => merge b ++ c when that folds
    if let N::Concat(a, b) = node(h).0 {
        let (bx, bl) = match node(b).0 {
            N::Extract(x, l) => (x, l),
            _ => (b, 0),
        };
        if (bx == lx && bl == ll + lw) || (is_const(b).is_some() && is_const(l).is_some()) {
            return concat(a, concat(b, l));
        }
    }
    if let N::Concat(b, c) = node(l).0 {
        let (bx, bl) = match node(b).0 {
            N::Extract(x, l) => (x, l),
            _ => (b, 0),
        };
        if (hx == bx && hl == bl + width(b)) || (is_const(b).is_some() && is_const(h).is_some()) {
            return concat(concat(h, b), c);
        }
    }
    mk(N::Concat(h, l), w)
}

pub fn zext(a: E, w: u32) -> E {
    let (n, aw) = node(a);
    if aw == w {
        return a;
    }
    debug_assert!(w > aw);
    match n {
        N::Const(v) => cst(v, w),
        N::Zext(x) => zext(x, w),
        _ => mk(N::Zext(a), w),
    }
}
pub fn sextend(a: E, w: u32) -> E {
    let (n, aw) = node(a);
    if aw == w {
        return a;
    }
    if w > 128 {
        WIDE.set(true);
        return cst(0, w);
    }
    match n {
        N::Const(v) => cst(sext(v, aw) as u128, w),
        N::Sext(x) => sextend(x, w),
        N::Zext(x) => zext(x, w),
        _ => {
            if range(a).1 < 1u128 << (aw - 1) {
                return zext(a, w);
            }
            if let N::Ite(c, x, y) = n {
                if is_const(x).is_some() && is_const(y).is_some() {
                    return ite(c, sextend(x, w), sextend(y, w));
                }
            }
            mk(N::Sext(a), w)
        }
    }
}
pub fn ite(c: E, a: E, b: E) -> E {
    if let Some(v) = is_const(c) {
        return if v == 1 { a } else { b };
    }
    if a == b {
        return a;
    }
    let w = width(a);
    if let N::Bin(B::Xor, x, k) = node(c).0 {
        if is_const(k) == Some(1) {
            return ite(x, b, a);
        }
    }
    let (ca, cb) = (is_const(a), is_const(b));
    if w == 1 {
        match (ca, cb) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return bin(B::Or, c, b),
            (Some(0), None) => return bin(B::And, not(c), b),
            (None, Some(0)) => return bin(B::And, c, a),
            (None, Some(1)) => return bin(B::Or, not(c), a),
            _ => {}
        }
        if a == c {
            return bin(B::Or, c, b);
        }
    }
    if let N::Ite(c2, x, _) = node(a).0 {
        if c2 == c {
            return ite(c, x, b);
        }
    }
    if let N::Ite(c2, x, y) = node(b).0 {
        if c2 == c {
            return ite(c, a, y);
        }
        if x == a && w > 1 {
            return ite(bin(B::Or, c, c2), a, y);
        }
    }
    if ca == Some(1) && cb == Some(0) {
        return zext(c, w);
    }
    if let (N::Zext(x), N::Zext(y)) = (node(a).0, node(b).0) {
        if width(x) == width(y) {
            return zext(ite(c, x, y), w);
        }
    }
    mk(N::Ite(c, a, b), w)
}

pub fn table(mut vals: Vec<u64>, mut idx: E, w: u32) -> E {
    // reduce the index to the term that really varies, so that equal look-ups
    // share one small table
    loop {
        let (_, hi) = range(idx);
        match node(idx).0 {
            N::Const(k) if (k as usize) < vals.len() => return cst(vals[k as usize] as u128, w),
            N::Zext(x) => idx = x,
            N::Bin(B::Add, x, k) => match is_const(k) {
                Some(k) if (k as usize) < vals.len() && range(x).1.checked_add(k).map(|h| h < vals.len() as u128).unwrap_or(false) => {
                    vals.drain(..k as usize);
                    idx = x;
                }
                _ => break,
            },
            N::Concat(h, l) if is_const(l).is_some() && width(l) < 16 && hi < vals.len() as u128 => {
                let (k, lw) = (is_const(l).unwrap() as usize, width(l));
                let top = range(h).1 as usize;
                vals = (0..=top).map(|i| vals[(i << lw) | k]).collect();
                idx = h;
            }
            _ => break,
        }
    }
    let (_, hi) = range(idx);
    if (hi as usize) < vals.len() {
        vals.truncate(hi as usize + 1);
    }
    let f = vals[0];
    if vals.iter().all(|v| *v == f) {
        return cst(f as u128, w);
    }
    let t = A.with(|a| {
        let mut a = a.borrow_mut();
        let r = Rc::new(vals);
        if let Some(t) = a.tmap.get(&r) {
            return *t;
        }
        let t = a.tables.len() as u32;
        a.tables.push(r.clone());
        a.tmap.insert(r, t);
        t
    });
    mk(N::Table(t, idx), w)
}

/// Trailing zero bits every value of `e` is known to have.
pub fn known_tz(e: E) -> u32 {
    match node(e) {
        (N::Const(v), w) => {
            if v == 0 {
                w
            } else {
                v.trailing_zeros()
            }
        }
        (N::Concat(_, l), _) => {
            let k = known_tz(l);
            k
        }
        (N::Zext(x), _) => known_tz(x),
        (N::Bin(B::Add, a, b), _) => known_tz(a).min(known_tz(b)),
        (N::Bin(B::Mul, a, b), _) => known_tz(a) + known_tz(b),
        (N::Ite(_, a, b), _) => known_tz(a).min(known_tz(b)),
        _ => 0,
    }
}

pub type Cache = FxMap<E, u128>;

/// Value of `e` under the byte assignment `m`.
pub fn eval(e: E, m: &[u8], cache: &mut Cache) -> u128 {
    with(|a| ev(a, e, m, cache))
}
fn ev(a: &Arena, e: E, m: &[u8], c: &mut Cache) -> u128 {
    let nd = &a.nodes[e as usize];
    let w = nd.w;
    match nd.n {
        N::Const(v) => return v,
        N::Var(i) => return m.get(i as usize).copied().unwrap_or(0) as u128,
        _ => {}
    }
    if let Some(v) = c.get(&e) {
        return *v;
    }
    let r = match nd.n {
        N::Const(_) | N::Var(_) => unreachable!(),
        N::Bin(op, x, y) => ev_bin(op, ev(a, x, m, c), ev(a, y, m, c), w),
        N::Cmp(p, x, y) => {
            let ww = a.nodes[x as usize].w;
            ev_cmp(p, ev(a, x, m, c), ev(a, y, m, c), ww) as u128
        }
        N::Fp(op, x, y) => {
            let ww = a.nodes[x as usize].w;
            ev_fp(op, ev(a, x, m, c), ev(a, y, m, c), ww, w)
        }
        N::Extract(x, lo) => mask(ev(a, x, m, c) >> lo, w),
        N::Concat(h, l) => {
            let lw = a.nodes[l as usize].w;
            (ev(a, h, m, c) << lw) | ev(a, l, m, c)
        }
        N::Zext(x) => ev(a, x, m, c),
        N::Sext(x) => {
            let xw = a.nodes[x as usize].w;
            mask(sext(ev(a, x, m, c), xw) as u128, w)
        }
        N::Ite(k, x, y) => {
            if ev(a, k, m, c) == 1 {
                ev(a, x, m, c)
            } else {
                ev(a, y, m, c)
            }
        }
        N::Table(t, x) => {
            let i = ev(a, x, m, c);
            a.tables[t as usize].get(i as usize).copied().unwrap_or(0) as u128
        }
    };
    c.insert(e, r);
    r
}
