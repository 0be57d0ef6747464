//! Reference model: plain trees, and independent definitions of what the
//! library has to do with them.
use crate::nd::*;
use std::cmp::Ordering;
use crate::tr::*;
use yason::*;

#[derive(Clone)]
pub enum J {
    Null,
    Bool(bool),
    Num(Number),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
pub use J::*;

pub fn s(x: &str) -> J {
    Str(x.to_string())
}
pub fn n(x: i64) -> J {
    Num(Number::from(x))
}
pub fn o<const N: usize>(e: [(&str, J); N]) -> J {
    Obj(e.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

impl J {
    pub fn ty(&self) -> DataType {
        match self {
            Null => DataType::Null,
            Bool(_) => DataType::Bool,
            Num(_) => DataType::Number,
            Str(_) => DataType::String,
            Arr(_) => DataType::Array,
            Obj(_) => DataType::Object,
        }
    }
}

/// Key order: length first, then bytes.
pub fn key_cmp(a: &str, b: &str) -> Ordering {
    a.len().cmp(&b.len()).then_with(|| a.as_bytes().cmp(b.as_bytes()))
}
pub fn key_order(e: &[(String, J)]) -> Vec<usize> {
    let mut v: Vec<usize> = Vec::with_capacity(e.len());
    for i in 0..e.len() {
        let mut p = v.len();
        while p > 0 && key_cmp(&e[v[p - 1]].0, &e[i].0) == Ordering::Greater {
            p -= 1;
        }
        v.insert(p, i);
    }
    v
}

// ---------------------------------------------------------------- numbers

/// Numerically equal, decided on the parts: no rounding involved.
pub fn num_same(a: &Number, b: &Number) -> bool {
    let (ai, asc, an) = a.into_parts();
    let (bi, bsc, bn) = b.into_parts();
    if ai == bi && asc == bsc && an == bn {
        return true;
    }
    if ai == 0 || bi == 0 {
        return ai == bi;
    }
    if an != bn {
        return false;
    }
    // bring both to the larger scale; overflow means different magnitudes
    let up = |mut v: u128, mut by: i32| -> Option<u128> {
        while by > 0 {
            v = v.checked_mul(10)?;
            by -= 1;
        }
        Some(v)
    };
    let m = asc.max(bsc) as i32;
    match (up(ai, m - asc as i32), up(bi, m - bsc as i32)) {
        (Some(x), Some(y)) => x == y,
        _ => false,
    }
}

// ---------------------------------------------------------------- building

pub fn put_arr<B: ArrBuilder>(b: &mut B, j: &J) {
    match j {
        Null => drop(b.push_null().unwrap()),
        Bool(x) => drop(b.push_bool(*x).unwrap()),
        Num(x) => drop(b.push_number(x).unwrap()),
        Str(x) => drop(b.push_string(x).unwrap()),
        Arr(v) => {
            let mut c = b.push_array(v.len() as u16).unwrap();
            for x in v {
                put_arr(&mut c, x);
            }
            c.finish().unwrap();
        }
        Obj(e) => {
            let mut c = b.push_object(e.len() as u16, false).unwrap();
            for (k, x) in e {
                put_obj(&mut c, k, x);
            }
            c.finish().unwrap();
        }
    }
}
pub fn put_obj<B: ObjBuilder>(b: &mut B, k: &str, j: &J) {
    match j {
        Null => drop(b.push_null(k).unwrap()),
        Bool(x) => drop(b.push_bool(k, *x).unwrap()),
        Num(x) => drop(b.push_number(k, x).unwrap()),
        Str(x) => drop(b.push_string(k, x).unwrap()),
        Arr(v) => {
            let mut c = b.push_array(k, v.len() as u16).unwrap();
            for x in v {
                put_arr(&mut c, x);
            }
            c.finish().unwrap();
        }
        Obj(e) => {
            let mut c = b.push_object(k, e.len() as u16, false).unwrap();
            for (k, x) in e {
                put_obj(&mut c, k, x);
            }
            c.finish().unwrap();
        }
    }
}
/// Builds the document with the owning builders, keys in the given order.
pub fn build(j: &J) -> YasonBuf {
    match j {
        Null => Scalar::null().unwrap(),
        Bool(x) => Scalar::bool(*x).unwrap(),
        Num(x) => Scalar::number(x).unwrap(),
        Str(x) => Scalar::string(x).unwrap(),
        Arr(v) => {
            let mut b = ArrayBuilder::try_new(v.len() as u16).unwrap();
            for x in v {
                put_arr(&mut b, x);
            }
            b.finish().unwrap()
        }
        Obj(e) => {
            let mut b = ObjectBuilder::try_new(e.len() as u16, false).unwrap();
            for (k, x) in e {
                put_obj(&mut b, k, x);
            }
            b.finish().unwrap()
        }
    }
}
/// The same through the builders that append to a caller's vector.
pub fn build_into<'a>(j: &J, out: &'a mut Vec<u8>) -> &'a Yason {
    match j {
        Null => Scalar::null_with_vec(out).unwrap(),
        Bool(x) => Scalar::bool_with_vec(*x, out).unwrap(),
        Num(x) => Scalar::number_with_vec(x, out).unwrap(),
        Str(x) => Scalar::string_with_vec(x, out).unwrap(),
        Arr(v) => {
            let mut b = ArrayRefBuilder::try_new(out, v.len() as u16).unwrap();
            for x in v {
                put_arr(&mut b, x);
            }
            b.finish().unwrap()
        }
        Obj(e) => {
            let mut b = ObjectRefBuilder::try_new(out, e.len() as u16, false).unwrap();
            for (k, x) in e {
                put_obj(&mut b, k, x);
            }
            b.finish().unwrap()
        }
    }
}

// ---------------------------------------------------------------- reading

/// The value denotes the tree, through the iterators and scalar fields.
pub fn same(v: &Value, j: &J) -> bool {
    match (v, j) {
        (Value::Null, Null) => true,
        (Value::Bool(a), Bool(b)) => a == b,
        (Value::Number(a), Num(b)) => num_same(a, b),
        (Value::String(a), Str(b)) => *a == b.as_str(),
        (Value::Array(a), Arr(b)) => same_arr(a, b),
        (Value::Object(a), Obj(b)) => same_obj(a, b),
        _ => false,
    }
}
pub fn same_arr(a: &Array, b: &[J]) -> bool {
    if a.len().unwrap() != b.len() {
        return false;
    }
    let mut i = 0;
    for x in a.iter().unwrap() {
        if i >= b.len() || !same(&x.unwrap(), &b[i]) {
            return false;
        }
        i += 1;
    }
    i == b.len()
}
pub fn same_obj(a: &Object, b: &[(String, J)]) -> bool {
    if a.len().unwrap() != b.len() {
        return false;
    }
    let ord = key_order(b);
    let mut i = 0;
    for x in a.iter().unwrap() {
        let (k, v) = x.unwrap();
        if i >= ord.len() || k != b[ord[i]].0 || !same(&v, &b[ord[i]].1) {
            return false;
        }
        i += 1;
    }
    i == b.len()
}
/// The document denotes the tree.
pub fn is_doc(y: &Yason, j: &J) -> bool {
    if y.data_type().unwrap() != j.ty() {
        return false;
    }
    match j {
        Null => y.is_null().unwrap(),
        Bool(b) => y.bool().unwrap() == *b,
        Num(b) => num_same(&y.number().unwrap(), b),
        Str(b) => y.string().unwrap() == b,
        Arr(b) => same_arr(&y.array().unwrap(), b),
        Obj(b) => same_obj(&y.object().unwrap(), b),
    }
}

/// Do two trees denote the same document?
pub fn j_eq(a: &J, b: &J) -> bool {
    match (a, b) {
        (Null, Null) => true,
        (Bool(x), Bool(y)) => x == y,
        (Num(x), Num(y)) => num_same(x, y),
        (Str(x), Str(y)) => x == y,
        (Arr(x), Arr(y)) => {
            if x.len() != y.len() {
                return false;
            }
            for i in 0..x.len() {
                if !j_eq(&x[i], &y[i]) {
                    return false;
                }
            }
            true
        }
        (Obj(x), Obj(y)) => {
            if x.len() != y.len() {
                return false;
            }
            let (p, q) = (key_order(x), key_order(y));
            for i in 0..p.len() {
                if x[p[i]].0 != y[q[i]].0 || !j_eq(&x[p[i]].1, &y[q[i]].1) {
                    return false;
                }
            }
            true
        }
        _ => false,
    }
}

// ---------------------------------------------------------------- layout

fn varint(mut v: usize, out: &mut Vec<u8>) {
    while v >= 0x80 {
        out.push(v as u8 | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}
fn enc_payload(j: &J, out: &mut Vec<u8>) {
    match j {
        Null => {}
        Bool(b) => out.push(*b as u8),
        Num(x) => {
            let mut t = Vec::new();
            let k = x.compact_encode(&mut t).unwrap();
            out.push(k as u8);
            out.extend_from_slice(&t[..k]);
        }
        Str(x) => {
            varint(x.len(), out);
            out.extend_from_slice(x.as_bytes());
        }
        Arr(v) => {
            let size = out.len();
            out.extend_from_slice(&[0; 4]);
            let start = out.len();
            out.extend_from_slice(&(v.len() as u16).to_le_bytes());
            let tab = out.len();
            for _ in v {
                out.extend_from_slice(&[0; 5]);
            }
            for (i, x) in v.iter().enumerate() {
                let e = tab + 5 * i;
                out[e] = tag(x);
                let word = match x {
                    Null => 0,
                    Bool(b) => *b as u32,
                    _ => (out.len() - start) as u32,
                };
                out[e + 1..e + 5].copy_from_slice(&word.to_le_bytes());
                match x {
                    Null | Bool(_) => {}
                    Num(_) | Str(_) => enc_payload(x, out),
                    _ => encode(x, out),
                }
            }
            let len = (out.len() - start) as i32;
            out[size..size + 4].copy_from_slice(&len.to_le_bytes());
        }
        Obj(e) => {
            let size = out.len();
            out.extend_from_slice(&[0; 4]);
            let start = out.len();
            out.extend_from_slice(&(e.len() as u16).to_le_bytes());
            let tab = out.len();
            for _ in e {
                out.extend_from_slice(&[0; 4]);
            }
            let mut at = Vec::new();
            for (k, x) in e {
                at.push((out.len() - start) as u32);
                out.extend_from_slice(&(k.len() as u16).to_le_bytes());
                out.extend_from_slice(k.as_bytes());
                encode(x, out);
            }
            for (i, p) in key_order(e).into_iter().enumerate() {
                out[tab + 4 * i..tab + 4 * i + 4].copy_from_slice(&at[p].to_le_bytes());
            }
            let len = (out.len() - start) as i32;
            out[size..size + 4].copy_from_slice(&len.to_le_bytes());
        }
    }
}
fn tag(j: &J) -> u8 {
    match j {
        Obj(_) => 1,
        Arr(_) => 2,
        Str(_) => 3,
        Num(_) => 4,
        Bool(_) => 5,
        Null => 6,
    }
}
/// The documented binary layout of a tree whose keys are written in the given order.
pub fn encode(j: &J, out: &mut Vec<u8>) {
    out.push(tag(j));
    enc_payload(j, out);
}

// ---------------------------------------------------------------- JSON text

/// A strict RFC 8259 reader. With `ws` false, whitespace outside strings is an error.
pub struct Reader<'a> {
    pub b: &'a [u8],
    pub p: usize,
    pub ws: bool,
    /// some number is too large
    range: bool,
}
pub enum Text {
    Bad,
    OutOfRange,
    Is(J),
}
pub fn classify(b: &[u8], ws: bool) -> Text {
    let mut r = Reader { b, p: 0, ws, range: false };
    r.skip();
    match r.value() {
        None => Text::Bad,
        Some(v) => {
            r.skip();
            if r.p != b.len() {
                Text::Bad
            } else if r.range {
                Text::OutOfRange
            } else {
                Text::Is(v)
            }
        }
    }
}
pub fn read_json(b: &[u8], ws: bool) -> Option<J> {
    match classify(b, ws) {
        Text::Is(v) => Some(v),
        _ => None,
    }
}
impl<'a> Reader<'a> {
    fn peek(&self) -> Option<u8> {
        self.b.get(self.p).copied()
    }
    fn skip(&mut self) {
        if self.ws {
            while let Some(c) = self.peek() {
                if c == b' ' || c == b'\t' || c == b'\n' || c == b'\r' {
                    self.p += 1;
                } else {
                    break;
                }
            }
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == Some(c) {
            self.p += 1;
            true
        } else {
            false
        }
    }
    fn word(&mut self, w: &[u8]) -> Option<()> {
        for c in w {
            if !self.eat(*c) {
                return None;
            }
        }
        Some(())
    }
    fn value(&mut self) -> Option<J> {
        match self.peek()? {
            b'n' => self.word(b"null").map(|_| Null),
            b't' => self.word(b"true").map(|_| Bool(true)),
            b'f' => self.word(b"false").map(|_| Bool(false)),
            b'"' => self.string().map(Str),
            b'[' => {
                self.p += 1;
                let mut v = Vec::new();
                self.skip();
                if self.eat(b']') {
                    return Some(Arr(v));
                }
                loop {
                    self.skip();
                    v.push(self.value()?);
                    self.skip();
                    if self.eat(b']') {
                        return Some(Arr(v));
                    }
                    if !self.eat(b',') {
                        return None;
                    }
                }
            }
            b'{' => {
                self.p += 1;
                let mut v: Vec<(String, J)> = Vec::new();
                self.skip();
                if self.eat(b'}') {
                    return Some(Obj(v));
                }
                loop {
                    self.skip();
                    let k = self.string()?;
                    self.skip();
                    if !self.eat(b':') {
                        return None;
                    }
                    self.skip();
                    let x = self.value()?;
                    // a repeated key replaces the earlier value
                    match v.iter().position(|e| e.0 == k) {
                        Some(i) => v[i].1 = x,
                        None => v.push((k, x)),
                    }
                    self.skip();
                    if self.eat(b'}') {
                        return Some(Obj(v));
                    }
                    if !self.eat(b',') {
                        return None;
                    }
                }
            }
            _ => self.number(),
        }
    }
    fn hex4(&mut self) -> Option<u32> {
        let mut v = 0;
        for _ in 0..4 {
            let c = self.peek()?;
            self.p += 1;
            let d = match c {
                b'0'..=b'9' => c - b'0',
                b'a'..=b'f' => c - b'a' + 10,
                b'A'..=b'F' => c - b'A' + 10,
                _ => return None,
            };
            v = v * 16 + d as u32;
        }
        Some(v)
    }
    fn string(&mut self) -> Option<String> {
        if !self.eat(b'"') {
            return None;
        }
        let mut o: Vec<u8> = Vec::new();
        loop {
            let c = self.peek()?;
            self.p += 1;
            if c == b'"' {
                // the input text is UTF-8 and only whole characters are copied
                return Some(unsafe { String::from_utf8_unchecked(o) });
            }
            if c < 0x20 {
                return None;
            }
            if c != b'\\' {
                o.push(c);
                continue;
            }
            let c = self.peek()?;
            self.p += 1;
            match c {
                b'"' | b'\\' | b'/' => o.push(c),
                b'b' => o.push(8),
                b'f' => o.push(12),
                b'n' => o.push(10),
                b'r' => o.push(13),
                b't' => o.push(9),
                b'u' => {
                    let mut u = self.hex4()?;
                    if (0xDC00..0xE000).contains(&u) {
                        return None;
                    }
                    if (0xD800..0xDC00).contains(&u) {
                        if !self.eat(b'\\') || !self.eat(b'u') {
                            return None;
                        }
                        let l = self.hex4()?;
                        if !(0xDC00..0xE000).contains(&l) {
                            return None;
                        }
                        u = 0x10000 + (((u - 0xD800) as u32) << 10) + (l - 0xDC00);
                    }
                    let mut t = [0; 4];
                    o.extend_from_slice(char::from_u32(u)?.encode_utf8(&mut t).as_bytes());
                }
                _ => return None,
            }
        }
    }
    /// skips digits, at least one, and returns how many
    fn digits(&mut self) -> Option<usize> {
        let p = self.p;
        while self.peek().map_or(false, |c| c.is_ascii_digit()) {
            self.p += 1;
        }
        if self.p == p {
            None
        } else {
            Some(self.p - p)
        }
    }
    /// 38 significant digits, half up; magnitudes of 1e126 and more are out of range, below 1e-130 zero
    fn number(&mut self) -> Option<J> {
        let neg = self.eat(b'-');
        let a = self.p;
        let ni = if self.eat(b'0') { 1 } else { self.digits()? };
        let f = self.p + 1;
        let nf = if self.eat(b'.') { self.digits()? } else { 0 };
        let (mut ex, mut eneg) = (0i64, false);
        if self.eat(b'e') || self.eat(b'E') {
            eneg = self.eat(b'-');
            if !eneg {
                self.eat(b'+');
            }
            let e = self.p;
            self.digits()?;
            for c in &self.b[e..self.p] {
                if ex < 1_000_000 {
                    ex = ex * 10 + (*c - b'0') as i64;
                }
            }
        }
        let digit = |i: usize| (if i < ni { self.b[a + i] } else { self.b[f + i - ni] }) - b'0';
        let n = ni + nf;
        let mut scale = nf as i64 + if eneg { ex } else { -ex };
        let mut v = 0u128;
        if n <= 9 {
            let mut w = 0u32;
            for i in 0..n {
                w = w * 10 + digit(i) as u32;
            }
            v = w as u128;
        } else if n <= 38 {
            for i in 0..n {
                v = v * 10 + digit(i) as u128;
            }
        } else {
            let mut z = 0;
            while z < n && digit(z) == 0 {
                z += 1;
            }
            for i in z..n.min(z + 38) {
                v = v * 10 + digit(i) as u128;
            }
            if n > z + 38 {
                v += (digit(z + 38) > 4) as u128;
                scale -= (n - z - 38) as i64;
            }
        }
        if v == 0 {
            return Some(Num(Number::ZERO));
        }
        if scale < -80 || scale > 80 {
            // position of the first digit behind the point
            let mut first = -scale;
            let mut w = v;
            while w > 0 {
                w /= 10;
                first += 1;
            }
            if first > 126 {
                self.range = true;
                return Some(Null);
            }
            if first <= -130 {
                return Some(Num(Number::ZERO));
            }
        }
        if v == pow10(38) {
            v = pow10(37);
            scale -= 1;
        }
        Number::from_parts(v, scale as i16, neg).ok().map(Num)
    }
}

/// Length of the text of a document, for bounding.
pub fn pow10(k: u32) -> u128 {
    let mut v = 1;
    for _ in 0..k {
        v *= 10;
    }
    v
}

// ---------------------------------------------------------------- generators

/// A number: small symbolic integers and fractions, and fixed extremes.
pub fn any_num() -> Number {
    match choose(4) {
        0 => Number::from(any_u8()),
        1 => {
            let m = u16::from_le_bytes(any::<2>());
            let neg = sym_bool();
            assume(!neg | (m != 0));
            Number::from_parts(m as u128, 2, neg).unwrap()
        }
        2 => Number::from_parts(99999999999999999999999999999999999999, 0, true).unwrap(),
        _ => Number::from_parts(1, pick(&[-125i16, 130]), false).unwrap(),
    }
}
pub fn small_num() -> Number {
    Number::from(any_u8())
}
/// A scalar with symbolic content.
pub fn scalar() -> J {
    match choose(4) {
        0 => Null,
        1 => Bool(sym_bool()),
        2 => Num(small_num()),
        _ => Str(ascii_upto(1)),
    }
}
/// a sibling of the subtree under study
fn sibling() -> J {
    match choose(3) {
        0 => Num(small_num()),
        1 => Str(ascii(1)),
        _ => Obj(vec![(ascii(1), Arr(vec![Bool(true)]))]),
    }
}
/// Any document up to the given nesting with up to `fan` children per container and keys
/// of one symbolic byte; above the lowest containers one child, in any position, is
/// arbitrary and the others are drawn from `sibling`.
pub fn tree(depth: usize, fan: usize) -> J {
    if depth == 0 {
        return scalar();
    }
    let kind = choose(3);
    if kind == 0 {
        return scalar();
    }
    let k = choose(fan as u32 + 1) as usize;
    let deep = if depth > 1 && k > 1 { choose(k as u32) as usize } else { 0 };
    let child = |i: usize| {
        if depth == 1 {
            scalar()
        } else if i == deep {
            tree(depth - 1, fan)
        } else {
            sibling()
        }
    };
    if kind == 1 {
        Arr((0..k).map(child).collect())
    } else {
        let keys = distinct_keys(k, 1);
        Obj(keys.into_iter().enumerate().map(|(i, x)| (x, child(i))).collect())
    }
}
/// `k` pairwise distinct keys of at most `max` ASCII bytes, in any order.
pub fn distinct_keys(k: usize, max: usize) -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    for _ in 0..k {
        let x = ascii_upto(max);
        for y in &v {
            assume(*y != x);
        }
        v.push(x);
    }
    v
}

/// Containers in containers: kind and position of the inner one, its content, siblings on
/// either side, keys of mixed lengths pushed out of order, and one given leaf.
pub fn rich_of(leaf: J) -> J {
    const K: [&str; 9] = ["bb", "\u{e9}", "a", "", "ccc", "z", "aa", "\u{20ac}", "b"];
    let keyed = |v: Vec<J>, from: usize| Obj(v.into_iter().enumerate().map(|(i, x)| (K[(i + from) % 9].to_string(), x)).collect());
    let inner = match choose(7) {
        0 => vec![],
        1 => vec![leaf],
        2 => vec![s("t"), leaf],
        3 => vec![leaf, Arr(vec![]), Bool(true)],
        4 => vec![n(-1), o([("yy", Null), ("x", leaf)]), o([])],
        5 => vec![Arr(vec![Arr(vec![leaf, n(2)])]), Null, Arr(vec![n(0)]), s("")],
        _ => vec![n(1), s("two"), Null, leaf, Bool(false), n(600), s("s"), n(8), Null],
    };
    let inner = if any_bool() { keyed(inner, 0) } else { Arr(inner) };
    let v = match choose(4) {
        0 => vec![inner],
        1 => vec![inner, s("after"), n(7)],
        2 => vec![Bool(false), inner, o([("q", n(5))])],
        _ => vec![s("x"), Arr(vec![]), inner],
    };
    if any_bool() {
        keyed(v, 2)
    } else {
        Arr(v)
    }
}
pub fn rich() -> J {
    rich_of(scalar())
}
/// JSON text of a tree; strings hold nothing that needs an escape
pub fn write_json(j: &J, o: &mut String) {
    let quote = |t: &str, o: &mut String| {
        o.push('"');
        o.push_str(t);
        o.push('"');
    };
    match j {
        Null => o.push_str("null"),
        Bool(b) => o.push_str(if *b { "true" } else { "false" }),
        Num(x) => {
            let (v, scale, neg) = x.into_parts();
            assert!(scale == 0 && v < 1000);
            if neg {
                o.push('-');
            }
            for p in [100, 10, 1] {
                if v >= p || p == 1 {
                    o.push((b'0' + (v / p % 10) as u8) as char);
                }
            }
        }
        Str(t) => quote(t, o),
        Arr(v) => {
            o.push('[');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                write_json(x, o);
            }
            o.push(']');
        }
        Obj(e) => {
            o.push('{');
            for (i, (k, x)) in e.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                quote(k, o);
                o.push(':');
                write_json(x, o);
            }
            o.push('}');
        }
    }
}
