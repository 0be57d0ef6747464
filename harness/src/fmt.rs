//! Compact and pretty text.
use crate::model::*;
use crate::nd::*;
use yason::*;

/// the text without whitespace outside strings
fn strip(t: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let (mut inside, mut esc) = (false, false);
    for &c in t {
        if inside {
            o.push(c);
            if esc {
                esc = false;
            } else if c == b'\\' {
                esc = true;
            } else if c == b'"' {
                inside = false;
            }
        } else if c == b'"' {
            inside = true;
            o.push(c);
        } else if c != b' ' && c != b'\n' && c != b'\t' && c != b'\r' {
            o.push(c);
        }
    }
    o
}
fn compact(j: &J) {
    let y = build(j);
    let mut t = String::new();
    y.format_to(false, &mut t).unwrap();
    out_bytes(t.as_bytes());
    // a JSON document without insignificant whitespace that denotes the same tree
    let r = read_json(t.as_bytes(), false);
    assert!(r.is_some());
    assert!(j_eq(&r.unwrap(), j));
    assert!(y.format(false).to_string() == t);
    cover(0);
}
fn pretty(j: &J) {
    let y = build(j);
    let (mut t, mut p) = (String::new(), String::new());
    y.format_to(false, &mut t).unwrap();
    y.format_to(true, &mut p).unwrap();
    out_bytes(p.as_bytes());
    assert!(strip(p.as_bytes()) == t.as_bytes());
    let r = read_json(p.as_bytes(), true);
    assert!(r.is_some());
    assert!(j_eq(&r.unwrap(), j));
    assert!(y.format(true).to_string() == p);
    cover(0);
}
fn strs() -> J {
    match choose(6) {
        0 => Str(ascii(1)),
        1 => Str(ascii(2)),
        2 => {
            let k = choose(3) as usize + 2;
            let mut t = wide(k);
            t.push_str(&ascii(1));
            Str(t)
        }
        3 => Obj(vec![(ascii(1), s("v/"))]),
        4 => Arr(vec![s("pre\"fix"), Str(ascii(1)), s("")]),
        _ => {
            let mut t = String::from("mid");
            t.push_str(&ascii(1));
            t.push_str("dle");
            Obj(vec![("k".into(), Str(t.clone())), (t, s("\u{7f}\u{80}"))])
        }
    }
}
fn leaf() -> J {
    match choose(6) {
        0 => Null,
        1 => Bool(any_bool()),
        2 => n(0),
        3 => Num(Number::from_parts(125, 2, true).unwrap()),
        4 => s(""),
        _ => s("a\"\\\n/ }],:"),
    }
}
fn shape(depth: usize, fan: usize) -> J {
    if depth == 0 {
        return leaf();
    }
    match choose(3) {
        0 => leaf(),
        1 => {
            let k = choose(fan as u32 + 1);
            Arr((0..k).map(|_| shape(depth - 1, fan)).collect())
        }
        _ => {
            let k = choose(fan as u32 + 1) as usize;
            Obj((0..k).map(|i| (["b", "a\"", ""][i].to_string(), shape(depth - 1, fan))).collect())
        }
    }
}
pub fn compact_str() {
    compact(&strs());
}
pub fn compact_shape() {
    compact(&shape(2, 2));
}
pub fn compact_chain() {
    compact(&chain(q(3, 4)));
}
fn chain(d: usize) -> J {
    let mut j = match choose(3) {
        0 => leaf(),
        1 => Arr(vec![]),
        _ => Obj(vec![]),
    };
    for _ in 0..d {
        j = match choose(4) {
            0 => Arr(vec![j]),
            1 => Arr(vec![n(1), j, Null]),
            2 => Obj(vec![("k".into(), j)]),
            _ => Obj(vec![("z".into(), s("1")), ("kk".into(), Null), ("y".into(), j)]),
        };
    }
    j
}
pub fn compact_rich() {
    compact(&rich());
}
pub fn pretty_rich() {
    pretty(&rich());
}
/// long strings and many members
fn long() -> J {
    let k = pick(&[15usize, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 300]);
    match choose(4) {
        0 => {
            let mut t = "q".repeat(k - 1);
            t.push_str(pick(&["z", "\"", "\n", "\u{e9}"]));
            t.push_str(&ascii(1));
            Arr(vec![Str(t), n(1)])
        }
        1 => {
            let mut t = "\\".repeat(k);
            t.push_str(&ascii(1));
            Obj(vec![(t, n(1)), ("a".into(), s("\u{1}"))])
        }
        2 => Arr((0..k).map(|i| if i == 5 { Bool(any_bool()) } else { n(i as i64) }).collect()),
        _ => Obj((0..k).map(|i| (i.to_string(), if i % 3 == 1 { Arr(vec![]) } else { Null })).collect()),
    }
}
pub fn compact_long() {
    compact(&long());
}
pub fn pretty_long() {
    pretty(&long());
}
fn numbers() -> J {
    match choose(3) {
        0 => Num(Number::from_parts(u16::from_le_bytes(any::<2>()) as u128, 0, false).unwrap()),
        1 => {
            let m = any_u8();
            let neg = sym_bool();
            assume(!neg | (m != 0));
            Num(Number::from_parts(m as u128, pick(&[-3i16, -1, 1, 2, 3, 5]), neg).unwrap())
        }
        _ => {
            let big = 99999999999999999999999999999999999999u128;
            let (m, sc, neg) = pick(&[
                (big, 0i16, false),
                (big, 0, true),
                (big, 38, false),
                (big, 37, true),
                (big, 20, true),
                (big, 130, true),
                (big, -87, false),
                (1, -125, false),
                (1, 130, true),
                (10, 1, false),
                (1000, 3, true),
                (12345678901234567890, 10, true),
                (1, 40, false),
                (123, -20, true),
                (5, 7, false),
                (0, 0, false),
            ]);
            match Number::from_parts(m, sc, neg) {
                Ok(x) => Num(x),
                Err(_) => n(1),
            }
        }
    }
}
pub fn compact_num() {
    let x = numbers();
    if any_bool() {
        compact(&x);
    } else {
        compact(&Arr(vec![x, n(2)]));
    }
}
pub fn pretty_str() {
    pretty(&strs());
}
pub fn pretty_shape() {
    pretty(&shape(2, 2));
}
pub fn pretty_chain() {
    pretty(&chain(q(3, 4)));
}
pub fn pretty_num() {
    match choose(2) {
        0 => pretty(&Num(small_num())),
        _ => pretty(&Obj(vec![("n".into(), Num(small_num()))])),
    }
}
/// every indentation level
pub fn pretty_deep() {
    let d = pick(&[1usize, 2, 10, 49, 50, 51, 99, 100]);
    let kind = choose(3);
    let mut j = leaf();
    for i in 0..d {
        j = if kind == 0 || kind == 2 && i % 2 == 0 { Arr(vec![j]) } else { Obj(vec![("k".into(), j)]) };
    }
    pretty(&j);
    // one level more: as a member of a query result
    let y = build(&j);
    let e: PathExpression = "$".parse().unwrap();
    let v = e.query(&y, true, None, None).unwrap();
    let (mut t, mut p) = (String::new(), String::new());
    v.format_to(false, &mut t).unwrap();
    v.format_to(true, &mut p).unwrap();
    assert!(strip(p.as_bytes()) == t.as_bytes());
    let mut buf = vec![];
    let v = e.query(&y, true, None, Some(&mut buf)).unwrap();
    let mut r = String::new();
    v.format_to(true, &mut r).unwrap();
    assert!(r == p);
}

/// any ASCII byte at any place of strings and keys of many lengths
fn placed() -> J {
    let k = pick(LENS);
    let at = spot(k);
    let c = ascii(1);
    let t = filled(k, at, pick(&['e', '"']), &c);
    match choose(3) {
        0 => Str(t),
        1 => Arr(vec![Str(t), s("\u{1f}")]),
        _ => Obj(vec![(t, s("\\"))]),
    }
}
pub fn compact_placed() {
    compact(&placed());
}
pub fn pretty_placed() {
    pretty(&placed());
}
/// two arbitrary bytes next to each other or apart
fn pairs() -> J {
    let k = pick(&[2usize, 3, 8, 9, 17]);
    let at = spot(k);
    assume(at + 1 < k);
    let mut t = filled(k - 1, at, 'p', &ascii(1));
    t.push_str(&ascii(1));
    Arr(vec![Str(t)])
}
pub fn compact_pairs() {
    compact(&pairs());
}
/// containers of many sizes inside each other
fn crowd() -> J {
    let k = pick(SOME);
    let at = pick(&[0, 1, k / 2, k - 1]);
    let inner = match choose(6) {
        0 => Arr(vec![]),
        1 => Obj(vec![]),
        2 => Arr(vec![s("")]),
        3 => o([("k", n(1))]),
        4 => Str(ascii(1)),
        _ => Arr(vec![Arr(vec![]), Obj(vec![("x".into(), Bool(true))])]),
    };
    let item = |i: usize| if i == at { inner.clone() } else if i % 4 == 3 { Arr(vec![]) } else { Null };
    if any_bool() {
        Arr((0..k).map(item).collect())
    } else {
        Obj((0..k).map(|i| (i.to_string(), item(i))).collect())
    }
}
pub fn compact_crowd() {
    compact(&crowd());
}
pub fn pretty_crowd() {
    pretty(&crowd());
}
/// long strings, and containers of more than 14 bits of members
fn huge() -> J {
    let k = if tier() == 0 { 16385 } else { pick(&[16385usize, 32769, 65535]) };
    let at = if tier() == 0 { k - 2 } else { pick(&[0, k / 2, k - 2]) };
    let c = if tier() == 0 { pick(&["a", "\""]) } else { pick(&["a", "\"", "\n", "\u{1}"]) }.to_string();
    let q = if tier() == 0 { 65536 } else { pick(&[65535usize, 65536, 66000]) };
    match choose(4) {
        0 => Str([&zeros(q), &ascii(1)[..]].concat()),
        1 => Obj(vec![([&zeros(at), &c[..]].concat(), Arr(vec![Str([&c[..], &zeros(q)].concat()), Bool(sym_bool())]))]),
        2 => Arr((0..k).map(|i| if i == at { Arr(vec![Str(c.clone()), Bool(sym_bool())]) } else { Bool(i % 3 == 0) }).collect()),
        // the reference takes quadratic time for these
        _ => Obj((0..1100).map(|i| (format!("{i:05}"), if i == 1098 { Arr(vec![Str(c.clone()), Bool(sym_bool())]) } else { Null })).collect()),
    }
}
pub fn compact_huge() {
    compact(&huge());
}
pub fn pretty_huge() {
    pretty(&huge());
}
/// a writer that takes so many bytes and no more
struct Tight(Vec<u8>, usize);
impl std::fmt::Write for Tight {
    fn write_str(&mut self, t: &str) -> std::fmt::Result {
        if self.0.len() + t.len() > self.1 {
            return Err(std::fmt::Error);
        }
        self.0.extend_from_slice(t.as_bytes());
        Ok(())
    }
}
/// a writer's error comes back, and until then it got the beginning of the text
fn tight(full: bool) {
    let j = match choose(3) {
        0 => rich_of(Bool(sym_bool())),
        1 => strs(),
        _ => shape(q(1, 2), 2),
    };
    let y = build(&j);
    let mut t = String::new();
    y.format_to(full, &mut t).unwrap();
    let k = t.len();
    let room = if k < 12 { choose(k as u32 + 2) as usize } else { pick(&[0, 1, 3, k / 2, k - 2, k - 1, k]) };
    let mut w = Tight(vec![], room);
    let r = y.format_to(full, &mut w);
    assert!(r.is_ok() == (room >= k));
    assert!(w.0[..] == t.as_bytes()[..w.0.len()]);
    assert!(r.is_err() || w.0.len() == k);
    let mut w = Tight(vec![], room);
    let r = std::fmt::write(&mut w, format_args!("{}", y.format(full)));
    assert!(r.is_ok() == (room >= k));
    let e: PathExpression = "$".parse().unwrap();
    let mut w = Tight(vec![], room);
    let v = e.query(&y, false, None, None).unwrap();
    assert!(v.format_to(full, &mut w).is_ok() == (room >= k));
    // as it is written into other text
    assert!(format!("<{}|{}>", y.format(full), 1) == ["<", &t, "|1>"].concat());
    cover((room < k) as u32);
}
pub fn compact_tight() {
    tight(false);
}
pub fn pretty_tight() {
    tight(true);
}
