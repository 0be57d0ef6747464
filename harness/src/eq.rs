//! Equality.
use crate::model::*;
use crate::nd::*;
use yason::*;

fn check(a: &J, b: &J) {
    let (x, y) = (build(a), build(b));
    out_bytes(x.as_bytes());
    out_bytes(y.as_bytes());
    let want = j_eq(a, b);
    assert!(x.equals(&y).unwrap() == want);
    assert!(y.equals(&x).unwrap() == want);
    assert!((*x == *y) == want && (x == y) == want && (x != y) != want);
    assert!(x == x && y == y);
    if want {
        cover(1);
    } else {
        cover(2);
    }
    cover(0);
}
/// any two small documents
pub fn eq_any() {
    let gen = || match choose(8) {
        0 => Null,
        1 => Bool(sym_bool()),
        2 => Num(small_num()),
        3 => Str(ascii_upto(1)),
        4 => Arr(vec![]),
        5 => Arr(vec![scalar()]),
        6 => Obj(vec![]),
        _ => Obj(vec![(ascii_upto(1), scalar())]),
    };
    let a = gen();
    check(&a, &gen());
}
/// two instances of one shape
pub fn eq_shape() {
    let shape = choose(7);
    let gen = || -> J {
        match shape {
            0 => Arr(vec![Num(small_num()), Str(ascii(1)), Bool(sym_bool())]),
            1 => Arr(vec![Arr(vec![Num(small_num())]), Bool(sym_bool())]),
            2 => Obj(vec![("a".into(), Num(small_num())), ("b".into(), Str(ascii(2)))]),
            3 => Obj(vec![("a".into(), Obj(vec![(ascii(1), Bool(sym_bool()))])), ("b".into(), Arr(vec![Null, Str(ascii(1))]))]),
            4 => Str(ascii(6)),
            5 => Arr(vec![Bool(sym_bool()), Bool(sym_bool()), Bool(sym_bool())]),
            _ => Arr(vec![Obj(vec![("x".into(), Num(small_num())), ("y".into(), Null)]), Str(ascii(1))]),
        }
    };
    let a = gen();
    check(&a, &gen());
}
/// the order of pushes does not matter, everything else does
pub fn eq_order() {
    let k = distinct_keys(3, 1);
    let vals = || vec![Bool(sym_bool()), Num(small_num()), Null];
    let v = vals();
    let a = Obj((0..3).map(|i| (k[i].clone(), v[i].clone())).collect());
    let p = pick(&[[0usize, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]]);
    let w = if any_bool() { v.clone() } else { vals() };
    let b = Obj(p.iter().map(|i| (k[*i].clone(), w[*i].clone())).collect());
    check(&a, &b);
}
pub fn eq_keys() {
    let gen = || {
        let k = distinct_keys(2, q(1, 2));
        Obj(vec![(k[0].clone(), Null), (k[1].clone(), Null)])
    };
    let a = gen();
    check(&a, &gen());
}
fn decimal() -> Number {
    let m = u16::from_le_bytes(any::<2>());
    let neg = sym_bool();
    assume(!neg | (m != 0));
    Number::from_parts(m as u128, pick(&[-2i16, -1, 0, 1, 3]), neg).unwrap()
}
/// numbers compare by value, whatever their encoding
pub fn eq_num() {
    let a = Num(decimal());
    check(&a, &Num(decimal()));
}
pub fn eq_num_in() {
    let wrap = any_bool();
    let gen = || {
        let x = Num(Number::from_parts(any_u8() as u128, pick(&[-1i16, 0, 1]), false).unwrap());
        if wrap {
            Arr(vec![x, n(1)])
        } else {
            Obj(vec![("n".into(), x), ("k".into(), Null)])
        }
    };
    let a = gen();
    check(&a, &gen());
}
/// different sizes and kinds
pub fn eq_len() {
    let k = pick(&[1usize, 127, 128, 300]);
    let gen = || {
        let mut t = "e".repeat(k - 1);
        t.push_str(&ascii(1));
        if any_bool() {
            t.push('e');
        }
        if any_bool() {
            Arr(vec![Str(t), n(3)])
        } else {
            Obj(vec![("k".into(), Str(t)), ("a".into(), n(3))])
        }
    };
    let a = gen();
    check(&a, &gen());
}
/// a nested value equals the same document built on its own
pub fn eq_nested() {
    let j = match choose(2) {
        0 => Arr(vec![scalar(), Null]),
        _ => Obj(vec![(ascii(1), scalar())]),
    };
    let y = build(&Arr(vec![Null, j.clone()]));
    let z = build(&j);
    let other = build(&match choose(2) {
        0 => Arr(vec![scalar(), Null]),
        _ => Obj(vec![(ascii(1), scalar())]),
    });
    let a = y.array().unwrap();
    let check = |v: &Yason| {
        assert!(v.equals(&z).unwrap() && z.equals(v).unwrap());
        assert!(v.equals(&other).unwrap() == z.equals(&other).unwrap());
        assert!(other.equals(v).unwrap() == z.equals(&other).unwrap());
    };
    match a.get(1).unwrap() {
        Value::Array(x) => check(x.yason()),
        Value::Object(x) => check(x.yason()),
        _ => panic!(),
    }
    cover(0);
}
/// a document and the same with one leaf replaced
pub fn eq_rich() {
    let (x, y) = (scalar(), scalar());
    let a = rich_of(x);
    fn leaves(j: &J) -> usize {
        match j {
            Arr(v) => v.iter().map(leaves).sum(),
            Obj(v) => v.iter().map(|e| leaves(&e.1)).sum(),
            _ => 1,
        }
    }
    fn skip(j: &J, k: &mut usize, y: &J) -> J {
        match j {
            Arr(v) => Arr(v.iter().map(|e| skip(e, k, y)).collect()),
            Obj(v) => Obj(v.iter().map(|(n, e)| (n.clone(), skip(e, k, y))).collect()),
            _ => {
                *k = k.wrapping_sub(1);
                if *k == usize::MAX {
                    y.clone()
                } else {
                    j.clone()
                }
            }
        }
    }
    let total = leaves(&a);
    assume(total > 0);
    let mut k = choose(total as u32) as usize;
    let b = skip(&a, &mut k, &y);
    check(&a, &b);
}
/// a member or element more, or one of another kind
pub fn eq_more() {
    let a = rich_of(Bool(sym_bool()));
    let x = match choose(4) {
        0 => Null,
        1 => Bool(sym_bool()),
        2 => Arr(vec![]),
        _ => Obj(vec![]),
    };
    let b = match &a {
        Arr(v) => {
            let mut v = v.clone();
            let at = choose(v.len() as u32 + 1) as usize;
            match choose(3) {
                0 => v.insert(at, x),
                1 if at < v.len() => v[at] = x,
                _ => drop(v.pop()),
            }
            Arr(v)
        }
        Obj(v) => {
            let mut v = v.clone();
            let at = choose(v.len() as u32 + 1) as usize;
            match choose(4) {
                0 => v.insert(at, ("new".into(), x)),
                1 if at < v.len() => v[at].1 = x,
                2 if at < v.len() => v[at].0 = "other".into(),
                _ => drop(v.pop()),
            }
            Obj(v)
        }
        _ => unreachable!(),
    };
    check(&a, &b);
}

/// strings and keys that may differ in one byte anywhere
pub fn eq_pos() {
    let k = if any_bool() { pick(LENS) } else { pick(&[16383usize, 16384, 65535]) };
    let at = spot(k);
    let (x, y) = (ascii(1), ascii(1));
    let place = choose(5);
    let doc = |c: &str| {
        let t = if k < 1000 { filled(k, at, 'e', c) } else { [&zeros(at), c, &zeros(k - at - 1)].concat() };
        match place {
            0 => Str(t),
            1 => Arr(vec![n(1), Str(t), Null]),
            2 => Obj(vec![("k".into(), Null), (t, n(2))]),
            3 => Obj(vec![("b".into(), Str(t)), ("a".into(), Bool(true))]),
            _ => Arr(vec![Obj(vec![("in".into(), Arr(vec![Str(t)]))]), s("e")]),
        }
    };
    assume(k < 1000 || place != 4);
    let a = doc(&x);
    check(&a, &doc(&y));
}
/// many members or elements, one of which may differ
pub fn eq_many() {
    let k = pick(SOME);
    let at = pick(&[0, 1, k / 2, k - 1]);
    let v = || match choose(4) {
        0 => Null,
        1 => Bool(sym_bool()),
        2 => Str(ascii(1)),
        _ => Arr(vec![Bool(sym_bool())]),
    };
    let x = v();
    let y = v();
    let obj = any_bool();
    let doc = |v: &J, back: bool| {
        let item = |i: usize| if i == at { v.clone() } else if i % 3 == 0 { Bool(i % 2 == 0) } else { n(i as i64) };
        if obj {
            let mut e: Vec<(String, J)> = (0..k).map(|i| (i.to_string(), item(i))).collect();
            if back {
                e.reverse();
            }
            Obj(e)
        } else {
            Arr((0..k).map(item).collect())
        }
    };
    let a = doc(&x, false);
    check(&a, &doc(&y, true));
}
/// one more member or element at the end
pub fn eq_count() {
    let k = pick(LENS);
    let d = choose(3) as usize;
    let x = sym_bool();
    let doc = |k: usize, obj: bool| {
        let item = |i: usize| if i == 1 { Bool(x) } else { Null };
        if obj {
            Obj((0..k).map(|i| (i.to_string(), item(i))).collect())
        } else {
            Arr((0..k).map(item).collect())
        }
    };
    let a = doc(k, any_bool());
    check(&a, &doc(k + 1 - d, any_bool()));
}
/// numbers of many digits that agree in value or in encoding only
pub fn eq_digits() {
    let m = u16::from_le_bytes(any::<2>()) as u128;
    let (k, l) = (choose(4), choose(4));
    let a = Number::from_parts(m * pow10(k), k as i16 + 2, false).unwrap();
    let d = any_u8();
    assume(d < 2);
    let b = Number::from_parts(m * pow10(l) + d as u128, l as i16 + 2, false).unwrap();
    let (x, y) = (Scalar::number(&a).unwrap(), Scalar::number(&b).unwrap());
    assert!(x.equals(&y).unwrap() == (d == 0));
    assert!(y.equals(&x).unwrap() == (d == 0));
    if d == 0 {
        cover(1);
    } else {
        cover(2);
    }
    cover(0);
}
/// more members or elements than 14 bits can count, one of which may differ
pub fn eq_huge() {
    let k = if tier() == 0 { 16385 } else { pick(&[16385usize, 32769, 65535]) };
    let at = pick(&[0, 127, 128, 8192, k - 1]);
    let (x, y) = (sym_bool(), sym_bool());
    let obj = any_bool();
    let less = any_bool();
    let doc = |v: bool, k: usize| {
        if obj {
            let mut b = ObjectBuilder::try_new(k as u16, true).unwrap();
            for i in 0..k {
                b.push_bool(&format!("{i:05}"), if i == at { v } else { i % 3 == 0 }).unwrap();
            }
            b.finish().unwrap()
        } else {
            let mut b = ArrayBuilder::try_new(k as u16).unwrap();
            for i in 0..k {
                b.push_bool(if i == at { v } else { i % 3 == 0 }).unwrap();
            }
            b.finish().unwrap()
        }
    };
    let (a, b) = (doc(x, k), doc(y, k - less as usize));
    let want = !less && x == y;
    assert!(a.equals(&b).unwrap() == want && b.equals(&a).unwrap() == want);
    assert!((a == b) == want);
    cover(if want { 1 } else { 2 });
    cover(0);
}
