//! Objects, arrays, nesting, layout, appending, copies.
use crate::model::*;
use crate::nd::*;
use crate::tr::*;
use yason::*;

fn lookups(keys: &[String], probe: &str) {
    let c = keys.len();
    let mut b = ObjectBuilder::try_new(c as u16, false).unwrap();
    for i in 0..c {
        b.push_number(&keys[i], Number::from(i)).unwrap();
    }
    let y = b.finish().unwrap();
    out_bytes(y.as_bytes());
    let o = y.object().unwrap();
    assert!(o.len().unwrap() == c);
    for i in 0..c {
        assert!(o.number(&keys[i]).unwrap().unwrap().into_parts().0 == i as u128);
        assert!(o.contains_key(&keys[i]).unwrap());
    }
    let mut at = None;
    for i in 0..c {
        if keys[i] == probe {
            at = Some(i);
        }
    }
    match at {
        Some(i) => {
            assert!(matches!(o.get(probe).unwrap(), Some(Value::Number(x)) if x.into_parts().0 == i as u128));
            cover(1);
        }
        None => {
            assert!(o.get(probe).unwrap().is_none());
            assert!(!o.contains_key(probe).unwrap());
            cover(2);
        }
    }
    cover(0);
}
/// any distinct keys in any push order
pub fn lookup3() {
    let k = distinct_keys(3, 2);
    lookups(&k, &ascii_upto(2));
}
pub fn lookup4() {
    let k = distinct_keys(q(4, 5), 1);
    lookups(&k, &ascii_upto(1));
}
pub fn lookup_n() {
    // every order of a few concrete keys that differ in length and content
    let n = q(4, 5);
    let all = ["b", "a", "ab", "", "zzz"];
    let mut left: Vec<&str> = all[..n].to_vec();
    let mut keys = vec![];
    while !left.is_empty() {
        let i = choose(left.len() as u32) as usize;
        keys.push(left.remove(i).to_string());
    }
    lookups(&keys, &ascii_upto(2));
}
/// keys of any UTF-8 characters
pub fn lookup_utf8() {
    let len = choose(q(3, 4) as u32) as usize + 1;
    let k = vec![utf8(len), utf8(choose(4) as usize + 1)];
    assume(k[0] != k[1]);
    lookups(&k, &utf8(len));
}
/// one symbolic key among many: every position of the search
pub fn lookup_many() {
    let n = q(9, 17);
    let mut keys: Vec<String> = Vec::new();
    for i in 0..n {
        let mut t = String::new();
        t.push((b'a' + (i * 7 % 23) as u8) as char);
        t.push((b'a' + (i * 5 % 26) as u8) as char);
        if i % 3 == 0 {
            t.pop();
        }
        if i % 5 == 1 {
            t.push('m');
        }
        keys.push(t);
    }
    let x = ascii_upto(2);
    for k in &keys {
        assume(*k != x);
    }
    let at = pick(&[0usize, n / 2, n]);
    keys.insert(at, x);
    lookups(&keys, &ascii(2));
}
/// every division of the keys into lengths
pub fn lookup_lens() {
    let n = choose(q(8, 13) as u32) as usize + 2;
    let b = choose(n as u32 + 1) as usize;
    let a = choose(b as u32 + 1) as usize;
    let mut keys = Vec::new();
    for i in 0..n {
        let mut t = String::new();
        t.push((b'A' + (i * 2) as u8) as char);
        if i >= a {
            t.push('k');
        }
        if i >= b {
            t.insert(0, 'k');
        }
        keys.push(t);
    }
    if any_bool() {
        keys.reverse();
    }
    lookups(&keys, &ascii(pick(&[1usize, 2, 3])));
}
/// pushed in the right order with the sorted flag
pub fn lookup_sorted() {
    let k = distinct_keys(3, 2);
    for i in 0..2 {
        assume(key_cmp(&k[i], &k[i + 1]) == std::cmp::Ordering::Less);
    }
    let mut b = ObjectBuilder::try_new(3, true).unwrap();
    for i in 0..3 {
        b.push_number(&k[i], Number::from(i)).unwrap();
    }
    let y = b.finish().unwrap();
    let o = y.object().unwrap();
    for i in 0..3 {
        assert!(o.number(&k[i]).unwrap().unwrap().into_parts().0 == i as u128);
    }
    let p = ascii_upto(2);
    assert!(o.contains_key(&p).unwrap() == k.contains(&p));
    let mut b = ObjectBuilder::try_new(3, false).unwrap();
    for i in 0..3 {
        b.push_number(&k[i], Number::from(i)).unwrap();
    }
    // the flag is only a shortcut
    assert!(b.finish().unwrap().as_bytes() == y.as_bytes());
    cover(0);
}
/// long keys (two-byte key length) and values far into the document (offsets beyond 16 bits)
pub fn lookup_long() {
    let n = pick(&[127usize, 128, 255, 256, 257, 32767, 32768, 65534, 65535]);
    let mk = |c: &str| {
        let mut t = "p".repeat(n - 1);
        t.push_str(c);
        t
    };
    let (a, b) = (ascii(1), ascii(1));
    assume(a != b);
    let (a, b) = (mk(&a), mk(&b));
    let mut w = ObjectBuilder::try_new(3, false).unwrap();
    w.push_string(&a, "first").unwrap();
    w.push_null("k").unwrap();
    w.push_string(&b, "second").unwrap();
    let y = w.finish().unwrap();
    let o = y.object().unwrap();
    assert!(o.string(&a).unwrap().unwrap() == "first");
    assert!(o.string(&b).unwrap().unwrap() == "second");
    assert!(o.is_null("k").unwrap() == Some(true));
    let mut it = o.key_iter().unwrap();
    assert!(it.next().unwrap().unwrap() == "k");
    let (lo, hi) = if a < b { (&a, &b) } else { (&b, &a) };
    assert!(it.next().unwrap().unwrap() == lo);
    assert!(it.next().unwrap().unwrap() == hi);
    assert!(it.next().is_none());
    cover(0);
}
pub fn lookup_far() {
    let n = pick(&[65500usize, 65536, 70000, (1 << 24) - 40, (1 << 24) + 9]);
    let big = zeros(n);
    let k = distinct_keys(2, 1);
    assume(k[0] != "m" && k[1] != "m");
    let mut w = ObjectBuilder::try_new(3, false).unwrap();
    w.push_string(&k[0], &big).unwrap();
    w.push_bool("m", true).unwrap();
    {
        let mut c = w.push_object(&k[1], 1, true).unwrap();
        c.push_string("in", "side").unwrap();
        c.finish().unwrap();
    }
    let y = w.finish().unwrap();
    let o = y.object().unwrap();
    assert!(o.string(&k[0]).unwrap().unwrap().len() == n);
    assert!(o.bool("m").unwrap() == Some(true));
    assert!(o.object(&k[1]).unwrap().unwrap().string("in").unwrap() == Some("side"));
    cover(0);
}
/// more members than a one-byte count or a signed index can hold
pub fn lookup_count() {
    let n = pick(&[127usize, 128, 129, 255, 256, 257]);
    let x = any_u8();
    let y = {
        let mut w = ObjectBuilder::try_new(n as u16, false).unwrap();
        for i in 0..n {
            // descending pushes
            let v = (n - 1 - i) as u16;
            let k = [b'0' + (v >> 8) as u8, b'0' + (v >> 4 & 15) as u8, b'0' + (v & 15) as u8];
            w.push_number(std::str::from_utf8(&k).unwrap(), Number::from(if v == 77 { x as u16 } else { v })).unwrap();
        }
        w.finish().unwrap()
    };
    let o = y.object().unwrap();
    assert!(o.len().unwrap() == n && o.iter().unwrap().count() == n);
    for i in 0..n {
        let v = i as u16;
        let k = [b'0' + (v >> 8) as u8, b'0' + (v >> 4 & 15) as u8, b'0' + (v & 15) as u8];
        let g = o.number(std::str::from_utf8(&k).unwrap()).unwrap().unwrap().into_parts().0;
        assert!(g == if v == 77 { x as u128 } else { v as u128 });
    }
    cover(0);
}

fn code(v: usize) -> String {
    let d = |x: usize| (b'0' + (x & 15) as u8) as char;
    [d(v >> 8), d(v >> 4), d(v)].iter().collect()
}
const SIZES: &[usize] = &[4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129];
const MANY: &[usize] = &[200, 255, 256, 257, 300, 511, 512, 513, 1000];
/// order in which `n` things are pushed
fn push_order(n: usize) -> Vec<usize> {
    match choose(3) {
        0 => (0..n).collect(),
        1 => (0..n).rev().collect(),
        _ => {
            // evens up, odds down
            let mut v: Vec<usize> = (0..n).step_by(2).collect();
            v.extend((0..n).filter(|i| i % 2 == 1).rev());
            v
        }
    }
}
/// objects of many sizes with gaps between the keys; the probe is any text of 3 bytes
pub fn lookup_gaps() {
    let n = if any_bool() { pick(SIZES) } else { MANY[choose(q(5, 9) as u32) as usize] };
    let ord = push_order(n);
    if tier() == 0 {
        assume(n < 140 || ord[0] == 0 && ord[1] == 1);
    }
    let mut b = ObjectBuilder::try_new(n as u16, false).unwrap();
    for i in ord {
        // odd codes only
        b.push_number(&code(2 * i + 1), Number::from(i)).unwrap();
    }
    let y = b.finish().unwrap();
    let o = y.object().unwrap();
    let p = ascii(3);
    let d = |i: usize| (p.as_bytes()[i] as usize).wrapping_sub(b'0' as usize);
    let v = (d(0) << 8).wrapping_add(d(1) << 4).wrapping_add(d(2));
    let stored = (d(0) < 16) & (d(1) < 16) & (d(2) < 16) & (v & 1 == 1) & (v < 2 * n);
    let g = o.get(&p).unwrap();
    assert!(g.is_some() == stored);
    if let Some(g) = g {
        assert!(matches!(g, Value::Number(x) if x.into_parts().0 == (v / 2) as u128));
        cover(1);
    } else {
        cover(2);
    }
    assert!(o.contains_key(&p).unwrap() == stored);
    cover(0);
}
/// keys of two lengths, any probe of the shorter or the longer
pub fn lookup_mixed() {
    let n = if tier() == 0 { pick(&[4, 5, 7, 8, 9, 12, 16, 17, 33, 64]) } else { pick(SIZES) };
    // the first `a` codes lose their first digit
    let a = pick(&[0usize, 1, n / 2, n - 1, n]);
    let mut b = ObjectBuilder::try_new(n as u16, false).unwrap();
    let key = |i: usize| if i < a { code(2 * i + 1)[1..].to_string() } else { code(2 * i + 1) };
    assume(2 * a < 256);
    for i in push_order(n) {
        b.push_number(&key(i), Number::from(i)).unwrap();
    }
    let y = b.finish().unwrap();
    let o = y.object().unwrap();
    let l = pick(&[1usize, 2, 3]);
    let p = ascii(l);
    let d = |i: usize| (p.as_bytes()[i] as usize).wrapping_sub(b'0' as usize);
    let mut v = 0usize;
    let mut stored = true;
    for i in 0..l {
        stored &= d(i) < 16;
        v = (v << 4usize).wrapping_add(d(i));
    }
    stored &= v & 1 == 1;
    stored &= match l {
        2 => v < 2 * a,
        3 => (v >= 2 * a) & (v < 2 * n),
        _ => false,
    };
    let g = o.get(&p).unwrap();
    assert!(g.is_some() == stored);
    if let Some(g) = g {
        assert!(matches!(g, Value::Number(x) if x.into_parts().0 == (v / 2) as u128));
        cover(1);
    } else {
        cover(2);
    }
    cover(0);
}

// ---------------------------------------------------------------- iteration

fn check_iter(j: &[(String, J)]) {
    let y = build(&Obj(j.to_vec()));
    out_bytes(y.as_bytes());
    let o = y.object().unwrap();
    let ord = key_order(j);
    let c = j.len();
    assert!(o.len().unwrap() == c);
    assert!(o.is_empty().unwrap() == (c == 0));
    let (mut it, mut ks, mut vs) = (o.iter().unwrap(), o.key_iter().unwrap(), o.value_iter().unwrap());
    for i in 0..c {
        let (k, v) = it.next().unwrap().unwrap();
        let want = &j[ord[i]];
        assert!(k == want.0);
        assert!(same(&v, &want.1));
        assert!(ks.next().unwrap().unwrap() == k);
        assert!(same(&vs.next().unwrap().unwrap(), &want.1));
        assert!(same(&o.get(k).unwrap().unwrap(), &want.1));
    }
    for _ in 0..2 {
        assert!(it.next().is_none() && ks.next().is_none() && vs.next().is_none());
    }
    cover(0);
}
pub fn iter_keys() {
    let c = choose(q(4, 5) as u32) as usize;
    let k = distinct_keys(c, if c < 4 { 2 } else { 1 });
    let j: Vec<(String, J)> = k.into_iter().enumerate().map(|(i, k)| (k, n(i as i64))).collect();
    check_iter(&j);
}
pub fn iter_values() {
    let c = choose(q(3, 4) as u32) as usize;
    let k = distinct_keys(c, 1);
    let mut j = vec![];
    for k in k {
        let v = match choose(7) {
            0 => Null,
            1 => Bool(sym_bool()),
            2 => Num(any_num()),
            3 => Str(ascii_upto(2)),
            4 => Arr(vec![scalar(), s("t")]),
            5 => Obj(vec![(ascii(1), scalar())]),
            _ => Obj(vec![]),
        };
        j.push((k, v));
    }
    check_iter(&j);
}

/// keys whose length in characters and in bytes differ
pub fn iter_wide() {
    let len = choose(q(3, 4) as u32) as usize + 1;
    let a = utf8(len);
    let b = utf8(choose(4) as usize + 1);
    assume(a != b);
    let mut j = vec![(a, Bool(sym_bool())), (b, n(2))];
    if any_bool() {
        assume(j[0].0 != "ü" && j[1].0 != "ü");
        j.insert(choose(3) as usize, ("ü".into(), s("m")));
    }
    check_iter(&j);
}
/// long keys between short ones, and values far into the document
pub fn iter_long() {
    let far = pick(&[0usize, 65600, (1 << 24) + 9]);
    let n = if far == 0 { pick(&[127usize, 128, 255, 256, 257, 300, 32768, 65535]) } else { pick(&[300, 300 + 65000 * (far < 70000) as usize]) };
    let x = ascii(1);
    let mut long = x.clone();
    long.push_str(&zeros(n - 1));
    let e = if far == 0 { element() } else { pick_elem() };
    let mut j = vec![("b".to_string(), Str(ascii(1))), (long, e), ("a".into(), Bool(sym_bool()))];
    if any_bool() {
        j.swap(0, 1);
    }
    if far > 0 {
        j.push(("far".into(), Str(zeros(far))));
        j.push(("z".into(), Str(ascii(1))));
        j.swap(1, 3);
    }
    check_iter(&j);
}
/// many members in different push orders
pub fn iter_many() {
    let n = if any_bool() { pick(SIZES) } else { MANY[choose(q(5, 9) as u32) as usize] };
    let a = pick(&[0usize, 1, n / 2, n]);
    assume(2 * a < 256);
    let x = ascii(1);
    let e = Arr(vec![Bool(sym_bool()), Str(x)]);
    let mut j = vec![];
    for i in push_order(n) {
        let k = if i < a { code(2 * i + 1)[1..].to_string() } else { code(2 * i + 1) };
        let v = match i % 5 {
            0 => Null,
            1 => self::n(i as i64),
            2 => Str(code(i)),
            3 => Bool(i % 2 == 0),
            _ => e.clone(),
        };
        j.push((k, v));
    }
    check_iter(&j);
}
/// one symbolic key among several
pub fn iter_among() {
    let n = pick(&[4usize, 7, 8, 9, 16]);
    let mut j: Vec<(String, J)> = push_order(n).into_iter().map(|i| (code(2 * i + 1)[i % 2..].to_string(), self::n(i as i64))).collect();
    let x = ascii(pick(&[1usize, 2, 3]));
    for k in &j {
        assume(k.0 != x);
    }
    j.insert(pick(&[0, n / 2, n]), (x, s("x")));
    check_iter(&j);
}
/// The provided methods of an iterator agree with `next`, from any position on. `ix` maps an item to its position.
fn adapt<I: Iterator>(mk: impl Fn() -> I, n: usize, ix: impl Fn(I::Item) -> usize) {
    let a = choose(n as u32 + 2) as usize;
    let mut it = mk();
    for i in 0..a {
        let x = it.next();
        if i < n {
            assert!(ix(x.unwrap()) == i);
        } else {
            assert!(x.is_none());
        }
    }
    let a = a.min(n);
    let (lo, hi) = it.size_hint();
    assert!(lo <= n - a && hi.map_or(true, |h| h >= n - a));
    match choose(9) {
        0 => assert!(it.count() == n - a),
        1 => {
            let x = it.last().map(&ix);
            assert!(x == if a < n { Some(n - 1) } else { None });
        }
        2 => {
            let b = choose(n as u32 + 2) as usize;
            let x = it.nth(b).map(&ix);
            assert!(x == if a + b < n { Some(a + b) } else { None });
            let y = it.next().map(&ix);
            assert!(y == if a + b + 1 < n { Some(a + b + 1) } else { None });
            let (lo, hi) = it.size_hint();
            let left = n.saturating_sub(a + b + 2);
            assert!(lo <= left && hi.map_or(true, |h| h >= left));
        }
        3 => {
            let (b, c) = (choose(n as u32 + 1) as usize, choose(3) as usize + 1);
            let mut want = a + b;
            for x in it.skip(b).step_by(c) {
                assert!(ix(x) == want);
                want += c;
            }
            assert!(want >= n);
        }
        4 => {
            let b = choose(n as u32 + 1) as usize;
            let mut want = a;
            for x in it.by_ref().take(b) {
                assert!(ix(x) == want);
                want += 1;
            }
            assert!(want == (a + b).min(n));
            for x in it {
                assert!(ix(x) == want);
                want += 1;
            }
            assert!(want == n);
        }
        5 => {
            let mut want = a;
            let k = it.fold(0usize, |k, x| {
                assert!(ix(x) == want);
                want += 1;
                k + 1
            });
            assert!(k == n - a);
        }
        6 => {
            let b = choose(n as u32 + 1) as usize;
            let p = it.position(|x| ix(x) == b);
            assert!(p == if a <= b && b < n { Some(b - a) } else { None });
            let y = it.next().map(&ix);
            assert!(y == if a <= b && b + 1 < n { Some(b + 1) } else { None });
        }
        7 => {
            let v: Vec<usize> = it.map(ix).collect();
            assert!(v.len() == n - a);
            for (i, x) in v.into_iter().enumerate() {
                assert!(x == a + i);
            }
        }
        _ => {
            // two of them at once
            let mut jt = mk();
            for i in 0..n {
                assert!(ix(jt.next().unwrap()) == i);
                if a + i < n {
                    assert!(ix(it.next().unwrap()) == a + i);
                }
            }
            assert!(jt.next().is_none() && it.next().is_none());
            assert!(jt.next().is_none() && it.nth(0).is_none());
        }
    }
    cover(0);
}
pub fn iter_adapt() {
    let n = choose(q(5, 8) as u32) as usize;
    let x = ascii(1);
    let mut j = vec![];
    for i in push_order(n) {
        let v = match i % 4 {
            0 => self::n(i as i64),
            1 => Str(x.clone()),
            2 => Arr(vec![Null]),
            _ => Bool(i > 4),
        };
        j.push((code(2 * i + 1)[1..].to_string(), v));
    }
    let y = build(&Obj(j.clone()));
    let o = y.object().unwrap().clone();
    let val = |v: Value| {
        let k = j.iter().position(|e| same(&v, &e.1)).unwrap();
        key_at(&j[k].0)
    };
    match choose(3) {
        0 => adapt(|| o.iter().unwrap(), n, |e| {
            let (k, v) = e.unwrap();
            assert!(val(v) % 4 == key_at(k) % 4);
            key_at(k)
        }),
        1 => adapt(|| o.key_iter().unwrap(), n, |k| key_at(k.unwrap())),
        _ => {
            // values that tell their position
            let mut b = ObjectBuilder::try_new(n as u16, false).unwrap();
            for (k, _) in &j {
                b.push_number(k, Number::from(key_at(k))).unwrap();
            }
            let y = b.finish().unwrap();
            let o = y.object().unwrap();
            adapt(|| o.value_iter().unwrap(), n, |v| match v.unwrap() {
                Value::Number(x) => x.into_parts().0 as usize,
                _ => panic!(),
            })
        }
    }
}
fn key_at(k: &str) -> usize {
    let b = k.as_bytes();
    (((b[0] - b'0') as usize * 16 + (b[1] - b'0') as usize) - 1) / 2
}
fn pick_elem() -> J {
    match choose(3) {
        0 => Null,
        1 => Str(ascii(2)),
        _ => Arr(vec![Bool(sym_bool()), s("t")]),
    }
}

// ---------------------------------------------------------------- arrays

pub fn element() -> J {
    match choose(8) {
        0 => Null,
        1 => Bool(sym_bool()),
        2 => Num(any_num()),
        3 => Str(ascii_upto(2)),
        4 => Arr(vec![]),
        5 => Arr(vec![scalar(), s("t")]),
        6 => Obj(vec![(ascii(1), scalar())]),
        _ => Str("é".into()),
    }
}
fn oob<T>(r: YasonResult<T>, l: usize, i: usize) -> bool {
    matches!(r, Err(YasonError::IndexOutOfBounds { len, index }) if len == l && index == i)
}
/// every mix of elements, read by position and by iterator
pub fn array_mix() {
    let c = choose(q(3, 4) as u32 + 1) as usize;
    let mut v = vec![];
    for _ in 0..c {
        v.push(element());
    }
    let y = build(&Arr(v.clone()));
    out_bytes(y.as_bytes());
    let a = y.array().unwrap();
    assert!(a.len().unwrap() == c && a.is_empty().unwrap() == (c == 0));
    for i in 0..c {
        assert!(a.type_of(i).unwrap() == v[i].ty());
        assert!(same(&a.get(i).unwrap(), &v[i]));
        assert!(same(&unsafe { a.get_unchecked(i) }.unwrap(), &v[i]));
    }
    let mut it = a.iter().unwrap();
    for i in 0..c {
        assert!(same(&it.next().unwrap().unwrap(), &v[i]));
    }
    assert!(it.next().is_none() && it.next().is_none());
    cover(0);
}
/// every index, in range or not
pub fn array_index() {
    let c = choose(4) as usize;
    let mut v = vec![];
    for k in 0..c {
        v.push(n(k as i64 * 3));
    }
    let y = build(&Arr(v));
    let a = y.array().unwrap();
    let i = u64::from_le_bytes(any::<8>()) as usize;
    if i < c {
        assert!(a.number(i).unwrap().into_parts().0 == i as u128 * 3);
        assert!(a.type_of(i).unwrap() == DataType::Number && !a.is_null(i).unwrap());
        cover(1);
    } else {
        assert!(oob(a.get(i), c, i));
        assert!(oob(a.type_of(i), c, i));
        assert!(oob(a.is_type(i, DataType::Null), c, i));
        assert!(oob(a.is_null(i), c, i));
        assert!(oob(a.object(i), c, i));
        assert!(oob(a.array(i), c, i));
        assert!(oob(a.string(i), c, i));
        assert!(oob(a.number(i), c, i));
        assert!(oob(a.bool(i), c, i));
        cover(2);
    }
    cover(0);
}
/// arrays of many sizes, every index
pub fn array_big() {
    let c = if any_bool() { pick(SIZES) } else { MANY[choose(q(5, 9) as u32) as usize] };
    let x = any_u8();
    let at = pick(&[0usize, c / 2, c - 1]);
    let (period, first) = (pick(&[2usize, 3]), any_bool());
    let inl = |i: usize| (i % period == 0) == first;
    let mut b = ArrayBuilder::try_new(c as u16).unwrap();
    for i in 0..c {
        if i == at {
            b.push_number(Number::from(x)).unwrap();
        } else if inl(i) {
            b.push_bool(i % 4 == 0).unwrap();
        } else {
            b.push_number(Number::from(i)).unwrap();
        }
    }
    let y = b.finish().unwrap();
    let a = y.array().unwrap();
    assert!(a.len().unwrap() == c);
    let mut it = a.iter().unwrap();
    for i in 0..c {
        let v = it.next().unwrap().unwrap();
        if i == at {
            assert!(a.number(i).unwrap().into_parts().0 == x as u128);
            assert!(matches!(v, Value::Number(g) if g.into_parts().0 == x as u128));
        } else if inl(i) {
            assert!(a.bool(i).unwrap() == (i % 4 == 0));
            assert!(matches!(v, Value::Bool(g) if g == (i % 4 == 0)));
        } else {
            assert!(a.number(i).unwrap().into_parts().0 == i as u128);
            assert!(matches!(v, Value::Number(g) if g.into_parts().0 == i as u128));
        }
    }
    assert!(it.next().is_none());
    assert!(oob(a.get(c), c, c));
    cover(0);
}
/// any 64-bit index into arrays of many sizes
pub fn array_any() {
    let c = if any_bool() { pick(SIZES) } else { pick(&[255usize, 256, 257, 300]) };
    let mut v = vec![];
    for k in 0..c {
        v.push(if k % 3 == 1 { Bool(k % 2 == 0) } else { n(k as i64 * 3) });
    }
    let y = build(&Arr(v));
    let a = y.array().unwrap();
    let i = u64::from_le_bytes(any::<8>()) as usize;
    let r = a.get(i);
    if i < c {
        let i = conc(i as u64) as usize;
        if i % 3 == 1 {
            assert!(matches!(r.unwrap(), Value::Bool(g) if g == (i % 2 == 0)));
            assert!(a.is_type(i, DataType::Bool).unwrap());
        } else {
            assert!(matches!(r.unwrap(), Value::Number(g) if g.into_parts().0 == i as u128 * 3));
            assert!(a.type_of(i).unwrap() == DataType::Number);
        }
        cover(1);
    } else {
        assert!(oob(r, c, i));
        assert!(oob(a.type_of(i), c, i));
        assert!(oob(a.number(i), c, i));
        assert!(oob(a.bool(i), c, i));
        cover(2);
    }
    cover(0);
}
pub fn array_adapt() {
    let n = choose(q(5, 8) as u32) as usize;
    let mut b = ArrayBuilder::try_new(n as u16).unwrap();
    for i in 0..n {
        if i % 2 == 0 {
            b.push_number(Number::from(i)).unwrap();
        } else {
            b.push_array(i as u16).unwrap().nulls(i);
        }
    }
    let y = b.finish().unwrap();
    let a = y.array().unwrap().clone();
    adapt(|| a.iter().unwrap(), n, |v| match v.unwrap() {
        Value::Number(x) => x.into_parts().0 as usize,
        Value::Array(x) => x.len().unwrap(),
        _ => panic!(),
    })
}
trait Nulls {
    fn nulls(self, n: usize);
}
impl Nulls for ArrayRefBuilder<'_> {
    fn nulls(mut self, n: usize) {
        for _ in 0..n {
            self.push_null().unwrap();
        }
        self.finish().unwrap();
    }
}
pub fn array_far() {
    let n = pick(&[65000usize, 65536, 70000, (1 << 24) - 30, (1 << 24) + 9]);
    let e = element();
    let v = vec![Str(zeros(n)), e, Str(ascii(2)), Bool(sym_bool())];
    let y = build(&Arr(v.clone()));
    let a = y.array().unwrap();
    for i in 0..4 {
        assert!(same(&a.get(i).unwrap(), &v[i]));
    }
    let mut it = a.iter().unwrap();
    for x in &v {
        assert!(same(&it.next().unwrap().unwrap(), x));
    }
    assert!(it.next().is_none());
    cover(0);
}

/// more members than 14 bits (15 bits thorough) can count, probed around every power of two
pub fn lookup_huge() {
    let n = pick_tier(&[16385usize, 20000], &[16385, 20000, 32769, 65535]);
    let sorted = any_bool();
    assume(tier() > 0 || sorted || n == 16385);
    let x = any_u8();
    let at = pick(&[0usize, n / 3, n - 1]);
    assume(tier() > 0 || sorted || at > 0);
    let mut b = ObjectBuilder::try_new(n as u16, sorted).unwrap();
    for i in 0..n {
        let v = if i == at { x as usize } else { i };
        b.push_number(&code4(i), Number::from(v)).unwrap();
    }
    let y = b.finish().unwrap();
    let o = y.object().unwrap();
    assert!(o.len().unwrap() == n);
    for i in [0, 1, 127, 128, 255, 256, 4095, 4096, 8191, 8192, 16383, 16384, 32767, 32768, n / 3, n - 2, n - 1] {
        let want = if i == at { x as u128 } else { i as u128 };
        let g = o.number(&code4(i)).unwrap();
        assert!(g.map(|g| g.into_parts().0) == if i < n { Some(want) } else { None });
    }
    assert!(!o.contains_key("").unwrap() && !o.contains_key(&code4(n)).unwrap());
    cover(0);
}
pub fn iter_huge() {
    let n = pick_tier(&[16385usize], &[16385, 32769, 65535]);
    let x = any_u8();
    let at = pick(&[0usize, n - 1]);
    let mut b = ObjectBuilder::try_new(n as u16, true).unwrap();
    for i in 0..n {
        let v = if i == at { x as usize } else { i };
        b.push_number(&code4(i), Number::from(v)).unwrap();
    }
    let y = b.finish().unwrap();
    let o = y.object().unwrap();
    let (mut it, mut ks, mut vs) = (o.iter().unwrap(), o.key_iter().unwrap(), o.value_iter().unwrap());
    for i in 0..n {
        let want = if i == at { x as u128 } else { i as u128 };
        let (k, v) = it.next().unwrap().unwrap();
        assert!(k == code4(i));
        assert!(matches!(v, Value::Number(g) if g.into_parts().0 == want));
        assert!(ks.next().unwrap().unwrap() == k);
        assert!(matches!(vs.next().unwrap().unwrap(), Value::Number(g) if g.into_parts().0 == want));
    }
    assert!(it.next().is_none() && ks.next().is_none() && vs.next().is_none());
    cover(0);
}
fn code4(v: usize) -> String {
    let d = |x: usize| (b'0' + (x & 15) as u8) as char;
    [d(v >> 12), d(v >> 8), d(v >> 4), d(v)].iter().collect()
}
fn pick_tier(a: &[usize], b: &[usize]) -> usize {
    if tier() == 0 { pick(a) } else { pick(b) }
}
/// more elements than 14 or 15 bits can count
pub fn array_huge() {
    let n = pick_tier(&[16385usize, 32769], &[16385, 32769, 65535]);
    let x = any_u8();
    let at = pick(&[0usize, n / 2, n - 1]);
    let mut b = ArrayBuilder::try_new(n as u16).unwrap();
    for i in 0..n {
        if i == at {
            b.push_number(Number::from(x)).unwrap();
        } else if i % 64 == 63 {
            b.push_number(Number::from(i)).unwrap();
        } else {
            b.push_bool(i % 3 == 0).unwrap();
        }
    }
    let y = b.finish().unwrap();
    let a = y.array().unwrap();
    assert!(a.len().unwrap() == n);
    let ok = |i: usize, v: Value| match v {
        Value::Number(g) => g.into_parts().0 == if i == at { x as u128 } else { i as u128 } && (i == at || i % 64 == 63),
        Value::Bool(g) => i != at && i % 64 != 63 && g == (i % 3 == 0),
        _ => false,
    };
    let mut i = 0;
    for v in a.iter().unwrap() {
        assert!(ok(i, v.unwrap()));
        i += 1;
    }
    assert!(i == n);
    for i in [0, 1, 8191, 8192, 13106, 13107, 13108, 16383, 16384, n / 2, n - 2, n - 1] {
        assert!(ok(i, a.get(i).unwrap()));
    }
    assert!(oob(a.get(n), n, n));
    cover(0);
}

// ---------------------------------------------------------------- room

/// something pushed at every fill of the buffer, whatever is left of its capacity
fn room(e: J) {
    let k = choose(q(150, 300) as u32) as usize;
    let first = Str(zeros(k));
    let j = match choose(4) {
        0 => Arr(vec![first, e, s("t")]),
        1 => Obj(vec![("a".into(), first), ("b".into(), e), ("c".into(), Null)]),
        2 => Arr(vec![first, Arr(vec![e])]),
        _ => Obj(vec![("a".into(), first), ("b".into(), Obj(vec![("x".into(), e)]))]),
    };
    let mut want = vec![];
    encode(&j, &mut want);
    if any_bool() {
        let y = build(&j);
        assert!(y.as_bytes() == want);
        assert!(is_doc(&y, &j));
    } else {
        let cap = pick(&[0usize, 24, 200]);
        let mut v = Vec::with_capacity(cap);
        v.push(7);
        let y = build_into(&j, &mut v);
        assert!(y.as_bytes() == want);
        assert!(is_doc(y, &j));
    }
    cover(0);
}
pub fn room_num() {
    let x: Number = match choose(4) {
        0 => Number::from(any_u8()),
        1 => Number::from(u16::from_le_bytes(any::<2>())),
        2 => "-99999999999999999999999999999999999999e-120".parse().unwrap(),
        _ => "12345678901234567890.5".parse().unwrap(),
    };
    room(Num(x))
}
pub fn room_str() {
    let mut t = ascii(1);
    t.push_str(&zeros(pick(&[0usize, 1, 2, 126, 127, 200])));
    room(Str(t))
}
pub fn room_any() {
    let e = match choose(7) {
        0 => Null,
        1 => Bool(sym_bool()),
        2 => Num(small_num()),
        3 => Arr(vec![]),
        4 => Obj(vec![]),
        5 => Arr(vec![Bool(sym_bool()); 3]),
        _ => Obj(vec![("yy".into(), Null), ("x".into(), Bool(sym_bool()))]),
    };
    room(e)
}

// ---------------------------------------------------------------- nesting

/// every nested container is a complete document of its own
fn nested(v: &Value, j: &J) {
    match (v, j) {
        (Value::Array(a), Arr(e)) => {
            let own = build(j);
            assert!(a.yason().as_bytes() == own.as_bytes());
            assert!(is_doc(a.yason(), j));
            for i in 0..e.len() {
                nested(&a.get(i).unwrap(), &e[i]);
            }
        }
        (Value::Object(a), Obj(e)) => {
            let own = build(j);
            assert!(a.yason().as_bytes() == own.as_bytes());
            assert!(is_doc(a.yason(), j));
            for (k, x) in e {
                nested(&a.get(k).unwrap().unwrap(), x);
            }
        }
        _ => assert!(same(v, j)),
    }
}
pub fn nest_tree() {
    let j = tree(q(2, 3), 2);
    let y = build(&j);
    out_bytes(y.as_bytes());
    nested(&Value::try_from(&*y).unwrap(), &j);
    cover(0);
}
/// a chain of containers with siblings before and after at every level
pub fn nest_chain() {
    let d = q(4, 6);
    let mut j = scalar();
    for i in 0..d {
        j = if any_bool() {
            Arr(vec![n(i as i64), j, s("after")])
        } else {
            let k = ascii(1);
            assume(k != "x");
            Obj(vec![("x".into(), Bool(true)), (k, j), ("after".into(), Null)])
        };
    }
    let y = build(&j);
    out_bytes(y.as_bytes());
    nested(&Value::try_from(&*y).unwrap(), &j);
    cover(0);
}
/// documents that grow past the builder's first allocation in the middle of nesting
pub fn nest_grow() {
    let k = choose(q(40, 140) as u32) as usize;
    let w = ascii(1);
    let j = Arr(vec![
        Str("g".repeat(k)),
        Obj(vec![(w, Arr(vec![Str("h".repeat(30)), n(7), Obj(vec![("in".into(), Str("i".repeat(k / 2)))])])), ("bb".into(), Bool(sym_bool()))]),
        s("end"),
    ]);
    let y = build(&j);
    out_bytes(y.as_bytes());
    nested(&Value::try_from(&*y).unwrap(), &j);
    cover(0);
}

/// containers of more than 2^16 and 2^24 bytes inside others, with siblings on both sides
pub fn nest_far() {
    let big = Str(zeros(pick(&[60000usize, 65600, 140000, (1 << 24) + 9])));
    let x = scalar();
    let inner = if any_bool() {
        Arr(vec![Bool(sym_bool()), big, x])
    } else {
        Obj(vec![("p".into(), big), ("bb".into(), x), ("a".into(), Null)])
    };
    let k = ascii(1);
    assume(k != "y" && k != "m");
    let j = match choose(4) {
        0 => Arr(vec![s("before"), inner, Arr(vec![n(3)])]),
        1 => Obj(vec![("y".into(), Bool(sym_bool())), (k, inner), ("m".into(), Obj(vec![("t".into(), n(3))]))]),
        2 => Arr(vec![Obj(vec![(k, Arr(vec![inner, n(1)])), ("m".into(), s("t"))]), s("e")]),
        _ => Obj(vec![("m".into(), Arr(vec![Null, Obj(vec![("in".into(), inner), (k, n(2))])])), ("y".into(), n(9))]),
    };
    let y = build(&j);
    nested(&Value::try_from(&*y).unwrap(), &j);
    cover(0);
}

pub fn nest_rich() {
    let j = rich();
    let y = build(&j);
    out_bytes(y.as_bytes());
    nested(&Value::try_from(&*y).unwrap(), &j);
    cover(0);
}

// ---------------------------------------------------------------- layout

fn check_layout(j: &J) {
    let y = build(j);
    let mut want = Vec::new();
    encode(j, &mut want);
    out_bytes(y.as_bytes());
    assert!(y.as_bytes() == want);
    // a document written by someone else in this layout is readable
    let z = unsafe { Yason::new_unchecked(&want) };
    assert!(is_doc(z, j));
    // the view of a container inside the document is in this layout too
    nested(&Value::try_from(&*y).unwrap(), j);
    cover(0);
}
pub fn layout_tree() {
    check_layout(&tree(q(2, 3), 2));
}
pub fn layout_rich() {
    check_layout(&rich());
}
pub fn layout_flat() {
    let c = choose(q(3, 4) as u32 + 1) as usize;
    if any_bool() {
        let mut v = vec![];
        for _ in 0..c {
            v.push(element());
        }
        check_layout(&Arr(v));
    } else {
        let k = distinct_keys(c, if tier() == 0 && c == 3 { 1 } else { 2 });
        let mut e = vec![];
        for x in k {
            e.push((x, scalar()));
        }
        check_layout(&Obj(e));
    }
}
pub fn layout_sizes() {
    let k = pick(&[126usize, 127, 128, 129, 16383, 16384, 65535, 65536, 2097151, 2097152, (1 << 24) + 9]);
    let mut t = ascii(1);
    t.push_str(&zeros(k - 1));
    match choose(4) {
        3 => check_layout(&Obj(vec![("o".into(), Obj(vec![("i".into(), Str(t)), ("a".into(), n(2))])), ("b".into(), Arr(vec![n(1)]))])),
        0 => check_layout(&Str(t)),
        1 => check_layout(&Arr(vec![Str(t), n(1), Obj(vec![("q".into(), Null)])])),
        _ => check_layout(&Obj(vec![("zz".into(), Str(t)), ("a".into(), n(1)), ("b".into(), Arr(vec![]))])),
    }
}
pub fn layout_counts() {
    let c = pick(&[0usize, 1, 127, 128, 255, 256, 300]);
    let x = sym_bool();
    if any_bool() {
        let mut v = vec![];
        for i in 0..c {
            v.push(if i % 2 == 0 { Bool(x) } else { Null });
        }
        check_layout(&Arr(v));
    } else {
        let mut e = vec![];
        for i in 0..c {
            let v = (c - i) as u16;
            let k = vec![b'0' + (v >> 8) as u8, b'0' + (v >> 4 & 15) as u8, b'0' + (v & 15) as u8];
            e.push((String::from_utf8(k).unwrap(), Bool(x)));
        }
        check_layout(&Obj(e));
    }
}

// ---------------------------------------------------------------- appending

/// a vector that already holds bytes, with little or much spare room
fn prefix() -> Vec<u8> {
    let n = pick(&[0usize, 1, 2, 3, 5, 8]);
    let mut v = Vec::with_capacity(n + pick(&[0usize, 1, 3, 7, 200]));
    for _ in 0..n {
        v.push(any_u8());
    }
    v
}
fn check_append(j: &J) {
    let mut v = prefix();
    let old = v.clone();
    let own = build(j);
    {
        let y = build_into(j, &mut v);
        assert!(y.as_bytes() == own.as_bytes());
        assert!(is_doc(y, j));
    }
    assert!(v.len() == old.len() + own.as_bytes().len());
    assert!(v[..old.len()] == old[..]);
    assert!(v[old.len()..] == *own.as_bytes());
    out_bytes(&v);
    // and once more behind it
    let mid = v.clone();
    {
        let y = build_into(j, &mut v);
        assert!(is_doc(y, j));
    }
    assert!(v[..mid.len()] == mid[..] && v[mid.len()..] == *own.as_bytes());
    cover(0);
}
pub fn append_scalar() {
    check_append(&match choose(4) {
        0 => Null,
        1 => Bool(sym_bool()),
        2 => Num(any_num()),
        _ => Str(text(1)),
    });
}
pub fn append_tree() {
    check_append(&match choose(4) {
        0 => Arr(vec![element(), scalar()]),
        1 => {
            let k = distinct_keys(2, 1);
            Obj(vec![(k[0].clone(), element()), (k[1].clone(), scalar())])
        }
        2 => Arr(vec![Obj(vec![(ascii(1), Arr(vec![scalar()]))]), n(4)]),
        _ => {
            let k = distinct_keys(3, 1);
            Obj(vec![
                (k[0].clone(), Obj(vec![("y".into(), n(1)), ("x".into(), n(2))])),
                (k[1].clone(), Arr(vec![Bool(true)])),
                (k[2].clone(), Null),
            ])
        }
    });
}
pub fn append_rich() {
    check_append(&rich_of(Bool(sym_bool())));
}
/// strings of every size of the length prefix
pub fn append_len() {
    let k = pick(&[0usize, 1, 126, 127, 128, 200, 16383, 16384, 20000, 70000, 2097151, 2097152, 2100000]);
    let mut t = zeros(k);
    t.push_str(&ascii(1));
    let mut v = prefix();
    let old = v.clone();
    let j = match choose(3) {
        0 => Str(t),
        1 => Arr(vec![n(1), Str(t), s("e")]),
        _ => Obj(vec![("kk".into(), Str(t)), ("a".into(), Null)]),
    };
    let own = build(&j);
    {
        let y = build_into(&j, &mut v);
        assert!(is_doc(y, &j));
        assert!(y.as_bytes().len() == own.as_bytes().len());
    }
    assert!(v.len() == old.len() + own.as_bytes().len());
    assert!(v[..old.len()] == old[..] && v[old.len()..] == *own.as_bytes());
    cover(0);
}
/// JSON text appended to a vector
pub fn append_json() {
    let mut v = prefix();
    let old = v.clone();
    let c = any_u8();
    assume(c.is_ascii_digit());
    let d = any_u8();
    assume(d.is_ascii_lowercase());
    let (c, d) = (c as char, d as char);
    let t: String = match choose(6) {
        0 => ["[", &c.to_string(), ",null]"].concat(),
        1 => ["{\"", &d.to_string(), "\":[true,", &c.to_string(), "],\"b0\":{}}"].concat(),
        2 => ["\"", &d.to_string(), "\""].concat(),
        3 => c.to_string(),
        4 => "null".into(),
        _ => "false".into(),
    };
    let j = read_json(t.as_bytes(), true).unwrap();
    let own = YasonBuf::parse(&t).unwrap();
    {
        let y = Yason::parse_to(&mut v, &t).unwrap();
        assert!(is_doc(y, &j));
        assert!(y.as_bytes() == own.as_bytes());
    }
    assert!(v[..old.len()] == old[..] && v[old.len()..] == *own.as_bytes());
    out_bytes(&v);
    cover(0);
}
/// a value taken out of a document is encoded behind what the vector holds
pub fn append_value() {
    let j = Arr(vec![element()]);
    let src = build(&j);
    let x = src.array().unwrap().get(0).unwrap();
    let mut v = prefix();
    let old = v.clone();
    let e = match &j {
        Arr(e) => &e[0],
        _ => unreachable!(),
    };
    let own = build(e);
    {
        let y = x.try_to_yason(&mut v).unwrap();
        assert!(y.as_bytes() == own.as_bytes() && is_doc(y, e));
    }
    assert!(v.len() >= old.len() && v[..old.len()] == old[..]);
    cover(0);
}

/// behind a vector that is longer than 16 and 24 bits can count
pub fn append_far() {
    let k = pick(&[65530usize, 65536, 70000, (1 << 24) + 3]);
    let mut v = zeros(k).into_bytes();
    v[k - 1] = any_u8();
    let last = v[k - 1];
    let j = match choose(4) {
        0 => scalar(),
        1 => Arr(vec![scalar(), Arr(vec![Bool(true)]), s("e")]),
        2 => Obj(vec![("b".into(), scalar()), (ascii_upto(0), Obj(vec![("t".into(), n(3))])), ("a".into(), Null)]),
        _ => Arr(vec![Obj(vec![("x".into(), scalar())])]),
    };
    let own = build(&j);
    {
        let y = build_into(&j, &mut v);
        assert!(y.as_bytes() == own.as_bytes());
        assert!(is_doc(y, &j));
    }
    assert!(v.len() == k + own.as_bytes().len());
    assert!(v[0] == 0 && v[k - 2] == 0 && v[k - 1] == last);
    assert!(v[k..] == *own.as_bytes());
    cover(0);
}

// ---------------------------------------------------------------- copies

pub fn copies() {
    let j = match choose(3) {
        0 => element(),
        1 => Arr(vec![element(), scalar()]),
        _ => Obj(vec![(ascii_upto(1), element()), ("kk".into(), scalar())]),
    };
    check_copies(&j);
}
pub fn copies_rich() {
    check_copies(&rich_of(Bool(sym_bool())));
}
fn check_copies(j: &J) {
    let y = build(j);
    let a = y.to_yason_buf().unwrap();
    let b = (*y).to_owned();
    let c = y.clone();
    let mut d = build(&match choose(3) {
        0 => Null,
        1 => Str("stale stale stale stale stale stale".into()),
        _ => Arr(vec![n(1), s("x")]),
    });
    // the standard ways of copying into something that exists
    let (mut f, mut g) = (d.clone(), d.clone());
    f.clone_from(&y);
    (*y).clone_into(&mut g);
    d.clone_from_yason(&y);
    let e = unsafe { YasonBuf::new_unchecked(y.as_bytes().to_vec()) };
    for x in [&a, &b, &c, &d, &e, &f, &g] {
        assert!(x.as_bytes() == y.as_bytes());
        assert!(is_doc(x, j));
        assert!(**x == *y);
    }
    // views
    {
        let v: &Yason = std::borrow::Borrow::borrow(&y);
        let w: &Yason = y.as_ref();
        assert!(v.as_bytes() == y.as_bytes() && w.as_bytes() == y.as_bytes());
        let v = Value::try_from(v).unwrap();
        assert!(same(&v.clone(), j) && v.data_type() == j.ty());
    }
    out_bytes(d.as_bytes());
    drop(y);
    // a copy does not depend on its origin
    for x in [&a, &b, &c, &d, &f, &g] {
        assert!(is_doc(x, j));
    }
    cover(0);
}
/// values taken out of a document and built again
pub fn rebuild() {
    let j = Obj(vec![("a".into(), element()), (ascii(2), Arr(vec![element()]))]);
    let y = build(&j);
    let es = match &j {
        Obj(e) => e,
        _ => unreachable!(),
    };
    for (k, want) in es {
        let v = y.object().unwrap().get(k).unwrap().unwrap();
        let mut buf = Vec::new();
        let z = v.try_to_yason(&mut buf).unwrap();
        assert!(is_doc(z, want));
        assert!(z.as_bytes() == build(want).as_bytes());
        let own = z.to_yason_buf().unwrap();
        assert!(is_doc(&own, want));
    }
    cover(0);
}
/// values taken out of a document and written behind many bytes
pub fn rebuild_behind() {
    let k = pick(&[1usize, 63, 64, 127, 128, 255, 256, 257, 300, 1024, 4096, 65535, 65536, (1 << 24) + 3]);
    let x = match choose(8) {
        0 => Str(ascii_upto(q(2, 3))),
        1 => Str(text(2)),
        2 => Num(small_num()),
        3 => Bool(sym_bool()),
        4 => Arr(vec![Str(ascii(1)), Null]),
        5 => Obj(vec![(ascii(1), Str(ascii(1)))]),
        6 => Null,
        _ => Str(zeros(pick(&[127usize, 128, 300]))),
    };
    let at = choose(3);
    let j = match at {
        0 => x.clone(),
        1 => Arr(vec![Bool(true), x.clone()]),
        _ => Obj(vec![("m".into(), x.clone()), ("n".into(), n(1))]),
    };
    let y = build(&j);
    let v = match at {
        0 => Value::try_from(&*y).unwrap(),
        1 => y.array().unwrap().get(1).unwrap(),
        _ => y.object().unwrap().get("m").unwrap().unwrap(),
    };
    let mut buf = zeros(k).into_bytes();
    buf[k - 1] = any_u8();
    let old = buf[k - 1];
    let own = build(&x);
    {
        let z = v.try_to_yason(&mut buf).unwrap();
        assert!(z.as_bytes() == own.as_bytes() && is_doc(z, &x));
    }
    assert!(buf.len() >= k && buf[0] == if k == 1 { old } else { zeros(1).as_bytes()[0] } && buf[k - 1] == old);
    cover(0);
}
/// documents of many bytes
pub fn copies_big() {
    let k = pick(&[4096usize, 65536, 70000, (1 << 24) + 3]);
    let j = Arr(vec![Str(zeros(k)), element()]);
    let y = build(&j);
    let a = y.to_yason_buf().unwrap();
    let mut d = build(&Str(zeros(pick(&[0usize, 80000]))));
    d.clone_from_yason(&y);
    let mut v = Vec::new();
    let z = Value::try_from(&*y).unwrap();
    let z = z.try_to_yason(&mut v).unwrap();
    assert!(is_doc(&a, &j) && is_doc(&d, &j) && is_doc(z, &j));
    cover(0);
}
pub fn rebuild_rich() {
    let j = rich_of(Str(ascii(1)));
    let y = build(&j);
    let each = |v: Value, want: &J| {
        let mut buf = prefix();
        let old = buf.clone();
        let k = buf.len();
        {
            let z = v.try_to_yason(&mut buf).unwrap();
            assert!(is_doc(z, want));
            assert!(z.as_bytes() == build(want).as_bytes());
        }
        assert!(buf.len() >= k && buf[..k] == old[..]);
    };
    match &j {
        Obj(e) => {
            let i = choose(e.len() as u32) as usize;
            each(y.object().unwrap().get(&e[i].0).unwrap().unwrap(), &e[i].1);
        }
        Arr(e) => {
            let i = choose(e.len() as u32) as usize;
            each(y.array().unwrap().get(i).unwrap(), &e[i]);
        }
        _ => unreachable!(),
    }
    cover(0);
}
