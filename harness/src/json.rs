//! JSON text in, and serde.
use crate::model::*;
use crate::nd::*;
use yason::*;

fn cat(a: &str, b: &str, c: &str) -> String {
    [a, b, c].concat()
}
fn import(t: &str) {
    let r = YasonBuf::parse(t);
    let mut v = vec![0xEE];
    let to = Yason::parse_to(&mut v, t).is_ok();
    match classify(t.as_bytes(), true) {
        Text::Is(j) => {
            assert!(r.is_ok() && to);
            let y = r.unwrap();
            assert!(is_doc(&y, &j));
            assert!(v[0] == 0xEE && v[1..] == *y.as_bytes());
            out_bytes(y.as_bytes());
            cover(0);
        }
        Text::Bad => {
            assert!(r.is_err() && !to);
            assert!(matches!(r, Err(BuildError::JsonError(_))));
            cover(1);
        }
        Text::OutOfRange => {
            assert!(r.is_err() && !to);
            assert!(matches!(r, Err(BuildError::NumberError(_))));
            cover(2);
        }
    }
}
/// every ASCII text of up to 4 bytes
pub fn json_free() {
    import(&ascii_upto(q(4, 5)));
}
/// free text inside a container
pub fn json_inner() {
    let (a, b) = pick(&[("[", "]"), ("{\"k\":", "}"), ("{\"k", ":1}"), ("[1", "2]"), ("{", "\":[]}"), ("[\"", "\",{}]")]);
    import(&cat(a, &ascii_upto(q(3, 4)), b));
}
/// every one-byte edit of well-formed texts
pub fn json_edit() {
    let t = pick(&[
        "{\"a\":[1,-2.5e1,\"x\\u0041\\n\"],\"b\":{},\"\":null}",
        " [ true , false,null\t,[],{\"k\" : 0.50}\n]\r",
        "{\"k\":{\"k\":[[\"\"]]},\"\\u00e9\":\"\\ud83d\\ude00\"}",
        "-120.0450E-3",
    ]);
    let p = choose(t.len() as u32) as usize;
    let c = ascii(1);
    let (a, b) = t.split_at(p);
    import(&match choose(3) {
        0 => cat(a, &c, b),
        1 => cat(a, &c, &b[1..]),
        _ => cat(a, "", &b[1..]),
    });
}
/// text over the number alphabet
pub fn json_num() {
    let k = choose(q(4, 5) as u32) as usize + 1;
    let t = ascii(k);
    for c in t.as_bytes() {
        assume(c.is_ascii_digit() | matches!(*c, b'-' | b'+' | b'.' | b'e' | b'E'));
    }
    import(&cat(pick(&["", "[", "-1"]), &t, pick(&["", "]"])));
}
fn digits(k: usize) -> String {
    let d = ascii(k);
    let mut ok = true;
    for c in d.as_bytes() {
        ok &= c.is_ascii_digit();
    }
    assume(ok);
    d
}
/// values with symbolic digits
pub fn json_digits() {
    let (i, f) = (digits(2), digits(2));
    let t = match choose(4) {
        0 => cat("-3", &i, ""),
        1 => cat(&cat("1", &i, "."), &f, ""),
        2 => cat(&cat("0.0", &i, "e-"), &f, ""),
        _ => cat(&cat("7", &i, "E+"), &f, ""),
    };
    import(&t);
}
/// number texts that conversions through machine numbers would change, at every place
pub fn json_fixed() {
    let t = pick(&[
        "0", "-0", "0.0", "-0.00", "0e5", "1e0", "1E+2", "100e-2", "1.50", "0.1", "0.3", "-0.7", "1.0000000000000002", "0.99999999999999999999",
        "123456789012345678.9", "4503599627370497.5", "9007199254740993", "9007199254740993.0", "-9007199254740993e0", "9223372036854775807",
        "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "18446744073709551617.0",
        "16777217", "16777217.0", "4294967295", "4294967296", "-2147483649", "3.4028235e38", "1e22", "1e23", "123456789e15", "2.2250738585072011e-308",
        "5e-324", "1e-130", "1e-45", "1e125", "99999999999999999999999999999999999999", "0.00000000000000000000000000000000000001", "1.7976931348623157e100",
        "170141183460469231731687303715884105727", "-170141183460469231731687303715884105728", "0.30000000000000004", "1000000000000000000000", "65535", "65536", "-32769", "255", "256", "-129",
    ]);
    let mut x = cat("", t, "");
    match choose(4) {
        0 => {}
        1 => x = cat("[true,", t, "]"),
        2 => x = cat("{\"k\":", t, ",\"a\":[]}"),
        _ => x = cat("[{\"m\":[", t, "]}]"),
    }
    if any_bool() {
        x = cat(" ", &x, "\n");
    }
    import(&x);
}
/// more digits than the number type holds
pub fn json_round() {
    let d = digits(1);
    let nines = "9".repeat(pick(&[36usize, 37]));
    let ones = "1234567890".repeat(4);
    let t = match choose(6) {
        0 => cat(&nines, &d, "5"),
        1 => cat(&nines, &d, "1.5"),
        2 => cat(&ones[..37], &d, "4"),
        3 => cat(&cat("0.", &ones[..38], ""), &d, "7e3"),
        4 => cat(&cat("-", &ones[..pick(&[17usize, 37])], "."), &ones[..pick(&[20usize, 21])], &d),
        _ => cat(&cat("0.000", &nines, ""), &d, &d),
    };
    import(&t);
}
/// magnitudes around the limits
pub fn json_range() {
    let d = digits(1);
    let t = match choose(10) {
        0 => cat("1e12", &d, ""),
        1 => cat("99.5E12", &d, ""),
        2 => cat("0.001e12", &d, ""),
        3 => cat("-1e-1", &digits(2), ""),
        4 => cat("1.5e-12", &d, ""),
        5 => cat("0.00123e-12", &d, ""),
        6 => cat("123456789012345678901234567890e9", &d, ""),
        7 => cat("1e", &digits(3), &"0".repeat(pick(&[0usize, 1, 20]))),
        8 => cat("0e-", &digits(2), "99999999999999999999"),
        _ => cat(&"9".repeat(39), "e8", &d),
    };
    import(&t);
}
/// number texts longer than any parser limit
pub fn json_long() {
    let d = pick(&["0", "1", "4", "5", "9"]);
    let z = "0".repeat(pick(&[250usize, 300, 1100]));
    let t = match choose(8) {
        0 => cat(&cat("1", &z, "e-1"), d, "00"),
        1 => cat(&cat("-0.", &z, "2"), d, "e1101"),
        2 => cat(&cat("1.", &z, d), "e1", ""),
        3 => cat(&cat(d, &z, ""), "", "5"),
        4 => cat(&cat("12", d, &z), "E-99999999999999999999", ""),
        5 => cat(&cat("0.", &z, ""), "e", d),
        6 => cat(&cat("-0.", &z, "12"), &digits(1), "e1101"),
        _ => cat(&cat("0.", &z, &"3".repeat(37)), &digits(2), "E+1100"),
    };
    import(&t);
}
/// escapes and control characters, as value and as key
pub fn json_str() {
    let t = match choose(7) {
        0 => ascii(q(2, 3)),
        1 => cat("\\", &ascii(2), ""),
        2 => cat("\\u", &ascii(4), ""),
        3 => cat("\\ud8", &ascii(2), "\\udc0f"),
        4 => cat("\\uDBff\\uD", &ascii(3), ""),
        5 => cat("a", &wide(choose(3) as usize + 2), &ascii(1)),
        _ => cat("\\u00", &ascii(2), "\\/"),
    };
    let (a, b) = pick(&[("\"", "\""), ("{\"", "\":true}"), ("[\"", "\"]")]);
    import(&cat(a, &t, b));
}
fn plain_leaf() -> J {
    match choose(4) {
        0 => Null,
        1 => Bool(any_bool()),
        2 => {
            let d = digits(1);
            Num(Number::from(d.as_bytes()[0] - b'0'))
        }
        _ => {
            let t = utf8(pick(&[1usize, 3]));
            for c in t.as_bytes() {
                assume((*c >= 32) & (*c != b'"') & (*c != b'\\'));
            }
            Str(t)
        }
    }
}
/// containers in containers
pub fn json_rich() {
    let j = rich_of(plain_leaf());
    let mut t = String::new();
    write_json(&j, &mut t);
    let y = YasonBuf::parse(&t).unwrap();
    assert!(is_doc(&y, &j));
    let mut v = vec![any_u8(), 7];
    let old = v.clone();
    {
        let z = Yason::parse_to(&mut v, &t).unwrap();
        assert!(z.as_bytes() == y.as_bytes());
    }
    assert!(v[..2] == old[..] && v[2..] == *y.as_bytes());
    // every member is found again
    if let Obj(e) = &j {
        for (k, x) in e {
            assert!(same(&y.object().unwrap().get(k).unwrap().unwrap(), x));
        }
    }
    out_bytes(y.as_bytes());
    cover(0);
}
/// members whose keys mix lengths, at three levels
pub fn json_keys() {
    let key = || {
        let t = utf8_upto(3);
        for c in t.as_bytes() {
            assume((*c >= 32) & (*c != b'"') & (*c != b'\\'));
        }
        t
    };
    let (a, b) = (key(), key());
    assume(a != b && a != "bb" && b != "bb");
    let inner = Obj(vec![(a, n(1)), ("bb".into(), Bool(any_bool())), (b, Arr(vec![n(2)]))]);
    let j = match choose(4) {
        0 => inner,
        1 => Arr(vec![n(0), inner]),
        2 => Obj(vec![("x".into(), inner), ("a".into(), Null)]),
        _ => Arr(vec![Arr(vec![inner]), Null]),
    };
    let mut t = String::new();
    write_json(&j, &mut t);
    let y = YasonBuf::parse(&t).unwrap();
    out_bytes(y.as_bytes());
    assert!(is_doc(&y, &j));
    cover(0);
}
/// strings and keys of many bytes
pub fn json_big() {
    let k = pick(&[127usize, 128, 255, 256, 1000, 16384, 65535, 65536, 70000]);
    let c = ascii(1);
    assume(c.as_bytes()[0].is_ascii_alphanumeric());
    let t = cat(&"k".repeat(k - 1), &c, "");
    let text = |j: &J| {
        let mut t = String::new();
        write_json(j, &mut t);
        t
    };
    match choose(4) {
        0 => {
            let j = Str(t);
            assert!(is_doc(&YasonBuf::parse(&text(&j)).unwrap(), &j));
        }
        1 => {
            let j = Arr(vec![n(1), Str(t), Arr(vec![s("x")])]);
            assert!(is_doc(&YasonBuf::parse(&text(&j)).unwrap(), &j));
        }
        2 => {
            let j = o([("v", Str(t)), ("a", n(2)), ("b", o([("c", Null)]))]);
            assert!(is_doc(&YasonBuf::parse(&text(&j)).unwrap(), &j));
        }
        _ => {
            let j = Arr(vec![Obj(vec![(t, n(1)), ("a".into(), n(2))])]);
            match YasonBuf::parse(&text(&j)) {
                Ok(y) => assert!(k <= 65535 && is_doc(&y, &j)),
                Err(e) => assert!(k > 65535 && matches!(e, BuildError::StringTooLong(n) if n == k)),
            }
        }
    }
    cover(0);
}
/// repeated keys: the last one counts
pub fn json_dup() {
    let mut t = String::from("{");
    for i in 0..3 {
        let k = ascii_upto(1);
        for c in k.as_bytes() {
            assume((*c >= 32) & (*c != b'"') & (*c != b'\\'));
        }
        t.push_str(if i == 0 { "\"" } else { ",\"" });
        t.push_str(&k);
        t.push_str(["\":1", "\":\"two\"", "\":[3]"][i]);
    }
    t.push('}');
    import(&t);
}
/// element counts around the limit of a container
pub fn json_count() {
    let k = pick(&[65535usize, 65536, 65537]);
    let c = ascii(1);
    assume(c.as_bytes()[0].is_ascii_digit());
    let mut t = String::with_capacity(5 * k + 16);
    let nested = any_bool();
    t.push_str(if nested { "{\"k\":[" } else { "[" });
    for _ in 1..k {
        t.push_str("null,");
    }
    t.push_str(&c);
    t.push_str(if nested { "]}" } else { "]" });
    let r = YasonBuf::parse(&t);
    let mut v = vec![];
    let to = Yason::parse_to(&mut v, &t).is_ok();
    assert!(r.is_ok() == (k < 65536) && to == (k < 65536));
    if let Ok(y) = r {
        let want = Number::from(c.as_bytes()[0] - b'0');
        let get = |a: Array| {
            assert!(a.len().unwrap() == k && a.is_null(k / 2).unwrap());
            assert!(num_same(&a.number(k - 1).unwrap(), &want));
        };
        if nested {
            get(y.object().unwrap().array("k").unwrap().unwrap());
        } else {
            get(y.array().unwrap());
        }
        cover(0);
    } else {
        cover(1);
    }
}
/// the key under which serde_json hides numbers
pub fn json_magic() {
    let t = cat("{\"$serde_json::private::Number\":", pick(&["\"1\"", "1", "\"x\"", "null"]), "}");
    let ok = match (YasonBuf::parse(&t), classify(t.as_bytes(), true)) {
        (Ok(y), Text::Is(j)) => is_doc(&y, &j),
        _ => false,
    };
    assert!(ok, "object with serde_json's reserved number key");
}

// ---------------------------------------------------------------- serde

/// what `read_json` finds in the JSON string literal `t`
fn literal(t: &[u8]) -> Option<String> {
    match read_json(t, false) {
        Some(Str(x)) => Some(x),
        _ => None,
    }
}
fn round_trip(j: &J) {
    let y = build(j);
    // binary: a length and the bytes of the document
    let b = bincode::serialize(&y).unwrap();
    assert!(b.len() == y.as_bytes().len() + 8);
    assert!(b[..8] == (y.as_bytes().len() as u64).to_le_bytes() && b[8..] == *y.as_bytes());
    let z: YasonBuf = bincode::deserialize(&b).unwrap();
    assert!(z.as_bytes() == y.as_bytes());
    assert!(is_doc(&z, j));
    let z: YasonBuf = bincode::deserialize_from(&b[..]).unwrap();
    assert!(z.as_bytes() == y.as_bytes());
    out_bytes(&b);
    // human readable: a string holding the JSON text
    let t = serde_json::to_string(&y).unwrap();
    let inner = literal(t.as_bytes());
    assert!(inner.is_some());
    let back = read_json(inner.unwrap().as_bytes(), false);
    assert!(back.is_some() && j_eq(&back.unwrap(), j));
    let z: YasonBuf = serde_json::from_str(&t).unwrap();
    assert!(is_doc(&z, j));
    assert!(z == y);
    out_bytes(t.as_bytes());
    cover(0);
}
pub fn serde_scalar() {
    round_trip(&match choose(7) {
        0 => Null,
        1 => Bool(sym_bool()),
        2 => Num(small_num()),
        3 => Str(ascii(2)),
        4 => Str(cat("é\"", &wide(choose(3) as usize + 2), "\\")),
        5 => Num(Number::from_parts(any_u8() as u128 + 1, 2, true).unwrap()),
        _ => Num(Number::from_parts(12345678901234567890123456789012345678, pick(&[-80i16, 0, 100, 160]), true).unwrap()),
    });
}
pub fn serde_shape() {
    let leaf = || Str(ascii(1));
    let j = match choose(6) {
        0 => Arr(vec![]),
        1 => Obj(vec![]),
        2 => Arr(vec![leaf(), Null, Arr(vec![n(-12), Bool(sym_bool())])]),
        3 => Arr(vec![Obj(vec![("k".into(), Num(small_num()))]), Obj(vec![])]),
        4 => {
            let k = distinct_keys(2, 1);
            let mut k = k.into_iter();
            let mut k = || k.next().unwrap();
            Obj(vec![(k(), Null), (k(), Arr(vec![]))])
        }
        _ => o([("o", o([("a", Arr(vec![o([("x", leaf())])]))])), ("n", n(7))]),
    };
    round_trip(&j);
}
pub fn serde_tree() {
    let leaf = || match choose(3) {
        0 => Null,
        1 => Num(small_num()),
        _ => s("é\\"),
    };
    let k = choose(q(3, 4) as u32);
    round_trip(&if any_bool() {
        Arr((0..k).map(|_| leaf()).collect())
    } else {
        Obj((0..k).map(|i| (["b", "", "aa"][i as usize].to_string(), leaf())).collect())
    });
}
pub fn serde_rich() {
    round_trip(&rich_of(plain_leaf()));
}
/// documents of many bytes in the binary form
pub fn serde_big() {
    let k = pick(&[127usize, 128, 255, 256, 16384, 65536, 70000]);
    let j = match choose(3) {
        0 => Str(zeros(k)),
        1 => Arr(vec![Bool(sym_bool()), Str(zeros(k)), Str(ascii(1))]),
        _ => Obj(vec![("a".into(), Str(zeros(k))), (ascii_upto(0), Num(small_num()))]),
    };
    let y = build(&j);
    let b = bincode::serialize(&y).unwrap();
    assert!(b[..8] == (y.as_bytes().len() as u64).to_le_bytes() && b[8..] == *y.as_bytes());
    let z: YasonBuf = bincode::deserialize(&b).unwrap();
    assert!(z.as_bytes() == y.as_bytes() && is_doc(&z, &j));
    let z: YasonBuf = bincode::deserialize_from(&b[..]).unwrap();
    assert!(z.as_bytes() == y.as_bytes());
    cover(0);
}
/// documents as fields of a larger serialised value
pub fn serde_within() {
    let (a, b) = (build(&Arr(vec![Str(ascii(1)), Null])), build(&Num(small_num())));
    let v = vec![a, b];
    let x = bincode::serialize(&v).unwrap();
    let r: Vec<YasonBuf> = bincode::deserialize(&x).unwrap();
    assert!(r.len() == 2 && r[0].as_bytes() == v[0].as_bytes() && r[1].as_bytes() == v[1].as_bytes());
    let t = serde_json::to_string(&v).unwrap();
    let r: Vec<YasonBuf> = serde_json::from_str(&t).unwrap();
    assert!(r.len() == 2 && r[0] == v[0] && r[1] == v[1]);
    let w = serde_json::to_value(&v).unwrap();
    let r: Vec<YasonBuf> = serde_json::from_value(w).unwrap();
    assert!(r.len() == 2 && r[0] == v[0] && r[1] == v[1]);
    out_bytes(t.as_bytes());
    cover(0);
}
/// text that is not JSON is refused by the human-readable form
pub fn serde_bad() {
    let t = ascii_upto(q(2, 3));
    for c in t.as_bytes() {
        assume((*c >= 32) & (*c != b'"') & (*c != b'\\'));
    }
    let r: Result<YasonBuf, _> = serde_json::from_str(&cat("\"", &t, "\""));
    match classify(t.as_bytes(), true) {
        Text::Is(j) => {
            assert!(is_doc(&r.unwrap(), &j));
            cover(0);
        }
        _ => {
            assert!(r.is_err());
            cover(1);
        }
    }
}
/// the key under which serde_json hides numbers
pub fn serde_magic() {
    let j = o([("$serde_json::private::Number", s(pick(&["1", "x"])))]);
    let t = serde_json::to_string(&build(&j)).unwrap();
    let r: Result<YasonBuf, _> = serde_json::from_str(&t);
    assert!(r.map_or(false, |z| is_doc(&z, &j)), "object with serde_json's reserved number key");
}

/// a JSON value that was put together by hand instead of read
pub fn json_value() {
    fn value(j: &J) -> serde_json::Value {
        use serde_json::Value as V;
        match j {
            Null => V::Null,
            Bool(b) => V::Bool(*b),
            Num(x) => V::Number(x.to_string().parse().unwrap()),
            Str(t) => V::String(t.clone()),
            Arr(v) => V::Array(v.iter().map(value).collect()),
            Obj(v) => V::Object(v.iter().map(|e| (e.0.clone(), value(&e.1))).collect()),
        }
    }
    let j = match choose(4) {
        0 => rich_of(match choose(3) {
            0 => Bool(sym_bool()),
            1 => Str(utf8_upto(2)),
            _ => n(-7),
        }),
        1 => Arr(vec![n(pick(&[i64::MIN, -1, 0, 10, i64::MAX])), Str(utf8(1))]),
        2 => Obj(vec![(utf8(2), Bool(sym_bool())), ("".into(), n(5))]),
        _ => Str(utf8_upto(3)),
    };
    let y = YasonBuf::try_from(&value(&j)).unwrap();
    out_bytes(y.as_bytes());
    assert!(is_doc(&y, &j));
    cover(0);
}
/// objects and arrays of many members in text
pub fn json_wide() {
    let k = if tier() == 0 { pick(&[129usize, 16385]) } else { pick(&[129usize, 300, 16385, 32769, 65535]) };
    let at = pick(&[0, k / 2, k - 1]);
    let c = ascii(1);
    assume(c.as_bytes()[0].is_ascii_alphanumeric());
    let item = |i: usize| if i == at { Str(c.clone()) } else if i % 16 == 5 { Arr(vec![n(i as i64 % 1000)]) } else { Bool(i % 3 == 0) };
    let name = |i: usize| format!("{i:05}");
    let j = match choose(3) {
        0 => Arr((0..k).map(item).collect()),
        1 => Obj((0..k).map(|i| (name(i), item(i))).collect()),
        _ => Obj((0..k).rev().map(|i| (name(i), item(i))).collect()),
    };
    let mut t = String::new();
    write_json(&j, &mut t);
    let y = YasonBuf::parse(&t).unwrap();
    if let Obj(_) = j {
        let o = y.object().unwrap();
        assert!(o.len().unwrap() == k);
        let mut i = 0;
        for e in o.iter().unwrap() {
            let (n, v) = e.unwrap();
            assert!(n == name(i) && same(&v, &item(i)));
            i += 1;
        }
        assert!(i == k && same(&o.get(&name(at)).unwrap().unwrap(), &item(at)));
    } else {
        assert!(is_doc(&y, &j));
    }
    cover(0);
}
/// more members than an object can hold
pub fn json_over() {
    let k = if tier() == 0 { pick(&[65536usize, 65537]) } else { pick(&[65535usize, 65536, 65537]) };
    let x = ascii(1);
    assume(x.as_bytes()[0].is_ascii_digit());
    let mut t = String::with_capacity(12 * k + 32);
    let nested = any_bool();
    t.push_str(if nested { "[0,{" } else { "{" });
    for i in 1..k {
        t.push_str(&format!("\"{i:05}\":1,"));
    }
    t.push_str(&cat("\"x\":", &x, if nested { "},2]" } else { "}" }));
    match YasonBuf::parse(&t) {
        Ok(y) => {
            assert!(k < 65536);
            let get = |o: Object| {
                assert!(o.len().unwrap() == k && num_same(&o.number("60000").unwrap().unwrap(), &Number::from(1)));
                assert!(num_same(&o.number("x").unwrap().unwrap(), &Number::from(x.as_bytes()[0] - b'0')));
            };
            if nested {
                let a = y.array().unwrap();
                assert!(a.len().unwrap() == 3 && num_same(&a.number(2).unwrap(), &Number::from(2)));
                get(a.object(1).unwrap());
            } else {
                get(y.object().unwrap());
            }
            cover(0);
        }
        Err(_) => {
            assert!(k > 65535);
            cover(1);
        }
    }
}
/// the human-readable and the binary form of documents of many members
pub fn serde_wide() {
    let k = if tier() == 0 { pick(&[129usize, 16385]) } else { pick(&[129usize, 300, 16385, 65535]) };
    let at = pick(&[0, k - 1]);
    let v = Bool(sym_bool());
    let item = |i: usize| if i == at { v.clone() } else if i % 16 == 5 { s("t") } else { Null };
    let j = if any_bool() { Arr((0..k).map(item).collect()) } else { Obj((0..k).map(|i| (format!("{i:05}"), item(i))).collect()) };
    let y = build(&j);
    let z: YasonBuf = if any_bool() {
        bincode::deserialize(&bincode::serialize(&y).unwrap()).unwrap()
    } else {
        serde_json::from_str(&serde_json::to_string(&y).unwrap()).unwrap()
    };
    assert!(z.as_bytes() == y.as_bytes() && is_doc(&z, &j));
    cover(0);
}
/// every other way of serialising and back
pub fn serde_ways() {
    use bincode::Options;
    use serde::de::value::*;
    use serde::Deserialize;
    let j = match choose(5) {
        0 => Str(ascii(1)),
        1 => Arr(vec![Num(small_num()), s("a\"\n"), Null]),
        2 => Obj(vec![(ascii(1), Bool(sym_bool())), ("".into(), Arr(vec![]))]),
        3 => Null,
        _ => Str(wide(3)),
    };
    let y = build(&j);
    let z: YasonBuf = match choose(12) {
        0 => {
            let o = bincode::DefaultOptions::new();
            o.deserialize(&o.serialize(&y).unwrap()).unwrap()
        }
        1 => {
            let o = bincode::DefaultOptions::new().with_big_endian().with_fixint_encoding().with_limit(1 << 20);
            let b = o.serialize(&y).unwrap();
            assert!(b.len() as u64 == o.serialized_size(&y).unwrap());
            o.deserialize_from(&b[..]).unwrap()
        }
        2 => serde_json::from_slice(&serde_json::to_vec(&y).unwrap()).unwrap(),
        3 => {
            let mut w = vec![];
            serde_json::to_writer(&mut w, &y).unwrap();
            serde_json::from_reader(&w[..]).unwrap()
        }
        4 => {
            let v = serde_json::to_value(&y).unwrap();
            assert!(v.is_string());
            serde_json::from_value(v).unwrap()
        }
        5 => {
            let v = serde_json::to_value(&y).unwrap();
            YasonBuf::deserialize(&v).unwrap()
        }
        6 => {
            let t = (Some(y.clone()), None::<YasonBuf>, 7u8, Box::new(y.clone()));
            let b = bincode::serialize(&t).unwrap();
            let r: (Option<YasonBuf>, Option<YasonBuf>, u8, Box<YasonBuf>) = bincode::deserialize(&b).unwrap();
            assert!(r.1.is_none() && r.2 == 7 && *r.3 == y);
            r.0.unwrap()
        }
        7 => {
            let t = (Some(y.clone()), None::<YasonBuf>, 7u8, Box::new(y.clone()));
            let b = serde_json::to_string_pretty(&t).unwrap();
            let r: (Option<YasonBuf>, Option<YasonBuf>, u8, Box<YasonBuf>) = serde_json::from_str(&b).unwrap();
            assert!(r.1.is_none() && r.2 == 7 && *r.3 == y);
            r.0.unwrap()
        }
        8 => {
            let t = y.format(false).to_string();
            let d: StringDeserializer<Error> = StringDeserializer::new(t.clone());
            let a = YasonBuf::deserialize(d).unwrap();
            assert!(a == y);
            YasonBuf::deserialize(StrDeserializer::<Error>::new(&t)).unwrap()
        }
        9 => {
            let t = y.format(true).to_string();
            let a = YasonBuf::deserialize(BorrowedStrDeserializer::<Error>::new(&t)).unwrap();
            assert!(a == y);
            YasonBuf::deserialize(CowStrDeserializer::<Error>::new(std::borrow::Cow::Owned(t))).unwrap()
        }
        10 => YasonBuf::deserialize(BytesDeserializer::<Error>::new(y.as_bytes())).unwrap(),
        _ => YasonBuf::deserialize(BorrowedBytesDeserializer::<Error>::new(y.as_bytes())).unwrap(),
    };
    out_bytes(z.as_bytes());
    assert!(z == y && is_doc(&z, &j));
    // what is no document at all
    assert!(serde_json::from_str::<YasonBuf>("7").is_err() && serde_json::from_str::<YasonBuf>("null").is_err());
    cover(0);
}
