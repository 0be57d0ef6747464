//! Scalars: strings, numbers, typed access.
use crate::model::*;
use crate::nd::*;
use crate::tr::*;
use yason::*;

fn check_string(t: &str) {
    let y = Scalar::string(t).unwrap();
    assert!(y.string().unwrap() == t);
    assert!(y.data_type().unwrap() == DataType::String);
    let mut v = Vec::new();
    assert!(Scalar::string_with_vec(t, &mut v).unwrap().string().unwrap() == t);
    let mut b = ArrayBuilder::try_new(3).unwrap();
    b.push_null().unwrap().push_string(t).unwrap().push_string("tail").unwrap();
    let y = b.finish().unwrap();
    let a = y.array().unwrap();
    assert!(a.string(1).unwrap() == t);
    assert!(a.string(2).unwrap() == "tail");
    assert!(matches!(a.get(1).unwrap(), Value::String(x) if x == t));
    let mut b = ObjectBuilder::try_new(3, false).unwrap();
    b.push_null("n").unwrap().push_string("s", t).unwrap().push_string("e", "tail").unwrap();
    let y = b.finish().unwrap();
    let o = y.object().unwrap();
    assert!(o.string("s").unwrap().unwrap() == t);
    assert!(o.string("e").unwrap().unwrap() == "tail");
    assert!(matches!(o.get("s").unwrap(), Some(Value::String(x)) if x == t));
    out_bytes(y.as_bytes());
}
/// every string of a few characters
pub fn str_any() {
    check_string(&text(q(2, 3)));
    cover(0);
}
pub fn str_ascii() {
    check_string(&ascii_upto(q(8, 24)));
    cover(0);
}
/// lengths at which the length prefix changes its size
pub fn str_bound() {
    let n = pick(&[126usize, 127, 128, 129, 255, 256, 257, 300, 16382, 16383, 16384, 16385, 20000, 32767, 32768, 65535, 65536, 65537, 2097150, 2097151, 2097152, 2097153, (1 << 24) + 1]);
    let mut t = ascii(1);
    t.push_str(&zeros(n - 2));
    t.push_str(&ascii(1));
    check_string(&t);
    cover(0);
}
/// the longest strings there are
pub fn str_huge() {
    let n = pick(&[(1usize << 22) + 5, 0x0555555, 0x0AAAAAA, (1 << 26) + 128, (1 << 27) + 16384, (1 << 28) - 2, (1 << 28) - 1]);
    let mut t = zeros(n).into_bytes();
    let (a, b) = (any_u8(), any_u8());
    assume(a < 128 && b < 128);
    t[0] = a;
    t[n - 1] = b;
    let t = unsafe { String::from_utf8_unchecked(t) };
    let same = |x: &str| x.len() == n && x.as_bytes()[0] == a && x.as_bytes()[n - 1] == b && x.as_bytes()[n / 2] == t.as_bytes()[n / 2];
    match choose(3) {
        0 => assert!(same(Scalar::string(&t).unwrap().string().unwrap())),
        1 => {
            let mut b = ArrayBuilder::try_new(2).unwrap();
            b.push_string(&t).unwrap().push_bool(true).unwrap();
            let y = b.finish().unwrap();
            let v = y.array().unwrap();
            assert!(same(v.string(0).unwrap()) && v.bool(1).unwrap());
        }
        _ => {
            let mut b = ObjectBuilder::try_new(2, true).unwrap();
            b.push_string("k", &t).unwrap().push_bool("m", true).unwrap();
            let y = b.finish().unwrap();
            let v = y.object().unwrap();
            assert!(same(v.string("k").unwrap().unwrap()) && v.bool("m").unwrap().unwrap());
        }
    }
    cover(0);
}
/// a refused string leaves nothing behind in the caller's vector
pub fn str_refuse() {
    let t = zeros((1 << 28) + pick(&[0, 1, 1 << 27]));
    let mut v = vec![0u8; choose(3) as usize];
    fill(&mut v);
    let old = v.clone();
    assert!(matches!(Scalar::string_with_vec(&t, &mut v), Err(BuildError::StringTooLong(k)) if k == t.len()));
    assert!(v == old);
    assert!(matches!(Scalar::string(&t), Err(BuildError::StringTooLong(_))));
    let mut w = old.clone();
    assert!(Value::String(&t).try_to_yason(&mut w).is_err());
    assert!(w == old);
    let c = any_u8();
    assume(c < 0x80);
    let s = (c as char).to_string();
    assert!(Scalar::string_with_vec(&s, &mut v).unwrap().string().unwrap() == s);
    assert!(v.len() == old.len() + 3 && v[..old.len()] == old[..]);
    cover(0);
}
/// native replay of the bit-precise model checker's counterexamples
pub fn str_len() {
    let n = u64::from_le_bytes(any::<8>()) as usize;
    let t = "x".repeat(n);
    match Scalar::string(&t) {
        Ok(y) => {
            assert!(n <= 268435455);
            assert!(y.string().unwrap() == t);
        }
        Err(BuildError::StringTooLong(k)) => assert!(k == n && n > 268435455),
        Err(_) => panic!(),
    }
    let mut b = ArrayBuilder::try_new(1).unwrap();
    assert!(b.push_string(&t).is_ok() == (n <= 268435455));
    let mut b = ObjectBuilder::try_new(1, true).unwrap();
    assert!(b.push_string("k", &t).is_ok() == (n <= 268435455));
}

fn check_number(x: &Number) {
    let ok = |g: Number| num_same(&g, x);
    let y = Scalar::number(x).unwrap();
    assert!(ok(y.number().unwrap()));
    out_bytes(y.as_bytes());
    let mut v = vec![1];
    assert!(ok(Scalar::number_with_vec(x, &mut v).unwrap().number().unwrap()));
    let mut b = ArrayBuilder::try_new(3).unwrap();
    b.push_number(x).unwrap().push_bool(true).unwrap().push_number(x).unwrap();
    let y = b.finish().unwrap();
    let a = y.array().unwrap();
    assert!(ok(a.number(0).unwrap()));
    assert!(a.bool(1).unwrap());
    assert!(ok(a.number(2).unwrap()));
    assert!(matches!(a.get(2).unwrap(), Value::Number(g) if ok(g)));
    let mut b = ObjectBuilder::try_new(2, true).unwrap();
    b.push_number("a", x).unwrap().push_number("b", x).unwrap();
    let y = b.finish().unwrap();
    let o = y.object().unwrap();
    assert!(ok(o.number("a").unwrap().unwrap()));
    assert!(matches!(o.get("b").unwrap(), Some(Value::Number(g)) if ok(g)));
}
/// the whole domain of the number type: 38 digits, scale -126..=167, sign
pub fn num_all() {
    let m = u128::from_le_bytes(any::<16>());
    let sc = i16::from_le_bytes(any::<2>());
    let neg = sym_bool();
    let x = match Number::from_parts(m, sc, neg) {
        Ok(x) => x,
        Err(_) => return,
    };
    check_number(&x);
    if neg {
        cover(0);
    }
    if sc > 0 {
        cover(1);
    }
    if sc < 0 {
        cover(2);
    }
    if m > 1 << 120 {
        cover(3);
    }
    if m == 0 {
        cover(4);
    }
}
/// integers of every built-in width convert exactly
pub fn num_int() {
    match choose(4) {
        0 => {
            let v = i64::from_le_bytes(any::<8>());
            let y = Scalar::number(Number::from(v)).unwrap();
            let (i, sc, neg) = y.number().unwrap().into_parts();
            assert!(sc == 0 && i == v.unsigned_abs() as u128 && neg == (v < 0));
        }
        1 => {
            let v = u64::from_le_bytes(any::<8>());
            let y = Scalar::number(Number::from(v)).unwrap();
            assert!(y.number().unwrap().into_parts() == (v as u128, 0, false));
        }
        2 => {
            let v = i32::from_le_bytes(any::<4>());
            let y = Scalar::number(Number::from(v)).unwrap();
            let (i, sc, neg) = y.number().unwrap().into_parts();
            assert!(sc == 0 && i == v.unsigned_abs() as u128 && neg == (v < 0));
        }
        _ => {
            let v = any_u8();
            let y = Scalar::number(Number::from(v)).unwrap();
            assert!(y.number().unwrap().into_parts() == (v as u128, 0, false));
        }
    }
    cover(0);
}

const TYPES: [DataType; 6] = [
    DataType::Object,
    DataType::Array,
    DataType::String,
    DataType::Number,
    DataType::Bool,
    DataType::Null,
];

fn mism<T>(r: YasonResult<T>, want: DataType, got: DataType) -> bool {
    matches!(r, Err(YasonError::UnexpectedType { expected, actual }) if expected == want && actual == got)
}
fn sample() -> J {
    match choose(8) {
        0 => Null,
        1 => Bool(sym_bool()),
        2 => Num(any_num()),
        3 => Str(ascii_upto(2)),
        4 => Arr(vec![]),
        5 => Arr(vec![scalar()]),
        6 => Obj(vec![]),
        _ => Obj(vec![(ascii(1), scalar())]),
    }
}
/// accessors on a document
pub fn typed_doc() {
    let j = sample();
    let y = build(&j);
    let t = j.ty();
    assert!(y.data_type().unwrap() == t);
    assert!(y.is_null().unwrap() == (t == DataType::Null));
    match &j {
        Obj(e) => assert!(same_obj(&y.object().unwrap(), e)),
        _ => assert!(mism(y.object(), DataType::Object, t)),
    }
    match &j {
        Arr(e) => assert!(same_arr(&y.array().unwrap(), e)),
        _ => assert!(mism(y.array(), DataType::Array, t)),
    }
    match &j {
        Str(e) => assert!(y.string().unwrap() == e),
        _ => assert!(mism(y.string(), DataType::String, t)),
    }
    match &j {
        Num(e) => assert!(num_same(&y.number().unwrap(), e)),
        _ => assert!(mism(y.number(), DataType::Number, t)),
    }
    match &j {
        Bool(e) => assert!(y.bool().unwrap() == *e),
        _ => assert!(mism(y.bool(), DataType::Bool, t)),
    }
    let v = Value::try_from(&*y).unwrap();
    assert!(v.data_type() == t && same(&v, &j));
    cover(t as u32);
    cover(0);
}
/// accessors on an array element
pub fn typed_arr() {
    let j = sample();
    let y = build(&Arr(vec![Bool(true), j.clone(), s("z")]));
    let a = y.array().unwrap();
    element(&a, 1, &j);
    assert!(a.string(2).unwrap() == "z" && a.bool(0).unwrap());
    cover(j.ty() as u32);
    cover(0);
}
/// every accessor on the element at `i`, which is `j`
fn element(a: &Array, i: usize, j: &J) {
    let t = j.ty();
    assert!(a.type_of(i).unwrap() == t);
    assert!(a.is_null(i).unwrap() == (t == DataType::Null));
    for x in TYPES {
        assert!(a.is_type(i, x).unwrap() == (x == t));
    }
    match j {
        Obj(e) => assert!(same_obj(&a.object(i).unwrap(), e)),
        _ => assert!(mism(a.object(i), DataType::Object, t)),
    }
    match j {
        Arr(e) => assert!(same_arr(&a.array(i).unwrap(), e)),
        _ => assert!(mism(a.array(i), DataType::Array, t)),
    }
    match j {
        Str(e) => assert!(a.string(i).unwrap() == e),
        _ => assert!(mism(a.string(i), DataType::String, t)),
    }
    match j {
        Num(e) => assert!(num_same(&a.number(i).unwrap(), e)),
        _ => assert!(mism(a.number(i), DataType::Number, t)),
    }
    match j {
        Bool(e) => assert!(a.bool(i).unwrap() == *e),
        _ => assert!(mism(a.bool(i), DataType::Bool, t)),
    }
    let v = a.get(i).unwrap();
    assert!(v.data_type() == t && same(&v, j));
}
/// the same among many elements or members of all types
pub fn typed_spread() {
    let k = if tier() == 0 { pick(&[1usize, 2, 7, 20, 300]) } else { pick(LENS) };
    let at = pick(&[0, k / 2, k - 1]);
    let j = match choose(6) {
        0 => Null,
        1 => Bool(sym_bool()),
        2 => Num(small_num()),
        3 => Str(ascii(1)),
        4 => Arr(vec![Bool(sym_bool())]),
        _ => Obj(vec![(ascii(1), Null)]),
    };
    let kind = |i: usize| match i % 6 {
        0 => n(i as i64),
        1 => s("text"),
        2 => Arr(vec![Null]),
        3 => Bool(i % 4 == 3),
        4 => o([("k", n(1))]),
        _ => Null,
    };
    let item = |i: usize| if i == at { j.clone() } else { kind(i) };
    let near = [0, 1, at.saturating_sub(1), at, at + 1, k - 1];
    if any_bool() {
        let y = build(&Arr((0..k).map(item).collect()));
        let a = y.array().unwrap();
        for i in near {
            if i < k {
                element(&a, i, &item(i));
            } else {
                assert!(a.type_of(i).is_err() && a.number(i).is_err() && a.is_null(i).is_err());
            }
        }
    } else {
        let y = build(&Obj((0..k).map(|i| (i.to_string(), item(i))).collect()));
        let b = y.object().unwrap();
        for i in near {
            let key = i.to_string();
            if i < k {
                member(&b, &key, &item(i));
            } else {
                assert!(b.type_of(&key).unwrap().is_none() && b.number(&key).unwrap().is_none());
            }
        }
    }
    cover(j.ty() as u32);
    cover(0);
}
fn member(o: &Object, k: &str, j: &J) {
    let t = j.ty();
    assert!(o.contains_key(k).unwrap());
    assert!(o.type_of(k).unwrap() == Some(t));
    assert!(o.is_null(k).unwrap() == Some(t == DataType::Null));
    for x in TYPES {
        assert!(o.is_type(k, x).unwrap() == Some(x == t));
    }
    match j {
        Obj(e) => assert!(same_obj(&o.object(k).unwrap().unwrap(), e)),
        _ => assert!(mism(o.object(k), DataType::Object, t)),
    }
    match j {
        Arr(e) => assert!(same_arr(&o.array(k).unwrap().unwrap(), e)),
        _ => assert!(mism(o.array(k), DataType::Array, t)),
    }
    match j {
        Str(e) => assert!(o.string(k).unwrap().unwrap() == e),
        _ => assert!(mism(o.string(k), DataType::String, t)),
    }
    match j {
        Num(e) => assert!(num_same(&o.number(k).unwrap().unwrap(), e)),
        _ => assert!(mism(o.number(k), DataType::Number, t)),
    }
    match j {
        Bool(e) => assert!(o.bool(k).unwrap().unwrap() == *e),
        _ => assert!(mism(o.bool(k), DataType::Bool, t)),
    }
    assert!(same(&o.get(k).unwrap().unwrap(), j));
}
/// accessors on an object member, and on a missing key
pub fn typed_obj() {
    let j = sample();
    let t = j.ty();
    let k = ascii(1);
    assume(k != "b" && k != "q");
    let y = build(&Obj(vec![("b".into(), Bool(true)), (k.clone(), j.clone()), ("q".into(), s("z"))]));
    let o = y.object().unwrap();
    let k = k.as_str();
    member(&o, k, &j);
    assert!(o.string("q").unwrap() == Some("z") && o.bool("b").unwrap() == Some(true));
    let m = ascii_upto(2);
    if m != k && m != "b" && m != "q" {
        let m = m.as_str();
        assert!(!o.contains_key(m).unwrap());
        assert!(o.get(m).unwrap().is_none() && o.type_of(m).unwrap().is_none());
        assert!(o.is_null(m).unwrap().is_none() && o.is_type(m, t).unwrap().is_none());
        assert!(o.object(m).unwrap().is_none() && o.array(m).unwrap().is_none());
        assert!(o.string(m).unwrap().is_none() && o.number(m).unwrap().is_none());
        assert!(o.bool(m).unwrap().is_none());
        cover(7);
    }
    cover(t as u32);
    cover(0);
}
/// the type byte decides the type; anything but 1..=6 is reported
pub fn typed_byte() {
    let b = any_u8();
    let v = vec![b, 1, b'x', 0, 0, 0, 0];
    let y = unsafe { Yason::new_unchecked(&v) };
    match y.data_type() {
        Ok(t) => {
            assert!((1..=6).contains(&b) && t as u8 == b);
            assert!(DataType::try_from(b).unwrap() == t);
            cover(1);
        }
        Err(YasonError::InvalidDataType(x)) => {
            assert!(x == b && !(1..=6).contains(&b));
            assert!(DataType::try_from(b).is_err());
            assert!(matches!(y.string(), Err(YasonError::InvalidDataType(x)) if x == b));
            assert!(matches!(Value::try_from(y), Err(YasonError::InvalidDataType(x)) if x == b));
            cover(2);
        }
        Err(_) => panic!(),
    }
    cover(0);
}
