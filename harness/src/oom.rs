//! Faults from outside: memory that runs out, writers that fail.
use crate::model::J::*;
use crate::model::*;
use crate::nd::*;
use std::fmt;
use crate::tr::{ArrBuilder, BuildResult, ObjBuilder};
use yason::*;

fn no_memory<T>(r: &BuildResult<T>) -> bool {
    matches!(r, Err(BuildError::TryReserveError(_)))
}
/// a vector with `k` spare bytes
fn spare(old: &[u8], k: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(old.len() + k);
    v.extend_from_slice(old);
    v
}

/// a vector that takes large allocations to grow
fn behind() -> Vec<u8> {
    let mut v = zeros(700).into_bytes();
    v[0] = any_u8();
    v[699] = any_u8();
    v
}

pub fn oom_scalar() {
    let old = behind();
    let mut v = spare(&old, pick(&[0usize, 1, 2, 3, 8, 200]));
    let t = if any_bool() { ascii_upto(2) } else { zeros(pick(&[127usize, 128, 600, 16384, 70000])) };
    let x = sym_bool();
    let d = small_num();
    let what = choose(4);
    let j = match what {
        0 => Str(t.clone()),
        1 => Num(d),
        2 => Bool(x),
        _ => Null,
    };
    let own = build(&j);
    let k = choose(3);
    if any_bool() {
        let (r, out) = starved(k, || match what {
            0 => Scalar::string(&t),
            1 => Scalar::number(d),
            2 => Scalar::bool(x),
            _ => Scalar::null(),
        });
        if out {
            assert!(no_memory(&r));
            cover(1);
        } else {
            assert!(r.unwrap().as_bytes() == own.as_bytes());
            cover(0);
        }
    } else {
        let (r, out) = starved(k, || {
            match what {
                0 => Scalar::string_with_vec(&t, &mut v),
                1 => Scalar::number_with_vec(d, &mut v),
                2 => Scalar::bool_with_vec(x, &mut v),
                _ => Scalar::null_with_vec(&mut v),
            }
            .map(|y| y.as_bytes() == own.as_bytes())
        });
        if out {
            assert!(no_memory(&r));
            // what was there stays, nothing is added
            assert!(v == old);
            cover(1);
        } else {
            assert!(r.unwrap());
            assert!(v[..700] == old && v[700..] == *own.as_bytes());
            cover(0);
        }
    }
}

/// one chance in `n` operations to run out of memory
struct Fate {
    left: u32,
    hit: bool,
}
impl Fate {
    fn turn<T>(&mut self, mut f: impl FnMut() -> BuildResult<T>) -> T {
        if self.left > 0 {
            self.left -= 1;
            if self.left == 0 {
                let (r, out) = starved(1, &mut f);
                if !out {
                    return r.unwrap();
                }
                self.hit = true;
                assert!(no_memory(&r));
                drop(r);
            }
        }
        f().unwrap()
    }
}
macro_rules! child {
    ($fate: expr, $make: expr) => {{
        // a refused child leaves its parent as it was
        let mut done = false;
        if $fate.left > 0 {
            $fate.left -= 1;
            if $fate.left == 0 {
                let (r, out) = starved(1, || $make.map(|_| ()));
                if out {
                    $fate.hit = true;
                    assert!(no_memory(&r));
                } else {
                    // the child is there, unfinished: not what is looked for
                    done = true;
                }
            }
        }
        assume(!done);
        $make.unwrap()
    }};
}
/// whether to promise sorted keys
fn ordered(e: &[(String, J)]) -> bool {
    e.windows(2).all(|w| (w[0].0.len(), &w[0].0) < (w[1].0.len(), &w[1].0)) && any_bool()
}
fn fill_arr<B: ArrBuilder>(b: &mut B, e: &[J], f: &mut Fate) {
    for x in e {
        match x {
            Null => f.turn(|| b.push_null().map(|_| ())),
            Bool(v) => f.turn(|| b.push_bool(*v).map(|_| ())),
            Num(v) => f.turn(|| b.push_number(v).map(|_| ())),
            Str(v) => f.turn(|| b.push_string(v).map(|_| ())),
            Arr(v) => {
                let mut c = child!(f, b.push_array(v.len() as u16));
                fill_arr(&mut c, v, f);
                c.finish().unwrap();
            }
            Obj(v) => {
                let order = ordered(v);
                let mut c = child!(f, b.push_object(v.len() as u16, order));
                fill_obj(&mut c, v, f);
                c.finish().unwrap();
            }
        }
    }
}
fn fill_obj<B: ObjBuilder>(b: &mut B, e: &[(String, J)], f: &mut Fate) {
    for (k, x) in e {
        match x {
            Null => f.turn(|| b.push_null(k).map(|_| ())),
            Bool(v) => f.turn(|| b.push_bool(k, *v).map(|_| ())),
            Num(v) => f.turn(|| b.push_number(k, v).map(|_| ())),
            Str(v) => f.turn(|| b.push_string(k, v).map(|_| ())),
            Arr(v) => {
                let mut c = child!(f, b.push_array(k, v.len() as u16));
                fill_arr(&mut c, v, f);
                c.finish().unwrap();
            }
            Obj(v) => {
                let order = ordered(v);
                let mut c = child!(f, b.push_object(k, v.len() as u16, order));
                fill_obj(&mut c, v, f);
                c.finish().unwrap();
            }
        }
    }
}
fn starving(j: &J, f: &mut Fate) {
    let own = build(j);
    let old = behind();
    let mut v = spare(&old, choose(q(4, 40) as u32) as usize);
    let order = match j {
        Obj(e) => ordered(e),
        _ => false,
    };
    match (j, choose(2)) {
        (Arr(e), 0) => {
            let mut b = f.turn(|| ArrayBuilder::try_new(e.len() as u16));
            fill_arr(&mut b, e, f);
            assert!(b.finish().unwrap().as_bytes() == own.as_bytes());
        }
        (Arr(e), _) => {
            {
                if f.left == 1 {
                    let (r, out) = starved(1, || ArrayRefBuilder::try_new(&mut v, e.len() as u16).map(|_| ()));
                    assert!(no_memory(&r) == out);
                    assume(out);
                    assert!(v == old);
                }
                f.left = f.left.saturating_sub(1);
                let mut b = ArrayRefBuilder::try_new(&mut v, e.len() as u16).unwrap();
                fill_arr(&mut b, e, f);
                assert!(b.finish().unwrap().as_bytes() == own.as_bytes());
            }
            assert!(v[..700] == old && v[700..] == *own.as_bytes());
        }
        (Obj(e), 0) => {
            let mut b = f.turn(|| ObjectBuilder::try_new(e.len() as u16, order));
            fill_obj(&mut b, e, f);
            assert!(b.finish().unwrap().as_bytes() == own.as_bytes());
        }
        (Obj(e), _) => {
            {
                if f.left == 1 {
                    let (r, out) = starved(1, || ObjectRefBuilder::try_new(&mut v, e.len() as u16, order).map(|_| ()));
                    assert!(no_memory(&r) == out);
                    assume(out);
                    assert!(v == old);
                }
                f.left = f.left.saturating_sub(1);
                let mut b = ObjectRefBuilder::try_new(&mut v, e.len() as u16, order).unwrap();
                fill_obj(&mut b, e, f);
                assert!(b.finish().unwrap().as_bytes() == own.as_bytes());
            }
            assert!(v[..700] == old && v[700..] == *own.as_bytes());
        }
        _ => unreachable!(),
    }
    cover(f.hit as u32);
}
/// every operation on a document may be the one for which there is no memory
pub fn oom_build() {
    let k = pick(&[0usize, 480, 1500]);
    let x = scalar();
    let inner = match choose(4) {
        0 => Arr(vec![x, s("i")]),
        1 => Obj(vec![("yy".into(), x), ("x".into(), Null)]),
        2 => Arr(vec![]),
        _ => Obj(vec![(ascii(1), Obj(vec![("w".into(), Str(zeros(630)))]))]),
    };
    let e = ascii(1);
    assume(e != "y" && e != "m");
    let j = match choose(3) {
        0 => Arr(vec![Str(zeros(k)), inner, n(3), Obj(vec![("u".into(), n(1)), ("v".into(), Str("e".repeat(600)))])]),
        1 => Obj(vec![("y".into(), Str(zeros(k))), (e, inner), ("m".into(), Bool(sym_bool()))]),
        _ => Arr(vec![Obj(vec![("y".into(), Str(zeros(k))), (e, Arr(vec![inner, Null])), ("m".into(), n(7))]), s("e")]),
    };
    let mut f = Fate { left: choose(12), hit: false };
    starving(&j, &mut f);
}
/// containers whose tables alone do not fit
pub fn oom_wide() {
    let c = pick(&[100usize, 130, 300]);
    let x = sym_bool();
    let inner = if any_bool() { Arr(vec![Bool(x); c]) } else { Obj((0..c).map(|i| (format!("{:03}", c - i), Bool(x))).collect()) };
    let j = if any_bool() { Arr(vec![Null, inner, n(1)]) } else { Obj(vec![("a".into(), Null), ("b".into(), inner), ("0".into(), n(1))]) };
    let mut f = Fate { left: pick(&[0, 1, 2, 3, 4, 5, 10, 60]), hit: false };
    starving(&j, &mut f);
}
/// copies and extracted values
pub fn oom_copy() {
    let j = match choose(3) {
        0 => Str(zeros(pick(&[3usize, 800]))),
        1 => Arr(vec![scalar(), Str(zeros(pick(&[1usize, 900])))]),
        _ => Obj(vec![(ascii(1), Str(zeros(600))), ("kk".into(), scalar())]),
    };
    let y = build(&j);
    let (r, out) = starved(choose(2), || y.to_yason_buf());
    if out {
        assert!(matches!(r, Err(YasonError::TryReserveError(_))));
        cover(1);
    } else {
        assert!(r.unwrap().as_bytes() == y.as_bytes());
        cover(0);
    }
    let old = behind();
    let mut w = spare(&old, pick(&[0usize, 4, 900]));
    let v = Value::try_from(&*y).unwrap();
    let (r, out) = starved(choose(2), || v.try_to_yason(&mut w).map(|z| z.as_bytes() == y.as_bytes()));
    if out {
        assert!(matches!(r, Err(YasonError::TryReserveError(_))));
        assert!(w == old);
        cover(2);
    } else {
        assert!(r.unwrap());
    }
}
/// queries and paths
fn cat(a: &str, b: &str, c: &str) -> String {
    [a, b, c].concat()
}
pub fn oom_path() {
    let t: &str = pick(&["$", "$.a", "$[*]", "$[0, last, 1 to 2]", "$.\"a\"..b[last - 1].count()", "$..*", "$.a.size()"]);
    let long = cat("$.a", &"b".repeat(600), ".c");
    let t = if any_bool() { &long } else { t };
    let k = choose(6);
    let (r, _) = starved(k, || t.parse::<PathExpression>());
    let r = match r {
        Ok(e) => e,
        Err(e) => {
            // the only way to fail
            let good = t.parse::<PathExpression>().is_ok();
            let _ = format!("{}", e);
            assert!(!good || k > 0);
            cover(1);
            return;
        }
    };
    let j = match choose(3) {
        0 => Arr(vec![Str(zeros(600)), Obj(vec![("a".into(), Bool(sym_bool())), ("b".into(), Null)])]),
        1 => Obj(vec![("a".into(), Arr(vec![Str(ascii(1)), Arr(vec![Str(zeros(700))])]))]),
        _ => Num(small_num()),
    };
    let y = build(&j);
    let wrap = any_bool();
    let plain = r.query(&y, wrap, None, None);
    let (mut qb, mut rb) = (vec![], vec![]);
    let (with_qb, with_rb) = (any_bool(), any_bool());
    let (got, out) = starved(choose(4), || {
        r.query(&y, wrap, if with_qb { Some(&mut qb) } else { None }, if with_rb { Some(&mut rb) } else { None })
    });
    if out {
        assert!(matches!(got, Err(YasonError::TryReserveError(_))));
        cover(2);
    } else {
        match (plain, got) {
            (Err(_), Err(_)) => {}
            (Ok(a), Ok(b)) => {
                let (mut p, mut q) = (String::new(), String::new());
                a.format_to(false, &mut p).unwrap();
                b.format_to(false, &mut q).unwrap();
                assert!(p == q);
                cover(0);
            }
            _ => panic!("different answers"),
        }
    }
    let (e, out) = starved(1, || r.exists(&y));
    assert!(!out || matches!(e, Err(YasonError::TryReserveError(_))));
}

/// many results, steps and subscripts
pub fn oom_many() {
    let m = pick(&[30usize, 60, 100, 300]);
    let k = choose(q(7, 12) as u32);
    if any_bool() {
        let t = match choose(3) {
            0 => cat("$[0", &",0".repeat(m), "]"),
            1 => cat("$", &"[0]".repeat(m), ""),
            _ => cat("$", &".a..b".repeat(m), ""),
        };
        let (r, out) = starved(k, || t.parse::<PathExpression>());
        assert!(r.is_ok() || out);
        cover(r.is_err() as u32);
        assert!(t.parse::<PathExpression>().is_ok());
        return;
    }
    let at = pick(&[0, m / 2, m - 1]);
    let x = sym_bool();
    let y = build(&Arr((0..m).map(|i| if i == at { Bool(x) } else { n(i as i64) }).collect()));
    let t: &str = pick(&["$[*]", "$[0 to last]", "$[0, 1 to last]"]);
    let e: PathExpression = t.parse().unwrap();
    let (mut qb, mut rb) = (vec![], vec![]);
    let (with_qb, with_rb) = (any_bool(), any_bool());
    let (got, out) = starved(k, || {
        e.query(&y, true, if with_qb { Some(&mut qb) } else { None }, if with_rb { Some(&mut rb) } else { None })
    });
    if let Err(e) = got {
        assert!(out && matches!(e, YasonError::TryReserveError(_)));
        cover(2);
    } else {
        let mut p = String::new();
        got.unwrap().format_to(false, &mut p).unwrap();
        assert!(p == y.format(false).to_string());
        cover(3);
    }
}

/// accepts so many calls and so many bytes
struct Fixed {
    text: String,
    calls: usize,
    failed: bool,
    late: bool,
}
impl Fixed {
    fn new(calls: usize, room: usize) -> Self {
        Fixed { text: String::with_capacity(room), calls, failed: false, late: false }
    }
}
impl fmt::Write for Fixed {
    fn write_str(&mut self, t: &str) -> fmt::Result {
        if self.failed {
            self.late = true;
        }
        if self.calls == 0 {
            self.failed = true;
            return Err(fmt::Error);
        }
        self.calls -= 1;
        self.text.push_str(t);
        Ok(())
    }
}
fn failing(j: &J) {
    let y = build(j);
    let pretty = any_bool();
    let full = y.format(pretty).to_string();
    let mut w = Fixed::new(choose(q(14, 30) as u32) as usize, full.len());
    let e: PathExpression = "$[*]".parse().unwrap();
    let root: PathExpression = "$".parse().unwrap();
    let mut want = full;
    let err = match choose(4) {
        0 => y.format_to(pretty, &mut w).is_err(),
        1 => root.query(&y, false, None, None).unwrap().format_to(pretty, &mut w).is_err(),
        2 => fmt::write(&mut w, format_args!("{}", y.format(pretty))).is_err(),
        _ => {
            let r = e.query(&y, true, None, None).unwrap();
            want = String::new();
            r.format_to(pretty, &mut want).unwrap();
            r.format_to(pretty, &mut w).is_err()
        }
    };
    assert!(err == w.failed);
    assert!(!w.late);
    if err {
        assert!(w.text.len() <= want.len() && want.as_bytes()[..w.text.len()] == *w.text.as_bytes());
        cover(1);
    } else {
        assert!(w.text == want);
        cover(0);
    }
}
pub fn fail_write() {
    let x = scalar();
    let j = match choose(6) {
        0 => x,
        1 => Arr(vec![x, s("i"), Bool(sym_bool())]),
        2 => Obj(vec![("yy".into(), x), ("x".into(), Null)]),
        3 => Arr(vec![Arr(vec![]), Obj(vec![]), x]),
        4 => Obj(vec![("a".into(), Arr(vec![x, Obj(vec![("k\n".into(), n(-3))])]))]),
        _ => Str(format!("a{}\n{}", ascii(1), "b")),
    };
    failing(&j);
}
pub fn fail_rich() {
    failing(&rich_of(Bool(sym_bool())));
}
