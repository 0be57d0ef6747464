//! The building protocol: counts, unfinished children, refused operations, depth.
use crate::model::*;
use crate::nd::*;
use crate::tr::*;
use yason::*;

struct Plan {
    /// operations left over all levels
    left: usize,
}

fn inner(e: &BuildError) -> bool {
    matches!(e, BuildError::InnerUncompletedError)
}
fn count(e: &BuildError, d: u16, a: u16) -> bool {
    matches!(e, BuildError::InconsistentElementCount { expected, actual } if *expected == d && *actual == a)
}
/// what a push has to answer in the present state
fn expect<T>(r: BuildResult<T>, dead: bool, declared: u16, pushed: usize) -> Option<T> {
    match r {
        Ok(t) => {
            assert!(!dead && pushed < declared as usize);
            Some(t)
        }
        Err(e) => {
            assert!(dead || pushed == declared as usize);
            if pushed < declared as usize {
                assert!(inner(&e));
            }
            if !dead {
                assert!(count(&e, declared, declared + 1));
            }
            None
        }
    }
}
fn finished(r: &BuildResult<()>, dead: bool, declared: u16, pushed: usize) -> bool {
    match r {
        Ok(()) => {
            assert!(!dead && pushed == declared as usize);
            true
        }
        Err(e) => {
            assert!(dead || pushed != declared as usize);
            if pushed == declared as usize {
                assert!(inner(e));
            }
            if !dead {
                assert!(count(e, declared, pushed as u16));
            }
            false
        }
    }
}

/// Runs chosen operations on an array builder; returns what it must contain and whether a child is left open.
fn drive_arr<B: ArrBuilder>(b: &mut B, declared: u16, p: &mut Plan, depth: usize) -> (Vec<J>, bool) {
    let mut v: Vec<J> = vec![];
    let mut dead = false;
    while p.left > 0 {
        p.left -= 1;
        let last = depth == 0;
        match choose(if last { 3 } else { 7 }) {
            0 => break,
            1 => {
                let x = sym_bool();
                if expect(b.push_bool(x).map(|_| ()), dead, declared, v.len()).is_some() {
                    v.push(Bool(x));
                }
            }
            2 => match choose(3) {
                0 => {
                    if expect(b.push_string("str").map(|_| ()), dead, declared, v.len()).is_some() {
                        v.push(s("str"));
                    }
                }
                1 => {
                    if expect(b.push_number(&Number::from(5)).map(|_| ()), dead, declared, v.len()).is_some() {
                        v.push(n(5));
                    }
                }
                _ => {
                    if expect(b.push_null().map(|_| ()), dead, declared, v.len()).is_some() {
                        v.push(Null);
                    }
                }
            },
            k @ (3 | 4) => {
                let m = choose(3) as u16;
                let at = v.len();
                let r = b.push_array(m);
                if let Some(mut c) = expect(r, dead, declared, at) {
                    let (cv, cd) = drive_arr(&mut c, m, p, depth - 1);
                    if k == 3 {
                        let l = cv.len();
                        if !finished(&c.finish().map(|_| ()), cd, m, l) {
                            dead = true;
                        }
                    } else {
                        drop(c);
                        dead = true;
                    }
                    v.push(Arr(cv));
                }
            }
            k => {
                let m = choose(3) as u16;
                let at = v.len();
                let r = b.push_object(m, false);
                if let Some(mut c) = expect(r, dead, declared, at) {
                    let (cv, cd) = drive_obj(&mut c, m, p, depth - 1);
                    if k == 5 {
                        let l = cv.len();
                        if !finished(&c.finish().map(|_| ()), cd, m, l) {
                            dead = true;
                        }
                    } else {
                        drop(c);
                        dead = true;
                    }
                    v.push(Obj(cv));
                }
            }
        }
    }
    (v, dead)
}
const KEYS: [&str; 8] = ["m", "c", "x", "aa", "", "k", "zz", "b"];
fn drive_obj<B: ObjBuilder>(b: &mut B, declared: u16, p: &mut Plan, depth: usize) -> (Vec<(String, J)>, bool) {
    let mut v: Vec<(String, J)> = vec![];
    let mut dead = false;
    while p.left > 0 {
        p.left -= 1;
        let last = depth == 0;
        let key = KEYS[v.len() % 8];
        match choose(if last { 4 } else { 8 }) {
            0 => break,
            1 => {
                let x = sym_bool();
                if expect(b.push_bool(key, x).map(|_| ()), dead, declared, v.len()).is_some() {
                    v.push((key.into(), Bool(x)));
                }
            }
            2 => match choose(3) {
                0 => {
                    if expect(b.push_string(key, "str").map(|_| ()), dead, declared, v.len()).is_some() {
                        v.push((key.into(), s("str")));
                    }
                }
                1 => {
                    if expect(b.push_number(key, &Number::from(5)).map(|_| ()), dead, declared, v.len()).is_some() {
                        v.push((key.into(), n(5)));
                    }
                }
                _ => {
                    if expect(b.push_null(key).map(|_| ()), dead, declared, v.len()).is_some() {
                        v.push((key.into(), Null));
                    }
                }
            },
            3 => {
                // a key that the format cannot hold is refused, whatever is pushed under it
                let long = "k".repeat(65536);
                let bad = match choose(3) {
                    0 => b.push_null(&long).is_err(),
                    1 => b.push_string(&long, "v").is_err(),
                    _ => b.push_number(&long, &Number::from(1)).is_err(),
                };
                assert!(bad);
            }
            k @ (4 | 5) => {
                let m = choose(3) as u16;
                let at = v.len();
                let r = b.push_array(key, m);
                if let Some(mut c) = expect(r, dead, declared, at) {
                    let (cv, cd) = drive_arr(&mut c, m, p, depth - 1);
                    if k == 4 {
                        let l = cv.len();
                        if !finished(&c.finish().map(|_| ()), cd, m, l) {
                            dead = true;
                        }
                    } else {
                        drop(c);
                        dead = true;
                    }
                    v.push((key.into(), Arr(cv)));
                }
            }
            k => {
                let m = choose(3) as u16;
                let at = v.len();
                let r = b.push_object(key, m, false);
                if let Some(mut c) = expect(r, dead, declared, at) {
                    let (cv, cd) = drive_obj(&mut c, m, p, depth - 1);
                    if k == 6 {
                        let l = cv.len();
                        if !finished(&c.finish().map(|_| ()), cd, m, l) {
                            dead = true;
                        }
                    } else {
                        drop(c);
                        dead = true;
                    }
                    v.push((key.into(), Obj(cv)));
                }
            }
        }
    }
    (v, dead)
}
fn plan() -> Plan {
    Plan { left: q(4, 5) }
}
pub fn arr_owned() {
    let d = any_u8() as u16;
    assume(d < 4);
    let mut b = ArrayBuilder::try_new(d).unwrap();
    let (v, dead) = drive_arr(&mut b, d, &mut plan(), 1);
    match b.finish() {
        Ok(y) => {
            assert!(finished(&Ok(()), dead, d, v.len()));
            out_bytes(y.as_bytes());
            assert!(is_doc(&y, &Arr(v)));
            cover(1);
        }
        Err(e) => {
            finished(&Err(e), dead, d, v.len());
            cover(2);
        }
    }
    cover(0);
}
pub fn obj_owned() {
    let d = any_u8() as u16;
    assume(d < 4);
    let mut b = ObjectBuilder::try_new(d, false).unwrap();
    let (v, dead) = drive_obj(&mut b, d, &mut plan(), 1);
    match b.finish() {
        Ok(y) => {
            assert!(finished(&Ok(()), dead, d, v.len()));
            out_bytes(y.as_bytes());
            assert!(is_doc(&y, &Obj(v)));
            cover(1);
        }
        Err(e) => {
            finished(&Err(e), dead, d, v.len());
            cover(2);
        }
    }
    cover(0);
}
pub fn arr_ref() {
    let d = any_u8() as u16;
    assume(d < 3);
    let mut out = vec![9, any_u8()];
    let old = out.clone();
    let mut b = ArrayRefBuilder::try_new(&mut out, d).unwrap();
    let (v, dead) = drive_arr(&mut b, d, &mut Plan { left: 3 }, 2);
    match b.finish() {
        Ok(y) => {
            assert!(finished(&Ok(()), dead, d, v.len()));
            assert!(is_doc(y, &Arr(v)));
            cover(1);
        }
        Err(e) => {
            finished(&Err(e), dead, d, v.len());
            cover(2);
        }
    }
    assert!(out[..2] == old[..]);
    cover(0);
}
pub fn obj_ref() {
    let d = any_u8() as u16;
    assume(d < 3);
    let mut out = vec![9, any_u8(), 7];
    let old = out.clone();
    let mut b = ObjectRefBuilder::try_new(&mut out, d, false).unwrap();
    let (v, dead) = drive_obj(&mut b, d, &mut Plan { left: 3 }, 2);
    match b.finish() {
        Ok(y) => {
            assert!(finished(&Ok(()), dead, d, v.len()));
            assert!(is_doc(y, &Obj(v)));
            cover(1);
        }
        Err(e) => {
            finished(&Err(e), dead, d, v.len());
            cover(2);
        }
    }
    assert!(out[..3] == old[..]);
    cover(0);
}
/// a refused long key leaves no trace in the finished document
pub fn key_limit() {
    let len = pick(&[65534usize, 65535, 65536, 65537]);
    let long = "k".repeat(len);
    let fits = len <= 65535;
    let a = ascii(1);
    let mut b = ObjectBuilder::try_new(2, false).unwrap();
    b.push_null(&a).unwrap();
    let mut want = vec![(a, Null)];
    let r = match choose(5) {
        0 => b.push_string(&long, "v").map(|_| s("v")),
        1 => b.push_number(&long, Number::from(3)).map(|_| n(3)),
        2 => b.push_bool(&long, true).map(|_| Bool(true)),
        3 => match b.push_array(&long, 0) {
            Ok(c) => {
                c.finish().unwrap();
                Ok(Arr(vec![]))
            }
            Err(e) => Err(e),
        },
        _ => match b.push_object(&long, 0, true) {
            Ok(c) => {
                c.finish().unwrap();
                Ok(Obj(vec![]))
            }
            Err(e) => Err(e),
        },
    };
    match r {
        Ok(v) => {
            assert!(fits);
            want.push((long, v));
            cover(1);
        }
        Err(BuildError::StringTooLong(k)) => {
            assert!(!fits && k == len);
            b.push_bool("other", false).unwrap();
            want.push(("other".into(), Bool(false)));
            cover(2);
        }
        Err(_) => panic!(),
    }
    let y = b.finish().unwrap();
    assert!(is_doc(&y, &Obj(want)));
    cover(0);
}

/// a string that the format cannot hold is refused and leaves no trace: the count, the
/// other elements and the position of later ones stay as they were
fn refuse_arr<B: ArrBuilder>(b: &mut B, at: usize, long: &str) -> Vec<J> {
    let mut v = vec![];
    for i in 0..3 {
        if i == at {
            assert!(matches!(b.push_string(long), Err(BuildError::StringTooLong(k)) if k == long.len()));
        }
        match i {
            0 => {
                let x = sym_bool();
                b.push_bool(x).unwrap();
                v.push(Bool(x));
            }
            1 => {
                let x = ascii(1);
                b.push_string(&x).unwrap();
                v.push(Str(x));
            }
            _ => {
                {
                    let mut c = b.push_array(1).unwrap();
                    c.push_null().unwrap();
                    c.finish().unwrap();
                }
                v.push(Arr(vec![Null]));
            }
        }
    }
    if at == 3 {
        // no room left
        assert!(b.push_string(long).is_err());
    }
    v
}
fn refuse_obj<B: ObjBuilder>(b: &mut B, at: usize, long: &str) -> Vec<(String, J)> {
    let mut v: Vec<(String, J)> = vec![];
    for i in 0..3 {
        if i == at {
            assert!(matches!(b.push_string("l", long), Err(BuildError::StringTooLong(k)) if k == long.len()));
        }
        match i {
            0 => {
                let x = sym_bool();
                b.push_bool("q", x).unwrap();
                v.push(("q".into(), Bool(x)));
            }
            1 => {
                let x = ascii(1);
                b.push_string("c", &x).unwrap();
                v.push(("c".into(), Str(x)));
            }
            _ => {
                {
                    let mut c = b.push_array("l", 1).unwrap();
                    c.push_null().unwrap();
                    c.finish().unwrap();
                }
                v.push(("l".into(), Arr(vec![Null])));
            }
        }
    }
    if at == 3 {
        assert!(b.push_string("zz", long).is_err());
    }
    v
}
pub fn refuse_long() {
    let long = zeros((1 << 28) + choose(2) as usize);
    let at = choose(4) as usize;
    let mut out = vec![any_u8()];
    let old = out[0];
    let deep = any_bool();
    match choose(4) {
        0 => {
            let mut b = ArrayBuilder::try_new(3).unwrap();
            let y;
            let j;
            if deep {
                let mut b = ArrayBuilder::try_new(2).unwrap();
                let mut c = b.push_object(3, false).unwrap();
                j = Arr(vec![Obj(refuse_obj(&mut c, at, &long)), s("e")]);
                c.finish().unwrap();
                b.push_string("e").unwrap();
                y = b.finish().unwrap();
            } else {
                j = Arr(refuse_arr(&mut b, at, &long));
                y = b.finish().unwrap();
            }
            assert!(is_doc(&y, &j));
        }
        1 => {
            let y;
            let j;
            if deep {
                let mut b = ObjectBuilder::try_new(2, false).unwrap();
                let mut c = b.push_array("w", 3).unwrap();
                j = Obj(vec![("w".into(), Arr(refuse_arr(&mut c, at, &long))), ("e".into(), s("e"))]);
                c.finish().unwrap();
                b.push_string("e", "e").unwrap();
                y = b.finish().unwrap();
            } else {
                let mut b = ObjectBuilder::try_new(3, false).unwrap();
                j = Obj(refuse_obj(&mut b, at, &long));
                y = b.finish().unwrap();
            }
            assert!(is_doc(&y, &j));
        }
        2 => {
            let mut b = ArrayRefBuilder::try_new(&mut out, 3).unwrap();
            let j = Arr(refuse_arr(&mut b, at, &long));
            assert!(is_doc(b.finish().unwrap(), &j));
        }
        _ => {
            let mut b = ObjectRefBuilder::try_new(&mut out, 3, false).unwrap();
            let j = Obj(refuse_obj(&mut b, at, &long));
            assert!(is_doc(b.finish().unwrap(), &j));
        }
    }
    assert!(out[0] == old);
    cover(0);
}

/// large declared counts: one less, exactly as many, one more
pub fn count_big() {
    let d = pick(&[4usize, 10, 126, 127, 128, 129, 255, 256, 257, 1000, 32767, 32768, 65535]);
    let k = d - 1 + choose(3) as usize;
    let x = sym_bool();
    let mut out = vec![any_u8()];
    let old = out[0];
    let obj = any_bool();
    let own = any_bool();
    macro_rules! run {
        ($b:expr, $f:ident) => {{
            let mut b = $b.unwrap();
            $f(&mut b, d, k, x);
            let r = b.finish();
            match r {
                Ok(y) => {
                    assert!(k >= d);
                    if obj {
                        let o = y.object().unwrap();
                        assert!(o.len().unwrap() == d);
                        assert!(o.bool(&name(0)).unwrap() == Some(x) && o.bool(&name(d - 1)).unwrap() == Some(!x));
                    } else {
                        let a = y.array().unwrap();
                        assert!(a.len().unwrap() == d);
                        assert!(a.bool(0).unwrap() == x && a.bool(d - 1).unwrap() == !x);
                        assert!(d < 6 || a.is_null(3).unwrap());
                    }
                    cover(1);
                }
                Err(e) => {
                    assert!(k < d && count(&e, d as u16, k as u16));
                    cover(2);
                }
            }
        }};
    }
    match (obj, own) {
        (false, true) => run!(ArrayBuilder::try_new(d as u16), fill_arr),
        (false, false) => run!(ArrayRefBuilder::try_new(&mut out, d as u16), fill_arr),
        (true, true) => run!(ObjectBuilder::try_new(d as u16, true), fill_obj),
        _ => run!(ObjectRefBuilder::try_new(&mut out, d as u16, true), fill_obj),
    }
    assert!(out[0] == old);
    cover(0);
}
fn name(i: usize) -> String {
    let d = |x: usize| (b'0' + (x & 15) as u8) as char;
    [d(i >> 12), d(i >> 8), d(i >> 4), d(i)].iter().collect()
}
fn fill_arr<B: ArrBuilder>(b: &mut B, d: usize, k: usize, x: bool) {
    for i in 0..k {
        let r = if i == 0 || i + 1 >= d { b.push_bool(if i == 0 { x } else { !x }).map(|_| ()) } else { b.push_null().map(|_| ()) };
        match r {
            Ok(()) => assert!(i < d),
            Err(_) => assert!(i >= d),
        }
    }
    if k > d {
        assert!(b.push_array(0).is_err() && b.push_string("s").is_err() && b.push_object(1, true).is_err());
    }
}
fn fill_obj<B: ObjBuilder>(b: &mut B, d: usize, k: usize, x: bool) {
    for i in 0..k {
        let n = name(i);
        let r = if i == 0 || i + 1 >= d { b.push_bool(&n, if i == 0 { x } else { !x }).map(|_| ()) } else { b.push_null(&n).map(|_| ()) };
        match r {
            Ok(()) => assert!(i < d),
            Err(_) => assert!(i >= d),
        }
    }
    if k > d {
        assert!(b.push_array("q", 0).is_err() && b.push_string("q", "s").is_err() && b.push_object("q", 1, true).is_err());
    }
}

// ---------------------------------------------------------------- depth

#[derive(Clone, Copy)]
struct Chain {
    /// containers to open in total
    depth: usize,
    /// bit i % 3: is level i an object
    shape: u8,
    /// the container at `depth` has nothing in it
    hollow: bool,
    /// a finished container before (1) or after (2) the chain's next one, at every level
    sib: u8,
}
impl Chain {
    /// members of the container at this level
    fn count(&self, level: usize) -> u16 {
        if self.hollow && level == self.depth {
            0
        } else {
            2 + (self.sib > 0) as u16
        }
    }
    fn sib(&self, level: usize) -> J {
        match (level < 100, self.object(level + 1)) {
            (false, _) => Null,
            (_, true) => Obj(vec![]),
            _ => Arr(vec![]),
        }
    }
    fn object(&self, level: usize) -> bool {
        self.shape >> (level % 3) & 1 == 1
    }
    fn tree(&self, level: usize, end: &J) -> J {
        if level > self.depth.min(100) {
            return end.clone();
        }
        if self.hollow && level == self.depth {
            return if self.object(level) { Obj(vec![]) } else { Arr(vec![]) };
        }
        let c = self.tree(level + 1, end);
        let mut v = vec![("n".into(), c), ("z".into(), Null)];
        if self.sib > 0 {
            v.insert(self.sib as usize - 1, ("y".into(), self.sib(level)));
        }
        if self.object(level) {
            Obj(v)
        } else {
            Arr(v.into_iter().map(|x| x.1).collect())
        }
    }
}
fn sib_arr<B: ArrBuilder>(b: &mut B, c: Chain, level: usize) {
    if level < 100 {
        if c.object(level + 1) {
            b.push_object(0, false).unwrap().finish().unwrap();
        } else {
            b.push_array(0).unwrap().finish().unwrap();
        }
    } else {
        assert!(matches!(b.push_object(0, true), Err(BuildError::NestedTooDeeply)));
        assert!(matches!(b.push_array(0), Err(BuildError::NestedTooDeeply)));
        b.push_null().unwrap();
    }
}
fn sib_obj<B: ObjBuilder>(b: &mut B, c: Chain, level: usize) {
    if level < 100 {
        if c.object(level + 1) {
            b.push_object("y", 0, false).unwrap().finish().unwrap();
        } else {
            b.push_array("y", 0).unwrap().finish().unwrap();
        }
    } else {
        assert!(matches!(b.push_object("y", 0, true), Err(BuildError::NestedTooDeeply)));
        assert!(matches!(b.push_array("y", 0), Err(BuildError::NestedTooDeeply)));
        b.push_null("y").unwrap();
    }
}
fn deep_arr<B: ArrBuilder>(b: &mut B, c: Chain, level: usize, end: bool) {
    // `b` is the builder of `level`; its first element is the next container
    if c.count(level) == 0 {
        return;
    }
    if c.sib == 1 {
        sib_arr(b, c, level);
    }
    if level < c.depth {
        let mut refused = false;
        if c.object(level + 1) {
            match b.push_object(c.count(level + 1), false) {
                Ok(mut d) => {
                    assert!(level < 100);
                    deep_obj(&mut d, c, level + 1, end);
                    d.finish().unwrap();
                }
                Err(BuildError::NestedTooDeeply) => refused = true,
                Err(_) => panic!(),
            }
        } else {
            match b.push_array(c.count(level + 1)) {
                Ok(mut d) => {
                    assert!(level < 100);
                    deep_arr(&mut d, c, level + 1, end);
                    d.finish().unwrap();
                }
                Err(BuildError::NestedTooDeeply) => refused = true,
                Err(_) => panic!(),
            }
        }
        if refused {
            // exactly at the limit, and the builder is still usable
            assert!(level == 100);
            b.push_bool(end).unwrap();
        }
    } else {
        b.push_bool(end).unwrap();
    }
    if c.sib == 2 {
        sib_arr(b, c, level);
    }
    b.push_null().unwrap();
}
fn deep_obj<B: ObjBuilder>(b: &mut B, c: Chain, level: usize, end: bool) {
    if c.count(level) == 0 {
        return;
    }
    if c.sib == 1 {
        sib_obj(b, c, level);
    }
    if level < c.depth {
        let mut refused = false;
        if c.object(level + 1) {
            match b.push_object("n", c.count(level + 1), false) {
                Ok(mut d) => {
                    assert!(level < 100);
                    deep_obj(&mut d, c, level + 1, end);
                    d.finish().unwrap();
                }
                Err(BuildError::NestedTooDeeply) => refused = true,
                Err(_) => panic!(),
            }
        } else {
            match b.push_array("n", c.count(level + 1)) {
                Ok(mut d) => {
                    assert!(level < 100);
                    deep_arr(&mut d, c, level + 1, end);
                    d.finish().unwrap();
                }
                Err(BuildError::NestedTooDeeply) => refused = true,
                Err(_) => panic!(),
            }
        }
        if refused {
            assert!(level == 100);
            b.push_bool("n", end).unwrap();
        }
    } else {
        b.push_bool("n", end).unwrap();
    }
    if c.sib == 2 {
        sib_obj(b, c, level);
    }
    b.push_null("z").unwrap();
}
fn walk(v: &Value, c: Chain, level: usize, end: bool) {
    if level > c.depth.min(100) {
        assert!(matches!(v, Value::Bool(x) if *x == end));
        return;
    }
    match v {
        Value::Object(o) if c.count(level) == 0 => assert!(c.object(level) && o.len().unwrap() == 0),
        Value::Array(a) if c.count(level) == 0 => assert!(!c.object(level) && a.len().unwrap() == 0),
        Value::Object(o) => {
            assert!(c.object(level));
            assert!(o.len().unwrap() == c.count(level) as usize);
            if c.sib > 0 {
                assert!(same(&o.get("y").unwrap().unwrap(), &c.sib(level)));
            }
            assert!(o.is_null("z").unwrap() == Some(true));
            walk(&o.get("n").unwrap().unwrap(), c, level + 1, end);
        }
        Value::Array(a) => {
            assert!(!c.object(level));
            assert!(a.len().unwrap() == c.count(level) as usize);
            if c.sib > 0 {
                assert!(same(&a.get(c.sib as usize - 1).unwrap(), &c.sib(level)));
            }
            assert!(a.is_null(c.count(level) as usize - 1).unwrap());
            walk(&a.get((c.sib == 1) as usize).unwrap(), c, level + 1, end);
        }
        _ => panic!(),
    }
}
/// every depth up to 104 and every repeating pattern of three kinds
fn chain() -> Chain {
    let (depth, shape) = (any_u8(), any_u8());
    assume((depth >= 1) & (depth <= 104) & (shape < 8));
    Chain { depth: conc(depth as u64) as usize, shape: conc(shape as u64) as u8, hollow: any_bool(), sib: choose(3) as u8 }
}
pub fn deep_owned() {
    let c = chain();
    if tier() == 0 {
        assume(c.sib == 0 || c.shape < 3 || c.shape == 7);
    }
    let end = sym_bool();
    let y = if c.object(1) {
        let mut b = ObjectBuilder::try_new(c.count(1), false).unwrap();
        deep_obj(&mut b, c, 1, end);
        b.finish().unwrap()
    } else {
        let mut b = ArrayBuilder::try_new(c.count(1)).unwrap();
        deep_arr(&mut b, c, 1, end);
        b.finish().unwrap()
    };
    out_bytes(y.as_bytes());
    walk(&Value::try_from(&*y).unwrap(), c, 1, end);
    if c.depth > 100 {
        cover(1);
    } else {
        cover(2);
    }
    cover(0);
}
pub fn deep_ref() {
    let c = chain();
    if tier() == 0 {
        assume(c.sib == 0 || c.shape == 5 || c.shape == 2);
    }
    let end = sym_bool();
    let mut v = vec![0x55];
    let y = if c.object(1) {
        let mut b = ObjectRefBuilder::try_new(&mut v, c.count(1), false).unwrap();
        deep_obj(&mut b, c, 1, end);
        b.finish().unwrap()
    } else {
        let mut b = ArrayRefBuilder::try_new(&mut v, c.count(1)).unwrap();
        deep_arr(&mut b, c, 1, end);
        b.finish().unwrap()
    };
    walk(&Value::try_from(y).unwrap(), c, 1, end);
    cover(0);
}
/// finished siblings do not count towards the depth
pub fn deep_siblings() {
    let k = pick(&[1usize, 2, 3, 99, 100, 101, 130, 300]);
    let end = sym_bool();
    let mut b = ArrayBuilder::try_new(k as u16 + 2).unwrap();
    for i in 0..k {
        if i % 2 == 0 {
            b.push_array(0).unwrap().finish().unwrap();
        } else {
            let mut o = b.push_object(1, true).unwrap();
            o.push_bool("q", end).unwrap();
            o.finish().unwrap();
        }
    }
    for _ in 0..2 {
        let mut d = b.push_array(2).unwrap();
        deep_arr(&mut d, Chain { depth: 100, shape: 2, hollow: false, sib: 0 }, 2, end);
        d.finish().unwrap();
    }
    let y = b.finish().unwrap();
    let a = y.array().unwrap();
    assert!(a.len().unwrap() == k + 2);
    for i in 0..k {
        if i % 2 == 0 {
            assert!(a.array(i).unwrap().len().unwrap() == 0);
        } else {
            assert!(a.object(i).unwrap().bool("q").unwrap() == Some(end));
        }
    }
    for i in 0..2 {
        walk(&a.get(k + i).unwrap(), Chain { depth: 100, shape: 2, hollow: false, sib: 0 }, 2, end);
    }
    cover(0);
}
fn deep_text(c: Chain, inner: &str) -> String {
    let depth = c.depth;
    let mut t = String::new();
    for l in 1..=depth {
        t.push_str(if c.count(l) == 0 {
            if c.object(l) { "{}" } else { "[]" }
        } else if c.object(l) {
            "{\"n\":"
        } else {
            "["
        });
    }
    if !c.hollow {
        t.push_str(inner);
    }
    for l in (1..=depth).rev() {
        if c.count(l) == 0 {
            continue;
        }
        t.push_str(if c.object(l) { ",\"z\":null}" } else { ",null]" });
    }
    t
}
/// the same limit for JSON text
pub fn deep_json() {
    let d = any_u8();
    assume((d >= 1) & (d <= 140));
    let depth = conc(d as u64) as usize;
    let shape = pick(&[0u8, 7, 5]);
    let end = shape == 5 || any_bool();
    let c = Chain { depth, shape, hollow: shape == 5 && any_bool(), sib: 0 };
    let t = deep_text(c, if end { "true" } else { "false" });
    let mut v = vec![1, 2, 3];
    match YasonBuf::parse(&t) {
        Ok(y) => {
            assert!(depth <= 100);
            walk(&Value::try_from(&*y).unwrap(), c, 1, end);
            let z = Yason::parse_to(&mut v, &t).unwrap();
            walk(&Value::try_from(z).unwrap(), c, 1, end);
            cover(1);
        }
        Err(e) => {
            assert!(depth > 100);
            if depth < 127 {
                assert!(matches!(e, BuildError::NestedTooDeeply));
            }
            assert!(Yason::parse_to(&mut v, &t).is_err());
            assert!(v[..3] == [1, 2, 3]);
            cover(2);
        }
    }
    cover(0);
}
/// a document of the largest depth can be read, compared, printed and queried
pub fn deep_use() {
    let depth = pick(&[99usize, 100]);
    let shape = pick(&[0u8, 7, 5]);
    let c = Chain { depth, shape, hollow: any_bool(), sib: 0 };
    let t = deep_text(c, "true");
    let y = YasonBuf::parse(&t).unwrap();
    let z = build(&c.tree(1, &Bool(true)));
    assert!(*y == *z);
    assert!(y.format(false).to_string() == t);
    let mut p = String::new();
    y.format_to(true, &mut p).unwrap();
    let mut strip = p.into_bytes();
    strip.retain(|b| *b != b' ' && *b != b'\n');
    assert!(strip == t.as_bytes());
    let e: PathExpression = "$..n".parse().unwrap();
    assert!(e.exists(&y).unwrap() == (shape != 0));
    assert!(z.to_yason_buf().unwrap() == y);
    cover(0);
}
