//! Path expressions: reference grammar and evaluation, and the forms a result takes.
use crate::model::*;
use crate::nd::*;
use yason::*;

// ---------------------------------------------------------------- grammar

#[derive(Clone, Copy)]
pub enum Ix {
    At(u64),
    Last(u64),
}
#[derive(Clone, Copy)]
pub enum Sub {
    One(Ix),
    Span(Ix, Ix),
}
pub enum St {
    Key(String),
    AnyKey,
    Subs(Vec<Sub>),
    AnyEl,
    Desc(String),
    Count,
    Size,
    Type,
}

struct P<'a>(&'a [u8], usize);
impl<'a> P<'a> {
    fn at(&self) -> u8 {
        // 0 stands for the end; a NUL in the text is never a legal token either
        self.0.get(self.1).copied().unwrap_or(0)
    }
    fn end(&self) -> bool {
        self.1 == self.0.len()
    }
    fn eat(&mut self, c: u8) -> bool {
        let ok = !self.end() && self.0[self.1] == c;
        self.1 += ok as usize;
        ok
    }
    fn ws(&mut self) {
        while !self.end() && matches!(self.0[self.1], b' ' | b'\t' | b'\n' | 12 | b'\r') {
            self.1 += 1;
        }
    }
    fn word(&mut self, w: &[u8]) -> bool {
        if self.0.len() - self.1 < w.len() {
            return false;
        }
        // one decision for the whole word
        let mut d = 0;
        for i in 0..w.len() {
            d |= self.0[self.1 + i] ^ w[i];
        }
        if d == 0 {
            self.1 += w.len();
        }
        d == 0
    }
    fn num(&mut self) -> Option<u64> {
        let mut v: u64 = 0;
        let p = self.1;
        while !self.end() && self.0[self.1].is_ascii_digit() {
            v = v * 10 + (self.0[self.1] - b'0') as u64;
            if v > 2147483647 {
                return None;
            }
            self.1 += 1;
        }
        if p == self.1 {
            None
        } else {
            Some(v)
        }
    }
    fn ix(&mut self) -> Option<Ix> {
        if self.word(b"last") {
            self.ws();
            if self.eat(b'-') {
                self.ws();
                return self.num().map(Ix::Last);
            }
            return Some(Ix::Last(0));
        }
        self.num().map(Ix::At)
    }
    fn sub(&mut self) -> Option<Sub> {
        let a = self.ix()?;
        self.ws();
        if self.word(b"to") {
            self.ws();
            return Some(Sub::Span(a, self.ix()?));
        }
        Some(Sub::One(a))
    }
    fn brackets(&mut self) -> Option<St> {
        self.ws();
        let st = if self.eat(b'*') {
            St::AnyEl
        } else {
            let mut v = vec![self.sub()?];
            self.ws();
            while self.eat(b',') {
                self.ws();
                v.push(self.sub()?);
                self.ws();
            }
            St::Subs(v)
        };
        self.ws();
        if self.eat(b']') {
            Some(st)
        } else {
            None
        }
    }
    /// the text between the quotes, escapes kept as written
    fn quoted(&mut self) -> Option<String> {
        let p = self.1;
        loop {
            if self.end() {
                return None;
            }
            if self.eat(b'"') {
                return Some(String::from_utf8_lossy(&self.0[p..self.1 - 1]).into_owned());
            }
            if self.eat(b'\\') {
                if self.end() || !matches!(self.0[self.1], b'b' | b'f' | b'n' | b'r' | b't' | b'"' | b'/' | b'\\') {
                    return None;
                }
            }
            self.1 += 1;
        }
    }
    fn name(&mut self) -> Option<String> {
        let p = self.1;
        if self.end() || !self.0[p].is_ascii_alphabetic() {
            return None;
        }
        while !self.end() && self.0[self.1].is_ascii_alphanumeric() {
            self.1 += 1;
        }
        Some(unsafe { String::from_utf8_unchecked(self.0[p..self.1].to_vec()) })
    }
    fn dot(&mut self) -> Option<St> {
        if self.eat(b'.') {
            self.ws();
            return if self.eat(b'"') { self.quoted() } else { self.name() }.map(St::Desc);
        }
        self.ws();
        if self.eat(b'*') {
            return Some(St::AnyKey);
        }
        if self.eat(b'"') {
            return self.quoted().map(St::Key);
        }
        let n = self.name()?;
        self.ws();
        if self.eat(b'(') {
            self.ws();
            if !self.eat(b')') {
                return None;
            }
            self.ws();
            if !self.end() {
                return None;
            }
            return match n.as_bytes() {
                b"count" => Some(St::Count),
                b"size" => Some(St::Size),
                b"type" => Some(St::Type),
                _ => None,
            };
        }
        if self.end() || self.at() == b'.' || self.at() == b'[' {
            Some(St::Key(n))
        } else {
            None
        }
    }
}
/// The steps of a path expression, if the text is one.
pub fn grammar(t: &[u8]) -> Option<Vec<St>> {
    let mut p = P(t, 0);
    while p.eat(b' ') {}
    if !p.eat(b'$') {
        return None;
    }
    while p.eat(b' ') {}
    let mut v = vec![];
    while !p.end() {
        let st = if p.eat(b'[') {
            p.brackets()?
        } else if p.eat(b'.') {
            p.dot()?
        } else {
            return None;
        };
        v.push(st);
        p.ws();
    }
    Some(v)
}

// ---------------------------------------------------------------- evaluation

/// Positions `0..len` selected by one subscript, in order.
fn positions(s: &Sub, len: usize) -> Vec<usize> {
    let n = len as i64;
    // positions of a subscript before clamping
    let pos = |i: &Ix| match i {
        Ix::At(x) => *x as i64,
        Ix::Last(x) => n - 1 - *x as i64,
    };
    let mut v = vec![];
    match s {
        Sub::One(i) => {
            let p = pos(i);
            if p >= 0 && p < n {
                v.push(p as usize);
            }
        }
        Sub::Span(a, b) => {
            let (mut lo, mut hi) = (pos(a), pos(b));
            if lo > hi {
                std::mem::swap(&mut lo, &mut hi);
            }
            // whatever part of the range lies inside the array
            for p in 0..n {
                if p >= lo && p <= hi {
                    v.push(p as usize);
                }
            }
        }
    }
    v
}

pub fn eval<'j>(j: &'j J, st: &[St], out: &mut Vec<&'j J>) {
    if st.is_empty() {
        out.push(j);
        return;
    }
    match (&st[0], j) {
        (St::Count | St::Size | St::Type, _) => out.push(j),
        (St::Key(k), Obj(e)) => {
            for (n, x) in e {
                if n == k {
                    eval(x, &st[1..], out);
                }
            }
        }
        (St::AnyKey, Obj(e)) => {
            for i in key_order(e) {
                eval(&e[i].1, &st[1..], out);
            }
        }
        (St::Key(_) | St::AnyKey, Arr(v)) => {
            for x in v {
                eval(x, st, out);
            }
        }
        (St::Desc(k), Obj(e)) => {
            for (n, x) in e {
                if n == k {
                    eval(x, &st[1..], out);
                }
            }
            for i in key_order(e) {
                eval(&e[i].1, st, out);
            }
        }
        (St::Desc(_), Arr(v)) => {
            for x in v {
                eval(x, st, out);
            }
        }
        (St::AnyEl, Arr(v)) => {
            for x in v {
                eval(x, &st[1..], out);
            }
        }
        (St::Subs(l), Arr(v)) => {
            for s in l {
                for p in positions(s, v.len()) {
                    eval(&v[p], &st[1..], out);
                }
            }
        }
        (St::AnyEl, _) => eval(j, &st[1..], out),
        (St::Subs(l), _) => {
            let mut any = false;
            for s in l {
                any |= !positions(s, 1).is_empty();
            }
            if any {
                eval(j, &st[1..], out);
            }
        }
        _ => {}
    }
}
fn has_method(st: &[St]) -> bool {
    matches!(st.last(), Some(St::Count | St::Size | St::Type))
}
fn type_name(j: &J) -> &'static str {
    match j {
        Null => "null",
        Bool(_) => "bool",
        Num(_) => "number",
        Str(_) => "string",
        Arr(_) => "array",
        Obj(_) => "object",
    }
}
/// What a query with wrapper delivers.
pub fn answer(j: &J, st: &[St]) -> Vec<J> {
    let mut sel = vec![];
    eval(j, st, &mut sel);
    match st.last() {
        Some(St::Count) => vec![n(sel.len() as i64)],
        Some(St::Size) => sel
            .iter()
            .map(|x| match x {
                Arr(v) => n(v.len() as i64),
                _ => n(1),
            })
            .collect(),
        Some(St::Type) => sel.iter().map(|x| s(type_name(x))).collect(),
        _ => sel.into_iter().cloned().collect(),
    }
}
fn same_list(v: &[Value], j: &[J]) -> bool {
    if v.len() != j.len() {
        return false;
    }
    for i in 0..v.len() {
        if !same(&v[i], &j[i]) {
            return false;
        }
    }
    true
}
/// The plain query with wrapper agrees with the reference.
fn agree(y: &Yason, j: &J, e: &PathExpression, st: &[St]) {
    let want = answer(j, st);
    match e.query(y, true, None, None) {
        Ok(QueriedValue::None) => assert!(want.is_empty()),
        Ok(QueriedValue::Values(v)) => {
            assert!(!v.is_empty());
            assert!(same_list(&v, &want));
        }
        _ => panic!("unexpected form"),
    }
    out(want.len() as u64);
}
/// Parses (must be accepted) and compares the selection.
fn select(t: &str, j: &J) -> usize {
    let st = grammar(t.as_bytes());
    assert!(st.is_some());
    let st = st.unwrap();
    let e: PathExpression = match t.parse() {
        Ok(e) => e,
        Err(_) => panic!("rejected"),
    };
    let y = build(j);
    agree(&y, j, &e, &st);
    let k = answer(j, &st).len();
    cover(if k == 0 {
        0
    } else if k == 1 {
        1
    } else {
        2
    });
    k
}

// ---------------------------------------------------------------- P15

/// `{"a":[0,{"b":1},[2,3]],"b":{"a":4},"A":5,"\"":6,"\\n":7}` and the like
fn witness() -> J {
    o([
        ("b", o([("a", n(4)), ("c", Arr(vec![n(5), n(6)]))])),
        ("a", Arr(vec![n(0), o([("b", n(1))]), Arr(vec![n(2), n(3)])])),
        ("to", n(8)),
        ("\\n", n(7)),
        ("last", Arr(vec![])),
    ])
}
fn accept(t: &str) {
    let r = t.parse::<PathExpression>();
    let g = grammar(t.as_bytes());
    match (r, g) {
        (Ok(e), Some(st)) => {
            let j = witness();
            let y = build(&j);
            agree(&y, &j, &e, &st);
            cover(0);
        }
        (Err(e), None) => {
            assert!(!e.to_string().is_empty());
            cover(1);
        }
        (Ok(_), None) => panic!("accepted"),
        (Err(_), Some(_)) => panic!("rejected"),
    }
}
fn cat(a: &str, b: &str, c: &str) -> String {
    [a, b, c].concat()
}
pub fn parse_lead() {
    let pre = ascii_upto(q(4, 6));
    accept(&cat(&pre, pick(&["", "$", "$.a", " $ [0]"]), ""));
}
pub fn parse_free() {
    let k = choose(q(6, 8) as u32) as usize;
    accept(&cat("$", &ascii(k), ""));
}
pub fn parse_sub() {
    let pre = pick(&["$[", "$[1", "$[ last", "$[last-", "$[0 to", "$[1,", "$[*"]);
    let k = choose(q(6, 8) as u32) as usize;
    accept(&cat(pre, &ascii(k), pick(&["", "]"])));
}
pub fn parse_name() {
    let pre = pick(&["$.", "$.a", "$ . ", "$.*", "$[0].", "$..", "$.. ", "$..b"]);
    let k = choose(q(6, 8) as u32) as usize;
    accept(&cat(pre, &ascii(k), ""));
}
pub fn parse_func() {
    let pre = pick(&["$.count", "$.size(", "$.a.typ", "$.type()", "$.coun", "$[*].siz", "$.b.size "]);
    let k = choose(q(6, 8) as u32) as usize;
    accept(&cat(pre, &ascii(k), pick(&["", ")", "()"])));
}
pub fn parse_quote() {
    let pre = pick(&["$.\"", "$..\"", "$. \"\\", "$.\"a\"", "$.\"a\\n"]);
    let k = choose(q(6, 8) as u32) as usize;
    accept(&cat(pre, &ascii(k), pick(&["", "\"", "\".b"])));
}
/// characters beyond ASCII, inside and outside quotes
pub fn parse_utf8() {
    let pre = pick(&["", "$", "$.", "$.a", "$[", "$[1", "$.\"", "$..\"a", "$.a(", "$.\"\\"]);
    let w = wide(choose(3) as usize + 2);
    let post = pick(&["", "\"", "]", "a\"[0]"]);
    accept(&cat(pre, &w, post));
}
/// indices around the largest one
pub fn parse_index() {
    let pre = pick(&["$[214748364", "$[last-214748364", "$[0 to 21474836", "$[000000000000", "$[1,2147483647,9", "$[18446744073709551"]);
    let k = choose(4) as usize;
    let d = ascii(k);
    for c in d.as_bytes() {
        assume(c.is_ascii_digit());
    }
    accept(&cat(pre, &d, "]"));
}
/// every one-byte edit of well-formed expressions
pub fn parse_edit() {
    let t = pick(&[
        "$ . a [ 0 , last - 1 to 2 ] .b",
        "$..\"b\" [*].c[1 to last].size()",
        " $ .*.. a[last,0]. type ( ) ",
        "$.\"to\\n\".\"a b\"..last.count()",
    ]);
    let p = choose(t.len() as u32) as usize;
    let c = ascii(1);
    let (a, b) = t.split_at(p);
    let x = match choose(3) {
        0 => cat(a, &c, b),
        1 => cat(a, &c, &b[1..]),
        _ => cat(a, "", &b[1..]),
    };
    accept(&x);
}

// ---------------------------------------------------------------- P16

fn arr_of(k: usize) -> J {
    Arr((0..k).map(|i| n(10 + i as i64)).collect())
}
fn digit() -> String {
    let d = ascii(1);
    assume(d.as_bytes()[0].is_ascii_digit());
    d
}
fn index() -> String {
    match choose(2) {
        0 => digit(),
        _ => cat("last-", &digit(), ""),
    }
}
fn subscript() -> String {
    match choose(3) {
        0 => index(),
        1 => cat(&index(), " to ", &index()),
        _ => pick(&["last", "0 to last", "last to 1", "last to last", "last - 1 to last", "2147483647", "last-2147483647", "0 to 2147483647", "last-2147483647 to 2147483647", "2147483646 to 2147483647", "last-9 to last - 2147483647"]).to_string(),
    }
}
fn any_shape() -> J {
    match choose(9) {
        0 => Null,
        1 => Bool(true),
        2 => n(3),
        3 => s("x"),
        4 => o([("k", n(1))]),
        c => arr_of(c as usize - 5),
    }
}
/// one subscript on any array of up to 4 elements or non-array
pub fn sub_one() {
    let j = any_shape();
    select(&cat("$[", &subscript(), "]"), &j);
}
/// lists of subscripts
pub fn sub_list() {
    let j = pick(&[0usize, 1, 2, 3, 9]);
    let j = if j == 9 { s("x") } else { arr_of(j) };
    let mut t = index();
    for _ in 0..choose(2) + 1 {
        let x = match choose(4) {
            0 => index(),
            1 => "last".to_string(),
            2 => cat(&index(), " to 1", ""),
            _ => "0 to last".to_string(),
        };
        t = cat(&t, ", ", &x);
    }
    select(&cat("$[", &t, "]"), &j);
}
/// arrays and scalars inside an array, subscripts in two steps, and a key behind
pub fn sub_nested() {
    let j = Arr(vec![
        arr_of(2),
        s("x"),
        Arr(vec![]),
        o([("k", n(1)), ("l", arr_of(2))]),
        Null,
    ]);
    let t = match choose(4) {
        0 => cat(&cat("$[", &index(), "]["), &index(), "]"),
        1 => cat("$[*][", &subscript(), "]"),
        2 => cat(&cat("$[", &index(), " to last][1,"), &index(), "]"),
        _ => cat("$[", &subscript(), "].l[last]"),
    };
    select(&t, &j);
}
/// longer arrays and two-digit indices
pub fn sub_long() {
    let k = pick(&[9usize, 10, 11, 12]);
    let j = arr_of(k);
    let d = cat(&digit(), &digit(), "");
    let t = match choose(5) {
        0 => d,
        1 => cat("last -", &d, ""),
        2 => cat(&d, " to 5", ""),
        3 => cat("last-", &d, " to last - 3"),
        _ => cat("3,", &d, ""),
    };
    select(&cat("$[", &t, "]"), &j);
}

// ---------------------------------------------------------------- P17

/// every document of the given depth and fan-out, leaves and one-byte keys symbolic
fn shape(depth: usize, fan: u32) -> J {
    if depth == 0 {
        return Str(ascii(1));
    }
    match choose(3) {
        0 => Str(ascii(1)),
        1 => Arr((0..choose(fan + 1)).map(|_| shape(depth - 1, fan)).collect()),
        _ => {
            let k = choose(fan + 1) as usize;
            let mut e: Vec<(String, J)> = vec![];
            for _ in 0..k {
                let x = ascii(1);
                for y in &e {
                    assume(y.0 != x);
                }
                e.push((x, shape(depth - 1, fan)));
            }
            Obj(e)
        }
    }
}
/// one step, names and positions symbolic
fn step() -> String {
    match choose(6) {
        0 => ".*".into(),
        1 => "[*]".into(),
        2 => cat("[", &digit(), "]"),
        3 => cat("[last-", &digit(), "]"),
        k => {
            let x = ascii(1);
            let c = x.as_bytes()[0];
            assume((c != b'"') & (c != b'\\'));
            cat(if k == 4 { ".\"" } else { "..\"" }, &x, "\"")
        }
    }
}
fn steps(k: usize) -> String {
    let mut t = String::from("$");
    for _ in 0..k {
        t = cat(&t, &step(), "");
    }
    t
}
/// up to two steps on every document of depth 2
pub fn steps_shape() {
    let t = steps(choose(q(3, 4) as u32) as usize);
    select(&t, &shape(2, 2));
}
/// two (three) steps on every chain-like document of depth 3 (4)
pub fn steps_chain() {
    let t = steps(q(3, 3));
    select(&t, &shape(q(4, 5), 1));
}
/// keys with symbolic bytes in the document and in the expression
pub fn steps_keys() {
    let keys = distinct_keys(3, 1);
    let mut it = keys.into_iter();
    let mut k = || it.next().unwrap();
    let x = ascii_upto(1);
    for c in x.as_bytes() {
        assume(*c != b'"' && *c != b'\\');
    }
    let j = match choose(3) {
        0 => Obj(vec![(k(), n(1)), (k(), Arr(vec![n(2)])), (k(), s("x"))]),
        1 => Arr(vec![Obj(vec![(k(), n(1)), (k(), n(2))]), Obj(vec![(k(), Arr(vec![]))])]),
        _ => Obj(vec![(k(), Obj(vec![(k(), n(1)), (k(), Arr(vec![o([("q", n(2))])]))]))]),
    };
    select(&cat(pick(&["$.\"", "$..\"", "$[*].\""]), &x, pick(&["\"", "\".*"])), &j);
}
/// keys of several bytes, also where one is a prefix or has the bytes of another
pub fn steps_names() {
    let x = ascii(2);
    for c in x.as_bytes() {
        assume(c.is_ascii_alphanumeric());
    }
    assume(x.as_bytes()[0].is_ascii_alphabetic());
    let j = o([
        ("b", n(1)),
        ("ba", o([("ab", n(2)), ("a", n(3))])),
        ("ab", Arr(vec![o([("ba", n(4))]), o([("to", n(5)), ("aa", n(6))])])),
        ("", n(7)),
        ("aba", n(8)),
    ]);
    select(&cat(pick(&["$.", "$..", "$.*."]), &x, pick(&["", ".*"])), &j);
}
/// quoted names beyond ASCII and with escapes taken literally
pub fn steps_quoted() {
    let w = wide(choose(3) as usize + 2);
    let v = wide(choose(3) as usize + 2);
    let j = Obj(vec![(w, n(1)), ("\\t".into(), n(2)), ("a b".into(), o([("\\\"", n(3))]))]);
    let t = match choose(5) {
        0 => cat("$.\"", &v, "\""),
        1 => cat("$..\"", &v, "\""),
        2 => "$.\"\\t\"".into(),
        3 => "$.\"a b\".\"\\\"\"".into(),
        _ => "$..\"\\\"\"".into(),
    };
    select(&t, &j);
}

/// longer expressions over richer documents
fn rich_expr() -> String {
    cat("$", pick(&["", ".*", "[*]", "..a", "..bb", "[0].*", ".a[*]", ".a.bb", "[1 to 2]", "..\"\"", ".\"\u{e9}\""]), pick(&["", ".*", "[*]", ".a", "..\"\u{e9}\"", "[last]", "[0,1].*", "..x", "..yy[0]", ".bb.x"]))
}
pub fn steps_rich() {
    select(&rich_expr(), &rich_of(Str(ascii(1))));
}

// ---------------------------------------------------------------- P18

fn exists(t: &str, j: &J) {
    let e: PathExpression = match t.parse() {
        Ok(e) => e,
        Err(_) => panic!("rejected"),
    };
    let y = build(j);
    let got = e.exists(&y);
    if t.ends_with(')') {
        assert!(got.is_err());
        cover(2);
        return;
    }
    let got = got.unwrap();
    let some = match e.query(&y, true, None, None).unwrap() {
        QueriedValue::None => false,
        QueriedValue::Values(v) => {
            assert!(!v.is_empty());
            true
        }
        _ => panic!("unexpected form"),
    };
    assert!(got == some);
    out(got as u64);
    cover(got as u32);
}
pub fn exists_shape() {
    let t = steps(choose(q(3, 4) as u32) as usize);
    exists(&t, &shape(2, 2));
}
pub fn exists_chain() {
    let t = steps(q(3, 3));
    exists(&t, &shape(q(4, 5), 1));
}
pub fn exists_sub() {
    let t = match choose(3) {
        0 => cat("$[", &subscript(), "]"),
        1 => cat(&cat("$[", &index(), ","), &index(), "]"),
        _ => cat(&cat("$[", &index(), ","), &index(), " to 1].k"),
    };
    let j = match choose(3) {
        0 => any_shape(),
        1 => Arr(vec![o([("k", n(1))]), n(2), o([("j", n(3))])]),
        _ => Arr(vec![Null, o([("k", n(1))])]),
    };
    exists(&t, &j);
}
pub fn exists_keys() {
    let keys = distinct_keys(2, 1);
    let mut it = keys.into_iter();
    let mut k = || it.next().unwrap();
    let x = ascii_upto(1);
    for c in x.as_bytes() {
        assume(*c != b'"' && *c != b'\\');
    }
    let j = match choose(3) {
        0 => Obj(vec![(k(), n(1)), (k(), o([("q", Null)]))]),
        1 => Arr(vec![Obj(vec![(k(), n(1))]), Obj(vec![(k(), Arr(vec![]))])]),
        _ => Obj(vec![(k(), Obj(vec![(k(), n(1))]))]),
    };
    exists(&cat(pick(&["$.\"", "$..\"", "$[*].\""]), &x, pick(&["\"", "\".*", "\".q"])), &j);
}
pub fn exists_method() {
    let t = cat(pick(&["$", "$.a", "$..a", "$[5]", "$.*"]), pick(&[".count()", ".size()", ".type()"]), "");
    exists(&t, &shape(1, 2));
}

pub fn exists_rich() {
    exists(&rich_expr(), &rich_of(Bool(true)));
}
/// elements that match the rest of the expression and elements that do not, in every order
pub fn exists_after() {
    let k = choose(q(4, 5) as u32) as usize;
    let j = Arr((0..k).map(|i| match choose(3) {
        0 => n(i as i64),
        1 => o([("k", Str(ascii(1))), ("a", Null)]),
        _ => Arr(vec![o([("a", n(2))])]),
    }).collect());
    let t = cat("$", pick(&["[*]", "[0 to last]", "[1 to 2]", "[last to 1]", "[0,2]", "[last,0 to 1]", "[1]", "[0 to 1][0]", ".*", "[last-1 to last]"]), pick(&[".k", ".a", "..a", "[0].a", "[0,1].k", ".*", ".k.a", "[last]"]));
    exists(&t, &j);
}
/// the same for members
pub fn exists_members() {
    let j = Obj((0..choose(4) as usize).map(|i| (["b", "aa", "c"][i].to_string(), match choose(3) {
        0 => n(i as i64),
        1 => o([("k", Str(ascii(1))), ("a", o([("b", n(1))]))]),
        _ => Arr(vec![n(1), o([("a", n(2))])]),
    })).collect());
    let t = cat("$", pick(&[".*", "[*].*", "..b", ".aa", "..\"a\"", "[0].*", "..k"]), pick(&["", ".k", ".a", "..b", "[1].a", "[1]", ".*", ".a.b"]));
    exists(&t, &j);
}

// ---------------------------------------------------------------- P19

fn value_of(c: u32) -> J {
    match c {
        0 => Null,
        1 => Bool(sym_bool()),
        2 => Num(small_num()),
        3 => Str(ascii(1)),
        4 => Arr(vec![Num(small_num()), s("z")]),
        5 => Arr(vec![]),
        6 => o([("m", Bool(sym_bool())), ("n", Arr(vec![Null]))]),
        _ => Num(Number::from_parts(12345, 3, true).unwrap()),
    }
}
/// what the query of `t` on `j` delivers in every form
fn forms(t: &str, j: &J) {
    forms_with(t, j, any_bool)
}
fn forms_with(t: &str, j: &J, mut minor: impl FnMut() -> bool) {
    let st = grammar(t.as_bytes()).unwrap();
    let e: PathExpression = match t.parse() {
        Ok(e) => e,
        Err(_) => panic!("rejected"),
    };
    let y = build(j);
    let want = answer(j, &st);
    let wrapper = any_bool();
    let stale = build(&Arr(vec![s("stale"), Null]));
    let mut qb: Vec<Value> = vec![];
    let with_q = any_bool();
    if minor() {
        let a = stale.array().unwrap();
        for v in a.iter().unwrap() {
            qb.push(v.unwrap());
        }
    }
    let mut rb: Vec<u8> = vec![];
    let with_r = any_bool();
    if minor() {
        rb.extend_from_slice(&any::<3>());
    }
    let pretty = any_bool();
    let mut text = String::new();
    let r = e.query(&y, wrapper, if with_q { Some(&mut qb) } else { None }, if with_r { Some(&mut rb) } else { None });
    if !wrapper {
        match r {
            Err(_) => {
                assert!(has_method(&st) || want.len() > 1);
                cover(0);
            }
            Ok(QueriedValue::None) => {
                assert!(!has_method(&st) && want.is_empty());
                cover(1);
            }
            Ok(QueriedValue::Value(v)) => {
                assert!(!has_method(&st) && want.len() == 1 && same(&v, &want[0]));
                QueriedValue::Value(v).format_to(pretty, &mut text).unwrap();
                let b = read_json(text.as_bytes(), pretty);
                assert!(b.is_some() && j_eq(&b.unwrap(), &want[0]));
                cover(2);
            }
            _ => panic!("unexpected form"),
        }
        out_bytes(text.as_bytes());
        return;
    }
    let r = r.unwrap();
    r.format_to(pretty, &mut text).unwrap();
    let is_none = matches!(r, QueriedValue::None);
    match r {
        QueriedValue::None => assert!(want.is_empty()),
        QueriedValue::Value(_) => panic!("unexpected form"),
        QueriedValue::Values(v) => {
            assert!(!with_q && !with_r && same_list(&v, &want));
            cover(3);
        }
        QueriedValue::ValuesRef(v) => {
            assert!(with_q && !with_r && same_list(v, &want));
            assert!(same_list(&qb, &want));
            cover(4);
        }
        QueriedValue::Yason(d) => {
            assert!(with_r);
            let list = Arr(want.clone());
            assert!(is_doc(d, &list));
            let len = d.as_bytes().len();
            let at = d.as_bytes().as_ptr();
            assert!(rb.len() == len && rb.as_ptr() == at);
            cover(5);
        }
    }
    assert!(is_none == want.is_empty());
    if is_none {
        assert!(text.is_empty());
        cover(6);
    } else {
        let b = read_json(text.as_bytes(), pretty);
        assert!(b.is_some() && j_eq(&b.unwrap(), &Arr(want)));
    }
    out_bytes(text.as_bytes());
}
/// no, one, two values of every type
pub fn forms_two() {
    let (a, b) = (choose(8), choose(2) * 2 + 2);
    let j = match choose(3) {
        0 => Arr(vec![value_of(a), value_of(b)]),
        1 => Arr(vec![value_of(b), value_of(a)]),
        _ => o([("x", value_of(a)), ("y", value_of(b))]),
    };
    let t = match (choose(6), &j) {
        (0, _) => "$",
        (1, Arr(_)) => "$[*]",
        (2, Arr(_)) => "$[0]",
        (3, Arr(_)) => "$[last, 0]",
        (4, _) => "$.y",
        (5, _) => "$.none",
        (_, _) => "$.*",
    };
    forms(t, &j);
}
pub fn forms_method() {
    let j = Arr(vec![value_of(choose(8)), value_of(4)]);
    let t = cat(pick(&["$", "$[0]", "$[*]", "$.q"]), pick(&[".count()", ".size()", ".type()"]), "");
    forms(&t, &j);
}
/// containers and many values as results
pub fn forms_rich() {
    let t = pick(&["$", "$.*", "$[*]", "$.a", "$[1]", "$.*.*", "$[*][*]", "$..bb", "$.*.bb"]);
    forms_with(t, &rich_of(Bool(sym_bool())), || true);
}
/// the same buffers for two queries in a row
pub fn forms_reuse() {
    let j = o([("a", Arr(vec![value_of(choose(8)), n(1)])), ("b", s("t"))]);
    let y = build(&j);
    let ts = ["$.a[*]", "$.b", "$.c", "$.*", "$.a.size()", "$"];
    let (t, u) = (pick(&ts), pick(&ts));
    let (p, r): (PathExpression, PathExpression) = match (t.parse(), u.parse()) {
        (Ok(a), Ok(b)) => (a, b),
        _ => panic!("rejected"),
    };
    let (ws, wt) = (answer(&j, &grammar(t.as_bytes()).unwrap()), answer(&j, &grammar(u.as_bytes()).unwrap()));
    let mut qb = vec![];
    let mut rb = vec![];
    let first_r = any_bool();
    let second_r = any_bool();
    {
        let got = p.query(&y, true, Some(&mut qb), if first_r { Some(&mut rb) } else { None }).unwrap();
        match got {
            QueriedValue::None => assert!(ws.is_empty()),
            QueriedValue::ValuesRef(v) => assert!(!first_r && same_list(v, &ws)),
            QueriedValue::Yason(d) => assert!(first_r && is_doc(d, &Arr(ws.clone()))),
            _ => panic!("unexpected form"),
        }
    }
    {
        let got = r.query(&y, true, Some(&mut qb), if second_r { Some(&mut rb) } else { None }).unwrap();
        match got {
            QueriedValue::None => assert!(wt.is_empty()),
            QueriedValue::ValuesRef(v) => assert!(!second_r && same_list(v, &wt)),
            QueriedValue::Yason(d) => assert!(second_r && is_doc(d, &Arr(wt.clone()))),
            _ => panic!("unexpected form"),
        }
    }
    out(ws.len() as u64 * 16 + wt.len() as u64);
    cover(0);
}

// ---------------------------------------------------------------- P20

fn method() -> &'static str {
    pick(&[".count()", ".size()", ".type()"])
}
fn ask(t: &str, j: &J) {
    let e: PathExpression = match t.parse() {
        Ok(e) => e,
        Err(_) => panic!("rejected"),
    };
    assert!(e.query(&build(j), false, None, None).is_err());
    select(t, j);
}
/// each method on every value type, and on every small document through a step
pub fn method_type() {
    let j = value_of(choose(8));
    let j = match choose(3) {
        0 => j,
        1 => Arr(vec![n(1), j]),
        _ => o([("k", j)]),
    };
    let t = cat(pick(&["$", "$[1]", "$[last]", "$.k", "$[*]", "$.*"]), method(), "");
    ask(&t, &j);
}
pub fn method_shape() {
    let t = steps(choose(q(3, 4) as u32) as usize);
    ask(&cat(&t, method(), ""), &shape(2, 2));
}
pub fn method_rich() {
    ask(&cat(&rich_expr(), method(), ""), &rich_of(Bool(sym_bool())));
}
/// symbolic subscripts before the method
pub fn method_sub() {
    let j = Arr(vec![arr_of(2), s("x"), Arr(vec![]), o([("k", n(1))])]);
    let t = cat("$[", &subscript(), "]");
    ask(&cat(&t, method(), ""), &j);
}
/// lengths with one and two byte representations
pub fn method_len() {
    let k = pick(&[0usize, 1, 99, 100, 127, 128, 255, 256, 257, 300]);
    let v: Vec<J> = (0..k).map(|_| Null).collect();
    let j = o([("v", Arr(v))]);
    ask(pick(&["$.v.size()", "$.v.count()", "$.v[*].count()", "$.v[*].type()", "$.v[*].size()"]), &j);
}

// ---------------------------------------------------------------- larger instances

/// long names, long lists of subscripts, many steps, long whitespace
pub fn parse_long() {
    let c = ascii(1);
    let t = match choose(6) {
        0 => cat("$.", &filled_at('n', &c), ""),
        1 => cat("$..", &filled_at('n', &c), "[0]"),
        2 => cat("$.\"", &filled_at('q', &c), "\".b"),
        3 => {
            let m = pick(&[3usize, 4, 5, 8, 9, 16, 17, 33]);
            let at = pick(&[0, 1, m / 2, m - 1]);
            let mut t = String::from("$.a[");
            for i in 0..m {
                if i > 0 {
                    t.push_str(if i % 3 == 0 { " , " } else { "," });
                }
                if i == at {
                    t.push_str(pick(&["", "1", "last", "0 to "]));
                    t.push_str(&c);
                } else {
                    t.push_str(["0", "last", "1 to 2", "last - 1 to last"][i % 4]);
                }
            }
            t.push(']');
            t
        }
        4 => {
            let m = pick(&[3usize, 4, 5, 8, 9, 16, 17, 40]);
            let at = pick(&[0, 1, m / 2, m - 1]);
            let mut t = String::from("$");
            for i in 0..m {
                t.push_str([".a", "..b", "[*]", ".*", "[0]"][i % 5]);
                if i == at {
                    t.push_str(&c);
                }
            }
            t
        }
        _ => {
            let w = pick(&[" ", "\t", "\n", "\r", "\u{c}"]).repeat(pick(&[1usize, 2, 7, 8, 9, 31, 64]));
            let mut v = ["$", ".", "a", "[", "1", "to", "last", "-", "1", ",", "0", "]"].join(&w);
            v.push_str(&w);
            let at = pick(&[1usize, 2, 3, 4, 6, 8]);
            let p = w.len() * at + at;
            v.insert_str(p, &c);
            v
        }
    };
    accept(&t);
}
fn filled_at(f: char, c: &str) -> String {
    let k = pick(LENS);
    filled(k, spot(k), f, c)
}
/// indices of three digits on arrays of a hundred and more
pub fn sub_big() {
    let k = pick(&[99usize, 100, 101, 127, 128, 129, 255, 256, 257]);
    let j = arr_of(k);
    // any number below 300; the solver lists the values
    let v = u16::from_le_bytes(any::<2>());
    assume(v < 300);
    let v = conc(v as u64);
    let d = if any_bool() { v.to_string() } else { cat("0", &v.to_string(), "") };
    let t = match choose(5) {
        0 => d,
        1 => cat("last-", &d, ""),
        2 => cat(&d, " to 120", ""),
        3 => cat("last - ", &d, " to last - 97"),
        _ => cat("last,", &d, ",0"),
    };
    select(&cat("$[", &t, "]"), &j);
}
/// subscripts of members of members
pub fn sub_among() {
    let row = |i: i64| match i % 3 {
        0 => Arr(vec![n(i), s("x"), Arr(vec![n(1), n(2)])]),
        1 => o([("k", arr_of(3))]),
        _ => s("leaf"),
    };
    let j = Arr((0..4).map(row).collect());
    let t = match choose(5) {
        0 => cat(&cat("$[", pick(&["0", "last", "1 to 3", "last - 1 to last", "5", "3,0"]), "][last]["), &index(), "]"),
        1 => cat("$[", &index(), pick(&[",1].k[1 to last]", " to last].k[0]", "].k"])),
        2 => cat("$[*].k[", &cat(&index(), pick(&["", " to 1", ", 0"]), ""), "]"),
        3 => cat("$..k[", &cat(pick(&["", "0 to ", "last, "]), &index(), ""), "]"),
        _ => cat("$[last to 0][0,", &index(), "]"),
    };
    select(&t, &j);
}
/// chains with a branch at every level; one key on the way is arbitrary
fn ladder() -> (J, usize) {
    let d = if tier() == 0 { pick(&[5usize, 8]) } else { pick(&[5usize, 6, 8, 12]) };
    let at = choose(d as u32) as usize;
    let mix = choose(3) as usize;
    let x = ascii(1);
    assume(x != "n" && x != "a");
    let mut j = Arr(vec![n(0), o([("k", n(1))])]);
    for i in 0..d {
        let key = if i == at { x.clone() } else { "k".to_string() };
        j = match (i + mix) % 3 {
            0 => Obj(vec![("n".into(), n(i as i64)), (key, j)]),
            1 => Arr(vec![j, o([("k", n(50 + i as i64))])]),
            _ => Obj(vec![(key, Arr(vec![j])), ("a".into(), Null)]),
        };
    }
    (j, d)
}
fn ladder_expr() -> String {
    cat("$", pick(&["", "..k", ".*", "[0]", "..k..k"]), pick(&["", "..k", "..n", ".*.*", "[*].k", "[0]..k[0]", "..k.k", "..a", "[last].k", "..n..k"]))
}
pub fn steps_deep() {
    select(&ladder_expr(), &ladder().0);
}
pub fn exists_deep() {
    exists(&ladder_expr(), &ladder().0);
}
/// many members and elements, one of them of interest
fn crowd() -> J {
    let k = pick(&[5usize, 9, 16, 17, 33, 100, 256, 300]);
    let at = pick(&[0, 1, k / 2, k - 1]);
    let x = match choose(4) {
        0 => o([("k", Str(ascii(1)))]),
        1 => Arr(vec![o([("k", Null)]), n(2)]),
        2 => Arr(vec![]),
        _ => Str(ascii(1)),
    };
    let item = |i: usize| if i == at { x.clone() } else { n(i as i64) };
    if any_bool() {
        Arr((0..k).map(item).collect())
    } else {
        let key = ascii(1);
        assume(key.as_bytes()[0] >= b'?');
        Obj((0..k).map(|i| (if i == at { key.clone() } else { i.to_string() }, item(i))).collect())
    }
}
fn crowd_expr() -> &'static str {
    pick(&["$.*", "$[*]", "$..k", "$.*.k", "$[*].k", "$[3 to 90]", "$[last to 3].k", "$.k", "$.k.k", "$[0, last]", "$[*][0]", "$.*[1]", "$..k.k"])
}
pub fn steps_crowd() {
    select(crowd_expr(), &crowd());
}
pub fn exists_crowd() {
    exists(crowd_expr(), &crowd());
}
pub fn method_crowd() {
    ask(&cat(crowd_expr(), method(), ""), &crowd());
}
/// many results in every form
pub fn forms_many() {
    let k = pick(&[3usize, 9, 128, 256, 300]);
    let at = pick(&[0, k - 1]);
    let x = value_of(if tier() == 0 { pick(&[1, 6]) } else { choose(8) });
    // all kinds of values
    let other = |i: usize| match i % 7 {
        0 => Bool(i % 2 == 0),
        2 => Null,
        3 => s("ab"),
        4 => Arr(vec![n(i as i64), Bool(false)]),
        5 => Obj(vec![("k".into(), s("v"))]),
        _ => n(i as i64),
    };
    let j = Arr((0..k).map(|i| if i == at { x.clone() } else { other(i) }).collect());
    forms_with(pick(&["$[*]", "$[1 to last]", "$[last, 0 to last]"]), &j, || true);
}
/// results of more than 2^16 bytes, and results that are at the nesting limit
pub fn forms_far() {
    let x = value_of(choose(8));
    let j = match choose(3) {
        0 => Arr(vec![Str(zeros(65600)), x, Arr(vec![Str(zeros(70000)), n(1)]), Bool(sym_bool())]),
        1 => Arr(vec![x, Obj(vec![("z".into(), Str(zeros(66000))), ("a".into(), n(1))]), n(3)]),
        _ => {
            let mut d = x;
            // containers go as deep as 100
            for _ in 0..97 {
                d = Arr(vec![d]);
            }
            Arr(vec![d, n(1)])
        }
    };
    let st = grammar(b"$[*]").unwrap();
    let e: PathExpression = "$[*]".parse().unwrap();
    let y = build(&j);
    let want = answer(&j, &st);
    let mut qb = vec![];
    let mut rb = any::<2>().to_vec();
    match e.query(&y, true, if any_bool() { Some(&mut qb) } else { None }, Some(&mut rb)).unwrap() {
        QueriedValue::Yason(d) => assert!(is_doc(d, &Arr(want))),
        _ => panic!("unexpected form"),
    }
    cover(0);
}
/// arrays whose lengths take three bytes, or two that are full
fn vast() -> (usize, YasonBuf, u8) {
    let k = if tier() == 0 { pick(&[16385usize, 65535]) } else { pick(&[16383usize, 16384, 16385, 32767, 32768, 32769, 65535]) };
    vast_of(k)
}
fn vast_of(k: usize) -> (usize, YasonBuf, u8) {
    let x = any_u8();
    let mut b = ArrayBuilder::try_new(k as u16).unwrap();
    for i in 0..k {
        if i == k - 1 {
            b.push_number(Number::from(x)).unwrap();
        } else if vast_marked(i) {
            b.push_number(Number::from(i)).unwrap();
        } else if i == 70 {
            let mut c = b.push_object(1, true).unwrap();
            c.push_null("k").unwrap();
            c.finish().unwrap();
        } else {
            b.push_bool(i % 3 == 0).unwrap();
        }
    }
    (k, b.finish().unwrap(), x)
}
fn vast_marked(i: usize) -> bool {
    matches!(i % 64, 0 | 1 | 62 | 63)
}
fn vast_is(k: usize, x: u8, i: usize, v: &Value) -> bool {
    match v {
        Value::Number(g) => g.into_parts().0 == if i == k - 1 { x as u128 } else { i as u128 } && (i == k - 1 || vast_marked(i)),
        Value::Object(_) => i == 70,
        Value::Bool(g) => i != k - 1 && i != 70 && !vast_marked(i) && *g == (i % 3 == 0),
        _ => false,
    }
}
fn vast_sub(k: usize) -> String {
    const IX: &[u64] = &[0, 1, 127, 128, 255, 256, 16383, 16384, 32767, 32768, 65534, 65535, 65536, 65537, 16777216, 2147483646, 2147483647];
    const FEW: &[u64] = &[0, 128, 16384, 65534, 65535, 65536, 16777216, 2147483647];
    let i = if tier() == 0 { pick(FEW) } else { pick(IX) }.to_string();
    match choose(6) {
        0 => i,
        1 => cat("last-", &i, ""),
        2 => cat(&i, " to last", ""),
        3 => cat(&i, " to ", &(k - 2).to_string()),
        4 => cat("last - ", &i, " to 3"),
        _ => cat("last-1,", &i, ", last to 65535"),
    }
}
pub fn sub_huge() {
    let (k, y, x) = vast();
    let t = cat("$[", &vast_sub(k), "]");
    let st = grammar(t.as_bytes()).unwrap();
    let e: PathExpression = match t.parse() {
        Ok(e) => e,
        Err(_) => panic!("rejected"),
    };
    let mut want = vec![];
    if let St::Subs(l) = &st[0] {
        for p in l {
            want.extend(positions(p, k));
        }
    }
    match e.query(&y, true, None, None) {
        Ok(QueriedValue::None) => assert!(want.is_empty()),
        Ok(QueriedValue::Values(v)) => {
            assert!(v.len() == want.len() && !v.is_empty());
            for (v, i) in v.iter().zip(&want) {
                assert!(vast_is(k, x, *i, v));
            }
        }
        _ => panic!("unexpected form"),
    }
    assert!(e.exists(&y).unwrap() != want.is_empty());
    cover(if want.is_empty() { 0 } else if want.len() == 1 { 1 } else { 2 });
}
pub fn exists_huge() {
    let (k, y, x) = if tier() == 0 { vast_of(16385) } else { vast() };
    let t = cat("$[", &vast_sub(k), if tier() == 0 { "].k" } else { pick(&["].k", "][1]", "][0]"]) });
    let e: PathExpression = match t.parse() {
        Ok(e) => e,
        Err(_) => panic!("rejected"),
    };
    let some = !matches!(e.query(&y, true, None, None).unwrap(), QueriedValue::None);
    assert!(e.exists(&y).unwrap() == some);
    out(x as u64);
    cover(some as u32);
}
/// many members or elements, and one arbitrary member or element among them
pub fn steps_huge() {
    let k = if tier() == 0 { 16385 } else { pick(&[16385usize, 32769, 65535]) };
    let at = pick(&[0, k / 2, k - 1]);
    let x = any_u8();
    let name = |i: usize| format!("{i:05}");
    if any_bool() {
        let mut b = ObjectBuilder::try_new(k as u16, true).unwrap();
        for i in 0..k {
            if i == at {
                let mut c = b.push_object(&name(i), 1, true).unwrap();
                c.push_number("k", Number::from(x)).unwrap();
                c.finish().unwrap();
            } else {
                b.push_number(&name(i), Number::from(i)).unwrap();
            }
        }
        let y = b.finish().unwrap();
        let ask = |t: &str| {
            let e: PathExpression = t.parse().unwrap();
            let n = match e.query(&y, true, None, None).unwrap() {
                QueriedValue::None => None,
                QueriedValue::Values(mut v) => Some((v.len(), v.swap_remove(0))),
                _ => panic!("unexpected form"),
            };
            assert!(e.exists(&y).unwrap() == n.is_some());
            n
        };
        match choose(5) {
            0 => {
                let i = pick(&[0usize, 1, 255, 256, 16383, 16384, k / 2, k - 2, k - 1, k]);
                let t = cat("$.\"", &name(i), "\"");
                match ask(&t) {
                    None => assert!(i == k),
                    Some((n, v)) => {
                        assert!(n == 1 && i < k);
                        match v {
                            Value::Number(g) => assert!(i != at && g.into_parts().0 == i as u128),
                            Value::Object(g) => assert!(i == at && g.len().unwrap() == 1),
                            _ => panic!("another type"),
                        }
                    }
                }
            }
            1 => {
                let (n, v) = ask("$.*").unwrap();
                assert!(n == k && matches!(v, Value::Object(_)) == (at == 0));
            }
            c => {
                let (n, v) = ask(["$..k", "$.*.k", "$..\"k\""][c as usize - 2]).unwrap();
                assert!(n == 1 && matches!(v, Value::Number(g) if g.into_parts().0 == x as u128));
            }
        }
    } else {
        let mut b = ArrayBuilder::try_new(k as u16).unwrap();
        for i in 0..k {
            if i == at {
                let mut c = b.push_object(1, true).unwrap();
                c.push_number("k", Number::from(x)).unwrap();
                c.finish().unwrap();
            } else {
                b.push_null().unwrap();
            }
        }
        let y = b.finish().unwrap();
        let t = pick(&["$.k", "$[*].k", "$..k", "$[0 to last].k", "$.*"]);
        let e: PathExpression = t.parse().unwrap();
        match e.query(&y, true, None, None).unwrap() {
            QueriedValue::Values(v) => assert!(v.len() == 1 && matches!(&v[0], Value::Number(g) if g.into_parts().0 == x as u128)),
            _ => panic!("unexpected form"),
        }
        assert!(e.exists(&y).unwrap());
    }
    cover(0);
}
/// as many results as an array can hold, and more
pub fn forms_over() {
    let k = if tier() == 0 { 32768 } else { pick(&[32768usize, 35000]) };
    let x = any_u8();
    let mut b = ArrayBuilder::try_new(k as u16).unwrap();
    for i in 0..k {
        if i == k - 1 {
            b.push_number(Number::from(x)).unwrap();
        } else {
            b.push_bool(i % 3 == 0).unwrap();
        }
    }
    let y = b.finish().unwrap();
    let (t, n) = match choose(q(2, 3) as u32) {
        0 => ("$[0 to last, 1 to last]", 2 * k - 1),
        1 => ("$[0 to last, last to 0]", 2 * k),
        _ => ("$[last, 0 to last, 2 to last]", 2 * k - 1),
    };
    let e: PathExpression = t.parse().unwrap();
    let mut qb = vec![];
    let with_q = any_bool();
    let q = if with_q { Some(&mut qb) } else { None };
    if any_bool() {
        let mut rb = vec![x];
        match e.query(&y, true, q, Some(&mut rb)) {
            Ok(QueriedValue::Yason(d)) => {
                assert!(n < 65536);
                let a = d.array().unwrap();
                assert!(a.len().unwrap() == n);
                assert!(matches!(a.get(n - 1).unwrap(), Value::Number(g) if g.into_parts().0 == x as u128));
                cover(0);
            }
            Ok(_) => panic!("unexpected form"),
            Err(e) => {
                assert!(n > 65535 && !e.to_string().is_empty());
                cover(1);
            }
        }
    } else {
        let all = |v: &[Value]| {
            assert!(v.len() == n);
            assert!(matches!(&v[n - 1], Value::Number(g) if g.into_parts().0 == x as u128));
        };
        match e.query(&y, true, q, None).unwrap() {
            QueriedValue::Values(v) => all(&v),
            QueriedValue::ValuesRef(v) => all(v),
            _ => panic!("unexpected form"),
        }
        cover(2);
    }
}
/// the largest array
pub fn method_big() {
    let k = pick(&[1000usize, 32767, 32768, 65535]);
    let mut b = ArrayBuilder::try_new(k as u16).unwrap();
    let x = sym_bool();
    for i in 0..k {
        b.push_bool(if i == 3 { x } else { i % 2 == 0 }).unwrap();
    }
    let y = b.finish().unwrap();
    // more values than an array can hold can still be counted
    let (t, want) = match choose(6) {
        0 => ("$.size()", k),
        1 => ("$[*].count()", k),
        2 => ("$[1 to last].count()", k - 1),
        3 => ("$[0 to last, 0].count()", k + 1),
        4 => ("$[0 to last, last to 0].count()", 2 * k),
        _ => ("$.count()", 1),
    };
    let e: PathExpression = t.parse().unwrap();
    match e.query(&y, true, None, None).unwrap() {
        QueriedValue::Values(v) => {
            assert!(v.len() == 1);
            assert!(matches!(&v[0], Value::Number(g) if num_same(g, &Number::from(want))));
        }
        _ => panic!("unexpected form"),
    }
    cover(0);
}

/// very long lists of subscripts with one arbitrary character after them
pub fn parse_many() {
    let unit: &str = pick(&["0,", "last-1 ,", "1 to 2,"]);
    let n = if tier() == 0 { 40000 } else { pick(&[40000usize, 100000]) };
    let c = ascii(1);
    let t = [if any_bool() { "$[0," } else { "$.a[*][9," }, &unit.repeat(n), &c, "]"].concat();
    let digit = c.as_bytes()[0].is_ascii_digit();
    match t.parse::<PathExpression>() {
        Ok(e) => {
            assert!(digit);
            let y = build(&J::Null);
            assert!(e.exists(&y).unwrap() == t.starts_with("$["));
            cover(0);
        }
        Err(_) => {
            assert!(!digit);
            cover(1);
        }
    }
}
/// any number of array steps on values that are not arrays
pub fn steps_many() {
    let unit: &str = pick(&["[0]", "[last]", "[*]", "[0 to 3]", "[7, last]"]);
    let n = if tier() == 0 { 20000 } else { pick(&[20000usize, 60000]) };
    let d = digit();
    let x = J::Bool(sym_bool());
    let (j, begin, end) = match choose(4) {
        0 => (x.clone(), "$", ""),
        1 => (J::Arr(vec![x.clone()]), "$", ""),
        2 => (J::Obj(vec![("a".into(), J::Obj(vec![("b".into(), x.clone())]))]), "$.a", ".b"),
        _ => (J::Obj(vec![("a".into(), J::Arr(vec![J::Arr(vec![]), J::Obj(vec![("b".into(), x.clone())])]))]), "$..a[1]", ".b"),
    };
    let t = [begin, &unit.repeat(n), "[", &d, "]", end].concat();
    let e: PathExpression = t.parse().unwrap();
    let y = build(&j);
    let hit = d == "0";
    assert!(e.exists(&y).unwrap() == hit);
    match e.query(&y, false, None, None).unwrap() {
        QueriedValue::None => {
            assert!(!hit);
            cover(0);
        }
        QueriedValue::Value(v) => {
            assert!(hit && same_list(&[v], &[x]));
            cover(1);
        }
        _ => panic!("unexpected form"),
    }
}
