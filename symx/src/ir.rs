//! Textual LLVM IR reader: only what rustc emits for the harness module.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Array(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vec(u64, Rc<Ty>),
    Other,
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float => 32,
            Ty::Double => 64,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::Float | Ty::Double)
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Array(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(1) => (n + 7) / 8,
                _ => n * t.size(),
            },
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                let mut al = 1;
                for f in fs.iter() {
                    let a = if *packed { 1 } else { f.align() };
                    al = al.max(a);
                    o = (o + a - 1) / a * a + f.size();
                }
                (o + al - 1) / al * al
            }
        }
    }
    pub fn store_bytes(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Array(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
        }
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for (k, f) in fs.iter().enumerate() {
                    let a = if *packed { 1 } else { f.align() };
                    o = (o + a - 1) / a * a;
                    if k == i {
                        return o;
                    }
                    o += f.size();
                }
                panic!("field index")
            }
            Ty::Array(_, t) | Ty::Vec(_, t) => i as u64 * t.size(),
            _ => panic!("field_offset of {:?}", self),
        }
    }
    pub fn field(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(fs, _) => fs[i].clone(),
            Ty::Array(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Struct(fs, _) => fs.len(),
            Ty::Array(n, _) | Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
}

/// A constant operand tree (symbols unresolved until link).
#[derive(Clone, Debug)]
pub enum K {
    Int(u128),
    Undef,
    Zero,
    Bytes(Rc<Vec<u8>>),
    Agg(Rc<Vec<(Ty, K)>>),
    Sym(String),
    Gep(Rc<(Ty, K, Vec<(Ty, K)>)>),
    Cast(Rc<(Ty, K, Ty)>),
    Bin(&'static str, Rc<(Ty, K, K)>),
    Splat(Rc<(Ty, K)>),
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    K(Ty, K),
    /// resolved constant
    V(V),
}

/// A runtime value: concrete bits, a symbolic term, or an aggregate.
#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    S(u32),
    A(Rc<Vec<V>>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum P {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum C {
    Trunc,
    Zext,
    Sext,
    Bit,
}

#[derive(Clone, Debug)]
pub enum I {
    Bin { d: u32, op: B, ty: Ty, a: Op, b: Op },
    Cmp { d: u32, p: P, ty: Ty, a: Op, b: Op },
    /// floating point: `name` is the IR operation, or the predicate of an fcmp
    Flt { d: u32, name: String, from: Ty, to: Ty, a: Op, b: Op },
    Cast { d: u32, k: C, from: Ty, to: Ty, a: Op },
    Gep { d: u32, base: Op, off: i64, terms: Vec<(Op, u32, i64)> },
    Load { d: u32, ty: Ty, p: Op },
    Store { ty: Ty, v: Op, p: Op },
    Alloca { d: u32, size: u64, n: Op, nty: Ty },
    Call { d: Option<u32>, ret: Ty, f: Callee, args: Vec<(Ty, Op)>, normal: Option<u32>, tgt: u32 },
    Extract { d: u32, a: Op, idx: Vec<u32> },
    Insert { d: u32, a: Op, v: Op, idx: Vec<u32>, ty: Ty },
    ExtractEl { d: u32, a: Op, i: Op },
    InsertEl { d: u32, a: Op, v: Op, i: Op, ty: Ty },
    Shuffle { d: u32, a: Op, b: Op, ty: Ty, mask: Vec<i64> },
    Select { d: u32, c: Op, cty: Ty, ty: Ty, a: Op, b: Op },
    Br { to: u32 },
    CondBr { c: Op, t: u32, f: u32 },
    Switch { ty: Ty, v: Op, def: u32, cases: Vec<(u128, u32)> },
    Ret { ty: Ty, v: Option<Op> },
    Unreachable,
    Copy { d: u32, a: Op, ty: Ty },
    Rmw { d: u32, op: String, ty: Ty, p: Op, v: Op },
    CmpXchg { d: u32, ty: Ty, p: Op, cmp: Op, new: Op },
    Nop,
    Bad(String),
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(String),
    Indirect(Op),
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(u32, Ty, Vec<(u32, Op)>)>,
    pub insts: Vec<I>,
    /// debug location of each instruction (0: none)
    pub dbg: Vec<u32>,
}
#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
}

#[derive(Debug)]
pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<K>,
    pub constant: bool,
    pub align: u64,
}

pub struct Module {
    pub src: String,
    pub funcs: HashMap<String, (usize, usize)>,
    pub globals: Vec<Global>,
    pub types: HashMap<String, Ty>,
    pub aliases: HashMap<String, String>,
}

#[derive(Clone, Debug, PartialEq)]
enum T {
    L(String),
    G(String),
    W(String),
    N(String),
    S(Vec<u8>),
    P(char),
    M,
    Eof,
}

struct Lx<'a> {
    s: &'a [u8],
    p: usize,
}
fn idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}
impl<'a> Lx<'a> {
    fn new(s: &'a str) -> Self {
        Lx { s: s.as_bytes(), p: 0 }
    }
    fn quoted(&mut self) -> Vec<u8> {
        // at opening quote
        self.p += 1;
        let mut o = vec![];
        while self.s[self.p] != b'"' {
            if self.s[self.p] == b'\\' {
                if self.s[self.p + 1] == b'\\' {
                    o.push(b'\\');
                    self.p += 2;
                } else {
                    let h = std::str::from_utf8(&self.s[self.p + 1..self.p + 3]).unwrap();
                    o.push(u8::from_str_radix(h, 16).unwrap());
                    self.p += 3;
                }
            } else {
                o.push(self.s[self.p]);
                self.p += 1;
            }
        }
        self.p += 1;
        o
    }
    fn ident(&mut self) -> String {
        if self.p < self.s.len() && self.s[self.p] == b'"' {
            return String::from_utf8_lossy(&self.quoted()).into_owned();
        }
        let b = self.p;
        while self.p < self.s.len() && idc(self.s[self.p]) {
            self.p += 1;
        }
        std::str::from_utf8(&self.s[b..self.p]).unwrap().to_string()
    }
    fn next(&mut self) -> T {
        while self.p < self.s.len() && (self.s[self.p] as char).is_whitespace() {
            self.p += 1;
        }
        if self.p >= self.s.len() {
            return T::Eof;
        }
        let c = self.s[self.p];
        match c {
            b';' => {
                while self.p < self.s.len() && self.s[self.p] != b'\n' {
                    self.p += 1;
                }
                self.next()
            }
            b'%' => {
                self.p += 1;
                T::L(self.ident())
            }
            b'@' => {
                self.p += 1;
                T::G(self.ident())
            }
            b'!' => {
                self.p += 1;
                if self.p < self.s.len() && (idc(self.s[self.p])) {
                    self.ident();
                } else if self.p < self.s.len() && self.s[self.p] == b'{' {
                    // inline metadata tuple
                    let mut d = 0;
                    while self.p < self.s.len() {
                        match self.s[self.p] {
                            b'{' => d += 1,
                            b'}' => {
                                d -= 1;
                                if d == 0 {
                                    self.p += 1;
                                    break;
                                }
                            }
                            _ => {}
                        }
                        self.p += 1;
                    }
                } else if self.p < self.s.len() && self.s[self.p] == b'"' {
                    self.quoted();
                }
                T::M
            }
            b'#' => {
                self.p += 1;
                self.ident();
                T::M
            }
            b'"' => T::S(self.quoted()),
            b'c' if self.p + 1 < self.s.len() && self.s[self.p + 1] == b'"' => {
                self.p += 1;
                T::S(self.quoted())
            }
            b'-' | b'+' | b'0'..=b'9' => {
                let b = self.p;
                self.p += 1;
                while self.p < self.s.len() && (idc(self.s[self.p]) || self.s[self.p] == b'+') {
                    self.p += 1;
                }
                T::N(std::str::from_utf8(&self.s[b..self.p]).unwrap().to_string())
            }
            _ if c.is_ascii_alphabetic() || c == b'_' => T::W(self.ident()),
            _ => {
                self.p += 1;
                T::P(c as char)
            }
        }
    }
}

fn lex(s: &str) -> Vec<T> {
    let mut l = Lx::new(s);
    let mut v = vec![];
    loop {
        let t = l.next();
        if t == T::Eof {
            break;
        }
        v.push(t);
    }
    v.push(T::Eof);
    v
}

struct Ps<'a> {
    t: Vec<T>,
    i: usize,
    types: &'a HashMap<String, Ty>,
}
impl<'a> Ps<'a> {
    fn new(s: &str, types: &'a HashMap<String, Ty>) -> Self {
        Ps { t: lex(s), i: 0, types }
    }
    fn peek(&self) -> &T {
        &self.t[self.i]
    }
    fn next(&mut self) -> T {
        let t = self.t[self.i].clone();
        if self.i + 1 < self.t.len() {
            self.i += 1;
        }
        t
    }
    fn isw(&self, w: &str) -> bool {
        matches!(self.peek(), T::W(x) if x == w)
    }
    fn isp(&self, c: char) -> bool {
        matches!(self.peek(), T::P(x) if *x == c)
    }
    fn eat(&mut self, c: char) -> bool {
        if self.isp(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.isw(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) {
        assert!(self.eat(c), "expected {:?} got {:?} in {:?}", c, self.peek(), &self.t[..]);
    }
    fn parens(&mut self) {
        // skip a balanced (...)
        let mut d = 0;
        loop {
            match self.next() {
                T::P('(') => d += 1,
                T::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                T::Eof => return,
                _ => {}
            }
        }
    }
    fn is_type(&self) -> bool {
        match self.peek() {
            T::W(w) => {
                matches!(w.as_str(), "void" | "ptr" | "float" | "double" | "label" | "metadata" | "token" | "half" | "fp128" | "x86_fp80")
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            T::P('{') | T::P('[') | T::P('<') => true,
            T::L(n) => self.types.contains_key(n),
            _ => false,
        }
    }
    fn ty(&mut self) -> Ty {
        let t = self.next();
        let base = match t {
            T::W(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.isw("addrspace") {
                        self.next();
                        self.parens();
                    }
                    Ty::Ptr
                }
                "float" => Ty::Float,
                "double" => Ty::Double,
                "label" | "metadata" | "token" | "half" | "fp128" | "x86_fp80" => Ty::Other,
                _ => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {:?} in {:?}", w, self.t))),
            },
            T::P('{') => {
                let mut f = vec![];
                while !self.eat('}') {
                    f.push(self.ty());
                    self.eat(',');
                }
                Ty::Struct(Rc::new(f), false)
            }
            T::P('[') => {
                let n = self.num() as u64;
                assert!(self.eatw("x"));
                let t = self.ty();
                self.expect(']');
                Ty::Array(n, Rc::new(t))
            }
            T::P('<') => {
                if self.eat('{') {
                    let mut f = vec![];
                    while !self.eat('}') {
                        f.push(self.ty());
                        self.eat(',');
                    }
                    self.expect('>');
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = self.num() as u64;
                    assert!(self.eatw("x"));
                    let t = self.ty();
                    self.expect('>');
                    Ty::Vec(n, Rc::new(t))
                }
            }
            T::L(n) => self.types[&n].clone(),
            t => panic!("type? {:?} in {:?}", t, self.t),
        };
        base
    }
    fn num(&mut self) -> i128 {
        match self.next() {
            T::N(n) => n.parse().unwrap_or_else(|_| panic!("num {}", n)),
            t => panic!("num? {:?} in {:?}", t, self.t),
        }
    }
    fn konst(&mut self, ty: &Ty) -> K {
        match self.next() {
            T::N(n) => match ty {
                Ty::Int(w) => {
                    if let Ok(v) = n.parse::<i128>() {
                        K::Int(mask(v as u128, *w))
                    } else if let Ok(v) = n.parse::<u128>() {
                        K::Int(mask(v, *w))
                    } else {
                        panic!("int const {}", n)
                    }
                }
                Ty::Double => {
                    if let Some(h) = n.strip_prefix("0x") {
                        K::Int(u64::from_str_radix(h, 16).unwrap() as u128)
                    } else {
                        K::Int(fconst(&n).to_bits() as u128)
                    }
                }
                Ty::Float => {
                    if let Some(h) = n.strip_prefix("0x") {
                        K::Int((f64::from_bits(u64::from_str_radix(h, 16).unwrap()) as f32).to_bits() as u128)
                    } else {
                        K::Int((fconst(&n) as f32).to_bits() as u128)
                    }
                }
                _ => panic!("num const for {:?}", ty),
            },
            T::S(b) => K::Bytes(Rc::new(b)),
            T::G(g) => K::Sym(g),
            T::W(w) => match w.as_str() {
                "true" => K::Int(1),
                "false" => K::Int(0),
                "null" => K::Int(0),
                "undef" | "poison" => K::Undef,
                "zeroinitializer" => K::Zero,
                "splat" => {
                    self.expect('(');
                    let t = self.ty();
                    let k = self.konst(&t);
                    self.expect(')');
                    K::Splat(Rc::new((t, k)))
                }
                "getelementptr" => {
                    while !self.isp('(') {
                        let t = self.next();
                        if matches!(&t, T::W(w) if w == "inrange") {
                            self.parens();
                        }
                    }
                    self.expect('(');
                    let ety = self.ty();
                    self.expect(',');
                    let pt = self.ty();
                    let b = self.konst(&pt);
                    let mut ix = vec![];
                    while self.eat(',') {
                        let t = self.ty();
                        let k = self.konst(&t);
                        ix.push((t, k));
                    }
                    self.expect(')');
                    K::Gep(Rc::new((ety, b, ix)))
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" | "ptrtoaddr" => {
                    while !self.isp('(') {
                        self.next();
                    }
                    self.expect('(');
                    let t = self.ty();
                    let k = self.konst(&t);
                    assert!(self.eatw("to"));
                    let to = self.ty();
                    self.expect(')');
                    K::Cast(Rc::new((t, k, to)))
                }
                "sub" | "add" | "xor" | "mul" | "and" | "or" | "shl" | "lshr" => {
                    while !self.isp('(') {
                        self.next();
                    }
                    self.expect('(');
                    let t = self.ty();
                    let a = self.konst(&t);
                    self.expect(',');
                    let t2 = self.ty();
                    let b = self.konst(&t2);
                    self.expect(')');
                    let o = match w.as_str() {
                        "sub" => "sub",
                        "add" => "add",
                        "xor" => "xor",
                        "mul" => "mul",
                        "and" => "and",
                        "or" => "or",
                        "shl" => "shl",
                        _ => "lshr",
                    };
                    K::Bin(o, Rc::new((t, a, b)))
                }
                "dso_local_equivalent" | "no_cfi" => self.konst(ty),
                "none" => K::Undef,
                _ => panic!("const word {:?} in {:?}", w, self.t),
            },
            T::P('{') => self.agg('}'),
            T::P('[') => self.agg(']'),
            T::P('<') => {
                if self.eat('{') {
                    let a = self.agg('}');
                    self.expect('>');
                    a
                } else {
                    self.agg('>')
                }
            }
            T::M => K::Undef,
            t => panic!("const? {:?} in {:?}", t, self.t),
        }
    }
    fn agg(&mut self, end: char) -> K {
        let mut v = vec![];
        while !self.eat(end) {
            let t = self.ty();
            let k = self.konst(&t);
            v.push((t, k));
            self.eat(',');
        }
        K::Agg(Rc::new(v))
    }
}

pub fn mask(v: u128, w: u32) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}

impl Module {
    pub fn load(src: String) -> Module {
        let mut m = Module { src: String::new(), funcs: HashMap::new(), globals: vec![], types: HashMap::new(), aliases: HashMap::new() };
        let bytes = src.as_bytes();
        let mut pos = 0;
        let mut glines: Vec<(usize, usize)> = vec![];
        while pos < bytes.len() {
            let e = src[pos..].find('\n').map(|x| pos + x).unwrap_or(bytes.len());
            let line = &src[pos..e];
            if line.starts_with("define ") {
                let end = src[e..].find("\n}").map(|x| e + x + 2).unwrap();
                // name
                let at = find_at(line);
                let mut l = Lx { s: line.as_bytes(), p: at + 1 };
                let name = l.ident();
                m.funcs.insert(name, (pos, end));
                pos = end + 1;
                continue;
            } else if line.starts_with('@') {
                glines.push((pos, e));
            } else if line.starts_with('%') && line.contains(" = type ") {
                let mut p = Ps::new(line, &m.types);
                let n = match p.next() {
                    T::L(n) => n,
                    _ => unreachable!(),
                };
                p.eat('=');
                p.eatw("type");
                let t = if p.isw("opaque") { Ty::Other } else { p.ty() };
                m.types.insert(n, t);
            }
            pos = e + 1;
        }
        for (a, b) in glines {
            let line = &src[a..b];
            let mut p = Ps::new(line, &m.types);
            let name = match p.next() {
                T::G(n) => n,
                t => panic!("{:?}", t),
            };
            p.expect('=');
            let mut constant = false;
            let mut external = false;
            let mut alias = false;
            loop {
                match p.next() {
                    T::W(w) => match w.as_str() {
                        "constant" => {
                            constant = true;
                            break;
                        }
                        "global" => break,
                        "alias" | "ifunc" => {
                            alias = true;
                            break;
                        }
                        "external" | "extern_weak" => external = true,
                        _ => {}
                    },
                    T::P('(') => {
                        p.i -= 1;
                        p.parens()
                    }
                    T::Eof => break,
                    _ => {}
                }
            }
            if alias {
                let mut t = None;
                loop {
                    match p.next() {
                        T::G(g) => {
                            t = Some(g);
                            break;
                        }
                        T::Eof => break,
                        _ => {}
                    }
                }
                if let Some(t) = t {
                    m.aliases.insert(name, t);
                }
                continue;
            }
            let ty = p.ty();
            let init = if external { None } else { Some(p.konst(&ty)) };
            let mut align = 16;
            while *p.peek() != T::Eof {
                if p.isw("align") {
                    p.next();
                    align = p.num() as u64;
                } else {
                    p.next();
                }
            }
            m.globals.push(Global { name, ty, init, constant, align });
        }
        m.src = src;
        m
    }

    /// Source positions of a set of debug locations: (file, line, function), the
    /// inlined-at chain included.
    pub fn resolve(&self, ids: impl Iterator<Item = u32>) -> std::collections::BTreeSet<(String, u32, String)> {
        let mut md: HashMap<u32, &str> = HashMap::new();
        let mut pos = 0;
        let b = self.src.as_bytes();
        while pos < b.len() {
            let e = self.src[pos..].find('\n').map(|x| pos + x).unwrap_or(b.len());
            if b[pos] == b'!' && pos + 1 < b.len() && b[pos + 1].is_ascii_digit() {
                let l = &self.src[pos + 1..e];
                if let Some(k) = l.find(" = ") {
                    if let Ok(n) = l[..k].parse() {
                        md.insert(n, &l[k + 3..]);
                    }
                }
            }
            pos = e + 1;
        }
        fn field<'a>(s: &'a str, k: &str) -> Option<&'a str> {
            let p = s.find(k)? + k.len();
            let r = &s[p..];
            if let Some(q) = r.strip_prefix('"') {
                return q.find('"').map(|e| &q[..e]);
            }
            Some(r[..r.find(|c| c == ',' || c == ')').unwrap_or(r.len())].trim_start_matches('!'))
        }
        fn num(s: &str, k: &str) -> Option<u32> {
            field(s, k)?.parse().ok()
        }
        let mut out = std::collections::BTreeSet::new();
        let mut seen = std::collections::HashSet::new();
        let mut todo: Vec<u32> = ids.collect();
        while let Some(i) = todo.pop() {
            if !seen.insert(i) {
                continue;
            }
            let d = match md.get(&i) {
                Some(d) if d.contains("!DILocation(") => *d,
                _ => continue,
            };
            if let Some(n) = num(d, "inlinedAt: ") {
                todo.push(n);
            }
            let line = num(d, "line: ").unwrap_or(0);
            let mut sc = num(d, "scope: ");
            let mut name = String::new();
            let mut file = String::new();
            while let Some(s) = sc {
                let t = match md.get(&s) {
                    Some(t) => *t,
                    None => break,
                };
                if file.is_empty() {
                    if let Some(f) = num(t, "file: ").and_then(|f| md.get(&f).copied()) {
                        file = field(f, "filename: ").unwrap_or("").to_string();
                        if !file.starts_with('/') {
                            file = format!("{}/{}", field(f, "directory: ").unwrap_or(""), file);
                        }
                    }
                }
                if t.contains("!DISubprogram(") {
                    name = field(t, "(name: ").unwrap_or("").to_string();
                    let mut ns = num(t, "scope: ");
                    let mut depth = 0;
                    while let Some(x) = ns.and_then(|n| md.get(&n).copied()) {
                        depth += 1;
                        if depth > 8 || !(x.contains("!DINamespace(") || x.contains("!DICompositeType(")) {
                            break;
                        }
                        if let Some(n) = field(x, "name: ") {
                            name = format!("{}::{}", n, name);
                        }
                        ns = num(x, "scope: ");
                    }
                    break;
                }
                sc = num(t, "scope: ");
            }
            out.insert((file, line, name));
        }
        out
    }

    pub fn func(&self, name: &str) -> Option<Func> {
        let (a, b) = *self.funcs.get(name)?;
        Some(parse_func(name, &self.src[a..b], &self.types))
    }
}

fn find_at(line: &str) -> usize {
    // first '@' outside quotes
    let b = line.as_bytes();
    let mut q = false;
    for i in 0..b.len() {
        if b[i] == b'"' {
            q = !q;
        }
        if b[i] == b'@' && !q {
            return i;
        }
    }
    panic!("no @ in {}", line)
}

struct Names {
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}
impl Names {
    fn r(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
}

fn parse_func(name: &str, text: &str, types: &HashMap<String, Ty>) -> Func {
    let mut lines = text.lines();
    let head = lines.next().unwrap();
    let mut nm = Names { regs: HashMap::new(), blocks: HashMap::new() };
    // params
    let mut p = Ps::new(head, types);
    loop {
        match p.next() {
            T::G(_) => break,
            T::Eof => panic!(),
            _ => {}
        }
    }
    p.expect('(');
    let mut params = vec![];
    while !p.eat(')') {
        if p.eat('.') {
            continue;
        }
        if !p.is_type() {
            p.next();
            continue;
        }
        let _t = p.ty();
        let mut found = None;
        loop {
            match p.peek().clone() {
                T::L(n) => {
                    found = Some(n);
                    p.next();
                    break;
                }
                T::P(',') | T::P(')') => break,
                T::P('(') => p.parens(),
                T::Eof => panic!(),
                _ => {
                    p.next();
                }
            }
        }
        if let Some(n) = found {
            params.push(nm.r(&n));
        }
        p.eat(',');
    }
    // implicit numbering of the entry block
    let entry_implicit = params.len();
    // First pass: logical lines and block labels
    let mut items: Vec<(bool, String)> = vec![]; // (is_label, text)
    let mut pend = String::new();
    for l in lines {
        if l == "}" {
            break;
        }
        let tl = l.trim();
        if tl.is_empty() || tl.starts_with(';') || tl.starts_with("#dbg") {
            continue;
        }
        if !l.starts_with(' ') {
            // label
            let mut lx = Lx::new(l);
            let n = lx.ident();
            items.push((true, n));
            continue;
        }
        if pend.is_empty() {
            pend.push_str(tl);
        } else {
            pend.push(' ');
            pend.push_str(tl);
        }
        // multi-line switch / landingpad / invoke
        let open = pend.starts_with("switch ") && !pend.ends_with(']') && !pend.contains("] ,") && !switch_done(&pend);
        if open {
            continue;
        }
        if tl.starts_with("to label") || tl.starts_with("catch ") || tl.starts_with("filter ") || tl == "cleanup" {
            // continuation of the previous item
            if let Some((_, last)) = items.last_mut() {
                last.push(' ');
                last.push_str(tl);
            }
            pend.clear();
            continue;
        }
        items.push((false, std::mem::take(&mut pend)));
    }
    if items.is_empty() || !items[0].0 {
        items.insert(0, (true, entry_implicit.to_string()));
    }
    let mut nb = 0;
    for (l, n) in &items {
        if *l {
            nm.blocks.insert(n.clone(), nb);
            nb += 1;
        }
    }
    let mut blocks: Vec<Block> = vec![];
    for (l, s) in &items {
        if *l {
            blocks.push(Block { phis: vec![], insts: vec![], dbg: vec![] });
            continue;
        }
        let b = blocks.last_mut().unwrap();
        let mut ps = Ps::new(s, types);
        parse_inst(&mut ps, &mut nm, b, s);
        let loc = match s.rfind("!dbg !") {
            Some(i) => s[i + 6..].bytes().take_while(|c| c.is_ascii_digit()).fold(0u32, |a, c| a * 10 + (c - b'0') as u32),
            None => 0,
        };
        while b.dbg.len() < b.insts.len() {
            b.dbg.push(loc);
        }
    }
    Func { name: name.to_string(), nregs: nm.regs.len() as u32, params, blocks }
}

fn switch_done(s: &str) -> bool {
    // a switch is complete once its bracket is closed
    let mut d = 0;
    let mut seen = false;
    for c in s.bytes() {
        if c == b'[' {
            d += 1;
            seen = true;
        } else if c == b']' {
            d -= 1;
        }
    }
    seen && d == 0
}

fn operand(p: &mut Ps, nm: &mut Names, ty: &Ty) -> Op {
    if let T::L(n) = p.peek().clone() {
        p.next();
        return Op::R(nm.r(&n));
    }
    Op::K(ty.clone(), p.konst(ty))
}
fn label(p: &mut Ps, nm: &Names) -> u32 {
    p.eatw("label");
    match p.next() {
        T::L(n) => *nm.blocks.get(&n).unwrap_or_else(|| panic!("label {}", n)),
        t => panic!("label? {:?}", t),
    }
}

fn parse_inst(p: &mut Ps, nm: &mut Names, b: &mut Block, text: &str) {
    let mut d = None;
    if let (T::L(n), T::P('=')) = (p.t[0].clone(), p.t[1].clone()) {
        d = Some(nm.r(&n));
        p.i = 2;
    }
    let mut w = match p.next() {
        T::W(w) => w,
        _ => {
            b.insts.push(I::Bad(text.into()));
            return;
        }
    };
    while matches!(w.as_str(), "tail" | "musttail" | "notail") {
        w = match p.next() {
            T::W(w) => w,
            _ => panic!(),
        };
    }
    let flags = ["nuw", "nsw", "exact", "disjoint", "samesign", "inbounds", "nusw", "nneg", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "reassoc", "afn", "volatile", "atomic", "weak", "inalloca", "inrange"];
    macro_rules! skipflags {
        () => {
            loop {
                let hit = match p.peek() {
                    T::W(x) => flags.contains(&x.as_str()),
                    _ => false,
                };
                if hit {
                    p.next();
                    if p.isp('(') && !p.is_type() {
                        p.parens();
                    }
                } else {
                    break;
                }
            }
        };
    }
    let bop = match w.as_str() {
        "add" => Some(B::Add),
        "sub" => Some(B::Sub),
        "mul" => Some(B::Mul),
        "udiv" => Some(B::UDiv),
        "sdiv" => Some(B::SDiv),
        "urem" => Some(B::URem),
        "srem" => Some(B::SRem),
        "shl" => Some(B::Shl),
        "lshr" => Some(B::LShr),
        "ashr" => Some(B::AShr),
        "and" => Some(B::And),
        "or" => Some(B::Or),
        "xor" => Some(B::Xor),
        _ => None,
    };
    if let Some(op) = bop {
        skipflags!();
        let ty = p.ty();
        let a = operand(p, nm, &ty);
        p.expect(',');
        let bb = operand(p, nm, &ty);
        b.insts.push(I::Bin { d: d.unwrap(), op, ty, a, b: bb });
        return;
    }
    match w.as_str() {
        "icmp" => {
            skipflags!();
            let pr = match p.next() {
                T::W(w) => match w.as_str() {
                    "eq" => P::Eq,
                    "ne" => P::Ne,
                    "ult" => P::Ult,
                    "ule" => P::Ule,
                    "ugt" => P::Ugt,
                    "uge" => P::Uge,
                    "slt" => P::Slt,
                    "sle" => P::Sle,
                    "sgt" => P::Sgt,
                    "sge" => P::Sge,
                    _ => panic!("pred {}", w),
                },
                _ => panic!(),
            };
            let ty = p.ty();
            let a = operand(p, nm, &ty);
            p.expect(',');
            let bb = operand(p, nm, &ty);
            b.insts.push(I::Cmp { d: d.unwrap(), p: pr, ty, a, b: bb });
        }
        "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
            skipflags!();
            let from = p.ty();
            let a = operand(p, nm, &from);
            assert!(p.eatw("to"));
            let to = p.ty();
            let k = match w.as_str() {
                "trunc" => C::Trunc,
                "zext" => C::Zext,
                "sext" => C::Sext,
                _ => C::Bit,
            };
            b.insts.push(I::Cast { d: d.unwrap(), k, from, to, a });
        }
        "fadd" | "fsub" | "fmul" | "fdiv" | "frem" | "fneg" | "fcmp" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fptrunc" | "fpext" => {
            let mut name = w.clone();
            while !p.is_type() {
                match p.next() {
                    T::W(x) if w == "fcmp" => name = format!("fcmp.{}", x),
                    T::W(_) => {}
                    _ => {
                        b.insts.push(I::Bad(text.into()));
                        return;
                    }
                }
            }
            let from = p.ty();
            let a = operand(p, nm, &from);
            let (bb, to) = match w.as_str() {
                "fneg" => (a.clone(), from.clone()),
                "fcmp" => {
                    p.expect(',');
                    let to = match &from {
                        Ty::Vec(n, _) => Ty::Vec(*n, Rc::new(Ty::Int(1))),
                        _ => Ty::Int(1),
                    };
                    (operand(p, nm, &from), to)
                }
                "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                    p.expect(',');
                    (operand(p, nm, &from), from.clone())
                }
                _ => {
                    assert!(p.eatw("to"));
                    (a.clone(), p.ty())
                }
            };
            b.insts.push(I::Flt { d: d.unwrap(), name, from, to, a, b: bb });
        }
        "freeze" => {
            let ty = p.ty();
            let a = operand(p, nm, &ty);
            b.insts.push(I::Copy { d: d.unwrap(), a, ty });
        }
        "getelementptr" => {
            skipflags!();
            let ety = p.ty();
            p.expect(',');
            let pt = p.ty();
            if pt != Ty::Ptr {
                b.insts.push(I::Bad(text.into()));
                return;
            }
            let base = operand(p, nm, &Ty::Ptr);
            let mut off = 0i64;
            let mut terms = vec![];
            let mut cur = ety;
            let mut first = true;
            while p.eat(',') {
                if !p.is_type() {
                    break;
                }
                let it = p.ty();
                let ix = operand(p, nm, &it);
                let w = match &it {
                    Ty::Int(w) => *w,
                    _ => {
                        b.insts.push(I::Bad(text.into()));
                        return;
                    }
                };
                let scale;
                if first {
                    scale = cur.size() as i64;
                    first = false;
                } else {
                    match &cur {
                        Ty::Struct(..) => {
                            if let Op::K(_, K::Int(i)) = &ix {
                                off += cur.field_offset(*i as usize) as i64;
                                cur = cur.field(*i as usize);
                                continue;
                            } else if let Op::K(_, K::Zero) = &ix {
                                cur = cur.field(0);
                                continue;
                            }
                            panic!("gep struct idx");
                        }
                        Ty::Array(_, t) | Ty::Vec(_, t) => {
                            scale = t.size() as i64;
                            cur = (**t).clone();
                        }
                        _ => panic!("gep into {:?}", cur),
                    }
                }
                match &ix {
                    Op::K(_, K::Int(i)) => {
                        let s = sext(*i, w) as i64;
                        off = off.wrapping_add(s.wrapping_mul(scale));
                    }
                    _ => terms.push((ix, w, scale)),
                }
            }
            b.insts.push(I::Gep { d: d.unwrap(), base, off, terms });
        }
        "load" => {
            skipflags!();
            let ty = p.ty();
            p.expect(',');
            let pt = p.ty();
            let a = operand(p, nm, &pt);
            b.insts.push(I::Load { d: d.unwrap(), ty, p: a });
        }
        "store" => {
            skipflags!();
            let ty = p.ty();
            let v = operand(p, nm, &ty);
            p.expect(',');
            let pt = p.ty();
            let a = operand(p, nm, &pt);
            b.insts.push(I::Store { ty, v, p: a });
        }
        "alloca" => {
            skipflags!();
            let ty = p.ty();
            let mut n = Op::K(Ty::Int(64), K::Int(1));
            let mut nty = Ty::Int(64);
            if p.eat(',') && p.is_type() {
                nty = p.ty();
                n = operand(p, nm, &nty);
            }
            b.insts.push(I::Alloca { d: d.unwrap(), size: ty.size(), n, nty });
        }
        "call" | "invoke" => {
            // skip flags / cc / return attributes up to the return type
            loop {
                if p.is_type() {
                    // `i64 (ptr, ...) @f` or `i64 @f`
                    break;
                }
                match p.peek() {
                    T::W(_) => {
                        let x = p.next();
                        if p.isp('(') {
                            p.parens();
                        } else if matches!(&x, T::W(w) if w=="cc" || w=="align") {
                            p.next();
                        }
                    }
                    T::N(_) | T::M => {
                        p.next();
                    }
                    _ => {
                        b.insts.push(I::Bad(text.into()));
                        return;
                    }
                }
            }
            let ret = p.ty();
            if p.isp('(') {
                p.parens();
            } // function type for varargs
            let f = match p.next() {
                T::G(n) => Callee::Direct(n),
                T::L(n) => Callee::Indirect(Op::R(nm.r(&n))),
                _ if text.contains(" asm ") && text.contains("cpuid") => {
                    // model a CPU without optional features
                    b.insts.push(I::Copy { d: d.unwrap(), a: Op::K(ret.clone(), K::Zero), ty: ret });
                    return;
                }
                _ if text.contains(" asm sideeffect \"\", ") && ret == Ty::Void => {
                    // black_box
                    b.insts.push(I::Nop);
                    return;
                }
                _ => {
                    b.insts.push(I::Bad(text.into()));
                    return;
                }
            };
            p.expect('(');
            let mut args = vec![];
            while !p.eat(')') {
                let t = p.ty();
                if t == Ty::Other {
                    // metadata or token argument
                    let mut dd = 0;
                    loop {
                        match p.peek() {
                            T::P('(') => dd += 1,
                            T::P(')') if dd == 0 => break,
                            T::P(')') => dd -= 1,
                            T::P(',') if dd == 0 => break,
                            _ => {}
                        }
                        p.next();
                    }
                    args.push((Ty::Other, Op::K(Ty::Other, K::Undef)));
                    p.eat(',');
                    continue;
                }
                // attributes
                loop {
                    match p.peek() {
                        T::W(x)
                            if !matches!(
                                x.as_str(),
                                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sub" | "add" | "ptrtoaddr" | "xor" | "addrspacecast"
                            ) =>
                        {
                            let al = x == "align";
                            p.next();
                            if p.isp('(') {
                                p.parens();
                            } else if al {
                                p.next();
                            }
                        }
                        T::M => {
                            p.next();
                        }
                        _ => break,
                    }
                }
                let a = operand(p, nm, &t);
                args.push((t, a));
                p.eat(',');
            }
            let mut normal = None;
            if w == "invoke" {
                while !p.isw("to") {
                    if *p.peek() == T::Eof {
                        panic!("invoke without to: {}", text);
                    }
                    p.next();
                }
                p.next();
                normal = Some(label(p, nm));
            }
            b.insts.push(I::Call { d, ret, f, args, normal, tgt: u32::MAX });
        }
        "extractvalue" => {
            let ty = p.ty();
            let a = operand(p, nm, &ty);
            let mut idx = vec![];
            while p.eat(',') {
                if let T::N(_) = p.peek() {
                    idx.push(p.num() as u32);
                } else {
                    break;
                }
            }
            b.insts.push(I::Extract { d: d.unwrap(), a, idx });
        }
        "insertvalue" => {
            let ty = p.ty();
            let a = operand(p, nm, &ty);
            p.expect(',');
            let vt = p.ty();
            let v = operand(p, nm, &vt);
            let mut idx = vec![];
            while p.eat(',') {
                if let T::N(_) = p.peek() {
                    idx.push(p.num() as u32);
                } else {
                    break;
                }
            }
            b.insts.push(I::Insert { d: d.unwrap(), a, v, idx, ty });
        }
        "extractelement" => {
            let ty = p.ty();
            let a = operand(p, nm, &ty);
            p.expect(',');
            let it = p.ty();
            let i = operand(p, nm, &it);
            b.insts.push(I::ExtractEl { d: d.unwrap(), a, i });
        }
        "insertelement" => {
            let ty = p.ty();
            let a = operand(p, nm, &ty);
            p.expect(',');
            let vt = p.ty();
            let v = operand(p, nm, &vt);
            p.expect(',');
            let it = p.ty();
            let i = operand(p, nm, &it);
            b.insts.push(I::InsertEl { d: d.unwrap(), a, v, i, ty });
        }
        "shufflevector" => {
            let ty = p.ty();
            let a = operand(p, nm, &ty);
            p.expect(',');
            let t2 = p.ty();
            let bb = operand(p, nm, &t2);
            p.expect(',');
            let mt = p.ty();
            let mk = p.konst(&mt);
            let n = mt.nfields();
            let mask = match mk {
                K::Zero | K::Undef => vec![0; n],
                K::Agg(v) => v.iter().map(|(_, k)| match k { K::Int(i) => *i as u32 as i32 as i64, _ => -1 }).collect(),
                K::Splat(s) => match s.1 { K::Int(i) => vec![i as i64; n], _ => vec![0; n] },
                _ => panic!("shuffle mask"),
            };
            b.insts.push(I::Shuffle { d: d.unwrap(), a, b: bb, ty, mask });
        }
        "select" => {
            skipflags!();
            let cty = p.ty();
            let c = operand(p, nm, &cty);
            p.expect(',');
            let ty = p.ty();
            let a = operand(p, nm, &ty);
            p.expect(',');
            let t2 = p.ty();
            let bb = operand(p, nm, &t2);
            b.insts.push(I::Select { d: d.unwrap(), c, cty, ty, a, b: bb });
        }
        "phi" => {
            skipflags!();
            let ty = p.ty();
            let mut v = vec![];
            loop {
                p.expect('[');
                let o = operand(p, nm, &ty);
                p.expect(',');
                let l = label(p, nm);
                p.expect(']');
                v.push((l, o));
                if !p.eat(',') {
                    break;
                }
                if !p.isp('[') {
                    break;
                }
            }
            b.phis.push((d.unwrap(), ty, v));
        }
        "br" => {
            if p.isw("label") {
                let to = label(p, nm);
                b.insts.push(I::Br { to });
            } else {
                let ty = p.ty();
                let c = operand(p, nm, &ty);
                p.expect(',');
                let t = label(p, nm);
                p.expect(',');
                let f = label(p, nm);
                b.insts.push(I::CondBr { c, t, f });
            }
        }
        "switch" => {
            let ty = p.ty();
            let v = operand(p, nm, &ty);
            p.expect(',');
            let def = label(p, nm);
            p.expect('[');
            let mut cases = vec![];
            while !p.eat(']') {
                let t = p.ty();
                let k = match p.konst(&t) {
                    K::Int(i) => i,
                    _ => panic!(),
                };
                p.expect(',');
                let l = label(p, nm);
                cases.push((k, l));
            }
            b.insts.push(I::Switch { ty, v, def, cases });
        }
        "ret" => {
            let ty = p.ty();
            let v = if ty == Ty::Void { None } else { Some(operand(p, nm, &ty)) };
            b.insts.push(I::Ret { ty, v });
        }
        "unreachable" => b.insts.push(I::Unreachable),
        "fence" => b.insts.push(I::Nop),
        "atomicrmw" => {
            skipflags!();
            let op = match p.next() {
                T::W(w) => w,
                _ => panic!(),
            };
            let pt = p.ty();
            let a = operand(p, nm, &pt);
            p.expect(',');
            let ty = p.ty();
            let v = operand(p, nm, &ty);
            b.insts.push(I::Rmw { d: d.unwrap(), op, ty, p: a, v });
        }
        "cmpxchg" => {
            skipflags!();
            let pt = p.ty();
            let a = operand(p, nm, &pt);
            p.expect(',');
            let ty = p.ty();
            let c = operand(p, nm, &ty);
            p.expect(',');
            let t2 = p.ty();
            let n = operand(p, nm, &t2);
            b.insts.push(I::CmpXchg { d: d.unwrap(), ty, p: a, cmp: c, new: n });
        }
        _ => b.insts.push(I::Bad(text.into())),
    }
}

fn fconst(n: &str) -> f64 {
    let nan = f64::from_bits(0x7ff8 << 48);
    match n {
        "+qnan" => nan,
        "-qnan" => -nan,
        _ => n.parse().unwrap_or_else(|_| panic!("float constant {}", n)),
    }
}

pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w;
    ((v << s) as i128) >> s
}
