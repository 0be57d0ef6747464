//! The symbolic executor: explores every path of a harness function over the
//! compiled program and decides each branch with the solver.
use crate::expr::{self, Cache, FxMap, E, F};
use crate::ir::{self, mask, sext, Callee, Module, Op, Ty, B, C, I, K, P, V};
use crate::solver::{Res, Solver};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::{Duration, Instant};

pub const UNINIT: u32 = u32::MAX;
const FBASE: u64 = 0x1000_0000;
const GBASE: u64 = 0x2000_0000;
const HBASE: u64 = 0x10_0000_0000;
const SBASE: u64 = 0x7000_0000_0000;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Stack,
    Heap(u64),
    Global,
    Const,
}

#[derive(Clone)]
pub struct Obj {
    /// one cell per byte: < 256 concrete, UNINIT, otherwise term + 256
    pub b: Vec<u32>,
    pub kind: Kind,
}

pub struct Model {
    pub v: Vec<u8>,
    cache: RefCell<Cache>,
}

#[derive(Clone)]
pub struct Frame {
    f: Rc<CFunc>,
    regs: Vec<V>,
    blk: u32,
    ip: u32,
    dest: Option<u32>,
    normal: Option<u32>,
    allocas: Vec<u64>,
}

pub struct CFunc {
    pub name: String,
    nregs: u32,
    params: Vec<u32>,
    blocks: Vec<ir::Block>,
}

#[derive(Clone, Debug)]
pub enum Tape {
    Bytes(u32, u32),
    Choice(u32),
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    mem: BTreeMap<u64, Rc<Obj>>,
    heap: u64,
    stack: u64,
    pc: Vec<E>,
    known: Rc<FxMap<E, u128>>,
    model: Rc<Model>,
    nvars: u32,
    uninit: Vec<(u32, u32)>,
    tape: Vec<Tape>,
    nchoice: u32,
    outs: Vec<V>,
    covers: u128,
    steps: u64,
}

#[derive(Debug, Clone)]
pub struct Violation {
    pub kind: String,
    pub loc: String,
    pub func: String,
    pub trace: Vec<String>,
    pub tape: Vec<u8>,
    pub fill: Option<u8>,
    pub count: u64,
}

/// The largest single allocation a path may make.
const MAX_ALLOC: u64 = 1 << 31;

/// A violation whose kind starts with "runs on" is only a suspicion: some limit of the
/// engine was reached, and whether the real code ends on these inputs is for the replay to say.
pub enum Stop {
    Done,
    Violation(String, String),
    Assumed,
    Incon(String),
}
type R<T> = Result<T, Stop>;

enum Tgt {
    Func(u32),
    Intr(String),
    Ext(String),
    Panic(String),
}

pub struct Cfg {
    pub time: Duration,
    pub max_steps: u64,
    pub max_paths: u64,
    pub max_viol: usize,
    pub samples: usize,
    pub shard: Option<(u32, u32)>,
    pub seed: u64,
    pub jobs: usize,
    pub tier: u64,
}

#[derive(Default)]
pub struct Report {
    pub paths: u64,
    pub assumed: u64,
    pub steps: u64,
    pub forks: u64,
    pub maxdepth: usize,
    pub maxvars: u32,
    pub covers: BTreeMap<u32, u64>,
    pub viol: Vec<Violation>,
    pub incon: BTreeMap<String, u64>,
    pub samples: Vec<(Vec<u8>, Vec<u64>)>,
    pub funcs: BTreeSet<u32>,
    pub maxsteps: u64,
}

pub struct Engine {
    m: Module,
    fnames: Vec<String>,
    fids: HashMap<String, u32>,
    code: Vec<Option<Rc<CFunc>>>,
    gaddr: HashMap<String, u64>,
    gbase: BTreeMap<u64, (usize, u64)>,
    gobj: FxMap<usize, Rc<Obj>>,
    tgts: Vec<Tgt>,
    tgtmap: HashMap<String, u32>,
    pub solver: Solver,
    pub rep: Report,
    work: Vec<State>,
    cfg: Cfg,
    start: Instant,
    rng: u64,
    viol_at: Option<Instant>,
    pub forksites: HashMap<String, u64>,
    profile: bool,
    pub hit: Vec<bool>,
    pub terms: u64,
}

pub fn is_panic_name(n: &str) -> bool {
    n.contains("4core9panicking")
        || n.contains("13unwrap_failed")
        || n.contains("13expect_failed")
        || n.contains("18handle_alloc_error")
        || n.contains("17capacity_overflow")
        || n.contains("12handle_error")
        || n.contains("rust_begin_unwind")
        || n == "abort"
        || n.contains("14abort_internal")
        || n.contains("7process5abort")
        || n.contains("_fail") && n.contains("4core5slice") && n.contains("index")
        || n.contains("15slice_error_fail")
}

impl Engine {
    pub fn new(m: Module, cfg: Cfg, qtimeout: u32) -> Engine {
        let mut names: Vec<String> = m.funcs.keys().cloned().collect();
        names.sort();
        let mut e = Engine {
            fids: names.iter().enumerate().map(|(i, n)| (n.clone(), i as u32)).collect(),
            code: names.iter().map(|_| None).collect(),
            fnames: names,
            gaddr: HashMap::new(),
            gbase: BTreeMap::new(),
            gobj: Default::default(),
            tgts: vec![],
            tgtmap: HashMap::new(),
            solver: Solver::new(qtimeout),
            rep: Report::default(),
            work: vec![],
            rng: cfg.seed.wrapping_mul(0x9E3779B97F4A7C15) | 1,
            cfg,
            start: Instant::now(),
            viol_at: None,
            forksites: HashMap::new(),
            profile: std::env::var("SYMX_PROFILE").is_ok(),
            hit: vec![],
            terms: 0,
            m,
        };
        let mut a = GBASE;
        for (i, g) in e.m.globals.iter().enumerate() {
            let al = g.align.max(1);
            a = (a + al - 1) / al * al;
            let sz = g.ty.size();
            e.gaddr.insert(g.name.clone(), a);
            e.gbase.insert(a, (i, sz));
            a += sz + 32;
        }
        e
    }

    pub fn fname(&self, id: u32) -> &str {
        &self.fnames[id as usize]
    }

    fn sym(&mut self, n: &str) -> u64 {
        if let Some(a) = self.gaddr.get(n) {
            return *a;
        }
        if let Some(f) = self.fids.get(n) {
            return FBASE + *f as u64 * 16;
        }
        if let Some(t) = self.m.aliases.get(n).cloned() {
            return self.sym(&t);
        }
        // declared function whose address is taken: give it an id without code
        let id = self.fnames.len() as u32;
        self.fnames.push(n.to_string());
        self.fids.insert(n.to_string(), id);
        self.code.push(None);
        FBASE + id as u64 * 16
    }

    fn kval(&mut self, ty: &Ty, k: &K) -> V {
        match k {
            K::Int(v) => V::C(*v),
            K::Undef | K::Zero => self.zero(ty),
            K::Bytes(b) => {
                let n = ty.nfields();
                let ft = ty.field(0);
                assert!(ft.size() == 1 || n == 0);
                V::A(Rc::new(b.iter().map(|x| V::C(*x as u128)).collect()))
            }
            K::Agg(v) => {
                let v = v.iter().map(|(t, k)| self.kval(t, k)).collect();
                V::A(Rc::new(v))
            }
            K::Splat(s) => {
                let x = self.kval(&s.0, &s.1);
                V::A(Rc::new(vec![x; ty.nfields()]))
            }
            K::Sym(s) => V::C(self.sym(s) as u128),
            K::Gep(g) => {
                let base = match self.kval(&Ty::Ptr, &g.1) {
                    V::C(c) => c as u64,
                    _ => panic!(),
                };
                let mut cur = g.0.clone();
                let mut off = 0i64;
                for (i, (t, k)) in g.2.iter().enumerate() {
                    let ix = match self.kval(t, k) {
                        V::C(c) => sext(c, t.bits()) as i64,
                        _ => panic!(),
                    };
                    if i == 0 {
                        off += ix * cur.size() as i64;
                    } else {
                        off += match &cur {
                            Ty::Struct(..) => cur.field_offset(ix as usize) as i64,
                            _ => ix * cur.field(0).size() as i64,
                        };
                        cur = match &cur {
                            Ty::Struct(..) => cur.field(ix as usize),
                            _ => cur.field(0),
                        };
                    }
                }
                V::C(base.wrapping_add(off as u64) as u128)
            }
            K::Cast(c) => match self.kval(&c.0, &c.1) {
                V::C(x) => V::C(mask(x, c.2.bits())),
                v => v,
            },
            K::Bin(op, b) => {
                let (x, y) = match (self.kval(&b.0, &b.1), self.kval(&b.0, &b.2)) {
                    (V::C(x), V::C(y)) => (x, y),
                    _ => panic!(),
                };
                let o = match *op {
                    "sub" => B::Sub,
                    "add" => B::Add,
                    "xor" => B::Xor,
                    "mul" => B::Mul,
                    "and" => B::And,
                    "or" => B::Or,
                    "shl" => B::Shl,
                    _ => B::LShr,
                };
                V::C(expr::ev_bin(o, x, y, b.0.bits()))
            }
        }
    }
    fn zero(&self, ty: &Ty) -> V {
        match ty {
            Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(|t| self.zero(t)).collect())),
            Ty::Array(n, t) | Ty::Vec(n, t) => V::A(Rc::new(vec![self.zero(t); *n as usize])),
            _ => V::C(0),
        }
    }

    fn lower(&mut self, o: &mut Op) {
        if let Op::K(t, k) = o {
            let (t, k) = (t.clone(), k.clone());
            *o = Op::V(self.kval(&t, &k));
        }
    }

    fn target(&mut self, n: &str) -> u32 {
        if let Some(t) = self.tgtmap.get(n) {
            return *t;
        }
        let real = self.m.aliases.get(n).cloned().unwrap_or_else(|| n.to_string());
        let t = if n.starts_with("llvm.") {
            Tgt::Intr(n.to_string())
        } else if n.starts_with("symx_") || is_ext(n) {
            Tgt::Ext(n.to_string())
        } else if is_panic_name(n) {
            Tgt::Panic(n.to_string())
        } else if self.m.funcs.contains_key(&real) {
            Tgt::Func(self.fids[&real])
        } else {
            Tgt::Ext(n.to_string())
        };
        let id = self.tgts.len() as u32;
        self.tgts.push(t);
        self.tgtmap.insert(n.to_string(), id);
        id
    }

    fn func(&mut self, id: u32) -> Option<Rc<CFunc>> {
        if let Some(f) = &self.code[id as usize] {
            return Some(f.clone());
        }
        let name = self.fnames[id as usize].clone();
        let f = self.m.func(&name)?;
        let mut blocks = f.blocks;
        for b in blocks.iter_mut() {
            for (_, _, v) in b.phis.iter_mut() {
                for (_, o) in v.iter_mut() {
                    self.lower(o);
                }
            }
            for i in b.insts.iter_mut() {
                let mut todo: Vec<&mut Op> = vec![];
                match i {
                    I::Bin { a, b, .. } | I::Flt { a, b, .. } | I::Cmp { a, b, .. } | I::Shuffle { a, b, .. } => todo.extend([a, b]),
                    I::Cast { a, .. } | I::Extract { a, .. } | I::Copy { a, .. } => todo.push(a),
                    I::Gep { base, terms, .. } => {
                        todo.push(base);
                        todo.extend(terms.iter_mut().map(|t| &mut t.0));
                    }
                    I::Load { p, .. } => todo.push(p),
                    I::Store { v, p, .. } => todo.extend([v, p]),
                    I::Alloca { n, .. } => todo.push(n),
                    I::Call { f, args, tgt, .. } => {
                        match f {
                            Callee::Direct(n) => *tgt = self.target(n),
                            Callee::Indirect(o) => todo.push(o),
                        }
                        todo.extend(args.iter_mut().map(|a| &mut a.1));
                    }
                    I::Insert { a, v, .. } => todo.extend([a, v]),
                    I::ExtractEl { a, i, .. } => todo.extend([a, i]),
                    I::InsertEl { a, v, i, .. } => todo.extend([a, v, i]),
                    I::Select { c, a, b, .. } => todo.extend([c, a, b]),
                    I::CondBr { c, .. } => todo.push(c),
                    I::Switch { v, .. } => todo.push(v),
                    I::Ret { v: Some(v), .. } => todo.push(v),
                    I::Rmw { p, v, .. } => todo.extend([p, v]),
                    I::CmpXchg { p, cmp, new, .. } => todo.extend([p, cmp, new]),
                    _ => {}
                }
                for o in todo {
                    self.lower(o);
                }
            }
        }
        let c = Rc::new(CFunc { name, nregs: f.nregs, params: f.params, blocks });
        self.code[id as usize] = Some(c.clone());
        Some(c)
    }

    // ---------------------------------------------------------------- memory

    fn gcontent(&mut self, gi: usize) -> Rc<Obj> {
        if let Some(o) = self.gobj.get(&gi) {
            return o.clone();
        }
        let (ty, init, constant, align) = {
            let g = &self.m.globals[gi];
            (g.ty.clone(), g.init.clone(), g.constant, g.align)
        };
        let _ = align;
        let mut b = vec![0u32; ty.size() as usize];
        if let Some(k) = init {
            self.kstore(&ty, &k, 0, &mut b);
        }
        let o = Rc::new(Obj { b, kind: if constant { Kind::Const } else { Kind::Global } });
        self.gobj.insert(gi, o.clone());
        o
    }
    fn kstore(&mut self, ty: &Ty, k: &K, off: usize, b: &mut [u32]) {
        match k {
            K::Zero => {}
            K::Undef => {
                for i in 0..ty.size() as usize {
                    b[off + i] = UNINIT;
                }
            }
            K::Bytes(s) => {
                for (i, x) in s.iter().enumerate() {
                    b[off + i] = *x as u32;
                }
            }
            K::Agg(v) => {
                for (i, (t, k)) in v.iter().enumerate() {
                    let o = ty.field_offset(i) as usize;
                    self.kstore(t, k, off + o, b);
                }
            }
            _ => {
                if let V::C(c) = self.kval(ty, k) {
                    for i in 0..ty.store_bytes() as usize {
                        b[off + i] = (c >> (8 * i)) as u8 as u32;
                    }
                } else {
                    panic!("kstore {:?}", k)
                }
            }
        }
    }

    /// The object containing [addr, addr+n)
    fn find(&mut self, st: &State, addr: u64, n: u64) -> Option<(u64, Rc<Obj>)> {
        if let Some((b, o)) = st.mem.range(..=addr).next_back() {
            if addr - b + n <= o.b.len() as u64 {
                return Some((*b, o.clone()));
            }
        }
        if addr >= GBASE && addr < HBASE {
            if let Some((b, (gi, sz))) = self.gbase.range(..=addr).next_back() {
                let (b, gi, sz) = (*b, *gi, *sz);
                if addr - b + n <= sz {
                    if let Some(o) = st.mem.get(&b) {
                        return Some((b, o.clone()));
                    }
                    return Some((b, self.gcontent(gi)));
                }
            }
        }
        None
    }
    fn find_mut<'a>(&mut self, st: &'a mut State, addr: u64, n: u64) -> Option<(u64, &'a mut Obj)> {
        let hit = match st.mem.range(..=addr).next_back() {
            Some((b, o)) if addr - b + n <= o.b.len() as u64 => Some(*b),
            _ => None,
        };
        let base = match hit {
            Some(b) => b,
            None => {
                if !(GBASE..HBASE).contains(&addr) {
                    return None;
                }
                let (b, gi, sz) = match self.gbase.range(..=addr).next_back() {
                    Some((b, (gi, sz))) => (*b, *gi, *sz),
                    None => return None,
                };
                if addr - b + n > sz {
                    return None;
                }
                let o = self.gcontent(gi);
                if o.kind == Kind::Const {
                    return None;
                }
                st.mem.insert(b, o);
                b
            }
        };
        Some((base, Rc::make_mut(st.mem.get_mut(&base).unwrap())))
    }

    fn memerr(&mut self, st: &State, what: &str, addr: u64, n: u64) -> Stop {
        let near = st
            .mem
            .range(..=addr)
            .next_back()
            .map(|(b, o)| format!("nearest object {:#x}+{} {:?}", b, o.b.len(), o.kind))
            .unwrap_or_default();
        Stop::Violation(format!("invalid memory access: {} of {} bytes at {:#x} ({})", what, n, addr, near), String::new())
    }

    fn fresh_byte(&mut self, st: &mut State) -> E {
        let i = st.nvars;
        st.nvars += 1;
        expr::var(i)
    }

    fn load(&mut self, st: &mut State, addr: u64, ty: &Ty) -> R<V> {
        match ty {
            Ty::Struct(f, _) => {
                let mut v = Vec::with_capacity(f.len());
                for i in 0..f.len() {
                    v.push(self.load(st, addr + ty.field_offset(i), &f[i])?);
                }
                return Ok(V::A(Rc::new(v)));
            }
            Ty::Vec(n, t) if **t == Ty::Int(1) => {
                let w = Ty::Int(((*n + 7) / 8 * 8) as u32);
                let x = self.load(st, addr, &w)?;
                return Ok(V::A(Rc::new((0..*n as u32).map(|i| vextract(&x, w.bits(), i, 1)).collect())));
            }
            Ty::Array(n, t) | Ty::Vec(n, t) => {
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n {
                    v.push(self.load(st, addr + i * t.size(), t)?);
                }
                return Ok(V::A(Rc::new(v)));
            }
            _ => {}
        }
        let n = ty.store_bytes();
        let w = ty.bits();
        let (base, o) = match self.find(st, addr, n) {
            Some(x) => x,
            None => return Err(self.memerr(st, "read", addr, n)),
        };
        let off = (addr - base) as usize;
        let cells = &o.b[off..off + n as usize];
        if cells.iter().all(|c| *c < 256) {
            let mut x = 0u128;
            for (i, c) in cells.iter().enumerate() {
                x |= (*c as u128) << (8 * i);
            }
            return Ok(V::C(mask(x, w)));
        }
        if cells.iter().any(|c| *c == UNINIT) {
            let idx: Vec<usize> = (0..n as usize).filter(|i| cells[*i] == UNINIT).collect();
            let mut fr = vec![];
            for _ in &idx {
                fr.push(self.fresh_byte(st));
            }
            st.uninit.push((st.nvars - idx.len() as u32, st.nvars));
            if let Some((b, o)) = self.find_mut(st, addr, n) {
                for (i, e) in idx.iter().zip(fr) {
                    o.b[(addr - b) as usize + i] = e + 256;
                }
            }
            return self.load(st, addr, ty);
        }
        let mut e: Option<E> = None;
        for c in cells.iter() {
            let b = if *c < 256 { expr::cst(*c as u128, 8) } else { *c - 256 };
            e = Some(match e {
                None => b,
                Some(lo) => expr::concat(b, lo),
            });
        }
        let mut e = e.unwrap();
        if expr::width(e) > w {
            e = expr::extract(e, 0, w);
        }
        Ok(sv(e))
    }

    fn store(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &V) -> R<()> {
        match ty {
            Ty::Vec(n, t) if **t == Ty::Int(1) => {
                let w = ((*n + 7) / 8 * 8) as u32;
                let x = join(v, &Ty::Int(1));
                let x = vzext(&x, *n as u32, w);
                return self.store(st, addr, &Ty::Int(w), &x);
            }
            Ty::Struct(..) | Ty::Array(..) | Ty::Vec(..) => {
                if let V::A(xs) = v {
                    for i in 0..xs.len() {
                        self.store(st, addr + ty.field_offset(i), &ty.field(i), &xs[i])?;
                    }
                    return Ok(());
                }
                panic!("store aggregate");
            }
            _ => {}
        }
        let n = ty.store_bytes();
        let w = ty.bits();
        let mut cells = [0u32; 16];
        match v {
            V::C(c) => {
                for i in 0..n as usize {
                    cells[i] = (*c >> (8 * i)) as u8 as u32;
                }
            }
            V::S(e) => {
                let e = if (w as u64) < n * 8 { expr::zext(*e, n as u32 * 8) } else { *e };
                for i in 0..n as usize {
                    cells[i] = cell(expr::extract(e, 8 * i as u32, 8));
                }
            }
            _ => panic!("store scalar"),
        }
        match self.find_mut(st, addr, n) {
            Some((b, o)) => {
                let off = (addr - b) as usize;
                o.b[off..off + n as usize].copy_from_slice(&cells[..n as usize]);
                Ok(())
            }
            None => Err(self.memerr(st, "write", addr, n)),
        }
    }

    fn alloc(&mut self, st: &mut State, size: u64, align: u64, kind: Kind, fill: u32) -> u64 {
        let next = if kind == Kind::Stack { &mut st.stack } else { &mut st.heap };
        // exactly the requested alignment, never more
        let al = align.max(1);
        let mut a = (*next + 2 * al - 1) / (2 * al) * (2 * al) + al;
        if kind == Kind::Stack {
            a = (*next + 15) / 16 * 16;
            a = (a + al - 1) / al * al;
        }
        *next = a + size + 16;
        st.mem.insert(a, Rc::new(Obj { b: vec![fill; size as usize], kind }));
        a
    }

    // --------------------------------------------------------------- solving

    fn ev(&self, st: &State, e: E) -> u128 {
        expr::eval(e, &st.model.v, &mut st.model.cache.borrow_mut())
    }

    fn slice(&self, st: &State, cond: E) -> Vec<E> {
        let mut live = vec![false; st.nvars as usize + 1];
        for v in expr::vars(cond).iter() {
            live[*v as usize] = true;
        }
        let mut inn = vec![false; st.pc.len()];
        let vs: Vec<Rc<[u32]>> = expr::with(|a| st.pc.iter().map(|e| a.nodes[*e as usize].vars.clone()).collect());
        loop {
            let mut ch = false;
            for i in 0..st.pc.len() {
                if !inn[i] && vs[i].iter().any(|v| live[*v as usize]) {
                    inn[i] = true;
                    ch = true;
                    for v in vs[i].iter() {
                        live[*v as usize] = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut out: Vec<E> = (0..st.pc.len()).filter(|i| inn[*i]).map(|i| st.pc[i]).collect();
        out.push(cond);
        out
    }

    /// A model of pc && cond, extending the state's model.
    fn sat(&mut self, st: &State, cond: E) -> R<Option<Rc<Model>>> {
        if let Some(c) = expr::is_const(cond) {
            return Ok(if c == 1 { Some(st.model.clone()) } else { None });
        }
        if let Some(k) = st.known.get(&cond) {
            if *k == 0 {
                return Ok(None);
            }
        }
        let cs = self.slice(st, cond);
        match self.solver.check(&cs) {
            Res::Unsat => Ok(None),
            Res::Sat(m) => {
                let mut v = st.model.v.clone();
                for (i, b) in m.iter() {
                    let i = *i as usize;
                    if v.len() <= i {
                        v.resize(i + 1, 0);
                    }
                    v[i] = *b;
                }
                let nm = Rc::new(Model { v, cache: Default::default() });
                // the model must satisfy what the solver was asked
                for c in &cs {
                    let x = expr::eval(*c, &nm.v, &mut nm.cache.borrow_mut());
                    if x != 1 {
                        return Err(Stop::Incon("solver model does not satisfy the query (internal)".into()));
                    }
                }
                Ok(Some(nm))
            }
            Res::Unknown => Err(Stop::Incon("solver timeout".into())),
        }
    }

    fn assume(&mut self, st: &mut State, c: E) {
        if expr::is_const(c).is_some() {
            return;
        }
        // split conjunctions for slicing and syntactic lookups
        if let (expr::N::Bin(B::And, x, y), 1) = expr::node(c) {
            self.assume(st, x);
            self.assume(st, y);
            return;
        }
        if st.known.get(&c) == Some(&1) {
            return;
        }
        st.pc.push(c);
        let k = Rc::make_mut(&mut st.known);
        k.insert(c, 1);
        k.insert(expr::not(c), 0);
        if let expr::N::Cmp(P::Eq, a, b) = expr::node(c).0 {
            if let Some(v) = expr::is_const(b) {
                k.insert(a, v);
            }
        }
    }

    /// Decide a 1-bit condition, forking when both sides are feasible.
    /// `redo`: the instruction pointer still addresses the current instruction,
    /// the forked state re-executes it under the negated condition.
    fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(v) = expr::is_const(c) {
            return Ok(v == 1);
        }
        if let Some(v) = st.known.get(&c) {
            return Ok(*v == 1);
        }
        let side = self.ev(st, c) == 1;
        let (here, other) = if side { (c, expr::not(c)) } else { (expr::not(c), c) };
        match self.sat(st, other) {
            Ok(Some(m)) => {
                let mut o = st.clone();
                o.model = m;
                self.assume(&mut o, other);
                if self.profile {
                    let fr = st.frames.last().unwrap();
                    let k = format!("{} b{} i{}", fr.f.name, fr.blk, fr.ip);
                    *self.forksites.entry(k).or_default() += 1;
                }
                self.work.push(o);
                self.rep.forks += 1;
                self.assume(st, here);
            }
            Ok(None) => {
                let k = Rc::make_mut(&mut st.known);
                k.insert(here, 1);
                k.insert(other, 0);
            }
            Err(Stop::Incon(s)) => {
                *self.rep.incon.entry(format!("{} in {}", s, st.frames.last().unwrap().f.name)).or_default() += 1;
                self.assume(st, here);
            }
            Err(e) => return Err(e),
        }
        Ok(side)
    }

    /// Make a value concrete, forking over its other feasible values.
    fn conc(&mut self, st: &mut State, v: &V) -> R<u128> {
        match v {
            V::C(c) => Ok(*c),
            V::S(e) => {
                if let Some(v) = st.known.get(e) {
                    return Ok(*v);
                }
                let x = self.ev(st, *e);
                let q = expr::cmp(P::Eq, *e, expr::cst(x, expr::width(*e)));
                let r = self.decide(st, q)?;
                debug_assert!(r);
                Rc::make_mut(&mut st.known).insert(*e, x);
                Ok(x)
            }
            V::A(_) => panic!("conc aggregate"),
        }
    }

    // -------------------------------------------------------------- running

    fn op(&self, st: &State, o: &Op) -> V {
        match o {
            Op::R(r) => {
                let v = &st.frames.last().unwrap().regs[*r as usize];
                if let V::S(e) = v {
                    if let Some(k) = st.known.get(e) {
                        return V::C(*k);
                    }
                }
                v.clone()
            }
            Op::V(v) => v.clone(),
            Op::K(..) => unreachable!(),
        }
    }

    fn top<'a>(&self, st: &'a mut State) -> &'a mut Frame {
        Rc::make_mut(st.frames.last_mut().unwrap())
    }
    fn set(&self, st: &mut State, d: u32, v: V) {
        self.top(st).regs[d as usize] = v;
    }

    fn goto(&mut self, st: &mut State, to: u32) {
        let (f, from) = {
            let fr = st.frames.last().unwrap();
            (fr.f.clone(), fr.blk)
        };
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (d, _, v) in &b.phis {
                let o = &v.iter().find(|x| x.0 == from).expect("phi").1;
                vals.push((*d, self.op(st, o)));
            }
            let fr = self.top(st);
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        let fr = self.top(st);
        fr.blk = to;
        fr.ip = 0;
    }

    fn push_call(&mut self, st: &mut State, id: u32, args: Vec<V>, dest: Option<u32>, normal: Option<u32>) -> R<()> {
        let f = match self.func(id) {
            Some(f) => f,
            None => return Err(Stop::Incon(format!("call to unmodelled external {}", self.fnames[id as usize]))),
        };
        if st.frames.len() > 3000 {
            return Err(Stop::Violation("runs on: call depth limit".into(), String::new()));
        }
        self.rep.funcs.insert(id);
        let mut regs = vec![V::C(0); f.nregs as usize];
        for (p, a) in f.params.iter().zip(args) {
            regs[*p as usize] = a;
        }
        st.frames.push(Rc::new(Frame { f, regs, blk: 0, ip: 0, dest, normal, allocas: vec![] }));
        self.rep.maxdepth = self.rep.maxdepth.max(st.frames.len());
        Ok(())
    }

    fn location(&mut self, st: &mut State, args: &[V]) -> String {
        // a core::panic::Location among the arguments
        for v in args.iter().rev() {
            if let V::C(p) = v {
                let p = *p as u64;
                if self.find(st, p, 24).is_none() {
                    continue;
                }
                let g = |s: &mut Self, st: &mut State, o: u64, t: Ty| match s.load(st, p + o, &t) {
                    Ok(V::C(c)) => Some(c as u64),
                    _ => None,
                };
                let (fp, fl, ln, co) = (g(self, st, 0, Ty::Int(64)), g(self, st, 8, Ty::Int(64)), g(self, st, 16, Ty::Int(32)), g(self, st, 20, Ty::Int(32)));
                if let (Some(fp), Some(fl), Some(ln), Some(co)) = (fp, fl, ln, co) {
                    if fl < 4 || fl > 300 || ln == 0 || ln > 100000 {
                        continue;
                    }
                    if let Some((b, o)) = self.find(st, fp, fl) {
                        let s: Vec<u8> = o.b[(fp - b) as usize..(fp - b + fl) as usize].iter().map(|c| *c as u8).collect();
                        if let Ok(s) = String::from_utf8(s) {
                            if s.contains(".rs") {
                                return format!("{}:{}:{}", s, ln, co);
                            }
                        }
                    }
                }
            }
        }
        String::new()
    }

    fn fileofs(&self, st: &State) -> Vec<String> {
        let mut out: Vec<String> = vec![];
        for f in st.frames.iter().rev() {
            let d = f.f.blocks[f.blk as usize].dbg.get(f.ip as usize).copied().unwrap_or(0);
            let at: Vec<String> = self.m.resolve(std::iter::once(d)).into_iter().map(|(f, l, n)| format!("{} ({}:{})", n, f, l)).collect();
            if at.is_empty() {
                out.push(short_name(&f.f.name));
            }
            out.extend(at);
        }
        out
    }
    pub fn source(&self) -> std::collections::BTreeSet<(String, u32, String)> {
        self.m.resolve(self.hit.iter().enumerate().filter(|x| *x.1).map(|x| x.0 as u32))
    }

    pub fn tape_bytes(&self, st: &State) -> Vec<u8> {
        let mut o = vec![];
        for t in &st.tape {
            match t {
                Tape::Bytes(s, n) => {
                    for i in *s..*s + *n {
                        o.push(st.model.v.get(i as usize).copied().unwrap_or(0));
                    }
                }
                Tape::Choice(c) => o.extend_from_slice(&c.to_le_bytes()),
            }
        }
        o
    }

    pub fn run(&mut self, entry: &str) {
        let id = match self.fids.get(entry) {
            Some(i) => *i,
            None => {
                self.rep.incon.insert(format!("harness {} not found in the module", entry), 1);
                return;
            }
        };
        let mut st = State {
            frames: vec![],
            mem: BTreeMap::new(),
            heap: HBASE,
            stack: SBASE,
            pc: vec![],
            known: Rc::new(Default::default()),
            model: Rc::new(Model { v: vec![], cache: Default::default() }),
            nvars: 0,
            uninit: vec![],
            tape: vec![],
            nchoice: 0,
            outs: vec![],
            covers: 0,
            steps: 0,
        };
        if self.push_call(&mut st, id, vec![], None, None).is_err() {
            self.rep.incon.insert("entry".into(), 1);
            return;
        }
        self.start = Instant::now();
        self.work.push(st);
        if self.cfg.jobs <= 1 {
            self.drain(None, None);
            return;
        }
        // widen the tree breadth first, then let forked workers explore the subtrees
        let want = self.cfg.jobs * 48;
        if self.drain(Some(want), None) || self.work.is_empty() {
            return;
        }
        let front: Vec<State> = std::mem::take(&mut self.work);
        let sh = crate::par::Shared::new();
        let dir = std::env::temp_dir().join(format!("symx-{}-{}", std::process::id(), self.start.elapsed().as_nanos()));
        std::fs::create_dir_all(&dir).unwrap();
        let mut pids = vec![];
        for w in 0..self.cfg.jobs.min(front.len()) {
            let pid = unsafe { crate::par::fork() };
            if pid == 0 {
                self.rep = Report::default();
                self.solver.st = Default::default();
                self.rng = self.rng.wrapping_add((w as u64 + 1) * 0x1234567);
                loop {
                    let i = sh.next();
                    if i >= front.len() || sh.stopped() {
                        break;
                    }
                    self.work.push(front[i].clone());
                    if self.drain(None, Some(&sh)) {
                        break;
                    }
                }
                std::fs::write(dir.join(format!("{}", w)), self.dump()).unwrap();
                unsafe { crate::par::_exit(0) };
            }
            if pid < 0 {
                self.rep.incon.insert("a worker could not be started".into(), 1);
            } else {
                pids.push((w, pid));
            }
        }
        for (w, pid) in pids {
            let ok = crate::par::wait(pid);
            match std::fs::read_to_string(dir.join(format!("{}", w))) {
                Ok(t) if ok => self.merge(&t),
                _ => {
                    *self.rep.incon.entry("a worker died (memory?)".into()).or_default() += 1;
                }
            }
        }
        if sh.next() < front.len() && !sh.stopped() && self.rep.incon.is_empty() {
            self.rep.incon.insert("unexplored subtrees".into(), 1);
        }
        let _ = std::fs::remove_dir_all(&dir);
    }

    fn dump(&self) -> String {
        use std::fmt::Write;
        let r = &self.rep;
        let s = &self.solver.st;
        let hx = |b: &[u8]| b.iter().map(|x| format!("{:02x}", x)).collect::<String>();
        let es = |t: &str| hx(t.as_bytes());
        let mut o = String::new();
        let _ = writeln!(o, "n {} {} {} {} {} {} {}", r.paths, r.assumed, r.steps, r.forks, r.maxdepth, r.maxvars, r.maxsteps);
        let _ = writeln!(o, "s {} {} {} {} {} {} {} {}", s.queries, s.sat, s.unsat, s.unknown, s.cached, s.reused, s.time.as_nanos(), s.maxq.as_nanos());
        let _ = writeln!(o, "t {}", expr::nnodes());
        for (k, v) in &r.covers {
            let _ = writeln!(o, "c {} {}", k, v);
        }
        for (k, v) in &r.incon {
            let _ = writeln!(o, "i {} {}", v, es(k));
        }
        for v in &r.viol {
            let _ = writeln!(
                o,
                "v {} x{} x{} x{} x{} {} {}",
                v.count,
                es(&v.kind),
                es(&v.loc),
                es(&v.func),
                hx(&v.tape),
                v.fill.map(|f| f as i32).unwrap_or(-1),
                v.trace.iter().map(|t| format!("x{}", es(t))).collect::<Vec<_>>().join(" ")
            );
        }
        for (t, v) in &r.samples {
            let _ = writeln!(o, "m x{} {}", hx(t), v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        }
        for f in &r.funcs {
            let _ = writeln!(o, "f {}", f);
        }
        let _ = writeln!(o, "h {}", self.hit.iter().map(|x| if *x { '1' } else { '0' }).collect::<String>());
        for (k, v) in &self.forksites {
            let _ = writeln!(o, "k {} {}", v, es(k));
        }
        o
    }

    fn merge(&mut self, t: &str) {
        let un = |t: &str| -> Vec<u8> {
            let t = t.strip_prefix('x').unwrap_or(t).as_bytes();
            t.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect()
        };
        let us = |t: &str| String::from_utf8(un(t)).unwrap();
        let old = self.rep.samples.len();
        let mut samples = vec![];
        for l in t.lines() {
            let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
            let w: Vec<&str> = rest.split(' ').collect();
            let n = |i: usize| w[i].parse::<u64>().unwrap();
            match k {
                "n" => {
                    let r = &mut self.rep;
                    r.paths += n(0);
                    r.assumed += n(1);
                    r.steps += n(2);
                    r.forks += n(3);
                    r.maxdepth = r.maxdepth.max(n(4) as usize);
                    r.maxvars = r.maxvars.max(n(5) as u32);
                    r.maxsteps = r.maxsteps.max(n(6));
                }
                "s" => {
                    let s = &mut self.solver.st;
                    s.queries += n(0);
                    s.sat += n(1);
                    s.unsat += n(2);
                    s.unknown += n(3);
                    s.cached += n(4);
                    s.reused += n(5);
                    s.time += Duration::from_nanos(n(6));
                    s.maxq = s.maxq.max(Duration::from_nanos(n(7)));
                }
                "t" => self.terms += n(0),
                "c" => *self.rep.covers.entry(n(0) as u32).or_default() += n(1),
                "i" => *self.rep.incon.entry(us(w[1])).or_default() += n(0),
                "v" => {
                    let v = Violation {
                        count: n(0),
                        kind: us(w[1]),
                        loc: us(w[2]),
                        func: us(w[3]),
                        tape: un(w[4]),
                        fill: w[5].parse::<i32>().ok().filter(|x| *x >= 0).map(|x| x as u8),
                        trace: w[6..].iter().filter(|x| !x.is_empty()).map(|x| us(x)).collect(),
                    };
                    match self.rep.viol.iter_mut().find(|o| o.kind == v.kind && o.loc == v.loc && (!v.loc.is_empty() || o.func == v.func)) {
                        Some(o) => o.count += v.count,
                        None => self.rep.viol.push(v),
                    }
                }
                "m" => samples.push((un(w[0]), w[1..].iter().filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect::<Vec<u64>>())),
                "f" => {
                    self.rep.funcs.insert(n(0) as u32);
                }
                "h" => {
                    let b = rest.as_bytes();
                    if self.hit.len() < b.len() {
                        self.hit.resize(b.len(), false);
                    }
                    for (i, c) in b.iter().enumerate() {
                        self.hit[i] |= *c == b'1';
                    }
                }
                "k" => *self.forksites.entry(us(w[1])).or_default() += n(0),
                _ => panic!("worker report"),
            }
        }
        // keep an even mix of the workers' samples
        let k = self.cfg.samples;
        for (i, s) in samples.into_iter().enumerate() {
            if self.rep.samples.len() < k {
                self.rep.samples.push(s);
            } else if i % 2 == 0 && i < k / 2 + 1 {
                let j = (self.rand() as usize) % old.max(1).min(k.max(1));
                if j < self.rep.samples.len() {
                    self.rep.samples[j] = s;
                }
            }
        }
    }

    /// Explores the work list; returns true when the exploration has to stop.
    /// With `want`, breadth first and only until that many states are open.
    fn drain(&mut self, want: Option<usize>, sh: Option<&crate::par::Shared>) -> bool {
        let mut last = Instant::now();
        loop {
            let st = match want {
                Some(n) => {
                    if self.work.len() >= n || self.start.elapsed() > Duration::from_millis(1500) && self.work.len() > 1 {
                        return false;
                    }
                    if self.work.is_empty() {
                        None
                    } else {
                        Some(self.work.remove(0))
                    }
                }
                None => self.work.pop(),
            };
            let mut st = match st {
                Some(s) => s,
                None => return false,
            };
            let r = self.path(&mut st);
            self.rep.steps += st.steps;
            self.rep.maxsteps = self.rep.maxsteps.max(st.steps);
            self.rep.maxvars = self.rep.maxvars.max(st.nvars);
            match r {
                Stop::Done => {
                    self.rep.paths += 1;
                    for i in 0..128 {
                        if st.covers >> i & 1 == 1 {
                            *self.rep.covers.entry(i).or_default() += 1;
                        }
                    }
                    if self.stale(&st).is_none() {
                        self.sample(&st);
                    }
                }
                Stop::Assumed => self.rep.assumed += 1,
                Stop::Violation(k, l) => {
                    self.rep.paths += 1;
                    let trace = self.fileofs(&st);
                    let func = trace.first().cloned().unwrap_or_default();
                    if let Some(v) = self.rep.viol.iter_mut().find(|v| v.kind == k && v.loc == l && (!l.is_empty() || v.func == func)) {
                        v.count += 1;
                    } else {
                        let tape = self.tape_bytes(&st);
                        let fill = self.stale(&st).map(|u| st.model.v.get(u as usize).copied().unwrap_or(0));
                        self.rep.viol.push(Violation { kind: k, loc: l, func, trace, tape, fill, count: 1 });
                    }
                    self.viol_at.get_or_insert_with(Instant::now);
                    if let Some(s) = sh {
                        s.violation();
                    }
                    if self.rep.viol.len() >= self.cfg.max_viol {
                        if let Some(s) = sh {
                            s.stop();
                        }
                        return true;
                    }
                }
                Stop::Incon(s) => {
                    let f = st.frames.last().map(|f| f.f.name.clone()).unwrap_or_default();
                    *self.rep.incon.entry(format!("{} in {}", s, f)).or_default() += 1;
                }
            }
            if let Some(s) = sh {
                if s.stopped() {
                    return true;
                }
                if s.violated() {
                    self.viol_at.get_or_insert_with(Instant::now);
                }
            }
            if let Some(t) = self.viol_at {
                if t.elapsed() > Duration::from_secs(10) {
                    return true;
                }
            }
            if self.rep.paths >= self.cfg.max_paths {
                self.rep.incon.insert("path limit".into(), 1);
                return true;
            }
            if self.start.elapsed() > self.cfg.time {
                self.rep.incon.insert("time limit".into(), self.work.len() as u64);
                return true;
            }
            if self.profile && last.elapsed() > Duration::from_secs(5) {
                last = Instant::now();
                eprintln!(
                    "[{:?}] paths {} assumed {} work {} forks {} steps {} queries {} cached {} ztime {:?} nodes {}",
                    self.start.elapsed(),
                    self.rep.paths,
                    self.rep.assumed,
                    self.work.len(),
                    self.rep.forks,
                    self.rep.steps,
                    self.solver.st.queries,
                    self.solver.st.cached,
                    self.solver.st.time,
                    expr::nnodes()
                );
            }
        }
    }

    /// A byte of uninitialised memory that the path or its outputs depend on.
    fn stale(&self, st: &State) -> Option<u32> {
        let es = st.pc.iter().copied().chain(st.outs.iter().filter_map(|o| match o {
            V::S(e) => Some(*e),
            _ => None,
        }));
        for e in es {
            for v in expr::vars(e).iter() {
                if st.uninit.iter().any(|(a, b)| (*a..*b).contains(v)) {
                    return Some(*v);
                }
            }
        }
        None
    }

    fn rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }

    fn sample(&mut self, st: &State) {
        let k = self.cfg.samples as u64;
        if k == 0 {
            return;
        }
        let n = self.rep.paths;
        let slot = if n <= k {
            self.rep.samples.len()
        } else {
            let j = self.rand() % n;
            if j >= k {
                return;
            }
            j as usize
        };
        let tape = self.tape_bytes(st);
        let outs = st
            .outs
            .iter()
            .map(|v| match v {
                V::C(c) => *c as u64,
                V::S(e) => self.ev(st, *e) as u64,
                _ => 0,
            })
            .collect();
        if slot < self.rep.samples.len() {
            self.rep.samples[slot] = (tape, outs);
        } else {
            self.rep.samples.push((tape, outs));
        }
    }

    fn path(&mut self, st: &mut State) -> Stop {
        let mut n = 0u64;
        loop {
            n += 1;
            if n & 0xffff == 0 && self.start.elapsed() > self.cfg.time {
                return Stop::Violation("runs on: time limit within a path".into(), String::new());
            }
            st.steps += 1;
            if st.steps > self.cfg.max_steps {
                return Stop::Violation("runs on: step limit".into(), String::new());
            }
            match self.step(st) {
                Ok(()) => {
                    if expr::WIDE.get() {
                        expr::WIDE.set(false);
                        return Stop::Incon("arithmetic on more than 128 bits".into());
                    }
                }
                Err(s) => return s,
            }
        }
    }

    fn adv(&self, st: &mut State) {
        self.top(st).ip += 1;
    }

    /// address of a memory access of n bytes; Err(table) style handled by caller
    fn addr(&mut self, st: &mut State, v: &V) -> R<u64> {
        Ok(self.conc(st, v)? as u64)
    }

    fn sym_load(&mut self, st: &mut State, e: E, ty: &Ty) -> R<Option<V>> {
        // read-only table lookup: the whole range of addresses inside one constant object
        if !matches!(ty, Ty::Int(_) | Ty::Ptr) || ty.bits() > 64 {
            return Ok(None);
        }
        let n = ty.store_bytes();
        let a = self.ev(st, e) as u64;
        let (base, o) = match self.find(st, a, n) {
            Some(x) => x,
            None => return Ok(None),
        };
        if o.kind != Kind::Const || o.b.len() > 1 << 16 {
            return Ok(None);
        }
        let w = expr::width(e);
        let off = expr::bin(B::Sub, e, expr::cst(base as u128, w));
        let lim = o.b.len() as u128 - n as u128;
        let bad = expr::cmp(P::Ugt, off, expr::cst(lim, w));
        match self.sat(st, bad) {
            Ok(None) => {}
            _ => return Ok(None),
        }
        if o.b.iter().any(|c| *c >= 256) {
            return Ok(None);
        }
        let vals: Vec<u64> = (0..=lim as usize)
            .map(|i| {
                let mut x = 0u64;
                for k in 0..n as usize {
                    x |= (o.b[i + k] as u64) << (8 * k);
                }
                mask(x as u128, ty.bits()) as u64
            })
            .collect();
        Ok(Some(sv(expr::table(vals, off, ty.bits()))))
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let (f, blk, ip) = {
            let fr = st.frames.last().unwrap();
            (fr.f.clone(), fr.blk as usize, fr.ip as usize)
        };
        let inst = &f.blocks[blk].insts[ip];
        let dbg = f.blocks[blk].dbg[ip] as usize;
        if dbg >= self.hit.len() {
            self.hit.resize(dbg + 1024, false);
        }
        self.hit[dbg] = true;
        match inst {
            I::Bin { d, op, ty, a, b } => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let v = match ty {
                    Ty::Vec(_, t) => lanes2(&x, &y, |p, q| vbin(*op, t.bits(), p, q)),
                    Ty::Float | Ty::Double | Ty::Other => return Err(Stop::Incon("floating point".into())),
                    _ => vbin(*op, ty.bits(), &x, &y),
                };
                let fr = self.top(st);
                fr.regs[*d as usize] = v;
                fr.ip += 1;
            }
            I::Flt { d, name, from, to, a, b } => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let v = match (from, to) {
                    (Ty::Vec(n, f), Ty::Vec(_, t)) => {
                        let (x, y) = match (&x, &y) {
                            (V::A(x), V::A(y)) => (x.clone(), y.clone()),
                            _ => panic!("lanes"),
                        };
                        let mut out = vec![];
                        for i in 0..*n as usize {
                            out.push(self.flt(st, name, f, t, &x[i], &y[i])?);
                        }
                        V::A(Rc::new(out))
                    }
                    _ => self.flt(st, name, from, to, &x, &y)?,
                };
                let fr = self.top(st);
                fr.regs[*d as usize] = v;
                fr.ip += 1;
            }
            I::Cmp { d, p, ty, a, b } => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let v = match ty {
                    Ty::Vec(_, t) => lanes2(&x, &y, |q, r| vcmp(*p, t.bits(), q, r)),
                    _ => vcmp(*p, ty.bits(), &x, &y),
                };
                let fr = self.top(st);
                fr.regs[*d as usize] = v;
                fr.ip += 1;
            }
            I::Cast { d, k, from, to, a } => {
                let x = self.op(st, a);
                let v = cast(*k, from, to, &x);
                let fr = self.top(st);
                fr.regs[*d as usize] = v;
                fr.ip += 1;
            }
            I::Copy { d, a, .. } => {
                let x = self.op(st, a);
                let fr = self.top(st);
                fr.regs[*d as usize] = x;
                fr.ip += 1;
            }
            I::Gep { d, base, off, terms } => {
                let mut v = self.op(st, base);
                if let V::A(_) = v {
                    return Err(Stop::Incon("vector gep".into()));
                }
                if *off != 0 {
                    v = vbin(B::Add, 64, &v, &V::C(*off as u64 as u128));
                }
                for (o, w, sc) in terms {
                    let x = self.op(st, o);
                    let x = match x {
                        V::C(c) => V::C(mask(sext(c, *w) as u128, 64)),
                        V::S(e) => sv(if *w < 64 { expr::sextend(e, 64) } else { expr::extract(e, 0, 64) }),
                        _ => return Err(Stop::Incon("vector gep".into())),
                    };
                    let x = vbin(B::Mul, 64, &x, &V::C(*sc as u64 as u128));
                    v = vbin(B::Add, 64, &v, &x);
                }
                let fr = self.top(st);
                fr.regs[*d as usize] = v;
                fr.ip += 1;
            }
            I::Load { d, ty, p } => {
                let pv = self.op(st, p);
                let v = match &pv {
                    V::S(e) => match self.sym_load(st, *e, ty)? {
                        Some(v) => v,
                        None => {
                            let a = self.addr(st, &pv)?;
                            self.load(st, a, ty)?
                        }
                    },
                    _ => {
                        let a = self.addr(st, &pv)?;
                        self.load(st, a, ty)?
                    }
                };
                let fr = self.top(st);
                fr.regs[*d as usize] = v;
                fr.ip += 1;
            }
            I::Store { ty, v, p } => {
                let pv = self.op(st, p);
                let a = self.addr(st, &pv)?;
                let x = self.op(st, v);
                self.store(st, a, ty, &x)?;
                self.adv(st);
            }
            I::Alloca { d, size, n, .. } => {
                let n = self.op(st, n);
                let n = self.conc(st, &n)? as u64;
                let a = self.alloc(st, size * n, 16, Kind::Stack, UNINIT);
                let fr = self.top(st);
                fr.allocas.push(a);
                fr.regs[*d as usize] = V::C(a as u128);
                fr.ip += 1;
            }
            I::Extract { d, a, idx } => {
                let mut x = self.op(st, a);
                for i in idx {
                    x = match x {
                        V::A(v) => v[*i as usize].clone(),
                        _ => panic!("extractvalue"),
                    };
                }
                self.set(st, *d, x);
                self.adv(st);
            }
            I::Insert { d, a, v, idx, .. } => {
                let x = self.op(st, a);
                let y = self.op(st, v);
                let r = insert(&x, &y, idx);
                self.set(st, *d, r);
                self.adv(st);
            }
            I::ExtractEl { d, a, i } => {
                let x = self.op(st, a);
                let i = self.op(st, i);
                let i = self.conc(st, &i)? as usize;
                let r = match &x {
                    V::A(v) => v[i].clone(),
                    _ => panic!("extractelement"),
                };
                self.set(st, *d, r);
                self.adv(st);
            }
            I::InsertEl { d, a, v, i, .. } => {
                let x = self.op(st, a);
                let y = self.op(st, v);
                let i = self.op(st, i);
                let i = self.conc(st, &i)? as u32;
                let r = insert(&x, &y, &[i]);
                self.set(st, *d, r);
                self.adv(st);
            }
            I::Shuffle { d, a, b, mask, ty } => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let n = ty.nfields();
                let r = match (&x, &y) {
                    (V::A(x), V::A(y)) => mask
                        .iter()
                        .map(|m| {
                            if *m < 0 {
                                V::C(0)
                            } else if (*m as usize) < n {
                                x[*m as usize].clone()
                            } else {
                                y[*m as usize - n].clone()
                            }
                        })
                        .collect(),
                    _ => panic!("shuffle"),
                };
                self.set(st, *d, V::A(Rc::new(r)));
                self.adv(st);
            }
            I::Select { d, c, cty, ty, a, b } => {
                let cv = self.op(st, c);
                let (x, y) = (self.op(st, a), self.op(st, b));
                let r = match (&cv, cty) {
                    (V::A(cs), Ty::Vec(..)) => match (&x, &y) {
                        (V::A(x), V::A(y)) => {
                            let t = ty.field(0);
                            V::A(Rc::new((0..cs.len()).map(|i| vite(&cs[i], &x[i], &y[i], t.bits())).collect()))
                        }
                        _ => panic!("select"),
                    },
                    (V::C(k), _) => {
                        if *k & 1 == 1 {
                            x
                        } else {
                            y
                        }
                    }
                    (V::S(e), _) => {
                        // pointers stay concrete: fork instead of building an if-then-else
                        if ty.scalar() && *ty != Ty::Ptr && !is_ptrish(&x) && !is_ptrish(&y) {
                            vite(&cv, &x, &y, ty.bits())
                        } else if self.decide(st, *e)? {
                            x
                        } else {
                            y
                        }
                    }
                    _ => panic!("select"),
                };
                self.set(st, *d, r);
                self.adv(st);
            }
            I::Br { to } => self.goto(st, *to),
            I::CondBr { c, t, f } => {
                let cv = self.op(st, c);
                let k = match cv {
                    V::C(k) => k & 1 == 1,
                    V::S(e) => self.decide(st, e)?,
                    _ => panic!("br"),
                };
                let to = if k { *t } else { *f };
                self.goto(st, to);
            }
            I::Switch { v, def, cases, .. } => {
                let x = self.op(st, v);
                match x {
                    V::C(c) => {
                        let to = cases.iter().find(|k| k.0 == c).map(|k| k.1).unwrap_or(*def);
                        self.goto(st, to);
                    }
                    V::S(e) => {
                        // one feasible target at a time: condition for the target the model takes
                        let w = expr::width(e);
                        let mv = self.ev(st, e);
                        let to = cases.iter().find(|k| k.0 == mv).map(|k| k.1).unwrap_or(*def);
                        let mut hit = expr::fls();
                        for (k, t) in cases {
                            if (*t == to) == (to != *def) {
                                hit = expr::bin(B::Or, hit, expr::cmp(P::Eq, e, expr::cst(*k, w)));
                            }
                        }
                        let cond = if to == *def { expr::not(hit) } else { hit };
                        let r = self.decide(st, cond)?;
                        debug_assert!(r);
                        self.goto(st, to);
                    }
                    _ => panic!("switch"),
                }
            }
            I::Ret { v, .. } => {
                let r = v.as_ref().map(|v| self.op(st, v));
                let fr = st.frames.pop().unwrap();
                for a in &fr.allocas {
                    st.mem.remove(a);
                }
                if st.frames.is_empty() {
                    return Err(Stop::Done);
                }
                if let (Some(d), Some(r)) = (fr.dest, r) {
                    self.set(st, d, r);
                }
                match fr.normal {
                    Some(b) => self.goto(st, b),
                    None => self.adv(st),
                }
            }
            I::Unreachable => return Err(Stop::Violation("unreachable code reached (undefined behaviour)".into(), String::new())),
            I::Nop => self.adv(st),
            I::Rmw { d, op, ty, p, v } => {
                let pv = self.op(st, p);
                let a = self.addr(st, &pv)?;
                let x = self.op(st, v);
                let old = self.load(st, a, ty)?;
                let w = ty.bits();
                let new = match op.as_str() {
                    "xchg" => x,
                    "add" => vbin(B::Add, w, &old, &x),
                    "sub" => vbin(B::Sub, w, &old, &x),
                    "and" => vbin(B::And, w, &old, &x),
                    "or" => vbin(B::Or, w, &old, &x),
                    "xor" => vbin(B::Xor, w, &old, &x),
                    "nand" => vnot(&vbin(B::And, w, &old, &x), w),
                    "umax" => vite(&vcmp(P::Ugt, w, &old, &x), &old, &x, w),
                    "umin" => vite(&vcmp(P::Ult, w, &old, &x), &old, &x, w),
                    "max" => vite(&vcmp(P::Sgt, w, &old, &x), &old, &x, w),
                    "min" => vite(&vcmp(P::Slt, w, &old, &x), &old, &x, w),
                    _ => return Err(Stop::Incon(format!("atomicrmw {}", op))),
                };
                self.store(st, a, ty, &new)?;
                self.set(st, *d, old);
                self.adv(st);
            }
            I::CmpXchg { d, ty, p, cmp, new } => {
                let pv = self.op(st, p);
                let a = self.addr(st, &pv)?;
                let (c, n) = (self.op(st, cmp), self.op(st, new));
                let old = self.load(st, a, ty)?;
                let eq = vcmp(P::Eq, ty.bits(), &old, &c);
                let eq = self.conc(st, &eq)?;
                if eq == 1 {
                    self.store(st, a, ty, &n)?;
                }
                self.set(st, *d, V::A(Rc::new(vec![old, V::C(eq)])));
                self.adv(st);
            }
            I::Call { d, ret, f: callee, args, normal, tgt } => {
                let mut av: Vec<V> = Vec::with_capacity(args.len());
                for a in args {
                    av.push(self.op(st, &a.1));
                }
                let t = match callee {
                    Callee::Direct(_) => *tgt,
                    Callee::Indirect(o) => {
                        let v = self.op(st, o);
                        let a = self.conc(st, &v)? as u64;
                        if a < FBASE || (a - FBASE) % 16 != 0 || (a - FBASE) / 16 >= self.fnames.len() as u64 {
                            return Err(Stop::Violation(format!("call through invalid function pointer {:#x}", a), String::new()));
                        }
                        let n = self.fnames[((a - FBASE) / 16) as usize].clone();
                        self.target(&n)
                    }
                };
                match &self.tgts[t as usize] {
                    Tgt::Func(id) => {
                        let id = *id;
                        self.push_call(st, id, av, *d, *normal)?;
                    }
                    Tgt::Panic(n) => {
                        let n = n.clone();
                        let mut loc = self.location(st, &av);
                        if loc.is_empty() {
                            loc = String::new();
                        }
                        let short = short_name(&n);
                        let extra = if n.contains("panic_bounds_check") || n.contains("_fail") {
                            let vs: Vec<String> = av
                                .iter()
                                .map(|v| match v {
                                    V::C(c) => format!("{}", c),
                                    V::S(e) => format!("{}*", self.ev(st, *e)),
                                    _ => "?".into(),
                                })
                                .collect();
                            let _ = vs;
                            String::new()
                        } else {
                            String::new()
                        };
                        return Err(Stop::Violation(format!("panic ({}){}", short, extra), loc));
                    }
                    Tgt::Intr(n) => {
                        let n = n.clone();
                        let v = self.intrinsic(st, &n, ret, args, &av)?;
                        if let (Some(d), Some(v)) = (d, v) {
                            self.set(st, *d, v);
                        }
                        match normal {
                            Some(b) => self.goto(st, *b),
                            None => self.adv(st),
                        }
                    }
                    Tgt::Ext(n) => {
                        let n = n.clone();
                        let v = self.external(st, &n, &av)?;
                        if let (Some(d), Some(v)) = (d, v) {
                            self.set(st, *d, v);
                        }
                        match normal {
                            Some(b) => self.goto(st, *b),
                            None => self.adv(st),
                        }
                    }
                }
            }
            I::Bad(s) => return Err(Stop::Incon(format!("unsupported instruction: {}", s.chars().take(80).collect::<String>()))),
        }
        Ok(())
    }

    fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (b, o) = match self.find(st, src, n) {
            Some(x) => x,
            None => return Err(self.memerr(st, "read (copy)", src, n)),
        };
        let off = (src - b) as usize;
        let inside = dst >= b && dst < b + o.b.len() as u64;
        if inside {
            let cells = o.b[off..off + n as usize].to_vec();
            drop(o);
            return match self.find_mut(st, dst, n) {
                Some((b, o)) => {
                    let off = (dst - b) as usize;
                    o.b[off..off + n as usize].copy_from_slice(&cells);
                    Ok(())
                }
                None => Err(self.memerr(st, "write (copy)", dst, n)),
            };
        }
        match self.find_mut(st, dst, n) {
            Some((c, d)) => {
                let at = (dst - c) as usize;
                d.b[at..at + n as usize].copy_from_slice(&o.b[off..off + n as usize]);
                Ok(())
            }
            None => Err(self.memerr(st, "write (copy)", dst, n)),
        }
    }

    fn bytes(&mut self, st: &mut State, a: u64, n: u64) -> R<Vec<V>> {
        let mut v = Vec::with_capacity(n as usize);
        for i in 0..n {
            v.push(self.load(st, a + i, &Ty::Int(8))?);
        }
        Ok(v)
    }

    /// One floating point operation (the name of the instruction, `fcmp.` and the
    /// predicate, or the name of an intrinsic).
    fn flt(&mut self, st: &mut State, name: &str, from: &Ty, to: &Ty, a: &V, b: &V) -> R<V> {
        if !matches!(from, Ty::Float | Ty::Double | Ty::Int(_)) || !matches!(to, Ty::Float | Ty::Double | Ty::Int(_)) || matches!((from, to), (Ty::Other, _) | (_, Ty::Other)) {
            return Err(Stop::Incon("floating point type".into()));
        }
        let (fw, tw) = (from.bits(), to.bits());
        let (x, y) = (ex(a, fw), ex(b, fw));
        let f = |op, x, y, w| sv(expr::fp(op, x, y, w));
        let one = |v: V| v;
        let and = |p: V, q: V| vbin(B::And, 1, &p, &q);
        let or = |p: V, q: V| vbin(B::Or, 1, &p, &q);
        let no = |p: V| vnot(&p, 1);
        let (lt, le, eq) = (|x, y| sv(expr::fp(F::Lt, x, y, 1)), |x, y| sv(expr::fp(F::Le, x, y, 1)), |x, y| sv(expr::fp(F::Eq, x, y, 1)));
        Ok(one(match name {
            "fadd" => f(F::Add, x, y, tw),
            "fsub" => f(F::Sub, x, y, tw),
            "fmul" => f(F::Mul, x, y, tw),
            "fdiv" => f(F::Div, x, y, tw),
            "fneg" => vbin(B::Xor, fw, a, &V::C(1 << (fw - 1))),
            "fabs" => vbin(B::And, fw, a, &V::C(mask(u128::MAX, fw - 1))),
            "sqrt" => f(F::Sqrt, x, y, tw),
            "floor" => f(F::Floor, x, y, tw),
            "ceil" => f(F::Ceil, x, y, tw),
            "trunc" => f(F::Trunc, x, y, tw),
            "roundeven" | "rint" | "nearbyint" => f(F::Even, x, y, tw),
            "round" => f(F::Away, x, y, tw),
            "fptrunc" | "fpext" => f(F::Cvt, x, y, tw),
            "uitofp" => f(F::FromU, x, y, tw),
            "sitofp" => f(F::FromS, x, y, tw),
            "copysign" => {
                let m = vbin(B::And, fw, a, &V::C(mask(u128::MAX, fw - 1)));
                let s = vbin(B::And, fw, b, &V::C(1 << (fw - 1)));
                vbin(B::Or, fw, &m, &s)
            }
            "minnum" | "maxnum" | "minimumnum" | "maximumnum" => {
                let c = if name.starts_with("min") { lt(x, y) } else { lt(y, x) };
                // a NaN operand gives the other one
                let nan = no(eq(y, y));
                vite(&or(c, nan), a, b, fw)
            }
            // saturating: NaN to 0, too small to the least, too large to the greatest value
            "fptoui" | "fptosi" => {
                let signed = name == "fptosi";
                let (bits, isf) = (fw, fw == 32);
                let c = |v: f64| expr::cst(if isf { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 }, bits);
                let p2 = |k: u32| 2f64.powi(k as i32);
                let (lo, hi) = if signed { (-p2(tw - 1), p2(tw - 1)) } else { (0.0, p2(tw)) };
                let (least, most) = if signed { (1u128 << (tw - 1), (1u128 << (tw - 1)) - 1) } else { (0, mask(u128::MAX, tw)) };
                let r = f(if signed { F::ToS } else { F::ToU }, x, x, tw);
                let r = vite(&le(x, c(lo)), &V::C(least), &r, tw);
                let r = vite(&le(c(hi), x), &V::C(most), &r, tw);
                vite(&eq(x, x), &r, &V::C(0), tw)
            }
            "fcmp.false" => V::C(0),
            "fcmp.true" => V::C(1),
            "fcmp.oeq" => eq(x, y),
            "fcmp.ogt" => lt(y, x),
            "fcmp.oge" => le(y, x),
            "fcmp.olt" => lt(x, y),
            "fcmp.ole" => le(x, y),
            "fcmp.one" => or(lt(x, y), lt(y, x)),
            "fcmp.ord" => and(eq(x, x), eq(y, y)),
            "fcmp.uno" => no(and(eq(x, x), eq(y, y))),
            "fcmp.ueq" => no(or(lt(x, y), lt(y, x))),
            "fcmp.ugt" => no(le(x, y)),
            "fcmp.uge" => no(lt(x, y)),
            "fcmp.ult" => no(le(y, x)),
            "fcmp.ule" => no(lt(y, x)),
            "fcmp.une" => no(eq(x, y)),
            _ => {
                // the mathematical functions: on the concrete operands of each path
                let (p, q) = (self.conc(st, a)?, self.conc(st, b)?);
                let r = if fw == 64 && tw == 64 {
                    math64(name, f64::from_bits(p as u64), f64::from_bits(q as u64)).map(|r| r.to_bits() as u128)
                } else if fw == 32 && tw == 32 {
                    math64(name, f32::from_bits(p as u32) as f64, f32::from_bits(q as u32) as f64).map(|r| (r as f32).to_bits() as u128)
                } else {
                    None
                };
                match r {
                    Some(r) => V::C(r),
                    None => return Err(Stop::Incon(format!("floating point {}", name))),
                }
            }
        }))
    }

    fn external(&mut self, st: &mut State, n: &str, a: &[V]) -> R<Option<V>> {
        Ok(match n {
            "memcmp" | "bcmp" => {
                let len = self.conc(st, &a[2])? as u64;
                let (p, q) = (self.addr(st, &a[0])?, self.addr(st, &a[1])?);
                if len == 0 {
                    return Ok(Some(V::C(0)));
                }
                let (mut p, mut q, mut len) = (p, q, len);
                // leading bytes that are the same cell on both sides decide nothing
                if let (Some((b, o)), Some((c, d))) = (self.find(st, p, len), self.find(st, q, len)) {
                    let x = &o.b[(p - b) as usize..(p - b + len) as usize];
                    let y = &d.b[(q - c) as usize..(q - c + len) as usize];
                    let k = x.iter().zip(y).take_while(|(x, y)| x == y && **x != UNINIT).count() as u64;
                    p += k;
                    q += k;
                    len -= k;
                    if len > 0 && n == "bcmp" {
                        // two known bytes that differ settle it
                        let k = x.len() - len as usize;
                        if x[k] < 256 && y[k] < 256 && !x.contains(&UNINIT) && !y.contains(&UNINIT) {
                            return Ok(Some(V::C(1)));
                        }
                    }
                }
                let (x, y) = (self.bytes(st, p, len)?, self.bytes(st, q, len)?);
                let mut r = V::C(0);
                if n == "bcmp" {
                    let mut eq = V::C(1);
                    for i in 0..len as usize {
                        eq = vbin(B::And, 1, &eq, &vcmp(P::Eq, 8, &x[i], &y[i]));
                    }
                    r = vite(&eq, &V::C(0), &V::C(1), 32);
                } else {
                    for i in (0..len as usize).rev() {
                        let eq = vcmp(P::Eq, 8, &x[i], &y[i]);
                        let lt = vcmp(P::Ult, 8, &x[i], &y[i]);
                        let d = vite(&lt, &V::C(0xffff_ffff), &V::C(1), 32);
                        r = vite(&eq, &r, &d, 32);
                    }
                }
                Some(r)
            }
            "memcpy" | "memmove" => {
                let len = self.conc(st, &a[2])? as u64;
                let (p, q) = (self.addr(st, &a[0])?, self.addr(st, &a[1])?);
                self.copy(st, p, q, len)?;
                Some(V::C(p as u128))
            }
            "strlen" => {
                let p = self.addr(st, &a[0])?;
                let mut i = 0;
                loop {
                    let b = self.load(st, p + i, &Ty::Int(8))?;
                    if self.conc(st, &b)? == 0 {
                        break;
                    }
                    i += 1;
                }
                Some(V::C(i as u128))
            }
            "symx_any" => {
                let p = self.addr(st, &a[0])?;
                let len = self.conc(st, &a[1])? as u64;
                let s = st.nvars;
                for i in 0..len {
                    let e = self.fresh_byte(st);
                    self.store(st, p + i, &Ty::Int(8), &V::S(e))?;
                }
                if len > 0 {
                    st.tape.push(Tape::Bytes(s, len as u32));
                }
                None
            }
            "symx_choose" => {
                let n = self.conc(st, &a[0])? as u32;
                if n == 0 {
                    return Err(Stop::Assumed);
                }
                let first = st.nchoice == 0;
                let mut opts: Vec<u32> = (0..n).collect();
                if first {
                    if let Some((k, m)) = self.cfg.shard {
                        opts.retain(|i| i % m == k);
                    }
                }
                if opts.is_empty() {
                    return Err(Stop::Assumed);
                }
                // fork: each alternative continues after this call
                let fr = st.frames.last().unwrap().clone();
                let (d, normal) = match &fr.f.blocks[fr.blk as usize].insts[fr.ip as usize] {
                    I::Call { d, normal, .. } => (*d, *normal),
                    _ => unreachable!(),
                };
                for k in opts[1..].iter().rev() {
                    let mut o = st.clone();
                    o.nchoice += 1;
                    o.tape.push(Tape::Choice(*k));
                    if let Some(d) = d {
                        self.set(&mut o, d, V::C(*k as u128));
                    }
                    match normal {
                        Some(b) => self.goto(&mut o, b),
                        None => self.adv(&mut o),
                    }
                    self.work.push(o);
                    self.rep.forks += 1;
                }
                st.nchoice += 1;
                st.tape.push(Tape::Choice(opts[0]));
                Some(V::C(opts[0] as u128))
            }
            "symx_assume" => {
                match &a[0] {
                    V::C(c) => {
                        if c & 1 == 0 {
                            return Err(Stop::Assumed);
                        }
                    }
                    V::S(e) => {
                        let e = if expr::width(*e) > 1 { expr::extract(*e, 0, 1) } else { *e };
                        if self.ev(st, e) != 1 {
                            match self.sat(st, e)? {
                                Some(m) => st.model = m,
                                None => return Err(Stop::Assumed),
                            }
                        }
                        self.assume(st, e);
                    }
                    _ => panic!(),
                }
                None
            }
            "symx_tier" => Some(V::C(self.cfg.tier as u128)),
            "symx_conc" => Some(V::C(self.conc(st, &a[0])?)),
            "symx_cover" => {
                let k = self.conc(st, &a[0])? as u32;
                st.covers |= 1u128 << k;
                None
            }
            "symx_out" => {
                st.outs.push(a[0].clone());
                None
            }
            "symx_alloc" => {
                let size = self.conc(st, &a[0])? as u64;
                let al = self.conc(st, &a[1])? as u64;
                if size > MAX_ALLOC {
                    return Err(Stop::Violation("runs on: allocation limit".into(), String::new()));
                }
                Some(V::C(self.alloc(st, size, al, Kind::Heap(al), UNINIT) as u128))
            }
            "symx_calloc" => {
                let size = self.conc(st, &a[0])? as u64;
                let al = self.conc(st, &a[1])? as u64;
                Some(V::C(self.alloc(st, size, al, Kind::Heap(al), 0) as u128))
            }
            "symx_dealloc" | "symx_realloc" => {
                let p = self.addr(st, &a[0])?;
                let size = self.conc(st, &a[1])? as u64;
                let al = self.conc(st, &a[2])? as u64;
                let new = if n == "symx_realloc" { Some(self.conc(st, &a[3])? as u64) } else { None };
                match st.mem.get(&p) {
                    Some(o) if o.kind == Kind::Heap(al) && o.b.len() as u64 == size => {}
                    Some(o) => {
                        return Err(Stop::Violation(format!("dealloc layout mismatch: {}+{} vs {:?} {}", size, al, o.kind, o.b.len()), String::new()));
                    }
                    None => return Err(Stop::Violation(format!("dealloc of a pointer that is not a live allocation ({:#x})", p), String::new())),
                }
                let r = match new {
                    None => None,
                    Some(ns) => {
                        if ns > MAX_ALLOC {
                            return Err(Stop::Violation("runs on: allocation limit".into(), String::new()));
                        }
                        let q = self.alloc(st, ns, al, Kind::Heap(al), UNINIT);
                        self.copy(st, q, p, size.min(ns))?;
                        Some(V::C(q as u128))
                    }
                };
                st.mem.remove(&p);
                r
            }
            "symx_fail" => {
                let l = self.location(st, a);
                return Err(Stop::Violation("assertion".into(), l));
            }
            // the environment: a fixed source of random numbers, a fixed clock, no
            // variables; nothing is written anywhere
            "getrandom" => {
                let p = self.addr(st, &a[0])?;
                let len = self.conc(st, &a[1])? as u64;
                for i in 0..len {
                    self.store(st, p + i, &Ty::Int(8), &V::C((i as u128 * 37 + 11) & 0xff))?;
                }
                Some(V::C(len as u128))
            }
            "clock_gettime" => {
                let p = self.addr(st, &a[1])?;
                self.store(st, p, &Ty::Int(64), &V::C(1_000_000))?;
                self.store(st, p + 8, &Ty::Int(64), &V::C(0))?;
                Some(V::C(0))
            }
            "getenv" => Some(V::C(0)),
            "write" => Some(a[2].clone()),
            "__cxa_thread_atexit_impl" => Some(V::C(0)),
            _ => {
                let f = n.strip_suffix('f').filter(|_| n.len() > 3);
                if !a.is_empty() && a.len() <= 2 {
                    for (m, t) in [(Some(n), Ty::Double), (f, Ty::Float)] {
                        if let Some(m) = m.filter(|m| math64(m, 1.0, 1.0).is_some()) {
                            return self.flt(st, m, &t, &t, &a[0], &a[a.len() - 1]).map(Some);
                        }
                    }
                }
                return Err(Stop::Incon(format!("unmodelled external {}", n)));
            }
        })
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, ret: &Ty, args: &[(Ty, Op)], a: &[V]) -> R<Option<V>> {
        let base = n.trim_start_matches("llvm.");
        if base.starts_with("memcpy") || base.starts_with("memmove") {
            let len = self.conc(st, &a[2])? as u64;
            if len == 0 {
                return Ok(None);
            }
            let (p, q) = (self.addr(st, &a[0])?, self.addr(st, &a[1])?);
            self.copy(st, p, q, len)?;
            return Ok(None);
        }
        if base.starts_with("memset") {
            let len = self.conc(st, &a[2])? as u64;
            if len == 0 {
                return Ok(None);
            }
            let p = self.addr(st, &a[0])?;
            let c = match &a[1] {
                V::C(c) => *c as u8 as u32,
                V::S(e) => cell(*e),
                _ => panic!(),
            };
            match self.find_mut(st, p, len) {
                Some((b, o)) => {
                    let off = (p - b) as usize;
                    for x in o.b[off..off + len as usize].iter_mut() {
                        *x = c;
                    }
                }
                None => return Err(self.memerr(st, "write (memset)", p, len)),
            }
            return Ok(None);
        }
        for skip in ["lifetime", "dbg", "assume", "experimental.noalias", "invariant", "prefetch", "var.annotation", "sideeffect", "donothing", "x86.sse2.pause"] {
            if base.starts_with(skip) {
                return Ok(None);
            }
        }
        if base.starts_with("trap") || base.starts_with("ubsantrap") || base.starts_with("debugtrap") {
            return Err(Stop::Violation("trap (abort)".into(), String::new()));
        }
        if base.starts_with("threadlocal.address") || base.starts_with("expect") || base.starts_with("launder") || base.starts_with("strip") || base.starts_with("ssa.copy") {
            return Ok(Some(a[0].clone()));
        }
        if base.starts_with("is.constant") {
            return Ok(Some(V::C(0)));
        }
        if base.starts_with("objectsize") {
            return Ok(Some(V::C(mask(u128::MAX, ret.bits()))));
        }
        if base.starts_with("ptrmask") {
            return Ok(Some(vbin(B::And, 64, &a[0], &a[1])));
        }
        if base.starts_with("load.relative") {
            let p = self.addr(st, &a[0])?;
            let o = self.conc(st, &a[1])? as u64;
            let q = p.wrapping_add(o);
            let v = self.load(st, q, &Ty::Int(32))?;
            let v = self.conc(st, &v)?;
            return Ok(Some(V::C(p.wrapping_add(sext(v, 32) as u64) as u128)));
        }
        if let Some(r) = base.strip_prefix("vector.reduce.") {
            let (vt, t) = match &args[0].0 {
                Ty::Vec(_, t) => (a[0].clone(), t.bits()),
                _ => return Err(Stop::Incon(n.into())),
            };
            let xs = match &vt {
                V::A(x) => x.clone(),
                _ => panic!(),
            };
            let mut r0 = xs[0].clone();
            for x in &xs[1..] {
                r0 = if r.starts_with("add") {
                    vbin(B::Add, t, &r0, x)
                } else if r.starts_with("or") {
                    vbin(B::Or, t, &r0, x)
                } else if r.starts_with("and") {
                    vbin(B::And, t, &r0, x)
                } else if r.starts_with("xor") {
                    vbin(B::Xor, t, &r0, x)
                } else if r.starts_with("mul") {
                    vbin(B::Mul, t, &r0, x)
                } else if r.starts_with("umax") {
                    vite(&vcmp(P::Ugt, t, &r0, x), &r0, x, t)
                } else if r.starts_with("umin") {
                    vite(&vcmp(P::Ult, t, &r0, x), &r0, x, t)
                } else {
                    return Err(Stop::Incon(n.into()));
                };
            }
            return Ok(Some(r0));
        }
        // element-wise on vectors
        if let Ty::Vec(k, t) = ret {
            let mut out = vec![];
            for i in 0..*k as usize {
                let la: Vec<V> = a
                    .iter()
                    .map(|x| match x {
                        V::A(v) if v.len() == *k as usize => v[i].clone(),
                        x => x.clone(),
                    })
                    .collect();
                let lt: Vec<(Ty, Op)> = args
                    .iter()
                    .map(|(ty, o)| match ty {
                        Ty::Vec(_, t) => ((**t).clone(), o.clone()),
                        t => (t.clone(), o.clone()),
                    })
                    .collect();
                match self.intrinsic(st, n, t, &lt, &la)? {
                    Some(v) => out.push(v),
                    None => return Err(Stop::Incon(n.into())),
                }
            }
            return Ok(Some(V::A(Rc::new(out))));
        }
        if matches!(args.first(), Some((Ty::Float | Ty::Double, _))) {
            let name = base.split('.').next().unwrap();
            if name == "is" {
                return Err(Stop::Incon(format!("intrinsic {}", n)));
            }
            if name == "fma" || name == "fmuladd" {
                let p = self.flt(st, "fmul", ret, ret, &a[0], &a[1])?;
                if name == "fma" {
                    return Err(Stop::Incon(format!("intrinsic {}", n)));
                }
                return self.flt(st, "fadd", ret, ret, &p, &a[2]).map(Some);
            }
            let b = if a.len() > 1 { &a[1] } else { &a[0] };
            return self.flt(st, name, &args[0].0, ret, &a[0], b).map(Some);
        }
        let w = args.first().map(|x| if x.0.scalar() { x.0.bits() } else { 0 }).unwrap_or(0);
        if w == 0 {
            return Err(Stop::Incon(format!("intrinsic {}", n)));
        }
        let ow = |name: &str| base.starts_with(name);
        let pair = |v: V, o: V| Ok(Some(V::A(Rc::new(vec![v, o]))));
        if ow("uadd.with.overflow") {
            let r = vbin(B::Add, w, &a[0], &a[1]);
            let o = vcmp(P::Ult, w, &r, &a[0]);
            // range-based shortcut
            if hi(&a[0]).checked_add(hi(&a[1])).map(|x| x <= mask(u128::MAX, w)).unwrap_or(false) {
                return pair(r, V::C(0));
            }
            return pair(r, o);
        }
        if ow("usub.with.overflow") {
            return pair(vbin(B::Sub, w, &a[0], &a[1]), vcmp(P::Ult, w, &a[0], &a[1]));
        }
        if ow("umul.with.overflow") {
            let r = vbin(B::Mul, w, &a[0], &a[1]);
            if hi(&a[0]).checked_mul(hi(&a[1])).map(|x| x <= mask(u128::MAX, w)).unwrap_or(false) {
                return pair(r, V::C(0));
            }
            if w <= 64 {
                let (x, y) = (vzext(&a[0], w, 2 * w), vzext(&a[1], w, 2 * w));
                let p = vbin(B::Mul, 2 * w, &x, &y);
                let o = vcmp(P::Ugt, 2 * w, &p, &V::C(mask(u128::MAX, w)));
                return pair(r, o);
            }
            // x * k overflows iff x > MAX / k
            let (x, k) = match (&a[0], &a[1]) {
                (x, V::C(k)) => (x.clone(), *k),
                (V::C(k), x) => (x.clone(), *k),
                (x, y) => {
                    let k = self.conc(st, y)?;
                    (x.clone(), k)
                }
            };
            if k == 0 {
                return pair(V::C(0), V::C(0));
            }
            let o = vcmp(P::Ugt, w, &x, &V::C(mask(u128::MAX, w) / k));
            return pair(r, o);
        }
        if ow("sadd.with.overflow") || ow("ssub.with.overflow") {
            let op = if ow("sadd") { B::Add } else { B::Sub };
            let r = vbin(op, w, &a[0], &a[1]);
            if w >= 128 {
                let s = |v: &V| vcmp(P::Slt, w, v, &V::C(0));
                let (sa, sb, sr) = (s(&a[0]), s(&a[1]), s(&r));
                let sb = if op == B::Sub { vnot(&sb, 1) } else { sb };
                let same = vcmp(P::Eq, 1, &sa, &sb);
                let diff = vcmp(P::Ne, 1, &sa, &sr);
                return pair(r, vbin(B::And, 1, &same, &diff));
            }
            let (x, y) = (vsext(&a[0], w, w + 1), vsext(&a[1], w, w + 1));
            let p = vbin(op, w + 1, &x, &y);
            let o = vcmp(P::Ne, w + 1, &p, &vsext(&r, w, w + 1));
            return pair(r, o);
        }
        if ow("smul.with.overflow") {
            let r = vbin(B::Mul, w, &a[0], &a[1]);
            if w > 64 {
                let half = (1u128 << (w - 1)) - 1;
                if hi(&a[0]).checked_mul(hi(&a[1])).map(|x| x <= half).unwrap_or(false) {
                    return pair(r, V::C(0));
                }
                let (x, y) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?);
                let o = sext(x, w).checked_mul(sext(y, w)).map(|p| sext(mask(p as u128, w), w) != p).unwrap_or(true);
                return pair(r, V::C(o as u128));
            }
            let (x, y) = (vsext(&a[0], w, 2 * w), vsext(&a[1], w, 2 * w));
            let p = vbin(B::Mul, 2 * w, &x, &y);
            let o = vcmp(P::Ne, 2 * w, &p, &vsext(&r, w, 2 * w));
            return pair(r, o);
        }
        let one = |v: V| Ok(Some(v));
        if ow("umin.") {
            return one(vite(&vcmp(P::Ult, w, &a[0], &a[1]), &a[0], &a[1], w));
        }
        if ow("umax.") {
            return one(vite(&vcmp(P::Ugt, w, &a[0], &a[1]), &a[0], &a[1], w));
        }
        if ow("smin.") {
            return one(vite(&vcmp(P::Slt, w, &a[0], &a[1]), &a[0], &a[1], w));
        }
        if ow("smax.") {
            return one(vite(&vcmp(P::Sgt, w, &a[0], &a[1]), &a[0], &a[1], w));
        }
        if ow("abs.") {
            let neg = vbin(B::Sub, w, &V::C(0), &a[0]);
            return one(vite(&vcmp(P::Slt, w, &a[0], &V::C(0)), &neg, &a[0], w));
        }
        if ow("uadd.sat") {
            let r = vbin(B::Add, w, &a[0], &a[1]);
            let o = vcmp(P::Ult, w, &r, &a[0]);
            return one(vite(&o, &V::C(mask(u128::MAX, w)), &r, w));
        }
        if ow("usub.sat") {
            let r = vbin(B::Sub, w, &a[0], &a[1]);
            let o = vcmp(P::Ult, w, &a[0], &a[1]);
            return one(vite(&o, &V::C(0), &r, w));
        }
        if ow("sadd.sat") || ow("ssub.sat") {
            let op = if ow("sadd") { B::Add } else { B::Sub };
            if w >= 128 {
                return Err(Stop::Incon(n.into()));
            }
            let (x, y) = (vsext(&a[0], w, w + 1), vsext(&a[1], w, w + 1));
            let p = vbin(op, w + 1, &x, &y);
            let mx = V::C((1u128 << (w - 1)) - 1);
            let mn = V::C(mask((-(1i128 << (w - 1))) as u128, w + 1));
            let r = vextract(&p, w + 1, 0, w);
            let r = vite(&vcmp(P::Sgt, w + 1, &p, &mx), &mx, &r, w);
            let mnw = V::C(1u128 << (w - 1));
            return one(vite(&vcmp(P::Slt, w + 1, &p, &mn), &mnw, &r, w));
        }
        if ow("scmp.") || ow("ucmp.") {
            let p = if ow("scmp") { P::Slt } else { P::Ult };
            let rw = ret.bits();
            let lt = vcmp(p, w, &a[0], &a[1]);
            let eq = vcmp(P::Eq, w, &a[0], &a[1]);
            let r = vite(&eq, &V::C(0), &V::C(1), rw);
            return one(vite(&lt, &V::C(mask(u128::MAX, rw)), &r, rw));
        }
        if ow("bswap.") {
            return one(match &a[0] {
                V::C(c) => {
                    let mut r = 0u128;
                    for i in 0..w / 8 {
                        r |= ((*c >> (8 * i)) & 0xff) << (w - 8 - 8 * i);
                    }
                    V::C(r)
                }
                V::S(e) => {
                    let mut r = expr::extract(*e, 0, 8);
                    for i in 1..w / 8 {
                        r = expr::concat(r, expr::extract(*e, 8 * i, 8));
                    }
                    sv(r)
                }
                _ => panic!(),
            });
        }
        if ow("bitreverse.") {
            return one(match &a[0] {
                V::C(c) => V::C(c.reverse_bits() >> (128 - w)),
                V::S(e) => {
                    let mut r = expr::extract(*e, 0, 1);
                    for i in 1..w {
                        r = expr::concat(r, expr::extract(*e, i, 1));
                    }
                    sv(r)
                }
                _ => panic!(),
            });
        }
        if ow("ctpop.") {
            return one(match &a[0] {
                V::C(c) => V::C(c.count_ones() as u128),
                v => {
                    let mut r = V::C(0);
                    for i in 0..w {
                        r = vbin(B::Add, w, &r, &vzext(&vextract(v, w, i, 1), 1, w));
                    }
                    r
                }
            });
        }
        if ow("ctlz.") || ow("cttz.") {
            let lead = ow("ctlz");
            return one(match &a[0] {
                V::C(c) => V::C(if lead { c.leading_zeros() - (128 - w) } else { c.trailing_zeros().min(w) } as u128),
                v => {
                    let mut r = V::C(w as u128);
                    for k in 0..w {
                        // the most significant decision is applied last
                        let (bit, val) = if lead { (k, w - 1 - k) } else { (w - 1 - k, w - 1 - k) };
                        let b = vextract(v, w, bit, 1);
                        r = vite(&b, &V::C(val as u128), &r, w);
                    }
                    r
                }
            });
        }
        if ow("fshl.") || ow("fshr.") {
            let s = self.conc(st, &a[2])? as u32 % w;
            let l = ow("fshl");
            if s == 0 {
                return one(if l { a[0].clone() } else { a[1].clone() });
            }
            let k = if l { s } else { w - s };
            let h = vbin(B::Shl, w, &a[0], &V::C(k as u128));
            let lo = vbin(B::LShr, w, &a[1], &V::C((w - k) as u128));
            return one(vbin(B::Or, w, &h, &lo));
        }
        Err(Stop::Incon(format!("intrinsic {}", n)))
    }
}

fn math64(n: &str, x: f64, y: f64) -> Option<f64> {
    Some(match n {
        "frem" | "fmod" => x % y,
        "log" => x.ln(),
        "log2" => x.log2(),
        "log10" => x.log10(),
        "log1p" => x.ln_1p(),
        "exp" => x.exp(),
        "exp2" => x.exp2(),
        "expm1" => x.exp_m1(),
        "pow" => x.powf(y),
        "cbrt" => x.cbrt(),
        "hypot" => x.hypot(y),
        "sin" => x.sin(),
        "cos" => x.cos(),
        "tan" => x.tan(),
        _ => return None,
    })
}

fn is_ext(n: &str) -> bool {
    matches!(n, "memcmp" | "bcmp" | "memcpy" | "memmove" | "strlen")
}

fn short_name(n: &str) -> String {
    // last identifier of a v0-mangled path: good enough for a report
    let b = n.as_bytes();
    let mut i = 0;
    let mut last = n.to_string();
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let mut k = i;
            let mut v = 0usize;
            while k < b.len() && b[k].is_ascii_digit() {
                v = v * 10 + (b[k] - b'0') as usize;
                k += 1;
            }
            if v > 2 && k + v <= b.len() {
                let s = &n[k..k + v];
                if s.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') {
                    last = s.trim_start_matches('_').to_string();
                    i = k + v;
                    continue;
                }
            }
            i = k;
        } else {
            i += 1;
        }
    }
    last
}

// ------------------------------------------------------------- value helpers

/// A concrete value that looks like one of our addresses.
fn is_ptrish(v: &V) -> bool {
    match v {
        V::C(c) => *c >= HBASE as u128 && *c < (SBASE + (1 << 40)) as u128,
        _ => false,
    }
}
fn cell(e: E) -> u32 {
    match expr::is_const(e) {
        Some(c) => c as u32,
        None => e + 256,
    }
}
fn sv(e: E) -> V {
    match expr::is_const(e) {
        Some(c) => V::C(c),
        None => V::S(e),
    }
}
fn ex(v: &V, w: u32) -> E {
    match v {
        V::C(c) => expr::cst(*c, w),
        V::S(e) => *e,
        V::A(_) => panic!("aggregate as scalar"),
    }
}
fn hi(v: &V) -> u128 {
    match v {
        V::C(c) => *c,
        V::S(e) => expr::range(*e).1,
        _ => panic!(),
    }
}
fn vbin(op: B, w: u32, a: &V, b: &V) -> V {
    if let (V::C(x), V::C(y), true) = (a, b, w <= 128) {
        return V::C(expr::ev_bin(op, *x, *y, w));
    }
    sv(expr::bin(op, ex(a, w), ex(b, w)))
}
fn vcmp(p: P, w: u32, a: &V, b: &V) -> V {
    if let (V::C(x), V::C(y)) = (a, b) {
        return V::C(expr::ev_cmp(p, *x, *y, w) as u128);
    }
    sv(expr::cmp(p, ex(a, w), ex(b, w)))
}
fn vnot(a: &V, w: u32) -> V {
    vbin(B::Xor, w, a, &V::C(mask(u128::MAX, w)))
}
fn vite(c: &V, a: &V, b: &V, w: u32) -> V {
    match c {
        V::C(k) => {
            if *k & 1 == 1 {
                a.clone()
            } else {
                b.clone()
            }
        }
        V::S(e) => sv(expr::ite(*e, ex(a, w), ex(b, w))),
        _ => panic!(),
    }
}
fn vzext(a: &V, _from: u32, to: u32) -> V {
    match a {
        V::C(c) => V::C(*c),
        V::S(e) => sv(expr::zext(*e, to)),
        _ => panic!(),
    }
}
fn vsext(a: &V, from: u32, to: u32) -> V {
    match a {
        V::C(c) => V::C(mask(sext(*c, from) as u128, to)),
        V::S(e) => sv(expr::sextend(*e, to)),
        _ => panic!(),
    }
}
fn vextract(a: &V, _w: u32, lo: u32, n: u32) -> V {
    match a {
        V::C(c) => V::C(mask(*c >> lo, n)),
        V::S(e) => sv(expr::extract(*e, lo, n)),
        _ => panic!(),
    }
}
fn lanes2(a: &V, b: &V, f: impl Fn(&V, &V) -> V) -> V {
    match (a, b) {
        (V::A(x), V::A(y)) => V::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| f(p, q)).collect())),
        _ => panic!("lanes"),
    }
}
fn insert(a: &V, v: &V, idx: &[u32]) -> V {
    if idx.is_empty() {
        return v.clone();
    }
    match a {
        V::A(x) => {
            let mut y = (**x).clone();
            let i = idx[0] as usize;
            y[i] = insert(&y[i], v, &idx[1..]);
            V::A(Rc::new(y))
        }
        _ => panic!("insert"),
    }
}
/// vector value as one integer (little-endian lanes)
fn join(v: &V, t: &Ty) -> V {
    match v {
        V::A(xs) => {
            let w = t.bits();
            let mut r = xs[0].clone();
            let mut rw = w;
            for x in &xs[1..] {
                r = match (&r, x) {
                    (V::C(l), V::C(h)) => V::C(*l | (*h << rw)),
                    _ => sv(expr::concat(ex(x, w), ex(&r, rw))),
                };
                rw += w;
            }
            r
        }
        _ => v.clone(),
    }
}
fn cast(k: C, from: &Ty, to: &Ty, x: &V) -> V {
    if k == C::Bit {
        let src = match from {
            Ty::Vec(_, t) => join(x, t),
            _ => x.clone(),
        };
        return match to {
            Ty::Vec(n, t) => {
                let w = t.bits();
                V::A(Rc::new((0..*n as u32).map(|i| vextract(&src, 0, i * w, w)).collect()))
            }
            _ => match (from, to) {
                (Ty::Vec(..), _) => src,
                _ => {
                    // ptrtoint / inttoptr may change the width
                    let (f, t) = (from.bits(), to.bits());
                    if f > t {
                        vextract(&src, f, 0, t)
                    } else {
                        vzext(&src, f, t)
                    }
                }
            },
        };
    }
    if let (Ty::Vec(_, f), Ty::Vec(_, t)) = (from, to) {
        if let V::A(xs) = x {
            return V::A(Rc::new(xs.iter().map(|v| cast(k, f, t, v)).collect()));
        }
    }
    let (f, t) = (from.bits(), to.bits());
    match k {
        C::Trunc => vextract(x, f, 0, t),
        C::Zext => vzext(x, f, t),
        C::Sext => vsext(x, f, t),
        C::Bit => unreachable!(),
    }
}

