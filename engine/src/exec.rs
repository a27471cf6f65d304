//! Symbolic executor for the LLVM IR of the code under test.
use crate::expr::*;
use crate::ll::*;
use crate::solver::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum V {
    K(u64, u8),
    X(E),
    A(Rc<Vec<V>>),
    U,
}
impl V {
    pub fn e(&self) -> E {
        match self {
            V::K(v, w) => konst(*v as u128, *w),
            V::X(e) => *e,
            V::U => konst(0, 64),
            V::A(_) => panic!("aggregate used as scalar"),
        }
    }
    pub fn of(e: E) -> V {
        if let (N::Const(v), w) = nodew(e) {
            if w <= 64 {
                return V::K(v as u64, w);
            }
        }
        V::X(e)
    }
    pub fn k(&self) -> Option<u64> {
        match self {
            V::K(v, _) => Some(*v),
            V::X(e) => as_const(*e).map(|v| v as u64),
            _ => None,
        }
    }
}
fn m64(w: u8) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}
fn s64(v: u64, w: u8) -> i64 {
    let s = 64 - w as u32;
    ((v << s) as i64) >> s
}

#[derive(Clone, Debug)]
pub enum O {
    R(u32),
    C(V),
}

const CONC: u32 = u32::MAX;
#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Box<Vec<u32>>>,
    pub ro: bool,
    pub heap: bool,
}
impl Obj {
    fn new(n: usize, heap: bool) -> Obj {
        Obj { data: vec![0; n], sym: None, ro: false, heap }
    }
    fn get(&self, i: usize) -> V {
        if let Some(s) = &self.sym {
            if s[i] != CONC {
                return V::X(E(s[i]));
            }
        }
        V::K(self.data[i] as u64, 8)
    }
    fn put(&mut self, i: usize, v: &V) {
        match v {
            V::K(b, _) => {
                self.data[i] = *b as u8;
                if let Some(s) = &mut self.sym {
                    s[i] = CONC
                }
            }
            V::X(e) => {
                if let Some(k) = as_const(*e) {
                    return self.put(i, &V::K(k as u64, 8));
                }
                let n = self.data.len();
                let s = self.sym.get_or_insert_with(|| Box::new(vec![CONC; n]));
                s[i] = e.0
            }
            _ => panic!(),
        }
    }
}

pub enum I {
    Bin { op: &'static str, ty: Ty, a: O, b: O, d: u32 },
    FNeg { ty: Ty, a: O, d: u32 },
    Icmp { pred: &'static str, ty: Ty, a: O, b: O, d: u32 },
    Fcmp { pred: String, ty: Ty, a: O, b: O, d: u32 },
    Cast { op: &'static str, from: Ty, to: Ty, a: O, d: u32 },
    Alloca { size: u64, n: Option<O>, d: u32 },
    Load { ty: Ty, p: O, d: u32 },
    Store { ty: Ty, v: O, p: O },
    Gep { p: O, konst: u64, idx: Vec<(u64, u8, O)>, d: u32 },
    Select { ty: Ty, c: O, a: O, b: O, d: u32, vc: bool },
    Call { f: O, direct: Option<usize>, args: Vec<O>, d: Option<u32>, ret: Ty },
    ExtractValue { a: O, idx: Vec<u64>, d: u32 },
    InsertValue { ty: Ty, a: O, v: O, idx: Vec<u64>, d: u32 },
    ExtractElement { a: O, i: O, d: u32 },
    InsertElement { a: O, v: O, i: O, d: u32 },
    Shuffle { a: O, b: O, m: Vec<u64>, d: u32 },
    Copy { a: O, d: u32 },
    AtomicRmw { op: String, ty: Ty, p: O, v: O, d: u32 },
    CmpXchg { ty: Ty, p: O, c: O, n: O, d: u32 },
    Nop,
    Ret { v: Option<O> },
    Br { to: u32 },
    CondBr { c: O, t: u32, f: u32 },
    Switch { w: u8, v: O, def: u32, cases: Rc<Vec<(u64, u32)>> },
    Unreachable,
    Unsupported(String),
}
pub struct CBlock {
    pub phis: Vec<(u32, Vec<(u32, O)>)>,
    pub ins: Vec<I>,
    pub dbg: Vec<u32>,
    pub hit: std::cell::Cell<bool>,
}
pub struct CF {
    pub fi: usize,
    pub name: Rc<str>,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<CBlock>,
    pub ipdom: Vec<Option<u32>>,
    pub live: Vec<Vec<u64>>,
}

#[derive(Clone)]
pub struct Frame {
    pub f: &'static CF,
    pub block: u32,
    pub ip: u32,
    pub regs: Vec<V>,
    pub allocas: Vec<u32>,
    pub ret: Option<u32>,
}
#[derive(Clone)]
pub struct State {
    pub mem: FxMap<u32, Rc<Obj>>,
    pub next: u32,
    pub frames: Vec<Rc<Frame>>,
    pub pc: Vec<E>,
    pub model: Rc<Model>,
    pub inputs: Rc<Vec<Vec<u32>>>,
    pub obs: Rc<Vec<Vec<V>>>,
    pub hashes: Rc<Vec<u32>>,
    /// paths are joined again in frames at least this deep
    pub merge: usize,
    pub allow_panic: bool,
    pub reached: Rc<Vec<String>>,
}

#[derive(Debug, Clone)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub backtrace: Vec<String>,
    pub inputs: Vec<Vec<u8>>,
}
pub enum Ctl {
    End,
    Gone,
    Assumed,
    PanicOk,
    Viol(Box<Violation>),
    Err(String),
}
type R<T> = Result<T, Ctl>;
fn err<T>(s: impl Into<String>) -> R<T> {
    Err(Ctl::Err(s.into()))
}

#[derive(Clone, Debug)]
pub enum Hook {
    None,
    Panic(String),
    Nop,
    Ext(String),
    Undef,
    Format,
    HasherFinish,
}

struct HashRec {
    algo: u64,
    input: Vec<E>,
    out: Vec<u32>,
}

pub struct Sample {
    pub inputs: Vec<Vec<u8>>,
    pub obs: Vec<Vec<u8>>,
}

pub struct Exec {
    pub m: Rc<Module>,
    pub base: Rc<FxMap<u32, Rc<Obj>>>,
    pub gaddr: Rc<HashMap<Rc<str>, u64>>,
    pub fobj: Rc<HashMap<u32, usize>>,
    pub cfs: HashMap<usize, &'static CF>,
    hooks: HashMap<usize, Hook>,
    pub solver: Solver,
    work: Vec<Vec<State>>,
    stops: Vec<(usize, u32)>,
    hashes: Vec<HashRec>,
    hash_map: HashMap<(u64, Vec<E>), u32>,
    pub first_id: u32,
    pub paths: u64,
    pub killed: u64,
    pub panics_ok: u64,
    pub instrs: u64,
    pub forks: u64,
    pub merges: u64,
    pub branch_q: u64,
    pub checks: u64,
    pub checks_sym: u64,
    pub max_pc: usize,
    pub conc_sites: HashMap<(usize, u32, u32), u64>,
    pub deadline: Instant,
    pub max_paths: u64,
    pub alloc_limit: u64,
    pub alloc_cut: bool,
    pub samples: Vec<Sample>,
    pub nsamples: usize,
    pub reach: BTreeMap<String, u64>,
    pub input_seed: Option<Vec<Vec<u8>>>,
    pub fork_sites: HashMap<String, u64>,
    pub profile: bool,
}

pub fn demangle(n: &str) -> String {
    format!("{:#}", rustc_demangle::demangle(n))
}

/// program-wide initial image
pub struct Image {
    pub base: FxMap<u32, Rc<Obj>>,
    pub gaddr: HashMap<Rc<str>, u64>,
    pub fobj: HashMap<u32, usize>,
    pub next: u32,
}

pub fn load(m: &Module) -> Image {
    let mut im = Image { base: Default::default(), gaddr: HashMap::new(), fobj: HashMap::new(), next: 16 };
    for (i, (n, _)) in m.funcs.iter().enumerate() {
        im.gaddr.insert(n.clone(), (im.next as u64) << 32);
        im.fobj.insert(im.next, i);
        im.next += 1;
    }
    let g0 = im.next;
    for g in &m.globals {
        im.gaddr.insert(g.name.clone(), (im.next as u64) << 32);
        im.next += 1;
    }
    for (n, k) in &m.aliases {
        let v = konst_v(&im.gaddr, &Ty::Ptr, k);
        im.gaddr.insert(n.clone(), v.k().unwrap());
    }
    for (i, g) in m.globals.iter().enumerate() {
        let mut o = Obj::new(g.ty.size() as usize, false);
        if let Some(k) = &g.init {
            write_const(&im.gaddr, &mut o, 0, &g.ty, k);
        }
        o.ro = g.constant;
        im.base.insert(g0 + i as u32, Rc::new(o));
    }
    im
}

fn write_const(ga: &HashMap<Rc<str>, u64>, o: &mut Obj, off: usize, ty: &Ty, k: &K) {
    match (ty, k) {
        (_, K::Zero) | (_, K::Undef) => {}
        (Ty::Arr(_, _), K::Str(b)) => o.data[off..off + b.len()].copy_from_slice(b),
        (Ty::Arr(..), K::Agg(v)) | (Ty::Struct(..), K::Agg(v)) | (Ty::Vec(..), K::Agg(v)) => {
            for (i, (t, k)) in v.iter().enumerate() {
                write_const(ga, o, off + ty.field_off(i as u64) as usize, t, k)
            }
        }
        (_, K::Splat(t, k)) => {
            for i in 0..ty.count() {
                write_const(ga, o, off + (t.size() * i) as usize, t, k)
            }
        }
        _ => {
            let n = ty.size() as usize;
            let v = match konst_v(ga, ty, k) {
                V::K(v, _) => v as u128,
                V::X(e) => as_const(e).unwrap(),
                x => panic!("{:?}", x),
            };
            for i in 0..n {
                o.data[off + i] = (v >> (8 * i)) as u8
            }
        }
    }
}

pub fn zero_of(ty: &Ty) -> V {
    match ty {
        Ty::Int(w) if *w <= 64 => V::K(0, *w as u8),
        Ty::Int(w) => V::X(konst(0, *w as u8)),
        Ty::Ptr | Ty::F64 => V::K(0, 64),
        Ty::F32 => V::K(0, 32),
        Ty::Void | Ty::Other => V::U,
        _ => V::A(Rc::new((0..ty.count()).map(|i| zero_of(&ty.elem(i))).collect())),
    }
}

pub fn konst_v(ga: &HashMap<Rc<str>, u64>, ty: &Ty, k: &K) -> V {
    match k {
        K::Int(v) => {
            let w = match ty {
                Ty::Int(w) => *w as u8,
                _ => 64,
            };
            V::of(konst(*v, w))
        }
        K::F(b) => V::K(*b, if *ty == Ty::F32 { 32 } else { 64 }),
        K::Zero | K::Undef => zero_of(ty),
        K::Str(b) => V::A(Rc::new(b.iter().map(|c| V::K(*c as u64, 8)).collect())),
        K::Agg(v) => V::A(Rc::new(v.iter().map(|(t, k)| konst_v(ga, t, k)).collect())),
        K::Splat(t, k) => {
            let v = konst_v(ga, t, k);
            V::A(Rc::new((0..ty.count()).map(|_| v.clone()).collect()))
        }
        K::Global(n) => V::K(*ga.get(n).unwrap_or(&0), 64),
        K::Gep(base, p, idx) => {
            let mut a = konst_v(ga, &Ty::Ptr, p).k().unwrap();
            let mut t = base.clone();
            for (i, x) in idx.iter().enumerate() {
                let v = match x {
                    K::Int(v) => *v as i64,
                    K::Zero => 0,
                    x => panic!("gep idx {:?}", x),
                };
                if i == 0 {
                    a = a.wrapping_add((t.size() as i64).wrapping_mul(v) as u64);
                } else {
                    a = a.wrapping_add(t.field_off(v as u64));
                    t = t.elem(v as u64);
                }
            }
            V::K(a, 64)
        }
        K::Cast(k, from, to) => {
            let v = konst_v(ga, from, k);
            match to {
                Ty::Int(w) => {
                    let e = v.e();
                    let ew = width(e);
                    V::of(if *w as u8 <= ew { extract(e, 0, *w as u8) } else { zext(e, *w as u8) })
                }
                _ => v,
            }
        }
        K::Bin(op, a, b, t) => {
            let x = konst_v(ga, t, a).e();
            let y = konst_v(ga, t, b).e();
            let op = match op.as_str() {
                "add" => B::Add,
                "sub" => B::Sub,
                "xor" => B::Xor,
                "mul" => B::Mul,
                "shl" => B::Shl,
                "and" => B::And,
                "or" => B::Or,
                "lshr" => B::LShr,
                _ => panic!(),
            };
            V::of(bin(op, x, y))
        }
    }
}

fn bop(s: &str) -> Option<B> {
    Some(match s {
        "add" => B::Add,
        "sub" => B::Sub,
        "mul" => B::Mul,
        "udiv" => B::UDiv,
        "sdiv" => B::SDiv,
        "urem" => B::URem,
        "srem" => B::SRem,
        "and" => B::And,
        "or" => B::Or,
        "xor" => B::Xor,
        "shl" => B::Shl,
        "lshr" => B::LShr,
        "ashr" => B::AShr,
        _ => return None,
    })
}

pub fn bin_v(op: B, a: &V, b: &V) -> V {
    if let (V::K(x, w), V::K(y, _)) = (a, b) {
        let (x, y, w) = (*x, *y, *w);
        let m = m64(w);
        let r = match op {
            B::Add => x.wrapping_add(y),
            B::Sub => x.wrapping_sub(y),
            B::Mul => x.wrapping_mul(y),
            B::And => x & y,
            B::Or => x | y,
            B::Xor => x ^ y,
            B::Shl if y < w as u64 => x << y,
            B::LShr if y < w as u64 => x >> y,
            B::UDiv if y != 0 => x / y,
            B::URem if y != 0 => x % y,
            _ => fold_bin(op, x as u128, y as u128, w) as u64,
        };
        return V::K(r & m, w);
    }
    V::of(bin(op, a.e(), b.e()))
}

pub fn cmp_v(pred: &str, a: &V, b: &V) -> V {
    if let (V::K(x, w), V::K(y, _)) = (a, b) {
        let (x, y, w) = (*x, *y, *w);
        let r = match pred {
            "eq" => x == y,
            "ne" => x != y,
            "ult" => x < y,
            "ule" => x <= y,
            "ugt" => x > y,
            "uge" => x >= y,
            "slt" => s64(x, w) < s64(y, w),
            "sle" => s64(x, w) <= s64(y, w),
            "sgt" => s64(x, w) > s64(y, w),
            "sge" => s64(x, w) >= s64(y, w),
            _ => panic!(),
        };
        return V::K(r as u64, 1);
    }
    let (x, y) = (a.e(), b.e());
    V::of(match pred {
        "eq" => cmp(C::Eq, x, y),
        "ne" => not(cmp(C::Eq, x, y)),
        "ult" => cmp(C::Ult, x, y),
        "ule" => cmp(C::Ule, x, y),
        "ugt" => cmp(C::Ult, y, x),
        "uge" => cmp(C::Ule, y, x),
        "slt" => cmp(C::Slt, x, y),
        "sle" => cmp(C::Sle, x, y),
        "sgt" => cmp(C::Slt, y, x),
        "sge" => cmp(C::Sle, y, x),
        _ => panic!(),
    })
}

fn zip2(a: &V, b: &V, f: &mut dyn FnMut(&V, &V) -> R<V>) -> R<V> {
    match (a, b) {
        (V::A(x), V::A(y)) => {
            let mut o = Vec::with_capacity(x.len());
            for (p, q) in x.iter().zip(y.iter()) {
                o.push(zip2(p, q, f)?)
            }
            Ok(V::A(Rc::new(o)))
        }
        _ => f(a, b),
    }
}

impl Exec {
    pub fn new(m: Rc<Module>, im: &Rc<Image>, timeout_ms: u32) -> Exec {
        // the image is shared; maps are cloned once per process
        Exec {
            m,
            base: Rc::new(im.base.clone()),
            gaddr: Rc::new(im.gaddr.clone()),
            fobj: Rc::new(im.fobj.clone()),
            cfs: HashMap::new(),
            hooks: HashMap::new(),
            solver: Solver::new(timeout_ms),
            work: vec![],
            stops: vec![],
            hashes: vec![],
            hash_map: HashMap::new(),
            first_id: im.next,
            paths: 0,
            killed: 0,
            panics_ok: 0,
            instrs: 0,
            forks: 0,
            merges: 0,
            branch_q: 0,
            checks: 0,
            checks_sym: 0,
            max_pc: 0,
            conc_sites: HashMap::new(),
            deadline: Instant::now(),
            max_paths: 200_000,
            alloc_limit: 1 << 22,
            alloc_cut: false,
            samples: vec![],
            nsamples: 6,
            reach: BTreeMap::new(),
            input_seed: None,
            fork_sites: HashMap::new(),
            profile: false,
        }
    }

    fn op(&self, v: &Val) -> O {
        match v {
            Val::Reg(r) => O::R(*r),
            Val::K(t, k) => O::C(konst_v(&self.gaddr, t, k)),
        }
    }

    pub fn cf(&mut self, fi: usize) -> &'static CF {
        if let Some(c) = self.cfs.get(&fi) {
            return c;
        }
        let f = self.m.func(fi);
        let c = self.compile(fi, f);
        let c: &'static CF = Box::leak(Box::new(c));
        self.cfs.insert(fi, c);
        c
    }

    fn compile(&self, fi: usize, f: Func) -> CF {
        let mut blocks = vec![];
        for b in &f.blocks {
            let mut cb = CBlock { phis: vec![], ins: vec![], dbg: vec![], hit: Default::default() };
            for p in &b.phis {
                cb.phis.push((p.d, p.inc.iter().map(|(l, v)| (*l, self.op(v))).collect()));
            }
            for (i, d) in &b.ins {
                cb.ins.push(self.cins(i));
                cb.dbg.push(*d);
            }
            blocks.push(cb);
        }
        let mut cf = CF { fi, name: f.name.clone(), params: f.params.iter().map(|p| p.1).collect(), nregs: f.nregs, blocks, ipdom: vec![], live: vec![] };
        analyse(&mut cf);
        cf
    }

    fn cins(&self, i: &Ins) -> I {
        let o = |v: &Val| self.op(v);
        match i {
            Ins::Bin { op, ty, a, b, d } => I::Bin { op, ty: ty.clone(), a: o(a), b: o(b), d: *d },
            Ins::FNeg { ty, a, d } => I::FNeg { ty: ty.clone(), a: o(a), d: *d },
            Ins::Icmp { pred, ty, a, b, d } => I::Icmp { pred, ty: ty.clone(), a: o(a), b: o(b), d: *d },
            Ins::Fcmp { pred, ty, a, b, d } => I::Fcmp { pred: pred.clone(), ty: ty.clone(), a: o(a), b: o(b), d: *d },
            Ins::Cast { op, from, to, a, d } => I::Cast { op, from: from.clone(), to: to.clone(), a: o(a), d: *d },
            Ins::Alloca { ty, n, d } => I::Alloca { size: ty.size(), n: n.as_ref().map(o), d: *d },
            Ins::Load { ty, p, d } => I::Load { ty: ty.clone(), p: o(p), d: *d },
            Ins::Store { ty, v, p } => I::Store { ty: ty.clone(), v: o(v), p: o(p) },
            Ins::Gep { base, p, idx, d } => {
                let mut k = 0u64;
                let mut dynidx = vec![];
                let mut t = base.clone();
                for (n, (it, v)) in idx.iter().enumerate() {
                    let kv = match v {
                        Val::K(ty, kk) => konst_v(&self.gaddr, ty, kk).k().map(|x| match ty {
                            Ty::Int(w) if *w < 64 => s64(x, *w as u8) as u64,
                            _ => x,
                        }),
                        _ => None,
                    };
                    let iw = match it {
                        Ty::Int(w) => *w as u8,
                        _ => return I::Unsupported("vector gep".into()),
                    };
                    if n == 0 {
                        match kv {
                            Some(x) => k = k.wrapping_add(t.size().wrapping_mul(x)),
                            None => dynidx.push((t.size(), iw, o(v))),
                        }
                    } else {
                        match (&t, kv) {
                            (_, Some(x)) => {
                                let e = match &t {
                                    Ty::Struct(..) => t.elem(x),
                                    _ => t.elem(0),
                                };
                                k = k.wrapping_add(match &t {
                                    Ty::Struct(..) => t.field_off(x),
                                    _ => e.size().wrapping_mul(x),
                                });
                                t = e;
                            }
                            (_, None) => {
                                let e = t.elem(0);
                                dynidx.push((e.size(), iw, o(v)));
                                t = e;
                            }
                        }
                    }
                }
                I::Gep { p: o(p), konst: k, idx: dynidx, d: *d }
            }
            Ins::Select { ty, cty, c, a, b, d } => I::Select { ty: ty.clone(), c: o(c), a: o(a), b: o(b), d: *d, vc: matches!(cty, Ty::Vec(..)) },
            Ins::Call { ret, f, args, d, .. } => {
                let direct = match f {
                    Val::K(_, K::Global(n)) => self.m.fidx.get(n).copied(),
                    _ => None,
                };
                I::Call { f: o(f), direct, args: args.iter().map(|(_, v)| o(v)).collect(), d: *d, ret: ret.clone() }
            }
            Ins::ExtractValue { a, idx, d, .. } => I::ExtractValue { a: o(a), idx: idx.clone(), d: *d },
            Ins::InsertValue { ty, a, v, idx, d, .. } => I::InsertValue { ty: ty.clone(), a: o(a), v: o(v), idx: idx.clone(), d: *d },
            Ins::ExtractElement { a, i, d, .. } => I::ExtractElement { a: o(a), i: o(i), d: *d },
            Ins::InsertElement { a, v, i, d, .. } => I::InsertElement { a: o(a), v: o(v), i: o(i), d: *d },
            Ins::Shuffle { a, b, m, d, .. } => {
                let mv = match o(m) {
                    O::C(V::A(x)) => x.iter().map(|v| v.k().unwrap_or(0)).collect(),
                    _ => return I::Unsupported("shuffle mask".into()),
                };
                I::Shuffle { a: o(a), b: o(b), m: mv, d: *d }
            }
            Ins::Freeze { a, d } => I::Copy { a: o(a), d: *d },
            Ins::AtomicRmw { op, ty, p, v, d } => I::AtomicRmw { op: op.clone(), ty: ty.clone(), p: o(p), v: o(v), d: *d },
            Ins::CmpXchg { ty, p, c, n, d } => I::CmpXchg { ty: ty.clone(), p: o(p), c: o(c), n: o(n), d: *d },
            Ins::Fence => I::Nop,
            Ins::Ret { v } => I::Ret { v: v.as_ref().map(|(_, v)| o(v)) },
            Ins::Br { to } => I::Br { to: *to },
            Ins::CondBr { c, t, f } => {
                if t == f {
                    I::Br { to: *t }
                } else {
                    I::CondBr { c: o(c), t: *t, f: *f }
                }
            }
            Ins::Switch { ty, v, def, cases } => I::Switch {
                w: ty.bits() as u8,
                v: o(v),
                def: *def,
                cases: Rc::new(cases.iter().map(|(k, b)| ((*k as u64) & m64(ty.bits() as u8), *b)).collect()),
            },
            Ins::Unreachable => I::Unreachable,
            Ins::Unsupported(s) => I::Unsupported(s.clone()),
        }
    }

    // ---------- memory ----------
    fn obj<'a>(&'a self, st: &'a State, id: u32) -> Option<&'a Rc<Obj>> {
        st.mem.get(&id).or_else(|| self.base.get(&id))
    }
    fn obj_mut<'a>(&self, st: &'a mut State, id: u32) -> Option<&'a mut Obj> {
        if !st.mem.contains_key(&id) {
            let o = self.base.get(&id)?;
            st.mem.insert(id, o.clone());
        }
        st.mem.get_mut(&id).map(Rc::make_mut)
    }
    fn alloc(&mut self, st: &mut State, n: u64, heap: bool) -> u64 {
        let id = st.next;
        st.next += 1;
        st.mem.insert(id, Rc::new(Obj::new(n as usize, heap)));
        (id as u64) << 32
    }

    /// bounds check of a concrete address
    fn chk(&self, st: &State, a: u64, n: u64, write: bool) -> R<(u32, usize)> {
        let id = (a >> 32) as u32;
        let off = a & 0xffff_ffff;
        match self.obj(st, id) {
            None => Err(self.viol(st, "memory", &format!("access of {} bytes at dangling or freed address {:#x}", n, a))),
            Some(o) => {
                if off + n > o.data.len() as u64 {
                    return Err(self.viol(st, "memory", &format!("out-of-bounds access of {} bytes at offset {} of object of {}", n, off, o.data.len())));
                }
                if write && o.ro {
                    return Err(self.viol(st, "memory", "write to constant"));
                }
                Ok((id, off as usize))
            }
        }
    }
    /// resolve a possibly symbolic address to an object; forks when it may point elsewhere
    fn resolve(&mut self, st: &mut State, p: &V, n: u64, write: bool) -> R<(u32, V)> {
        if let Some(a) = p.k() {
            let (id, off) = self.chk(st, a, n, write)?;
            return Ok((id, V::K(off as u64, 64)));
        }
        let e = p.e();
        let a0 = st.model.eval(e) as u64;
        let id = (a0 >> 32) as u32;
        let (id, _) = match self.chk(st, a0, n, write) {
            Ok((id, off)) => (id, off),
            Err(x) => {
                let _ = id;
                return Err(x);
            }
        };
        let size = self.obj(st, id).unwrap().data.len() as u64;
        let base = konst((id as u128) << 32, 64);
        let off = bin(B::Sub, e, base);
        let inb = cmp(C::Ule, off, konst((size - n) as u128, 64));
        if as_const(inb) != Some(1) && umax(off) > (size - n) as u128 {
            self.split(st, inb)?;
        }
        let _ = write;
        Ok((id, V::of(off)))
    }

    /// the state's model satisfies `c`; fork off the other side (re-executing the instruction) if feasible
    fn split(&mut self, st: &mut State, c: E) -> R<()> {
        let nc = not(c);
        if let Some(m) = self.feasible(st, nc)? {
            let mut o = st.clone();
            add_pc(&mut o, nc);
            o.model = m;
            self.fork_note(st);
            self.work.last_mut().unwrap().push(o);
            add_pc(st, c);
        }
        Ok(())
    }
    fn fork_note(&mut self, st: &State) {
        self.forks += 1;
        if self.profile {
            let k = self.bt(st).into_iter().take(3).collect::<Vec<_>>().join(" < ");
            *self.fork_sites.entry(k).or_insert(0) += 1;
        }
    }
    fn conc(&mut self, st: &mut State, v: &V) -> R<u64> {
        if let Some(k) = v.k() {
            return Ok(k);
        }
        let e = v.e();
        let k = st.model.eval(e);
        let c = eq(e, konst(k, width(e)));
        let before = self.forks;
        self.split(st, c)?;
        if self.forks != before {
            let t = st.frames.last().unwrap();
            let n = self.conc_sites.entry((t.f.fi, t.block, t.ip)).or_insert(0);
            *n += 1;
            if *n > 20000 {
                return err("too many values to enumerate at one instruction");
            }
        }
        Ok(k as u64)
    }
    fn conc_reg(&mut self, st: &mut State, o: &O) -> R<u64> {
        let v = self.get(st, o);
        if let Some(k) = v.k() {
            return Ok(k);
        }
        let w = width(v.e());
        let k = self.conc(st, &v)?;
        if let O::R(r) = o {
            set(st, *r, V::K(k, w));
        }
        Ok(k)
    }

    fn load(&mut self, st: &mut State, ty: &Ty, p: &V) -> R<V> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                let w = ty.bits() as u8;
                let n = (w as u64 + 7) / 8;
                let (id, off) = self.resolve(st, p, n, false)?;
                let o = self.obj(st, id).unwrap();
                if let Some(off) = off.k() {
                    return Ok(trunc_v(load_c(o, off as usize, n as usize), w));
                }
                let o = o.clone();
                let e = self.load_sym(st, &o, off.e(), n)?;
                Ok(trunc_v(V::of(e), w))
            }
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                if let Ty::Vec(_, t) = ty {
                    if t.bits() % 8 != 0 {
                        return err("load of bit vector");
                    }
                }
                let mut out = vec![];
                for i in 0..ty.count() {
                    let q = add_off(p, ty.field_off(i));
                    out.push(self.load(st, &ty.elem(i), &q)?);
                }
                Ok(V::A(Rc::new(out)))
            }
            _ => err("load type"),
        }
    }
    fn load_sym(&mut self, st: &State, o: &Rc<Obj>, off: E, n: u64) -> R<E> {
        let size = o.data.len() as u64;
        let kz = known_zero(off);
        let stride_bits = (!kz).trailing_zeros().min(31);
        let maxv = umax(off).min((size - n) as u128) as u64;
        let cnt = (maxv >> stride_bits) + 1;
        if cnt > 8192 {
            return err(format!("symbolic load over {} candidates", cnt));
        }
        let _ = st;
        // leaves
        let mut leaves: Vec<E> = (0..cnt).map(|i| load_c(o, (i << stride_bits) as usize, n as usize).e()).collect();
        let mut bit = stride_bits;
        while leaves.len() > 1 {
            if leaves.len() % 2 == 1 {
                let l = *leaves.last().unwrap();
                leaves.push(l);
            }
            let b = extract(off, bit as u8, 1);
            leaves = leaves.chunks(2).map(|c| ite(b, c[1], c[0])).collect();
            bit += 1;
        }
        Ok(leaves[0])
    }
    fn store(&mut self, st: &mut State, ty: &Ty, p: &V, v: &V) -> R<()> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                let w = ty.bits() as u8;
                let n = (w as u64 + 7) / 8;
                let (id, off) = self.resolve(st, p, n, true)?;
                let v = if w % 8 != 0 { V::of(zext(v.e(), (n * 8) as u8)) } else { v.clone() };
                if let Some(off) = off.k() {
                    let o = self.obj_mut(st, id).unwrap();
                    store_c(o, off as usize, n as usize, &v);
                    return Ok(());
                }
                let oe = off.e();
                let kz = known_zero(oe);
                let sb = (!kz).trailing_zeros().min(31);
                let size = self.obj(st, id).unwrap().data.len() as u64;
                let maxv = umax(oe).min((size - n) as u128) as u64;
                let cnt = (maxv >> sb) + 1;
                if cnt > 4096 {
                    return err(format!("symbolic store over {} candidates", cnt));
                }
                let ve = v.e();
                let o = self.obj_mut(st, id).unwrap();
                for i in 0..cnt {
                    let at = i << sb;
                    let c = eq(oe, konst(at as u128, 64));
                    for j in 0..n {
                        let old = o.get((at + j) as usize).e();
                        let nb = extract(ve, (8 * j) as u8, 8);
                        o.put((at + j) as usize, &V::of(ite(c, nb, old)));
                    }
                }
                Ok(())
            }
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                if let Ty::Vec(_, t) = ty {
                    if t.bits() % 8 != 0 {
                        return err("store of bit vector");
                    }
                }
                let a = match v {
                    V::A(a) => a.clone(),
                    _ => return err("store agg"),
                };
                for i in 0..ty.count() {
                    let q = add_off(p, ty.field_off(i));
                    self.store(st, &ty.elem(i), &q, &a[i as usize])?;
                }
                Ok(())
            }
            _ => err("store type"),
        }
    }
    fn read_bytes(&mut self, st: &mut State, a: u64, n: u64) -> R<Vec<V>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (id, off) = self.chk(st, a, n, false)?;
        let o = self.obj(st, id).unwrap();
        Ok((0..n as usize).map(|i| o.get(off + i)).collect())
    }
    fn write_bytes(&mut self, st: &mut State, a: u64, b: &[V]) -> R<()> {
        if b.is_empty() {
            return Ok(());
        }
        let (id, off) = self.chk(st, a, b.len() as u64, true)?;
        let o = self.obj_mut(st, id).unwrap();
        for (i, v) in b.iter().enumerate() {
            o.put(off + i, v)
        }
        Ok(())
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 || d == s {
            return Ok(());
        }
        let (sid, so) = self.chk(st, s, n, false)?;
        let (_, _) = self.chk(st, d, n, true)?;
        let src = self.obj(st, sid).unwrap().clone();
        let (did, dof) = ((d >> 32) as u32, (d & 0xffff_ffff) as usize);
        let dst = self.obj_mut(st, did).unwrap();
        let n = n as usize;
        if sid == did {
            let tmp: Vec<V> = (0..n).map(|i| src.get(so + i)).collect();
            for (i, v) in tmp.iter().enumerate() {
                dst.put(dof + i, v)
            }
            return Ok(());
        }
        dst.data[dof..dof + n].copy_from_slice(&src.data[so..so + n]);
        match (&src.sym, &mut dst.sym) {
            (None, None) => {}
            (None, Some(ds)) => ds[dof..dof + n].iter_mut().for_each(|x| *x = CONC),
            (Some(ss), None) => {
                if ss[so..so + n].iter().any(|x| *x != CONC) {
                    let mut ds = vec![CONC; dst.data.len()];
                    ds[dof..dof + n].copy_from_slice(&ss[so..so + n]);
                    dst.sym = Some(Box::new(ds));
                }
            }
            (Some(ss), Some(ds)) => ds[dof..dof + n].copy_from_slice(&ss[so..so + n]),
        }
        Ok(())
    }

    // ---------- path condition ----------
    fn slice(&self, st: &State, c: E) -> Vec<E> {
        let mut vars: std::collections::HashSet<u32> = vars_of(c).iter().copied().collect();
        let mut rest: Vec<(E, Rc<Vec<u32>>)> = st.pc.iter().map(|e| (*e, vars_of(*e))).collect();
        let mut out = vec![c];
        loop {
            let before = rest.len();
            rest.retain(|(e, vs)| {
                if vs.iter().any(|v| vars.contains(v)) {
                    vars.extend(vs.iter());
                    out.push(*e);
                    false
                } else {
                    true
                }
            });
            if rest.len() == before {
                return out;
            }
        }
    }
    fn feasible(&mut self, st: &State, c: E) -> R<Option<Rc<Model>>> {
        if let Some(k) = as_const(c) {
            return Ok(if k == 1 { Some(st.model.clone()) } else { None });
        }
        if st.model.eval(c) == 1 {
            return Ok(Some(st.model.clone()));
        }
        let nc = not(c);
        if st.pc.contains(&nc) {
            return Ok(None);
        }
        let cs = self.slice(st, c);
        self.branch_q += 1;
        let mut again = false;
        loop {
            match self.solver.check(cs.clone()) {
                (Sat::Unsat, _) => return Ok(None),
                (Sat::Unknown, _) => return err("solver gave no answer (timeout)"),
                (Sat::Sat, Some(vs)) => {
                    let mut vals = st.model.vals.clone();
                    for (v, x) in vs {
                        if vals.len() <= v as usize {
                            vals.resize(v as usize + 1, 0);
                        }
                        vals[v as usize] = x;
                    }
                    let m = Model::new(vals);
                    match cs.iter().find(|e| m.eval(**e) != 1) {
                        None => return Ok(Some(m)),
                        Some(e) => {
                            if std::env::var("SYMEX_SLOW").is_ok() {
                                eprintln!("not satisfied: {:?}", e);
                            }
                            if again {
                                return err("solver model does not satisfy its query under our evaluator");
                            }
                            again = true;
                            self.solver.restart();
                        }
                    }
                }
                _ => return err("solver"),
            }
        }
    }

    fn bt(&self, st: &State) -> Vec<String> {
        let mut o = vec![];
        for f in st.frames.iter().rev() {
            let b = &f.f.blocks[f.block as usize];
            let d = b.dbg.get((f.ip as usize).min(b.dbg.len().saturating_sub(1))).copied().unwrap_or(0);
            let chain = self.loc_chain(d);
            if chain.is_empty() {
                o.push(demangle(&f.f.name));
            } else {
                o.extend(chain);
            }
        }
        o
    }
    /// inlined-at chain of a debug location, innermost first
    pub fn loc_chain(&self, d: u32) -> Vec<String> {
        let mut o = vec![];
        let mut d = d;
        let mut n = 0;
        while d != 0 && n < 40 {
            let t = self.m.meta_text(d);
            if !t.contains("DILocation") {
                break;
            }
            let line = mfield(t, "line: ");
            let scope = mref(t, "scope: !");
            o.push(format!("{} ({})", self.scope_name(scope), line));
            d = mref(t, "inlinedAt: !");
            n += 1;
        }
        o
    }
    pub fn scope_sp(&self, scope: u32) -> u32 {
        let mut s = scope;
        for _ in 0..60 {
            let t = self.m.meta_text(s);
            if t.contains("DISubprogram(") {
                return s;
            }
            s = mref(t, "scope: !");
            if s == 0 {
                break;
            }
        }
        0
    }
    fn scope_name(&self, scope: u32) -> String {
        let sp = self.scope_sp(scope);
        if sp == 0 {
            return "?".into();
        }
        self.sp_name(sp)
    }
    pub fn sp_name(&self, sp: u32) -> String {
        let t = self.m.meta_text(sp);
        let l = mstr(t, "linkageName: \"");
        if !l.is_empty() {
            demangle(&l)
        } else {
            mstr(t, "name: \"")
        }
    }
    pub fn sp_file(&self, sp: u32) -> String {
        let t = self.m.meta_text(sp);
        let f = mref(t, "file: !");
        let t = self.m.meta_text(f);
        let a = mstr(t, "filename: \"");
        let d = mstr(t, "directory: \"");
        if a.starts_with('/') {
            a
        } else {
            format!("{}/{}", d, a)
        }
    }

    fn model_inputs(&self, st: &State) -> Vec<Vec<u8>> {
        st.inputs.iter().map(|v| v.iter().map(|x| st.model.vals.get(*x as usize).copied().unwrap_or(0)).collect()).collect()
    }
    fn viol(&self, st: &State, kind: &str, msg: &str) -> Ctl {
        Ctl::Viol(Box::new(Violation { kind: kind.into(), msg: msg.into(), backtrace: self.bt(st), inputs: self.model_inputs(st) }))
    }

    // ---------- running ----------
    #[inline]
    fn get(&self, st: &State, o: &O) -> V {
        match o {
            O::C(v) => v.clone(),
            O::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
        }
    }

    pub fn run_entry(&mut self, entry: &str, args: &[u64]) -> Result<(), Ctl> {
        let fi = match self.m.fidx.get(entry) {
            Some(f) => *f,
            None => return err(format!("no entry {}", entry)),
        };
        let cf = self.cf(fi);
        let mut regs = vec![V::U; cf.nregs as usize];
        for (i, p) in cf.params.iter().enumerate() {
            regs[*p as usize] = V::K(args.get(i).copied().unwrap_or(0), 64);
        }
        let fr = Frame { f: cf, block: 0, ip: 0, regs, allocas: vec![], ret: None };
        let st = State {
            mem: Default::default(),
            next: self.first_id + 16,
            frames: vec![Rc::new(fr)],
            pc: vec![],
            model: Model::new(vec![]),
            inputs: Rc::new(vec![]),
            obs: Rc::new(vec![]),
            hashes: Rc::new(vec![]),
            merge: usize::MAX,
            allow_panic: false,
            reached: Rc::new(vec![]),
        };
        let out = self.run(vec![st])?;
        assert!(out.is_empty());
        Ok(())
    }

    fn run(&mut self, init: Vec<State>) -> R<Vec<State>> {
        self.work.push(init);
        let mut out = vec![];
        while let Some(mut st) = self.work.last_mut().unwrap().pop() {
            loop {
                if !self.stops.is_empty() {
                    let t = st.frames.last().unwrap();
                    if t.ip == 0 {
                        let loc = (st.frames.len(), t.block);
                        if self.stops.contains(&loc) {
                            out.push(st);
                            break;
                        }
                    }
                }
                match self.block(&mut st) {
                    Ok(()) => {}
                    Err(Ctl::Gone) => break,
                    Err(Ctl::Assumed) => {
                        self.killed += 1;
                        break;
                    }
                    Err(Ctl::PanicOk) => {
                        self.panics_ok += 1;
                        self.done(&st)?;
                        break;
                    }
                    Err(Ctl::End) => {
                        self.done(&st)?;
                        break;
                    }
                    Err(e) => {
                        if let Ctl::Err(s) = e {
                            let b = self.bt(&st);
                            return Err(Ctl::Err(format!("{} at {}", s, b.join(" < "))));
                        }
                        return Err(e);
                    }
                }
            }
        }
        self.work.pop();
        Ok(out)
    }
    fn done(&mut self, st: &State) -> R<()> {
        self.paths += 1;
        self.max_pc = self.max_pc.max(st.pc.len());
        for r in st.reached.iter() {
            *self.reach.entry(r.clone()).or_insert(0) += 1;
        }
        // reservoir-like: first few plus exponentially spaced ones
        let keep = self.samples.len() < self.nsamples || (self.paths.is_power_of_two() && self.samples.len() < 2 * self.nsamples);
        if keep {
            let inputs = self.model_inputs(st);
            let obs = st.obs.iter().map(|o| o.iter().map(|v| st.model.eval(v.e()) as u8).collect()).collect();
            self.samples.push(Sample { inputs, obs });
        }
        if self.paths > self.max_paths {
            return err("path limit");
        }
        Ok(())
    }

    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let from = fr.block;
        let b = &fr.f.blocks[to as usize];
        match b.phis.len() {
            0 => {}
            1 => {
                let (d, inc) = &b.phis[0];
                let o = &inc.iter().find(|x| x.0 == from).expect("phi").1;
                let v = match o {
                    O::C(v) => v.clone(),
                    O::R(r) => fr.regs[*r as usize].clone(),
                };
                fr.regs[*d as usize] = v;
            }
            _ => {
                let vs: Vec<V> = b
                    .phis
                    .iter()
                    .map(|(_, inc)| match &inc.iter().find(|x| x.0 == from).expect("phi").1 {
                        O::C(v) => v.clone(),
                        O::R(r) => fr.regs[*r as usize].clone(),
                    })
                    .collect();
                for ((d, _), v) in b.phis.iter().zip(vs) {
                    fr.regs[*d as usize] = v;
                }
            }
        }
        fr.block = to;
        fr.ip = 0;
    }

    /// execute until the end of the current block (or a control event)
    fn block(&mut self, st: &mut State) -> R<()> {
        let (f, b) = {
            let t = st.frames.last().unwrap();
            (t.f, t.block)
        };
        let blk: &'static CBlock = &f.blocks[b as usize];
        blk.hit.set(true);
        if Instant::now() > self.deadline {
            return err("time limit");
        }
        let depth = st.frames.len();
        loop {
            let ip = st.frames.last().unwrap().ip;
            let ins = &blk.ins[ip as usize];
            self.instrs += 1;
            let term = matches!(ins, I::Ret { .. } | I::Br { .. } | I::CondBr { .. } | I::Switch { .. } | I::Unreachable);
            let frames_before = depth;
            let hold = self.step(st, ins)?;
            if term {
                return Ok(());
            }
            if !hold {
                // advance the frame that executed this instruction
                let i = frames_before - 1;
                Rc::make_mut(&mut st.frames[i]).ip = ip + 1;
            }
            if st.frames.len() != depth {
                return Ok(());
            }
        }
    }

    /// returns true when the instruction must not advance ip
    fn step(&mut self, st: &mut State, ins: &'static I) -> R<bool> {
        match ins {
            I::Bin { op, ty, a, b, d } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let r = match bop(op) {
                    Some(o) => {
                        if let V::A(_) = x {
                            zip2(&x, &y, &mut |p, q| Ok(bin_v(o, p, q)))?
                        } else {
                            if matches!(o, B::UDiv | B::SDiv | B::URem | B::SRem) {
                                if let Some(0) = y.k() {
                                    return Err(self.viol(st, "ub", "division by zero"));
                                }
                            }
                            bin_v(o, &x, &y)
                        }
                    }
                    None => {
                        let is32 = matches!(ty, Ty::F32);
                        let (x, y) = if matches!(ty, Ty::F32 | Ty::F64) {
                            let (p, q) = (self.conc_reg(st, a)?, self.conc_reg(st, b)?);
                            let w = ty.bits() as u8;
                            (V::K(p, w), V::K(q, w))
                        } else {
                            (x, y)
                        };
                        zip2(&x, &y, &mut |p, q| fbin(op, is32, p, q))?
                    }
                };
                set(st, *d, r);
            }
            I::FNeg { ty, a, d } => {
                let x = self.get(st, a);
                let s = if matches!(ty, Ty::F32) { 1u64 << 31 } else { 1u64 << 63 };
                match x.k() {
                    Some(k) => set(st, *d, V::K(k ^ s, ty.bits() as u8)),
                    None => return err("symbolic float"),
                }
            }
            I::Icmp { pred, a, b, d, .. } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let r = if let V::A(_) = x { zip2(&x, &y, &mut |p, q| Ok(cmp_v(pred, p, q)))? } else { cmp_v(pred, &x, &y) };
                set(st, *d, r);
            }
            I::Fcmp { pred, ty, a, b, d } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let is32 = matches!(ty, Ty::F32);
                match (x.k(), y.k()) {
                    (Some(x), Some(y)) => {
                        let f = |v: u64| if is32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v) };
                        let (p, q) = (f(x), f(y));
                        let un = p.is_nan() || q.is_nan();
                        let r = match pred.as_str() {
                            "oeq" => p == q,
                            "one" => !un && p != q,
                            "olt" => p < q,
                            "ole" => p <= q,
                            "ogt" => p > q,
                            "oge" => p >= q,
                            "ord" => !un,
                            "uno" => un,
                            "ueq" => un || p == q,
                            "une" => un || p != q,
                            "ult" => un || p < q,
                            "ule" => un || p <= q,
                            "ugt" => un || p > q,
                            "uge" => un || p >= q,
                            _ => return err("fcmp"),
                        };
                        set(st, *d, V::K(r as u64, 1));
                    }
                    _ => return err("symbolic float comparison"),
                }
            }
            I::Cast { op, from, to, a, d } => {
                if matches!(&**op, "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc") && matches!(from, Ty::Int(_) | Ty::F32 | Ty::F64) {
                    // floating point is concrete only
                    self.conc_reg(st, a)?;
                }
                let x = self.get(st, a);
                let r = self.cast(op, from, to, &x)?;
                set(st, *d, r);
            }
            I::Alloca { size, n, d } => {
                let n = match n {
                    Some(o) => self.conc_reg(st, o)?,
                    None => 1,
                };
                let a = self.alloc(st, size * n, false);
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                fr.allocas.push((a >> 32) as u32);
                fr.regs[*d as usize] = V::K(a, 64);
            }
            I::Load { ty, p, d } => {
                let a = self.get(st, p);
                let v = self.load(st, ty, &a)?;
                set(st, *d, v);
            }
            I::Store { ty, v, p } => {
                let a = self.get(st, p);
                let x = self.get(st, v);
                self.store(st, ty, &a, &x)?;
            }
            I::Gep { p, konst: k, idx, d } => {
                let mut a = self.get(st, p);
                if *k != 0 {
                    a = bin_v(B::Add, &a, &V::K(*k, 64));
                }
                for (s, w, o) in idx {
                    let mut v = self.get(st, o);
                    if *w < 64 {
                        v = sext_v(&v, *w, 64);
                    }
                    let t = if *s == 1 { v } else { bin_v(B::Mul, &v, &V::K(*s, 64)) };
                    a = bin_v(B::Add, &a, &t);
                }
                set(st, *d, a);
            }
            I::Select { c, a, b, d, ty, vc } => {
                let cv = self.get(st, c);
                if *vc {
                    let (x, y) = (self.get(st, a), self.get(st, b));
                    match (&cv, &x, &y) {
                        (V::A(c), V::A(x), V::A(y)) => {
                            let r: Vec<V> = (0..c.len()).map(|i| sel(&c[i], &x[i], &y[i])).collect();
                            set(st, *d, V::A(Rc::new(r)));
                        }
                        _ => return err("vector select"),
                    }
                } else {
                    match cv.k() {
                        Some(1) => {
                            let x = self.get(st, a);
                            set(st, *d, x)
                        }
                        Some(_) => {
                            let x = self.get(st, b);
                            set(st, *d, x)
                        }
                        None => {
                            let (x, y) = (self.get(st, a), self.get(st, b));
                            let fork = match (x.k(), y.k()) {
                                (Some(p), Some(q)) => *ty == Ty::Ptr && p != q,
                                _ => *ty == Ty::Ptr,
                            };
                            if fork {
                                let k = self.conc_reg(st, c)?;
                                let r = if k == 1 { x } else { y };
                                set(st, *d, r);
                            } else {
                                let r = sel(&cv, &x, &y);
                                set(st, *d, r);
                            }
                        }
                    }
                }
            }
            I::ExtractValue { a, idx, d } => {
                let mut v = self.get(st, a);
                for i in idx {
                    v = match &v {
                        V::A(x) => x[*i as usize].clone(),
                        _ => V::K(0, 64),
                    };
                }
                set(st, *d, v);
            }
            I::InsertValue { ty, a, v, idx, d } => {
                let mut base = self.get(st, a);
                if let V::U = base {
                    base = zero_of(ty);
                }
                let x = self.get(st, v);
                insert(&mut base, idx, x);
                set(st, *d, base);
            }
            I::ExtractElement { a, i, d } => {
                let k = self.conc_reg(st, i)?;
                let v = match self.get(st, a) {
                    V::A(x) => x[k as usize].clone(),
                    _ => return err("extractelement"),
                };
                set(st, *d, v);
            }
            I::InsertElement { a, v, i, d } => {
                let k = self.conc_reg(st, i)?;
                let mut base = self.get(st, a);
                let x = self.get(st, v);
                insert(&mut base, &[k], x);
                set(st, *d, base);
            }
            I::Shuffle { a, b, m, d } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                match (&x, &y) {
                    (V::A(x), V::A(y)) => {
                        let r = m
                            .iter()
                            .map(|i| {
                                let i = *i as usize;
                                if i < x.len() {
                                    x[i].clone()
                                } else {
                                    y[(i - x.len()) % y.len()].clone()
                                }
                            })
                            .collect();
                        set(st, *d, V::A(Rc::new(r)));
                    }
                    _ => return err("shuffle"),
                }
            }
            I::Copy { a, d } => {
                let v = self.get(st, a);
                set(st, *d, v);
            }
            I::AtomicRmw { op, ty, p, v, d } => {
                let a = self.get(st, p);
                let old = self.load(st, ty, &a)?;
                let x = self.get(st, v);
                let new = match op.as_str() {
                    "add" => bin_v(B::Add, &old, &x),
                    "sub" => bin_v(B::Sub, &old, &x),
                    "and" => bin_v(B::And, &old, &x),
                    "or" => bin_v(B::Or, &old, &x),
                    "xor" => bin_v(B::Xor, &old, &x),
                    "xchg" => x,
                    _ => return err("atomicrmw"),
                };
                self.store(st, ty, &a, &new)?;
                set(st, *d, old);
            }
            I::CmpXchg { ty, p, c, n, d } => {
                let a = self.get(st, p);
                let old = self.load(st, ty, &a)?;
                let cv = self.get(st, c);
                let okv = cmp_v("eq", &old, &cv);
                let k = self.conc(st, &okv)?;
                if k == 1 {
                    let nv = self.get(st, n);
                    self.store(st, ty, &a, &nv)?;
                }
                set(st, *d, V::A(Rc::new(vec![old, V::K(k, 1)])));
            }
            I::Nop => {}
            I::Unsupported(s) => return err(format!("unsupported instruction {}", s)),
            I::Unreachable => return Err(self.viol(st, "ub", "reached unreachable code")),
            I::Br { to } => self.jump(st, *to),
            I::CondBr { c, t, f } => {
                let v = self.get(st, c);
                match v.k() {
                    Some(1) => self.jump(st, *t),
                    Some(_) => self.jump(st, *f),
                    None => return self.branch(st, vec![(v.e(), *t), (not(v.e()), *f)]),
                }
            }
            I::Switch { w, v, def, cases } => {
                let x = self.get(st, v);
                match x.k() {
                    Some(k) => {
                        let to = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def);
                        self.jump(st, to);
                    }
                    None => {
                        let e = x.e();
                        let mut groups: Vec<(E, u32)> = vec![];
                        let mut any = fals();
                        for (k, b) in cases.iter() {
                            let c = eq(e, konst(*k as u128, *w));
                            any = or1(any, c);
                            match groups.iter_mut().find(|g| g.1 == *b) {
                                Some(g) => g.0 = or1(g.0, c),
                                None => groups.push((c, *b)),
                            }
                        }
                        let dc = not(any);
                        match groups.iter_mut().find(|g| g.1 == *def) {
                            Some(g) => g.0 = or1(g.0, dc),
                            None => groups.push((dc, *def)),
                        }
                        return self.branch(st, groups);
                    }
                }
            }
            I::Ret { v } => {
                let r = v.as_ref().map(|o| self.get(st, o));
                let fr = st.frames.pop().unwrap();
                for a in &fr.allocas {
                    st.mem.remove(a);
                }
                if st.frames.is_empty() {
                    return Err(Ctl::End);
                }
                if let (Some(d), Some(v)) = (fr.ret, r) {
                    set(st, d, v);
                }
            }
            I::Call { f, direct, args, d, ret } => return self.call(st, f, *direct, args, *d, ret),
        }
        Ok(false)
    }

    /// fork over mutually exclusive, exhaustive guarded targets
    fn branch(&mut self, st: &mut State, groups: Vec<(E, u32)>) -> R<bool> {
        let mut feas: Vec<(E, u32, Rc<Model>)> = vec![];
        for (c, b) in groups {
            if as_const(c) == Some(0) {
                continue;
            }
            if let Some(m) = self.feasible(st, c)? {
                feas.push((c, b, m));
            }
        }
        if feas.is_empty() {
            return err("no feasible branch (inconsistent path)");
        }
        if feas.len() == 1 {
            self.jump(st, feas[0].1);
            return Ok(true);
        }
        self.fork_note(st);
        self.forks += feas.len() as u64 - 2;
        let merge_at = if st.frames.len() >= st.merge {
            let t = st.frames.last().unwrap();
            t.f.ipdom[t.block as usize]
        } else {
            None
        };
        let mut states = vec![];
        for (c, b, m) in feas {
            let mut s = st.clone();
            add_pc(&mut s, c);
            s.model = m;
            self.jump(&mut s, b);
            states.push(s);
        }
        if let Some(p) = merge_at {
            let loc = (st.frames.len(), p);
            let npc = st.pc.len();
            self.stops.push(loc);
            let r = self.run(states);
            self.stops.pop();
            let outs = r?;
            let (mut here, other): (Vec<State>, Vec<State>) = outs.into_iter().partition(|s| s.frames.len() == loc.0 && s.frames.last().unwrap().block == p);
            let mut merged: Vec<State> = vec![];
            while let Some(s) = here.pop() {
                let mut done = false;
                for m in merged.iter_mut() {
                    if let Some(n) = self.merge2(m, &s, npc) {
                        *m = n;
                        self.merges += 1;
                        done = true;
                        break;
                    }
                }
                if !done {
                    merged.push(s);
                }
            }
            let w = self.work.last_mut().unwrap();
            w.extend(other);
            w.extend(merged);
        } else {
            self.work.last_mut().unwrap().extend(states);
        }
        Err(Ctl::Gone)
    }

    fn is_ptr(&self, a: &State, v: u64) -> bool {
        let id = (v >> 32) as u32;
        id >= 16 && (a.mem.contains_key(&id) || self.base.contains_key(&id) || self.fobj.contains_key(&id))
    }
    fn merge_v(&self, sa: &State, c: E, a: &V, b: &V) -> Option<V> {
        Some(match (a, b) {
            (V::K(x, w), V::K(y, w2)) if w == w2 => {
                if x == y {
                    a.clone()
                } else {
                    if *w == 64 && (self.is_ptr(sa, *x) || self.is_ptr(sa, *y)) {
                        return None;
                    }
                    V::of(ite(c, a.e(), b.e()))
                }
            }
            (V::U, x) | (x, V::U) => x.clone(),
            (V::A(x), V::A(y)) => {
                if Rc::ptr_eq(x, y) {
                    return Some(a.clone());
                }
                if x.len() != y.len() {
                    return None;
                }
                let mut o = vec![];
                for (p, q) in x.iter().zip(y.iter()) {
                    o.push(self.merge_v(sa, c, p, q)?)
                }
                V::A(Rc::new(o))
            }
            (V::A(_), _) | (_, V::A(_)) => return None,
            _ => {
                let (x, y) = (a.e(), b.e());
                if width(x) != width(y) {
                    return None;
                }
                V::of(ite(c, x, y))
            }
        })
    }
    fn merge2(&self, a: &State, b: &State, npc: usize) -> Option<State> {
        if a.frames.len() != b.frames.len() || a.merge != b.merge || a.allow_panic != b.allow_panic {
            return None;
        }
        if a.inputs != b.inputs || a.obs.len() != b.obs.len() {
            return None;
        }
        // common prefix of the path conditions
        let mut n = 0;
        while n < a.pc.len() && n < b.pc.len() && a.pc[n] == b.pc[n] {
            n += 1;
        }
        let _ = npc;
        let conj = |v: &[E]| v.iter().fold(tru(), |x, y| and1(x, *y));
        let (ca, cb) = (conj(&a.pc[n..]), conj(&b.pc[n..]));
        let mut r = a.clone();
        // frames
        for i in 0..a.frames.len() {
            if Rc::ptr_eq(&a.frames[i], &b.frames[i]) {
                continue;
            }
            let (x, y) = (&a.frames[i], &b.frames[i]);
            if !std::ptr::eq(x.f, y.f) || x.block != y.block || x.ip != y.ip || x.ret != y.ret {
                return None;
            }
            if x.allocas != y.allocas {
                return None;
            }
            let top = i + 1 == a.frames.len();
            let mut nf = (**x).clone();
            for k in 0..x.regs.len() {
                if top && x.f.live[x.block as usize][k / 64] >> (k % 64) & 1 == 0 {
                    nf.regs[k] = V::U;
                    continue;
                }
                nf.regs[k] = self.merge_v(a, ca, &x.regs[k], &y.regs[k])?;
            }
            r.frames[i] = Rc::new(nf);
        }
        // memory
        for (id, oa) in a.mem.iter() {
            let ob = match b.mem.get(id) {
                Some(o) => o,
                None => match self.base.get(id) {
                    Some(o) => o,
                    None => {
                        // freed or never allocated on the other side: only reached through this side's pointers
                        continue;
                    }
                },
            };
            if Rc::ptr_eq(oa, ob) {
                continue;
            }
            let no = self.merge_obj(a, ca, oa, ob)?;
            r.mem.insert(*id, Rc::new(no));
        }
        for (id, ob) in b.mem.iter() {
            if a.mem.contains_key(id) {
                continue;
            }
            if let Some(oa) = self.base.get(id) {
                let no = self.merge_obj(a, ca, oa, ob)?;
                r.mem.insert(*id, Rc::new(no));
            } else {
                r.mem.insert(*id, ob.clone());
            }
        }
        r.next = a.next.max(b.next);
        // observations
        if !Rc::ptr_eq(&a.obs, &b.obs) {
            let mut o = vec![];
            for (x, y) in a.obs.iter().zip(b.obs.iter()) {
                if x.len() != y.len() {
                    return None;
                }
                o.push(x.iter().zip(y).map(|(p, q)| V::of(ite(ca, p.e(), q.e()))).collect());
            }
            r.obs = Rc::new(o);
        }
        if !Rc::ptr_eq(&a.hashes, &b.hashes) {
            let mut h = (*a.hashes).clone();
            for x in b.hashes.iter() {
                if !h.contains(x) {
                    h.push(*x)
                }
            }
            r.hashes = Rc::new(h);
        }
        if a.reached != b.reached {
            let mut h = (*a.reached).clone();
            for x in b.reached.iter() {
                if !h.contains(x) {
                    h.push(x.clone())
                }
            }
            r.reached = Rc::new(h);
        }
        r.pc = a.pc[..n].to_vec();
        add_pc(&mut r, or1(ca, cb));
        Some(r)
    }
    fn merge_obj(&self, a: &State, c: E, x: &Obj, y: &Obj) -> Option<Obj> {
        if x.data.len() != y.data.len() {
            return None;
        }
        let mut o = x.clone();
        let n = x.data.len();
        let mut i = 0;
        while i < n {
            let (p, q) = (x.get(i), y.get(i));
            let same = match (&p, &q) {
                (V::K(a, _), V::K(b, _)) => a == b,
                (V::X(a), V::X(b)) => a == b,
                _ => false,
            };
            if !same {
                // a pointer-like word must not be merged
                let w = i & !7;
                if w + 8 <= n {
                    for z in [x, y] {
                        if let Some(v) = load_c(z, w, 8).k() {
                            if self.is_ptr(a, v) {
                                return None;
                            }
                        }
                    }
                }
                o.put(i, &V::of(ite(c, p.e(), q.e())));
            }
            i += 1;
        }
        Some(o)
    }

    fn cast(&self, op: &str, from: &Ty, to: &Ty, x: &V) -> R<V> {
        if let (Ty::Vec(_, ft), Ty::Vec(_, tt), V::A(v)) = (from, to, x) {
            if op != "bitcast" {
                let mut o = vec![];
                for e in v.iter() {
                    o.push(self.cast(op, ft, tt, e)?)
                }
                return Ok(V::A(Rc::new(o)));
            }
        }
        match op {
            "trunc" => Ok(trunc_v(x.clone(), to.bits() as u8)),
            "zext" => {
                let w = to.bits() as u8;
                Ok(match x {
                    V::K(v, _) if w <= 64 => V::K(*v, w),
                    _ => V::of(zext(x.e(), w)),
                })
            }
            "sext" => Ok(sext_v(x, from.bits() as u8, to.bits() as u8)),
            "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                let (a, b) = (from.bits() as u8, to.bits() as u8);
                Ok(if a == b {
                    x.clone()
                } else if b < a {
                    trunc_v(x.clone(), b)
                } else {
                    V::of(zext(x.e(), b))
                })
            }
            "bitcast" => {
                let flat = |x: &V, t: &Ty| -> R<E> {
                    match x {
                        V::A(v) => {
                            let _ = t;
                            let mut r: Option<E> = None;
                            for e in v.iter() {
                                if let V::A(_) = e {
                                    return err("bitcast nested");
                                }
                                let e = e.e();
                                r = Some(match r {
                                    None => e,
                                    Some(r) => concat(e, r),
                                });
                            }
                            Ok(r.unwrap())
                        }
                        _ => Ok(x.e()),
                    }
                };
                if from.bits() > 128 {
                    return err("wide bitcast");
                }
                let e = flat(x, from)?;
                match to {
                    Ty::Vec(n, t) => {
                        let w = t.bits() as u8;
                        Ok(V::A(Rc::new((0..*n).map(|i| V::of(extract(e, i as u8 * w, w))).collect())))
                    }
                    _ => Ok(V::of(e)),
                }
            }
            _ => {
                // float conversions, concrete only
                let v = match x.k() {
                    Some(v) => v,
                    None => return err(format!("symbolic float conversion {}", op)),
                };
                let f = |v: u64, t: &Ty| if *t == Ty::F32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v) };
                let g = |v: f64, t: &Ty| if *t == Ty::F32 { V::K((v as f32).to_bits() as u64, 32) } else { V::K(v.to_bits(), 64) };
                let tw = to.bits() as u8;
                Ok(match op {
                    "uitofp" if *to == Ty::F32 => V::K((v as f32).to_bits() as u64, 32),
                    "uitofp" => g(v as f64, to),
                    "sitofp" => g(s64(v, from.bits() as u8) as f64, to),
                    "fptoui" => V::K((f(v, from) as u64) & m64(tw), tw),
                    "fptosi" => V::K((f(v, from) as i64 as u64) & m64(tw), tw),
                    "fpext" | "fptrunc" => g(f(v, from), to),
                    _ => return err(format!("cast {}", op)),
                })
            }
        }
    }

    fn hook(&mut self, fi: usize) -> Hook {
        if let Some(h) = self.hooks.get(&fi) {
            return h.clone();
        }
        let (n, def) = self.m.funcs[fi].clone();
        let d = demangle(&n);
        let h = if is_panic_fn(&d) {
            Hook::Panic(d)
        } else if d == "std::io::stdio::_print" || d == "std::io::stdio::_eprint" {
            Hook::Nop
        } else if d.starts_with("<std::hash::random::DefaultHasher as core::hash::Hasher>::finish")
            || (d.contains("SipHasher13") && d.ends_with("Hasher>::finish"))
            || d.contains("BuildHasher>::hash_one")
            // (tables of names have concrete keys, hashed as they are: their lookups are inlined)
            || (d.starts_with("hashbrown::map::make_hash::<") && !d.contains("alloc::string::String"))
            // the hash of an entry that moves when a table grows
            || (!d.contains("alloc::string::String") && d.contains("::reserve_rehash::<") && d.ends_with("{closure#0}") && n.starts_with("_RNC"))
        {
            Hook::HasherFinish
        } else if def.is_none() || n.starts_with("__sym_") {
            if n.starts_with("_R") {
                Hook::Undef
            } else {
                Hook::Ext(n.to_string())
            }
        } else {
            let _ = Hook::Format;
            Hook::None
        };
        self.hooks.insert(fi, h.clone());
        h
    }

    fn panic_event(&mut self, st: &mut State, name: &str) -> Ctl {
        if st.allow_panic {
            return Ctl::PanicOk;
        }
        self.viol(st, "panic", name)
    }

    fn call(&mut self, st: &mut State, f: &O, direct: Option<usize>, args: &'static [O], d: Option<u32>, ret: &Ty) -> R<bool> {
        let fi = match direct {
            Some(f) => f,
            None => {
                let a = self.conc_reg(st, f)?;
                match self.fobj.get(&((a >> 32) as u32)) {
                    Some(f) if a & 0xffff_ffff == 0 => *f,
                    _ => return Err(self.viol(st, "memory", "call of a non-function address")),
                }
            }
        };
        match self.hook(fi) {
            Hook::None => {}
            Hook::Panic(n) => return Err(self.panic_event(st, &n)),
            Hook::Nop => {
                if let Some(d) = d {
                    set(st, d, zero_of(ret));
                }
                return Ok(false);
            }
            Hook::HasherFinish => {
                if let Some(d) = d {
                    set(st, d, V::K(0x1234_5678_9abc_def0, 64));
                }
                return Ok(false);
            }
            Hook::Undef | Hook::Format => {
                let n = demangle(&self.m.funcs[fi].0);
                return err(format!("call of undefined {}", n));
            }
            Hook::Ext(n) => {
                let r = self.external(st, &n, args, ret)?;
                if let Some(d) = d {
                    set(st, d, r);
                }
                return Ok(false);
            }
        }
        if st.frames.len() > 1500 {
            return Err(self.viol(st, "stack", "call depth over 1500 (unbounded recursion)"));
        }
        let cf = self.cf(fi);
        let mut regs = vec![V::U; cf.nregs as usize];
        for (p, o) in cf.params.iter().zip(args) {
            regs[*p as usize] = self.get(st, o);
        }
        st.frames.push(Rc::new(Frame { f: cf, block: 0, ip: 0, regs, allocas: vec![], ret: d }));
        Ok(false)
    }

    fn do_alloc(&mut self, st: &mut State, size: &O, zero_mul: u64) -> R<u64> {
        let sv = self.get(st, size);
        if sv.k().is_none() {
            let e = sv.e();
            let big = cmp(C::Ult, konst(self.alloc_limit as u128, 64), e);
            if let Some(m) = self.feasible(st, big)? {
                if self.alloc_cut {
                    // the harness only asks what happens before: larger allocations are left out
                    let m = "large allocation".to_string();
                    if !st.reached.contains(&m) {
                        Rc::make_mut(&mut st.reached).push(m);
                    }
                    let small = not(big);
                    match self.feasible(st, small)? {
                        None => return Err(Ctl::Assumed),
                        Some(m) => {
                            st.model = m;
                            add_pc(st, small);
                        }
                    }
                } else {
                    st.model = m;
                    add_pc(st, big);
                    return Err(self.viol(st, "alloc", "allocation size not bounded by the input"));
                }
            }
        }
        let n = self.conc_reg(st, size)?;
        let n = n.saturating_mul(zero_mul);
        if n > self.alloc_limit {
            if self.alloc_cut {
                return Err(Ctl::Assumed);
            }
            return Err(self.viol(st, "alloc", &format!("allocation of {} bytes", n)));
        }
        Ok(n)
    }

    fn external(&mut self, st: &mut State, n: &str, args: &'static [O], ret: &Ty) -> R<V> {
        let ptr = |a: u64| V::K(a, 64);
        match n {
            "malloc" => {
                let k = self.do_alloc(st, &args[0], 1)?;
                return Ok(ptr(self.alloc(st, k, true)));
            }
            "calloc" => {
                let (x, y) = if self.get(st, &args[0]).k().is_some() { (0, 1) } else { (1, 0) };
                let a = self.conc_reg(st, &args[x])?;
                let k = self.do_alloc(st, &args[y], a)?;
                return Ok(ptr(self.alloc(st, k, true)));
            }
            "aligned_alloc" => {
                let k = self.do_alloc(st, &args[1], 1)?;
                return Ok(ptr(self.alloc(st, k, true)));
            }
            "posix_memalign" => {
                let k = self.do_alloc(st, &args[2], 1)?;
                let p = self.get(st, &args[0]);
                let a = self.alloc(st, k, true);
                self.store(st, &Ty::Ptr, &p, &ptr(a))?;
                return Ok(V::K(0, 32));
            }
            "realloc" => {
                let old = self.conc_reg(st, &args[0])?;
                let k = self.do_alloc(st, &args[1], 1)?;
                let (id, _) = self.chk(st, old, 0, false)?;
                let osz = self.obj(st, id).unwrap().data.len() as u64;
                let a = self.alloc(st, k, true);
                self.copy(st, a, old, osz.min(k))?;
                st.mem.remove(&id);
                return Ok(ptr(a));
            }
            "free" => {
                let a = self.conc_reg(st, &args[0])?;
                if a != 0 {
                    let (id, off) = self.chk(st, a, 0, false)?;
                    let o = self.obj(st, id).unwrap();
                    if off != 0 || !o.heap {
                        return Err(self.viol(st, "memory", "invalid free"));
                    }
                    st.mem.remove(&id);
                }
                return Ok(V::U);
            }
            "memcmp" | "bcmp" => {
                let l = self.conc_reg(st, &args[2])?;
                let a = self.conc_reg(st, &args[0])?;
                let b = self.conc_reg(st, &args[1])?;
                let x = self.read_bytes(st, a, l)?;
                let y = self.read_bytes(st, b, l)?;
                return Ok(memcmp_v(&x, &y, n == "bcmp"));
            }
            "strlen" => {
                let a = self.conc_reg(st, &args[0])?;
                let mut i = 0;
                loop {
                    let b = self.read_bytes(st, a + i, 1)?;
                    let v = self.conc(st, &b[0])?;
                    if v == 0 {
                        return Ok(V::K(i, 64));
                    }
                    i += 1;
                }
            }
            "getrandom" => {
                let p = self.conc_reg(st, &args[0])?;
                let l = self.conc_reg(st, &args[1])?;
                self.write_bytes(st, p, &vec![V::K(0x5a, 8); l as usize])?;
                return Ok(V::K(l, 64));
            }
            "getenv" => return Ok(ptr(0)),
            "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" | "pthread_key_delete" => return Ok(V::K(0, 32)),
            "gettid" => return Ok(V::K(1, 32)),
            "write" => return self.conc_reg(st, &args[2]).map(|x| V::K(x, 64)),
            "abort" | "_exit" | "exit" => {
                return Err(self.panic_event(st, n));
            }
            _ => {}
        }
        if n.starts_with("llvm.") {
            return self.intrinsic(st, n, args, ret);
        }
        if n.starts_with("__sym_") {
            return self.harness(st, n, args);
        }
        err(format!("external function {}", n))
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, args: &'static [O], ret: &Ty) -> R<V> {
        let starts = |p: &str| n.starts_with(p);
        if starts("llvm.lifetime") || starts("llvm.assume") || starts("llvm.experimental.noalias") || starts("llvm.dbg") || starts("llvm.prefetch") || starts("llvm.x86.sse2.pause") {
            return Ok(V::U);
        }
        if starts("llvm.memcpy") || starts("llvm.memmove") {
            let l = self.conc_reg(st, &args[2])?;
            if l == 0 {
                return Ok(V::U);
            }
            let d = self.conc_reg(st, &args[0])?;
            let s = self.conc_reg(st, &args[1])?;
            self.copy(st, d, s, l)?;
            return Ok(V::U);
        }
        if starts("llvm.memset") {
            let l = self.conc_reg(st, &args[2])?;
            if l == 0 {
                return Ok(V::U);
            }
            let d = self.conc_reg(st, &args[0])?;
            let v = self.get(st, &args[1]);
            let (id, off) = self.chk(st, d, l, true)?;
            let o = self.obj_mut(st, id).unwrap();
            for i in 0..l as usize {
                o.put(off + i, &v)
            }
            return Ok(V::U);
        }
        if starts("llvm.threadlocal.address") || starts("llvm.ptrmask") && false || starts("llvm.expect") || starts("llvm.launder") {
            return Ok(self.get(st, &args[0]));
        }
        if starts("llvm.trap") || starts("llvm.ubsantrap") {
            return Err(self.panic_event(st, "trap"));
        }
        if starts("llvm.is.constant") {
            return Ok(V::K(0, 1));
        }
        let a = self.get(st, &args[0]);
        let b = args.get(1).map(|o| self.get(st, o)).unwrap_or(V::U);
        let base: Vec<&str> = n.split('.').collect();
        if n == "llvm.x86.sse2.pmulhu.w" {
            if let (V::A(x), V::A(y)) = (&a, &b) {
                let o = x.iter().zip(y.iter()).map(|(p, q)| V::of(extract(bin(B::Mul, zext(p.e(), 32), zext(q.e(), 32)), 16, 16))).collect();
                return Ok(V::A(Rc::new(o)));
            }
        }
        if base[1] == "vector" && base[2] == "reduce" {
            if let V::A(v) = &a {
                let mut r = v[0].clone();
                for x in &v[1..] {
                    r = match base[3] {
                        "add" => bin_v(B::Add, &r, x),
                        "or" => bin_v(B::Or, &r, x),
                        "and" => bin_v(B::And, &r, x),
                        "xor" => bin_v(B::Xor, &r, x),
                        "mul" => bin_v(B::Mul, &r, x),
                        "umax" => sel(&cmp_v("ugt", &r, x), &r, x),
                        "umin" => sel(&cmp_v("ult", &r, x), &r, x),
                        "smax" => sel(&cmp_v("sgt", &r, x), &r, x),
                        "smin" => sel(&cmp_v("slt", &r, x), &r, x),
                        _ => return err(n),
                    }
                }
                return Ok(r);
            }
        }
        if let (V::A(x), Ty::Vec(..)) = (&a, ret) {
            // element-wise
            let mut o = vec![];
            for i in 0..x.len() {
                let bi = match &b {
                    V::A(y) => y[i].clone(),
                    y => y.clone(),
                };
                let c = args.get(2).map(|o| self.get(st, o));
                let ci = match c {
                    Some(V::A(y)) => Some(y[i].clone()),
                    c => c,
                };
                o.push(self.intr1(n, &base, &x[i], &bi, ci.as_ref(), &ret.elem(i as u64))?);
            }
            return Ok(V::A(Rc::new(o)));
        }
        let c = args.get(2).map(|o| self.get(st, o));
        let r = self.intr1(n, &base, &a, &b, c.as_ref(), ret)?;
        if base[1] == "cttz" && r.k().is_none() && width(r.e()) == 64 {
            // the position of a byte in a word (text searches): positions stay concrete
            let k = self.conc(st, &r)?;
            return Ok(V::K(k, 64));
        }
        Ok(r)
    }
    fn intr1(&self, n: &str, base: &[&str], a: &V, b: &V, c: Option<&V>, ret: &Ty) -> R<V> {
        let _ = ret;
        let w = width(a.e());
        match base[1] {
            "umax" => Ok(sel(&cmp_v("ugt", a, b), a, b)),
            "umin" => Ok(sel(&cmp_v("ult", a, b), a, b)),
            "smax" => Ok(sel(&cmp_v("sgt", a, b), a, b)),
            "smin" => Ok(sel(&cmp_v("slt", a, b), a, b)),
            "abs" => {
                let z = V::of(konst(0, w));
                let neg = bin_v(B::Sub, &z, a);
                Ok(sel(&cmp_v("slt", a, &z), &neg, a))
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                let op = match &base[1][1..] {
                    "add" => B::Add,
                    "sub" => B::Sub,
                    _ => B::Mul,
                };
                let signed = base[1].starts_with('s');
                let (x, y) = (a.e(), b.e());
                let mut r = bin(op, x, y);
                if op == B::Mul && w <= 32 && !matches!(node(x), N::Const(_)) && !matches!(node(y), N::Const(_)) {
                    // one multiplication for the result and the overflow test
                    let ex = |e| if signed { sext(e, 2 * w) } else { zext(e, 2 * w) };
                    r = extract(bin(B::Mul, ex(x), ex(y)), 0, w);
                }
                // exact result in a wider type
                let ov = match (op, signed) {
                    (B::Add, false) => cmp(C::Ult, r, x),
                    (B::Sub, false) => cmp(C::Ult, x, y),
                    (B::Add, true) if w == 128 => {
                        // operands of one sign, a result of the other
                        let t = |e| extract(e, w - 1, 1);
                        and1(eq(t(x), t(y)), not(eq(t(x), t(r))))
                    }
                    (B::Sub, true) if w == 128 => {
                        let t = |e| extract(e, w - 1, 1);
                        and1(not(eq(t(x), t(y))), not(eq(t(x), t(r))))
                    }
                    (B::Add, true) => {
                        let (x2, y2) = (sext(x, w + 1), sext(y, w + 1));
                        let r2 = bin(B::Add, x2, y2);
                        not(eq(r2, sext(r, w + 1)))
                    }
                    (B::Sub, true) => {
                        let (x2, y2) = (sext(x, w + 1), sext(y, w + 1));
                        let r2 = bin(B::Sub, x2, y2);
                        not(eq(r2, sext(r, w + 1)))
                    }
                    (_, s) => {
                        if w > 64 {
                            // one side bounded by a constant
                            let k = match (node(x), node(y)) {
                                (N::Const(k), _) => Some((k, y)),
                                (_, N::Const(k)) => Some((k, x)),
                                _ => None,
                            };
                            match k {
                                _ if !s && umax(x).checked_mul(umax(y)).map_or(false, |p| p <= mask(w)) => fals(),
                                Some((0, _)) => fals(),
                                Some((k, v)) if !s => cmp(C::Ult, konst(mask(w) / k, w), v),
                                _ => return err("wide mul overflow"),
                            }
                        } else {
                        let ex = |e| if s { sext(e, 2 * w) } else { zext(e, 2 * w) };
                        let r2 = bin(B::Mul, ex(x), ex(y));
                        not(eq(r2, ex(r)))
                        }
                    }
                };
                if base[2] == "with" {
                    Ok(V::A(Rc::new(vec![V::of(r), V::of(ov)])))
                } else {
                    // saturating
                    let sat = match (op, signed) {
                        (B::Add, false) => konst(mask(w), w),
                        (B::Sub, false) => konst(0, w),
                        _ => {
                            // sign of the exact result decides: for add/sub it is the sign of x
                            let min = konst(1u128 << (w - 1), w);
                            let max = konst(mask(w) >> 1, w);
                            ite(extract(x, w - 1, 1), min, max)
                        }
                    };
                    Ok(V::of(ite(ov, sat, r)))
                }
            }
            "ctpop" => {
                if let Some(k) = a.k() {
                    return Ok(V::K(k.count_ones() as u64, w));
                }
                let x = a.e();
                let mut r = konst(0, w);
                for i in 0..w {
                    r = bin(B::Add, r, zext(extract(x, i, 1), w));
                }
                Ok(V::of(r))
            }
            "ctlz" | "cttz" => {
                let x = a.e();
                let mut r = konst(w as u128, w);
                for i in 0..w {
                    // lowest-priority bit first
                    let (bit, val) = if base[1] == "ctlz" { (i, w - 1 - i) } else { (w - 1 - i, w - 1 - i) };
                    r = ite(extract(x, bit, 1), konst(val as u128, w), r);
                }
                Ok(V::of(r))
            }
            "bswap" => {
                let x = a.e();
                let mut r: Option<E> = None;
                for i in 0..w / 8 {
                    let p = extract(x, i * 8, 8);
                    r = Some(match r {
                        None => p,
                        Some(r) => concat(r, p),
                    });
                }
                Ok(V::of(r.unwrap()))
            }
            "bitreverse" => {
                let x = a.e();
                let mut r: Option<E> = None;
                for i in 0..w {
                    let p = extract(x, i, 1);
                    r = Some(match r {
                        None => p,
                        Some(r) => concat(r, p),
                    });
                }
                Ok(V::of(r.unwrap()))
            }
            "fshl" | "fshr" => {
                let s = c.unwrap();
                if 2 * w as u32 > 128 {
                    return err("wide funnel shift");
                }
                let cat = concat(a.e(), b.e());
                let sh = zext(bin(B::URem, s.e(), konst(w as u128, w)), 2 * w);
                if base[1] == "fshl" {
                    let r = bin(B::Shl, cat, sh);
                    Ok(V::of(extract(r, w, w)))
                } else {
                    let r = bin(B::LShr, cat, sh);
                    Ok(V::of(extract(r, 0, w)))
                }
            }
            "ucmp" | "scmp" => {
                let rw = match ret {
                    Ty::Int(w) => *w as u8,
                    _ => return err(n),
                };
                let (lt, gt) = if base[1] == "ucmp" { ("ult", "ugt") } else { ("slt", "sgt") };
                let l = cmp_v(lt, a, b);
                let g = cmp_v(gt, a, b);
                let one = V::of(konst(1, rw));
                let z = V::of(konst(0, rw));
                let m1 = V::of(konst(mask(rw), rw));
                Ok(sel(&l, &m1, &sel(&g, &one, &z)))
            }
            "fabs" => match a.k() {
                Some(k) => Ok(V::K(k & m64(w - 1), w)),
                None => err("symbolic float"),
            },
            "ptrmask" => Ok(bin_v(B::And, a, b)),
            "fptoui" | "fptosi" => err(n),
            _ => err(format!("intrinsic {}", n)),
        }
    }

    fn cstr(&mut self, st: &mut State, p: &O, l: &O) -> R<String> {
        let a = self.conc_reg(st, p)?;
        let l = self.conc_reg(st, l)?;
        let b = self.read_bytes(st, a, l)?;
        Ok(b.iter().map(|v| v.k().unwrap_or(b'?' as u64) as u8 as char).collect())
    }

    fn harness(&mut self, st: &mut State, n: &str, args: &'static [O]) -> R<V> {
        match n {
            "__sym_bytes" => {
                let p = self.conc_reg(st, &args[0])?;
                let l = self.conc_reg(st, &args[1])? as usize;
                let mut ids = vec![];
                let mut vs = vec![];
                let k = st.inputs.len();
                let seed = self.input_seed.as_ref().and_then(|s| s.get(k)).cloned();
                // variables are numbered by position so that sibling paths share them
                let mut vals = None;
                for i in 0..l {
                    if let Some(s) = &seed {
                        // concrete replay inside the engine
                        let id = self.input_var(k, i);
                        ids.push(id);
                        let v = vals.get_or_insert_with(|| st.model.vals.clone());
                        if v.len() <= id as usize {
                            v.resize(id as usize + 1, 0);
                        }
                        v[id as usize] = s.get(i).copied().unwrap_or(0);
                        vs.push(V::K(s.get(i).copied().unwrap_or(0) as u64, 8));
                    } else {
                        let id = self.input_var(k, i);
                        ids.push(id);
                        vs.push(V::X(var(id)));
                    }
                }
                if let Some(v) = vals {
                    st.model = Model::new(v);
                } else {
                    // seed the model with varied values
                    let mut v = st.model.vals.clone();
                    for (i, id) in ids.iter().enumerate() {
                        if v.len() <= *id as usize {
                            v.resize(*id as usize + 1, 0);
                        }
                        v[*id as usize] = (i as u8).wrapping_mul(37).wrapping_add(k as u8).wrapping_add(1);
                    }
                    st.model = Model::new(v);
                }
                Rc::make_mut(&mut st.inputs).push(ids);
                self.write_bytes(st, p, &vs)?;
                Ok(V::U)
            }
            "__sym_assume" => {
                let v = self.get(st, &args[0]);
                let c = nonzero(&v);
                match c.k() {
                    Some(1) => {}
                    Some(_) => return Err(Ctl::Assumed),
                    None => {
                        let e = c.e();
                        match self.feasible(st, e)? {
                            None => return Err(Ctl::Assumed),
                            Some(m) => {
                                st.model = m;
                                add_pc(st, e);
                            }
                        }
                    }
                }
                Ok(V::U)
            }
            "__sym_check" => {
                self.checks += 1;
                let v = self.get(st, &args[0]);
                let c = nonzero(&v);
                if c.k() == Some(1) {
                    return Ok(V::U);
                }
                let msg = self.cstr(st, &args[1], &args[2])?;
                if c.k() == Some(0) {
                    return Err(self.viol(st, "check", &msg));
                }
                self.checks_sym += 1;
                let e = c.e();
                let ne = not(e);
                if let Some(m) = self.feasible(st, ne)? {
                    st.model = m;
                    return Err(self.viol(st, "check", &msg));
                }
                Ok(V::U)
            }
            "__sym_reach" => {
                let msg = self.cstr(st, &args[0], &args[1])?;
                if !st.reached.contains(&msg) {
                    Rc::make_mut(&mut st.reached).push(msg);
                }
                Ok(V::U)
            }
            "__sym_obs" => {
                let p = self.conc_reg(st, &args[0])?;
                let l = self.conc_reg(st, &args[1])?;
                let b = self.read_bytes(st, p, l)?;
                Rc::make_mut(&mut st.obs).push(b);
                Ok(V::U)
            }
            "__sym_flag" => {
                let k = self.conc_reg(st, &args[0])?;
                let v = self.conc_reg(st, &args[1])?;
                match k {
                    0 => st.merge = if v == 0 { usize::MAX } else { st.frames.len() + v as usize - 2 },
                    1 => st.allow_panic = v != 0,
                    2 => self.alloc_limit = v,
                    3 => self.alloc_cut = v != 0,
                    _ => return err("flag"),
                }
                Ok(V::U)
            }
            "__sym_concretize" => {
                let k = self.conc_reg(st, &args[0])?;
                Ok(V::K(k, 64))
            }
            // branch-free boolean/select helpers for harness oracles
            "__sym_ite" => {
                let c = nonzero(&self.get(st, &args[0]));
                let (a, b) = (self.get(st, &args[1]), self.get(st, &args[2]));
                Ok(sel(&c, &a, &b))
            }
            "__sym_symbolic" => Ok(V::K(1, 64)),
            "__sym_hash" => {
                let algo = self.conc_reg(st, &args[0])?;
                let p = self.conc_reg(st, &args[1])?;
                let l = self.conc_reg(st, &args[2])?;
                let o = self.conc_reg(st, &args[3])?;
                let ol = self.conc_reg(st, &args[4])?;
                let inp: Vec<E> = self.read_bytes(st, p, l)?.iter().map(|v| v.e()).collect();
                let key = (algo, inp.clone());
                let id = match self.hash_map.get(&key) {
                    Some(i) => *i,
                    None => {
                        let out: Vec<u32> = (0..ol)
                            .map(|_| match node(new_var()) {
                                N::Var(i) => i,
                                _ => unreachable!(),
                            })
                            .collect();
                        self.hashes.push(HashRec { algo, input: inp, out });
                        let id = self.hashes.len() as u32 - 1;
                        self.hash_map.insert(key, id);
                        id
                    }
                };
                if !st.hashes.contains(&id) {
                    let rec = &self.hashes[id as usize];
                    let mut vals = st.model.vals.clone();
                    // pseudo-random default output, overridden when the model makes inputs equal
                    let mut seed = (id as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15);
                    let mut cons = vec![];
                    let mut copy_from: Option<u32> = None;
                    for other in st.hashes.iter() {
                        let o = &self.hashes[*other as usize];
                        if o.algo != rec.algo || o.input.len() != rec.input.len() || o.out.len() != rec.out.len() {
                            continue;
                        }
                        let mut same = tru();
                        for (x, y) in o.input.iter().zip(rec.input.iter()) {
                            same = and1(same, eq(*x, *y));
                        }
                        if as_const(same) == Some(0) {
                            continue;
                        }
                        let mut outs = tru();
                        for (x, y) in o.out.iter().zip(rec.out.iter()) {
                            outs = and1(outs, eq(var(*x), var(*y)));
                        }
                        if st.model.eval(same) == 1 {
                            copy_from = Some(*other);
                        }
                        cons.push(or1(not(same), outs));
                    }
                    for (i, v) in rec.out.iter().enumerate() {
                        if vals.len() <= *v as usize {
                            vals.resize(*v as usize + 1, 0);
                        }
                        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                        vals[*v as usize] = match copy_from {
                            Some(o) => vals[self.hashes[o as usize].out[i] as usize],
                            None => (seed >> 56) as u8,
                        };
                    }
                    st.model = Model::new(vals);
                    for c in cons {
                        if st.model.eval(c) != 1 {
                            return err("hash model");
                        }
                        st.pc.push(c);
                    }
                    Rc::make_mut(&mut st.hashes).push(id);
                }
                let out: Vec<V> = self.hashes[id as usize].out.iter().map(|v| V::X(var(*v))).collect();
                self.write_bytes(st, o, &out)?;
                Ok(V::U)
            }
            _ => err(format!("harness call {}", n)),
        }
    }
    fn input_var(&mut self, k: usize, i: usize) -> u32 {
        let key = (1u64 << 60 | k as u64, vec![E(i as u32)]);
        if let Some(v) = self.hash_map.get(&key) {
            return *v;
        }
        let id = match node(new_var()) {
            N::Var(i) => i,
            _ => unreachable!(),
        };
        self.hash_map.insert(key, id);
        id
    }

    /// source-level functions executed: (name, file)
    pub fn functions(&self) -> BTreeMap<String, String> {
        let mut sps: std::collections::HashSet<u32> = Default::default();
        let mut seen: std::collections::HashSet<u32> = Default::default();
        for cf in self.cfs.values() {
            for b in &cf.blocks {
                if b.hit.get() {
                    for d in &b.dbg {
                        let mut d = *d;
                        while d != 0 && seen.insert(d) {
                            let t = self.m.meta_text(d);
                            if !t.contains("DILocation") {
                                break;
                            }
                            let sp = self.scope_sp(mref(t, "scope: !"));
                            if sp != 0 {
                                sps.insert(sp);
                            }
                            d = mref(t, "inlinedAt: !");
                        }
                    }
                }
            }
        }
        sps.iter().map(|s| (self.sp_name(*s), self.sp_file(*s))).collect()
    }
}

fn mfield(t: &str, k: &str) -> String {
    match t.find(k) {
        Some(i) => t[i + k.len()..].chars().take_while(|c| c.is_ascii_digit()).collect(),
        None => String::new(),
    }
}
fn mref(t: &str, k: &str) -> u32 {
    mfield(t, k).parse().unwrap_or(0)
}
fn mstr(t: &str, k: &str) -> String {
    // "name: " must not match inside "linkageName: "
    let mut from = 0;
    while let Some(i) = t[from..].find(k) {
        let at = from + i;
        let okb = at == 0 || !t.as_bytes()[at - 1].is_ascii_alphanumeric();
        if okb {
            return t[at + k.len()..].chars().take_while(|c| *c != '"').collect();
        }
        from = at + 1;
    }
    String::new()
}

pub fn is_panic_fn(d: &str) -> bool {
    d.starts_with("core::panicking::")
        || d.starts_with("core::option::unwrap_failed")
        || d.starts_with("core::option::expect_failed")
        || d.starts_with("core::result::unwrap_failed")
        || (d.starts_with("core::slice::") && d.contains("_fail"))
        || (d.starts_with("core::slice::") && d.contains("len_mismatch"))
        || d.starts_with("core::str::slice_error_fail")
        || d.starts_with("core::cell::panic_already")
        || d.starts_with("alloc::raw_vec::handle_error")
        || d.starts_with("alloc::raw_vec::capacity_overflow")
        || d.starts_with("alloc::alloc::handle_alloc_error")
        || (d.starts_with("alloc::vec::Vec") || d.starts_with("<alloc::vec::Vec")) && d.contains("assert_failed")
        || d.contains("rust_begin_unwind")
        || d.contains("__rust_start_panic")
        || (d.starts_with("std::panicking::") && !d.contains("panic_count"))
        || d.starts_with("std::process::abort")
        || d.starts_with("std::alloc::rust_oom")
        || d.starts_with("std::rt::")
}

fn set(st: &mut State, r: u32, v: V) {
    Rc::make_mut(st.frames.last_mut().unwrap()).regs[r as usize] = v;
}
fn add_pc(st: &mut State, c: E) {
    match node(c) {
        N::Const(_) => {}
        N::Bin(B::And, a, b) => {
            add_pc(st, a);
            add_pc(st, b);
        }
        _ => {
            if !st.pc.contains(&c) {
                st.pc.push(c)
            }
        }
    }
}
fn add_off(p: &V, k: u64) -> V {
    if k == 0 {
        p.clone()
    } else {
        bin_v(B::Add, p, &V::K(k, 64))
    }
}
fn load_c(o: &Obj, off: usize, n: usize) -> V {
    let symbolic = match &o.sym {
        Some(s) => s[off..off + n].iter().any(|x| *x != CONC),
        None => false,
    };
    if !symbolic {
        if n <= 8 {
            let mut v = 0u64;
            for i in 0..n {
                v |= (o.data[off + i] as u64) << (8 * i)
            }
            return V::K(v, (8 * n) as u8);
        }
        let mut v = 0u128;
        for i in 0..n {
            v |= (o.data[off + i] as u128) << (8 * i)
        }
        return V::X(konst(v, (8 * n) as u8));
    }
    let mut r = o.get(off + n - 1).e();
    for i in (0..n - 1).rev() {
        r = concat(r, o.get(off + i).e());
    }
    V::of(r)
}
fn store_c(o: &mut Obj, off: usize, n: usize, v: &V) {
    match v {
        V::K(k, _) => {
            for i in 0..n {
                o.data[off + i] = (k >> (8 * i)) as u8;
            }
            if let Some(s) = &mut o.sym {
                s[off..off + n].iter_mut().for_each(|x| *x = CONC)
            }
        }
        V::U => store_c(o, off, n, &V::K(0, 64)),
        _ => {
            let e = v.e();
            for i in 0..n {
                o.put(off + i, &V::of(extract(e, (8 * i) as u8, 8)))
            }
        }
    }
}
fn trunc_v(v: V, w: u8) -> V {
    match v {
        V::K(k, _) => V::K(k & m64(w), w),
        V::X(e) => V::of(extract(e, 0, w)),
        V::U => V::K(0, w),
        V::A(_) => panic!("trunc agg"),
    }
}
fn sext_v(v: &V, from: u8, to: u8) -> V {
    match v {
        V::K(k, _) if to <= 64 => V::K(s64(*k, from) as u64 & m64(to), to),
        _ => V::of(sext(v.e(), to)),
    }
}
fn sel(c: &V, a: &V, b: &V) -> V {
    match c.k() {
        Some(1) => a.clone(),
        Some(_) => b.clone(),
        None => match (a, b) {
            (V::A(x), V::A(y)) => V::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| sel(c, p, q)).collect())),
            (V::U, x) | (x, V::U) => x.clone(),
            _ => V::of(ite(c.e(), a.e(), b.e())),
        },
    }
}
fn insert(base: &mut V, idx: &[u64], x: V) {
    if idx.is_empty() {
        *base = x;
        return;
    }
    if let V::A(v) = base {
        let v = Rc::make_mut(v);
        insert(&mut v[idx[0] as usize], &idx[1..], x);
    }
}
fn nonzero(v: &V) -> V {
    match v {
        V::K(k, _) => V::K((*k != 0) as u64, 1),
        V::X(e) => {
            let w = width(*e);
            if w == 1 {
                V::of(*e)
            } else {
                V::of(not(eq(*e, konst(0, w))))
            }
        }
        _ => V::K(0, 1),
    }
}
fn memcmp_v(x: &[V], y: &[V], eq_only: bool) -> V {
    if eq_only {
        let mut c = tru();
        for (p, q) in x.iter().zip(y) {
            if let (V::K(a, _), V::K(b, _)) = (p, q) {
                if a != b {
                    return V::K(1, 32);
                }
                continue;
            }
            c = and1(c, eq(p.e(), q.e()));
        }
        return V::of(zext(not(c), 32));
    }
    let mut r = konst(0, 32);
    for (p, q) in x.iter().zip(y).rev() {
        let (a, b) = (p.e(), q.e());
        let lt = cmp(C::Ult, a, b);
        let e = eq(a, b);
        let d = ite(lt, konst(0xffff_ffff, 32), konst(1, 32));
        r = ite(e, r, d);
    }
    V::of(r)
}
fn fbin(op: &str, is32: bool, a: &V, b: &V) -> R<V> {
    let (x, y) = match (a.k(), b.k()) {
        (Some(x), Some(y)) => (x, y),
        _ => return err("symbolic float arithmetic"),
    };
    if is32 {
        let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
        let r = match op {
            "fadd" => p + q,
            "fsub" => p - q,
            "fmul" => p * q,
            "fdiv" => p / q,
            "frem" => p % q,
            _ => return err(op),
        };
        return Ok(V::K(r.to_bits() as u64, 32));
    }
    let (p, q) = (f64::from_bits(x), f64::from_bits(y));
    let r = match op {
        "fadd" => p + q,
        "fsub" => p - q,
        "fmul" => p * q,
        "fdiv" => p / q,
        "frem" => p % q,
        _ => return err(op),
    };
    Ok(V::K(r.to_bits(), 64))
}

// ---------- static analysis: liveness and immediate post-dominators ----------
fn succs(i: &I) -> Vec<u32> {
    match i {
        I::Br { to } => vec![*to],
        I::CondBr { t, f, .. } => vec![*t, *f],
        I::Switch { def, cases, .. } => {
            let mut v: Vec<u32> = cases.iter().map(|c| c.1).collect();
            v.push(*def);
            v.sort();
            v.dedup();
            v
        }
        _ => vec![],
    }
}
fn uses(i: &I, f: &mut dyn FnMut(u32)) {
    let mut o = |x: &O| {
        if let O::R(r) = x {
            f(*r)
        }
    };
    match i {
        I::Bin { a, b, .. } | I::Icmp { a, b, .. } | I::Fcmp { a, b, .. } => {
            o(a);
            o(b)
        }
        I::FNeg { a, .. } | I::Cast { a, .. } | I::ExtractValue { a, .. } | I::Copy { a, .. } => o(a),
        I::Alloca { n, .. } => {
            if let Some(n) = n {
                o(n)
            }
        }
        I::Load { p, .. } => o(p),
        I::Store { v, p, .. } => {
            o(v);
            o(p)
        }
        I::Gep { p, idx, .. } => {
            o(p);
            idx.iter().for_each(|x| o(&x.2))
        }
        I::Select { c, a, b, .. } => {
            o(c);
            o(a);
            o(b)
        }
        I::Call { f, args, .. } => {
            o(f);
            args.iter().for_each(|x| o(x))
        }
        I::InsertValue { a, v, .. } => {
            o(a);
            o(v)
        }
        I::ExtractElement { a, i, .. } => {
            o(a);
            o(i)
        }
        I::InsertElement { a, v, i, .. } => {
            o(a);
            o(v);
            o(i)
        }
        I::Shuffle { a, b, .. } => {
            o(a);
            o(b)
        }
        I::AtomicRmw { p, v, .. } => {
            o(p);
            o(v)
        }
        I::CmpXchg { p, c, n, .. } => {
            o(p);
            o(c);
            o(n)
        }
        I::Ret { v } => {
            if let Some(v) = v {
                o(v)
            }
        }
        I::CondBr { c, .. } => o(c),
        I::Switch { v, .. } => o(v),
        _ => {}
    }
}
fn def(i: &I) -> Option<u32> {
    match i {
        I::Bin { d, .. } | I::FNeg { d, .. } | I::Icmp { d, .. } | I::Fcmp { d, .. } | I::Cast { d, .. } | I::Alloca { d, .. } | I::Load { d, .. } | I::Gep { d, .. }
        | I::Select { d, .. } | I::ExtractValue { d, .. } | I::InsertValue { d, .. } | I::ExtractElement { d, .. } | I::InsertElement { d, .. } | I::Shuffle { d, .. }
        | I::Copy { d, .. } | I::AtomicRmw { d, .. } | I::CmpXchg { d, .. } => Some(*d),
        I::Call { d, .. } => *d,
        _ => None,
    }
}
fn analyse(cf: &mut CF) {
    let nb = cf.blocks.len();
    let words = (cf.nregs as usize + 63) / 64;
    let sc: Vec<Vec<u32>> = cf.blocks.iter().map(|b| b.ins.last().map(succs).unwrap_or_default()).collect();
    // live-in after the phis of the block (phis are evaluated on the edge)
    let mut usev = vec![vec![0u64; words]; nb];
    let mut defv = vec![vec![0u64; words]; nb];
    for (bi, b) in cf.blocks.iter().enumerate() {
        for i in &b.ins {
            let (u, dv) = (&mut usev[bi], &mut defv[bi]);
            uses(i, &mut |r| {
                let r = r as usize;
                if dv[r / 64] >> (r % 64) & 1 == 0 {
                    u[r / 64] |= 1 << (r % 64)
                }
            });
            if let Some(d) = def(i) {
                dv[d as usize / 64] |= 1 << (d % 64);
            }
        }
    }
    let mut live = usev.clone();
    let mut changed = true;
    while changed {
        changed = false;
        for bi in (0..nb).rev() {
            let mut out = vec![0u64; words];
            for s in &sc[bi] {
                let s = *s as usize;
                let mut inn = live[s].clone();
                for (d, _) in &cf.blocks[s].phis {
                    inn[*d as usize / 64] &= !(1 << (d % 64));
                }
                for (_, inc) in &cf.blocks[s].phis {
                    for (l, o) in inc {
                        if *l as usize == bi {
                            if let O::R(r) = o {
                                inn[*r as usize / 64] |= 1 << (r % 64)
                            }
                        }
                    }
                }
                for w in 0..words {
                    out[w] |= inn[w]
                }
            }
            for w in 0..words {
                let n = live[bi][w] | (out[w] & !defv[bi][w]);
                if n != live[bi][w] {
                    live[bi][w] = n;
                    changed = true;
                }
            }
        }
    }
    cf.live = live;
    // immediate post-dominators; blocks that cannot reach a return are ignored
    let exits: Vec<usize> = (0..nb).filter(|b| matches!(cf.blocks[*b].ins.last(), Some(I::Ret { .. }))).collect();
    let mut reach = vec![false; nb];
    let mut preds = vec![vec![]; nb];
    for b in 0..nb {
        for s in &sc[b] {
            preds[*s as usize].push(b)
        }
    }
    let mut stack = exits.clone();
    while let Some(b) = stack.pop() {
        if !reach[b] {
            reach[b] = true;
            stack.extend(preds[b].iter().copied());
        }
    }
    // order: reverse post-order on the reversed graph with virtual exit nb
    let mut order = vec![];
    let mut seen = vec![false; nb + 1];
    let mut st: Vec<(usize, usize)> = vec![(nb, 0)];
    seen[nb] = true;
    while let Some((b, i)) = st.pop() {
        let ps: &Vec<usize> = if b == nb { &exits } else { &preds[b] };
        if i < ps.len() {
            st.push((b, i + 1));
            let p = ps[i];
            if !seen[p] {
                seen[p] = true;
                st.push((p, 0));
            }
        } else {
            order.push(b);
        }
    }
    order.reverse();
    let mut num = vec![usize::MAX; nb + 1];
    for (i, b) in order.iter().enumerate() {
        num[*b] = i
    }
    let mut idom: Vec<Option<usize>> = vec![None; nb + 1];
    idom[nb] = Some(nb);
    let mut ch = true;
    while ch {
        ch = false;
        for b in order.iter().skip(1) {
            let mut n: Option<usize> = None;
            let mut ss: Vec<usize> = sc[*b].iter().map(|s| *s as usize).filter(|s| reach[*s]).collect();
            if exits.contains(b) {
                ss.push(nb);
            }
            for s in ss {
                if idom[s].is_none() {
                    continue;
                }
                n = Some(match n {
                    None => s,
                    Some(mut x) => {
                        let mut y = s;
                        while x != y {
                            while num[x] > num[y] {
                                x = idom[x].unwrap()
                            }
                            while num[y] > num[x] {
                                y = idom[y].unwrap()
                            }
                        }
                        x
                    }
                });
            }
            if n.is_some() && idom[*b] != n {
                idom[*b] = n;
                ch = true;
            }
        }
    }
    cf.ipdom = (0..nb).map(|b| idom[b].filter(|x| *x != nb).map(|x| x as u32)).collect();
}
