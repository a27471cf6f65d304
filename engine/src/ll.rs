//! Parser for the subset of textual LLVM IR that rustc emits.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(n, t) => (n * t.bits() / 8).next_power_of_two().max(1),
            Ty::Struct(ts, packed) => {
                if *packed {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn bits(&self) -> u64 {
        match self {
            Ty::Int(w) => *w as u64,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vec(n, t) => n * t.bits(),
            _ => self.size() * 8,
        }
    }
    /// alloc size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => {
                let s = (n * t.bits() + 7) / 8;
                s
            }
            Ty::Struct(ts, packed) => {
                let mut o = 0u64;
                for t in ts.iter() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            Ty::Void | Ty::Other => 0,
        }
    }
    pub fn field_off(&self, i: u64) -> u64 {
        match self {
            Ty::Struct(ts, packed) => {
                let mut o = 0u64;
                for (k, t) in ts.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k as u64 == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) => t.size() * i,
            Ty::Vec(_, t) => t.size() * i,
            _ => panic!("field_off"),
        }
    }
    pub fn elem(&self, i: u64) -> Ty {
        match self {
            Ty::Struct(ts, _) => ts[i as usize].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("elem"),
        }
    }
    pub fn count(&self) -> u64 {
        match self {
            Ty::Struct(ts, _) => ts.len() as u64,
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n,
            _ => panic!("count"),
        }
    }
}

/// constants, unresolved
#[derive(Clone, Debug)]
pub enum K {
    Int(u128),
    F(u64),
    Zero,
    Undef,
    Str(Rc<Vec<u8>>),
    Agg(Vec<(Ty, K)>),
    Splat(Ty, Box<K>),
    Global(Rc<str>),
    Gep(Ty, Box<K>, Vec<K>),
    Cast(Box<K>, Ty, Ty),
    Bin(String, Box<K>, Box<K>, Ty),
}

#[derive(Clone, Debug)]
pub enum Val {
    Reg(u32),
    K(Ty, K),
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin { op: &'static str, ty: Ty, a: Val, b: Val, d: u32 },
    FNeg { ty: Ty, a: Val, d: u32 },
    Icmp { pred: &'static str, ty: Ty, a: Val, b: Val, d: u32 },
    Fcmp { pred: String, ty: Ty, a: Val, b: Val, d: u32 },
    Cast { op: &'static str, from: Ty, to: Ty, a: Val, d: u32 },
    Alloca { ty: Ty, n: Option<Val>, d: u32 },
    Load { ty: Ty, p: Val, d: u32 },
    Store { ty: Ty, v: Val, p: Val },
    Gep { base: Ty, p: Val, idx: Vec<(Ty, Val)>, d: u32 },
    Select { ty: Ty, cty: Ty, c: Val, a: Val, b: Val, d: u32 },
    Call { ret: Ty, f: Val, args: Vec<(Ty, Val)>, d: Option<u32>, sret: Vec<u64> },
    ExtractValue { ty: Ty, a: Val, idx: Vec<u64>, d: u32 },
    InsertValue { ty: Ty, a: Val, vty: Ty, v: Val, idx: Vec<u64>, d: u32 },
    ExtractElement { ty: Ty, a: Val, i: Val, d: u32 },
    InsertElement { ty: Ty, a: Val, v: Val, i: Val, d: u32 },
    Shuffle { ty: Ty, a: Val, b: Val, m: Val, mty: Ty, d: u32 },
    Freeze { a: Val, d: u32 },
    AtomicRmw { op: String, ty: Ty, p: Val, v: Val, d: u32 },
    CmpXchg { ty: Ty, p: Val, c: Val, n: Val, d: u32 },
    Fence,
    Ret { v: Option<(Ty, Val)> },
    Br { to: u32 },
    CondBr { c: Val, t: u32, f: u32 },
    Switch { ty: Ty, v: Val, def: u32, cases: Vec<(u128, u32)> },
    Unreachable,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Phi {
    pub ty: Ty,
    pub inc: Vec<(u32, Val)>,
    pub d: u32,
}
#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub ins: Vec<(Ins, u32)>, // instr, dbg id
}
#[derive(Debug)]
pub struct Func {
    pub name: Rc<str>,
    pub params: Vec<(Ty, u32)>,
    pub ret: Ty,
    pub nregs: u32,
    pub blocks: Vec<Block>,
}
pub struct GlobalDef {
    pub name: Rc<str>,
    pub ty: Ty,
    pub init: Option<K>,
    pub constant: bool,
}
pub struct Module {
    pub text: Rc<String>,
    pub globals: Vec<GlobalDef>,
    pub aliases: Vec<(Rc<str>, K)>,
    /// function name -> (start offset of define line, end) or None for declarations
    pub funcs: Vec<(Rc<str>, Option<(usize, usize)>)>,
    pub fidx: HashMap<Rc<str>, usize>,
    pub named: HashMap<String, Ty>,
    pub meta: HashMap<u32, (usize, usize)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    W(String),
    L(String),
    G(String),
    I(u128),
    F(String),
    S(Vec<u8>),
    CS(Vec<u8>),
    P(char),
    M(String),
    A(u32),
    Dots,
}

fn unescape(b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() + 0 && i + 2 <= b.len() - 1 {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
                continue;
            }
            let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap();
            o.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

pub fn lex(s: &str) -> Vec<T> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut o = Vec::with_capacity(s.len() / 4);
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    let quoted = |i: &mut usize| -> Vec<u8> {
        // at opening quote
        let st = *i + 1;
        let mut j = st;
        while b[j] != b'"' {
            j += 1
        }
        *i = j + 1;
        unescape(&b[st..j])
    };
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1
                }
            }
            b'%' | b'@' => {
                i += 1;
                let name = if b[i] == b'"' {
                    String::from_utf8_lossy(&quoted(&mut i)).into_owned()
                } else {
                    let st = i;
                    while i < b.len() && idc(b[i]) {
                        i += 1
                    }
                    s[st..i].to_string()
                };
                o.push(if c == b'%' { T::L(name) } else { T::G(name) });
            }
            b'!' => {
                i += 1;
                let st = i;
                while i < b.len() && idc(b[i]) {
                    i += 1
                }
                o.push(T::M(s[st..i].to_string()));
            }
            b'#' => {
                i += 1;
                let st = i;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1
                }
                o.push(T::A(s[st..i].parse().unwrap_or(0)));
            }
            b'"' => {
                let v = quoted(&mut i);
                o.push(T::S(v))
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                i += 1;
                let v = quoted(&mut i);
                o.push(T::CS(v))
            }
            b'.' if s[i..].starts_with("...") => {
                i += 3;
                o.push(T::Dots)
            }
            b'+' | b'-' if ["inf", "nan", "qnan"].iter().any(|w| s[i + 1..].starts_with(w)) => {
                let st = i;
                i += 1;
                while i < b.len() && b[i].is_ascii_alphabetic() {
                    i += 1
                }
                o.push(T::F(s[st..i].replace('q', "")));
            }
            b'-' | b'0'..=b'9' => {
                let st = i;
                i += 1;
                if b[st] == b'0' && i < b.len() && b[i] == b'x' {
                    i += 1;
                    while i < b.len() && b[i].is_ascii_alphanumeric() {
                        i += 1
                    }
                    o.push(T::F(s[st..i].to_string()));
                    continue;
                }
                let mut fl = false;
                while i < b.len() {
                    if b[i].is_ascii_digit() {
                        i += 1
                    } else if b[i] == b'.' || ((b[i] == b'e') && fl) || ((b[i] == b'+' || b[i] == b'-') && fl && b[i - 1] == b'e') {
                        fl = true;
                        i += 1
                    } else {
                        break;
                    }
                }
                if fl {
                    o.push(T::F(s[st..i].to_string()))
                } else {
                    let t = &s[st..i];
                    let v = if let Some(n) = t.strip_prefix('-') {
                        (n.parse::<u128>().unwrap()).wrapping_neg()
                    } else {
                        t.parse::<u128>().unwrap()
                    };
                    o.push(T::I(v))
                }
            }
            _ if c.is_ascii_alphabetic() || c == b'_' => {
                let st = i;
                while i < b.len() && idc(b[i]) {
                    i += 1
                }
                o.push(T::W(s[st..i].to_string()))
            }
            _ => {
                i += 1;
                o.push(T::P(c as char))
            }
        }
    }
    o
}

pub struct Ps<'a> {
    pub t: Vec<T>,
    pub i: usize,
    pub m: &'a HashMap<String, Ty>,
    pub regs: Option<&'a mut HashMap<String, u32>>,
}

fn leak(s: &str) -> &'static str {
    const OPS: &[&str] = &[
        "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "fadd", "fsub", "fmul", "fdiv",
        "frem", "eq", "ne", "ugt", "uge", "ult", "ule", "sgt", "sge", "slt", "sle", "trunc", "zext", "sext", "ptrtoint", "inttoptr",
        "bitcast", "fptoui", "fptosi", "uitofp", "sitofp", "fpext", "fptrunc", "addrspacecast", "ptrtoaddr",
    ];
    OPS.iter().find(|o| **o == s).copied().unwrap_or_else(|| panic!("unknown op {}", s))
}

impl<'a> Ps<'a> {
    fn peek(&self) -> Option<&T> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> T {
        self.i += 1;
        self.t[self.i - 1].clone()
    }
    fn isw(&self, w: &str) -> bool {
        matches!(self.peek(), Some(T::W(x)) if x == w)
    }
    fn isp(&self, c: char) -> bool {
        self.peek() == Some(&T::P(c))
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.isw(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eatp(&mut self, c: char) -> bool {
        if self.isp(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expp(&mut self, c: char) {
        if !self.eatp(c) {
            panic!("expected {} at {:?} in {:?}", c, &self.t[self.i..(self.i + 5).min(self.t.len())], self.t)
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.next() {
                T::P('(') => d += 1,
                T::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                _ => {}
            }
        }
    }
    pub fn ty(&mut self) -> Ty {
        let mut t = match self.next() {
            T::W(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.isw("addrspace") {
                        self.i += 1;
                        self.skip_parens();
                    }
                    Ty::Ptr
                }
                "float" => Ty::F32,
                "double" => Ty::F64,
                "label" | "metadata" | "token" | "half" | "fp128" | "x86_fp80" | "bfloat" => Ty::Other,
                _ if w.starts_with('i') && w[1..].chars().all(|c| c.is_ascii_digit()) => Ty::Int(w[1..].parse().unwrap()),
                _ => panic!("type {} in {:?}", w, self.t),
            },
            T::L(n) => self.m.get(&n).cloned().unwrap_or(Ty::Other),
            T::P('[') => {
                let n = match self.next() {
                    T::I(n) => n as u64,
                    x => panic!("arr {:?}", x),
                };
                assert!(self.eatw("x"));
                let t = self.ty();
                self.expp(']');
                Ty::Arr(n, Rc::new(t))
            }
            T::P('<') => {
                if self.isp('{') {
                    self.i += 1;
                    let v = self.tylist('}');
                    self.expp('>');
                    Ty::Struct(Rc::new(v), true)
                } else {
                    let n = match self.next() {
                        T::I(n) => n as u64,
                        x => panic!("vec {:?}", x),
                    };
                    assert!(self.eatw("x"));
                    let t = self.ty();
                    self.expp('>');
                    Ty::Vec(n, Rc::new(t))
                }
            }
            T::P('{') => {
                let v = self.tylist('}');
                Ty::Struct(Rc::new(v), false)
            }
            x => panic!("type tok {:?} at {} in {:?}", x, self.i, self.t),
        };
        // function type  "i32 (ptr, ...)"
        if self.isp('(') && self.regs.is_some() {
            // only in calls of varargs functions
            self.skip_parens();
            let _ = &mut t;
        }
        t
    }
    fn tylist(&mut self, end: char) -> Vec<Ty> {
        let mut v = vec![];
        if self.eatp(end) {
            return v;
        }
        loop {
            v.push(self.ty());
            if self.eatp(end) {
                return v;
            }
            self.expp(',');
        }
    }
    fn reg(&mut self, n: String) -> u32 {
        let r = self.regs.as_mut().expect("regs");
        let k = r.len() as u32;
        *r.entry(n).or_insert(k)
    }
    pub fn val(&mut self, ty: &Ty) -> Val {
        if let Some(T::L(n)) = self.peek().cloned() {
            self.i += 1;
            return Val::Reg(self.reg(n));
        }
        Val::K(ty.clone(), self.konst(ty))
    }
    fn tk(&mut self) -> (Ty, K) {
        let t = self.ty();
        let k = self.konst(&t);
        (t, k)
    }
    pub fn konst(&mut self, ty: &Ty) -> K {
        match self.next() {
            T::I(v) => K::Int(v),
            T::F(s) => K::F(parse_float(&s, ty)),
            T::CS(v) => K::Str(Rc::new(v)),
            T::G(n) => K::Global(n.into()),
            T::P('[') => {
                let mut v = vec![];
                if !self.eatp(']') {
                    loop {
                        v.push(self.tk());
                        if self.eatp(']') {
                            break;
                        }
                        self.expp(',');
                    }
                }
                K::Agg(v)
            }
            T::P('{') => {
                let mut v = vec![];
                if !self.eatp('}') {
                    loop {
                        v.push(self.tk());
                        if self.eatp('}') {
                            break;
                        }
                        self.expp(',');
                    }
                }
                K::Agg(v)
            }
            T::P('<') => {
                let br = self.eatp('{');
                let mut v = vec![];
                let end = if br { '}' } else { '>' };
                if !self.eatp(end) {
                    loop {
                        v.push(self.tk());
                        if self.eatp(end) {
                            break;
                        }
                        self.expp(',');
                    }
                }
                if br {
                    self.expp('>');
                }
                K::Agg(v)
            }
            T::W(w) => match w.as_str() {
                "true" => K::Int(1),
                "false" => K::Int(0),
                "null" | "zeroinitializer" | "none" => K::Zero,
                "undef" | "poison" => K::Undef,
                "splat" => {
                    self.expp('(');
                    let (t, k) = self.tk();
                    self.expp(')');
                    K::Splat(t, Box::new(k))
                }
                "getelementptr" => {
                    while matches!(self.peek(), Some(T::W(_))) {
                        let isr = self.isw("inrange");
                        self.i += 1;
                        if isr {
                            self.skip_parens();
                        }
                    }
                    self.expp('(');
                    let base = self.ty();
                    self.expp(',');
                    let (_, p) = self.tk();
                    let mut idx = vec![];
                    while self.eatp(',') {
                        idx.push(self.tk().1);
                    }
                    self.expp(')');
                    K::Gep(base, Box::new(p), idx)
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" | "ptrtoaddr" => {
                    while matches!(self.peek(), Some(T::W(_))) {
                        self.i += 1;
                    }
                    self.expp('(');
                    let (t, k) = self.tk();
                    assert!(self.eatw("to"));
                    let t2 = self.ty();
                    self.expp(')');
                    K::Cast(Box::new(k), t, t2)
                }
                "add" | "sub" | "xor" | "mul" | "shl" | "and" | "or" | "lshr" => {
                    while matches!(self.peek(), Some(T::W(_))) {
                        self.i += 1;
                    }
                    self.expp('(');
                    let (t, a) = self.tk();
                    self.expp(',');
                    let (_, b) = self.tk();
                    self.expp(')');
                    K::Bin(w, Box::new(a), Box::new(b), t)
                }
                "dso_local_equivalent" | "no_cfi" => self.konst(ty),
                _ => panic!("const word {} in {:?}", w, self.t),
            },
            x => panic!("const {:?} in {:?}", x, self.t),
        }
    }
    fn skip_attrs(&mut self) {
        // parameter / return attributes
        loop {
            match self.peek() {
                Some(T::W(w)) => {
                    let w = w.as_str();
                    if matches!(
                        w,
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "splat" | "none"
                            | "add" | "sub" | "xor" | "trunc" | "zext" | "bitcast"
                    ) {
                        return;
                    }
                    let al = w == "align";
                    self.i += 1;
                    if self.isp('(') {
                        self.skip_parens();
                    } else if al {
                        if let Some(T::I(_)) = self.peek() {
                            self.i += 1;
                        }
                    }
                }
                Some(T::S(_)) => {
                    self.i += 1;
                    if self.eatp('=') {
                        self.i += 1;
                    }
                }
                Some(T::A(_)) => self.i += 1,
                _ => return,
            }
        }
    }
    /// return attributes + calling convention, until a type starts
    fn skip_to_type(&mut self) {
        loop {
            match self.peek() {
                Some(T::W(w)) => {
                    let is_ty = matches!(w.as_str(), "void" | "ptr" | "float" | "double" | "half" | "fp128" | "x86_fp80" | "bfloat" | "label" | "metadata" | "token")
                        || (w.starts_with('i') && w.len() > 1 && w[1..].chars().all(|c| c.is_ascii_digit()));
                    if is_ty {
                        return;
                    }
                    let al = w == "align";
                    self.i += 1;
                    if self.isp('(') {
                        self.skip_parens();
                    } else if al {
                        if let Some(T::I(_)) = self.peek() {
                            self.i += 1;
                        }
                    }
                }
                Some(T::S(_)) | Some(T::A(_)) => self.i += 1,
                _ => return,
            }
        }
    }
    fn u(&mut self) -> u64 {
        match self.next() {
            T::I(v) => v as u64,
            x => panic!("int expected {:?} in {:?}", x, self.t),
        }
    }
    fn label(&mut self, labels: &HashMap<String, u32>) -> u32 {
        assert!(self.eatw("label"), "{:?}", self.t);
        match self.next() {
            T::L(n) => *labels.get(&n).unwrap_or_else(|| panic!("label {}", n)),
            x => panic!("label {:?}", x),
        }
    }
    fn flags(&mut self) {
        while let Some(T::W(w)) = self.peek() {
            if matches!(
                w.as_str(),
                "nuw" | "nsw" | "exact" | "disjoint" | "inbounds" | "nneg" | "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "atomic" | "nusw" | "weak"
            ) {
                self.i += 1;
            } else {
                return;
            }
        }
    }
}

fn parse_float(s: &str, ty: &Ty) -> u64 {
    let bits = if let Some(h) = s.strip_prefix("0x") {
        u64::from_str_radix(h, 16).expect("float hex")
    } else {
        s.parse::<f64>().unwrap().to_bits()
    };
    if *ty == Ty::F32 {
        (f64::from_bits(bits) as f32).to_bits() as u64
    } else {
        bits
    }
}

impl Module {
    pub fn parse(text: String) -> Module {
        let text = Rc::new(text);
        let mut m = Module {
            text: text.clone(),
            globals: vec![],
            aliases: vec![],
            funcs: vec![],
            fidx: HashMap::new(),
            named: HashMap::new(),
            meta: HashMap::new(),
        };
        let s: &str = &text;
        let mut pos = 0;
        let b = s.as_bytes();
        let line_end = |p: usize| memchr(b, p);
        while pos < s.len() {
            let e = line_end(pos);
            let line = &s[pos..e];
            let start = pos;
            pos = e + 1;
            if line.starts_with('!') {
                if let Some(sp) = line.find(' ') {
                    if let Ok(n) = line[1..sp].parse::<u32>() {
                        m.meta.insert(n, (start + sp + 3, e));
                    }
                }
            } else if line.starts_with('%') {
                let toks = lex(line);
                if let (Some(T::L(n)), Some(T::W(w))) = (toks.get(0).cloned(), toks.get(2).cloned()) {
                    if w == "type" && toks.get(3) != Some(&T::W("opaque".into())) {
                        let mut p = Ps { t: toks, i: 3, m: &m.named, regs: None };
                        let t = p.ty();
                        m.named.insert(n, t);
                    }
                }
            } else if line.starts_with('@') {
                m.global(line);
            } else if line.starts_with("define ") || line.starts_with("declare ") {
                let is_def = line.starts_with("define ");
                let at = line.find('@').unwrap();
                let rest = &line[at + 1..];
                let name: String = if rest.starts_with('"') {
                    let q = rest[1..].find('"').unwrap();
                    rest[1..1 + q].to_string()
                } else {
                    rest[..rest.find('(').unwrap()].to_string()
                };
                let name: Rc<str> = name.into();
                let range = if is_def {
                    // find "\n}\n"
                    let mut p = pos;
                    loop {
                        let e = line_end(p);
                        if &s[p..e] == "}" {
                            break;
                        }
                        p = e + 1;
                    }
                    let r = (start, p);
                    pos = p + 2;
                    Some(r)
                } else {
                    None
                };
                m.fidx.insert(name.clone(), m.funcs.len());
                m.funcs.push((name, range));
            }
        }
        m
    }
    fn global(&mut self, line: &str) {
        let toks = lex(line);
        let name: Rc<str> = match &toks[0] {
            T::G(n) => n.clone().into(),
            _ => return,
        };
        let mut p = Ps { t: toks, i: 2, m: &self.named, regs: None };
        let mut external = false;
        loop {
            match p.next() {
                T::W(w) if w == "global" || w == "constant" => {
                    let constant = w == "constant";
                    let ty = p.ty();
                    let init = if external || p.i >= p.t.len() || p.isp(',') { None } else { Some(p.konst(&ty)) };
                    self.globals.push(GlobalDef { name, ty, init, constant });
                    return;
                }
                T::W(w) if w == "alias" => {
                    let _ = p.ty();
                    p.expp(',');
                    let (_, k) = p.tk();
                    self.aliases.push((name, k));
                    return;
                }
                T::W(w) => {
                    if w == "external" || w == "extern_weak" {
                        external = true;
                    }
                    if p.isp('(') {
                        p.skip_parens()
                    }
                }
                _ => {}
            }
        }
    }
    pub fn func(&self, fi: usize) -> Func {
        let (name, r) = &self.funcs[fi];
        let (s, e) = r.expect("declared only");
        parse_func(&self.named, name.clone(), &self.text[s..e])
    }
    pub fn meta_text(&self, id: u32) -> &str {
        match self.meta.get(&id) {
            Some((a, b)) => &self.text[*a..*b],
            None => "",
        }
    }
}
fn memchr(b: &[u8], p: usize) -> usize {
    let mut i = p;
    while i < b.len() && b[i] != b'\n' {
        i += 1
    }
    i
}

fn parse_func(named: &HashMap<String, Ty>, name: Rc<str>, text: &str) -> Func {
    let mut regs: HashMap<String, u32> = HashMap::new();
    let mut lines = text.lines();
    let head = lines.next().unwrap();
    // header
    let at = head.find('@').unwrap();
    let pre = lex(&head[7..at]);
    let mut params = vec![];
    let ret;
    {
        let mut p = Ps { t: pre, i: 0, m: named, regs: None };
        p.skip_to_type();
        ret = p.ty();
    }
    let rest = &head[at..];
    let toks = lex(rest);
    {
        let mut p = Ps { t: toks, i: 1, m: named, regs: None };
        p.expp('(');
        let mut n = 0;
        if !p.eatp(')') {
            loop {
                if p.peek() == Some(&T::Dots) {
                    p.i += 1;
                    p.expp(')');
                    break;
                }
                let t = p.ty();
                p.skip_attrs();
                let nm = if let Some(T::L(x)) = p.peek().cloned() {
                    p.i += 1;
                    x
                } else {
                    let x = n.to_string();
                    x
                };
                n += 1;
                let k = regs.len() as u32;
                regs.insert(nm, k);
                params.push((t, k));
                if p.eatp(')') {
                    break;
                }
                p.expp(',');
            }
        }
    }
    // split into statements and labels
    let mut stmts: Vec<(Option<String>, String)> = vec![]; // label or stmt
    let mut cur: Option<String> = None;
    for l in lines {
        let t = l.trim_end();
        if t.is_empty() {
            continue;
        }
        if !l.starts_with(' ') {
            // label
            if let Some(c) = find_label(t) {
                stmts.push((Some(c), String::new()));
                continue;
            }
        }
        let t = t.trim_start();
        if t.starts_with("#dbg") {
            continue;
        }
        if let Some(mut c) = cur.take() {
            c.push(' ');
            c.push_str(t);
            if t.starts_with(']') {
                stmts.push((None, c));
            } else {
                cur = Some(c);
            }
            continue;
        }
        if t.starts_with("switch ") && !t.contains(']') {
            cur = Some(t.to_string());
            continue;
        }
        stmts.push((None, t.to_string()));
    }
    let mut labels: HashMap<String, u32> = HashMap::new();
    let mut nb = 0;
    // entry label
    let entry_named = matches!(stmts.first(), Some((Some(_), _)));
    if !entry_named {
        labels.insert(params.len().to_string(), 0);
        nb = 1;
    }
    for (l, _) in &stmts {
        if let Some(l) = l {
            labels.insert(l.clone(), nb);
            nb += 1;
        }
    }
    let mut blocks: Vec<Block> = (0..nb).map(|_| Block::default()).collect();
    let mut bi = 0usize;
    let mut first = true;
    for (l, s) in stmts {
        if l.is_some() {
            if !(first && entry_named) {
                bi += 1;
            }
            first = false;
            continue;
        }
        first = false;
        let toks = lex(&s);
        // find !dbg
        let mut dbg = 0u32;
        let mut end = toks.len();
        // metadata suffix: ", !name !N" pairs
        while end >= 3 {
            if let (T::P(','), T::M(k), T::M(v)) = (&toks[end - 3], &toks[end - 2], &toks[end - 1]) {
                if k.chars().next().map_or(false, |c| c.is_ascii_digit()) {
                    break;
                }
                if k == "dbg" {
                    dbg = v.parse().unwrap_or(0);
                }
                end -= 3;
            } else {
                break;
            }
        }
        let mut toks = toks;
        toks.truncate(end);
        let dbgt = std::env::var("SYMEX_PARSE").is_ok();
        if dbgt {
            eprintln!("{}", s);
        }
        let mut p = Ps { t: toks, i: 0, m: named, regs: Some(&mut regs) };
        let mut d = None;
        if let Some(T::L(n)) = p.peek().cloned() {
            if p.t.get(1) == Some(&T::P('=')) {
                p.i = 2;
                d = Some(p.reg(n));
            }
        }
        if p.isw("phi") {
            p.i += 1;
            p.flags();
            let ty = p.ty();
            let mut inc = vec![];
            loop {
                p.expp('[');
                let v = p.val(&ty);
                p.expp(',');
                let l = match p.next() {
                    T::L(n) => labels[&n],
                    x => panic!("{:?}", x),
                };
                p.expp(']');
                inc.push((l, v));
                if !p.eatp(',') {
                    break;
                }
                if !p.isp('[') {
                    break;
                }
            }
            blocks[bi].phis.push(Phi { ty, inc, d: d.unwrap() });
            continue;
        }
        let ins = parse_ins(&mut p, d, &labels, &s);
        blocks[bi].ins.push((ins, dbg));
    }
    Func { name, params, ret, nregs: regs.len() as u32, blocks }
}

fn find_label(t: &str) -> Option<String> {
    if t.starts_with('"') {
        let q = t[1..].find('"')?;
        if t[q + 2..].starts_with(':') {
            return Some(String::from_utf8_lossy(&unescape(t[1..q + 1].as_bytes())).into_owned());
        }
        return None;
    }
    let c = t.find(':')?;
    Some(t[..c].to_string())
}

fn parse_ins(p: &mut Ps, d: Option<u32>, labels: &HashMap<String, u32>, src: &str) -> Ins {
    let w = match p.next() {
        T::W(w) => w,
        x => panic!("instr {:?} in {}", x, src),
    };
    match w.as_str() {
        "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub" | "fmul"
        | "fdiv" | "frem" => {
            p.flags();
            let ty = p.ty();
            let a = p.val(&ty);
            p.expp(',');
            let b = p.val(&ty);
            Ins::Bin { op: leak(&w), ty, a, b, d: d.unwrap() }
        }
        "fneg" => {
            p.flags();
            let ty = p.ty();
            let a = p.val(&ty);
            Ins::FNeg { ty, a, d: d.unwrap() }
        }
        "icmp" => {
            p.flags();
            let pred = match p.next() {
                T::W(w) => leak(&w),
                _ => panic!(),
            };
            let ty = p.ty();
            let a = p.val(&ty);
            p.expp(',');
            let b = p.val(&ty);
            Ins::Icmp { pred, ty, a, b, d: d.unwrap() }
        }
        "fcmp" => {
            p.flags();
            let pred = match p.next() {
                T::W(w) => w,
                _ => panic!(),
            };
            let ty = p.ty();
            let a = p.val(&ty);
            p.expp(',');
            let b = p.val(&ty);
            Ins::Fcmp { pred, ty, a, b, d: d.unwrap() }
        }
        "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc"
        | "addrspacecast" | "ptrtoaddr" => {
            p.flags();
            let from = p.ty();
            let a = p.val(&from);
            assert!(p.eatw("to"));
            let to = p.ty();
            Ins::Cast { op: leak(&w), from, to, a, d: d.unwrap() }
        }
        "alloca" => {
            p.eatw("inalloca");
            let ty = p.ty();
            let mut n = None;
            if p.eatp(',') && !p.isw("align") {
                let t = p.ty();
                n = Some(p.val(&t));
            }
            Ins::Alloca { ty, n, d: d.unwrap() }
        }
        "load" => {
            p.flags();
            let ty = p.ty();
            p.expp(',');
            let t = p.ty();
            let a = p.val(&t);
            Ins::Load { ty, p: a, d: d.unwrap() }
        }
        "store" => {
            p.flags();
            let ty = p.ty();
            let v = p.val(&ty);
            p.expp(',');
            let t = p.ty();
            let a = p.val(&t);
            Ins::Store { ty, v, p: a }
        }
        "getelementptr" => {
            p.flags();
            let base = p.ty();
            p.expp(',');
            let t = p.ty();
            if t != Ty::Ptr {
                return Ins::Unsupported(src.into());
            }
            let b = p.val(&t);
            let mut idx = vec![];
            while p.eatp(',') {
                let t = p.ty();
                let v = p.val(&t);
                idx.push((t, v));
            }
            Ins::Gep { base, p: b, idx, d: d.unwrap() }
        }
        "select" => {
            p.flags();
            let cty = p.ty();
            let c = p.val(&cty);
            p.expp(',');
            let ty = p.ty();
            let a = p.val(&ty);
            p.expp(',');
            let t2 = p.ty();
            let b = p.val(&t2);
            Ins::Select { ty, cty, c, a, b, d: d.unwrap() }
        }
        "tail" | "musttail" | "notail" | "call" => {
            if w != "call" {
                assert!(p.eatw("call"));
            }
            p.flags();
            p.skip_to_type();
            let ret = p.ty();
            // callee
            let f = match p.next() {
                T::G(n) => Val::K(Ty::Ptr, K::Global(n.into())),
                T::L(n) => Val::Reg(p.reg(n)),
                // a processor without special features
                T::W(w) if w == "asm" && src.contains("cpuid") && d.is_some() => return Ins::Freeze { a: Val::K(ret, K::Zero), d: d.unwrap() },
                // an optimisation barrier: the value itself
                T::W(w) if w == "asm" && src.contains("\"/*") && src.contains("*/\", \"=&r,0,") && d.is_some() => {
                    while !matches!(p.peek(), Some(T::P('('))) {
                        p.i += 1;
                    }
                    p.expp('(');
                    let ty = p.ty();
                    while matches!(p.peek(), Some(T::W(w)) if matches!(w.as_str(), "nonnull" | "noundef" | "range" | "align")) {
                        p.i += 1;
                    }
                    let a = p.val(&ty);
                    return Ins::Freeze { a, d: d.unwrap() };
                }
                T::W(w) if w == "asm" => return Ins::Unsupported(src.into()),
                T::W(_) => {
                    p.i -= 1;
                    p.val(&Ty::Ptr)
                }
                x => panic!("callee {:?} in {}", x, src),
            };
            p.expp('(');
            let mut args = vec![];
            if !p.eatp(')') {
                loop {
                    // metadata args
                    if p.isw("metadata") {
                        p.i += 1;
                        // skip until , or ) at depth 0
                        let mut dep = 0;
                        loop {
                            match p.peek() {
                                Some(T::P('(')) => dep += 1,
                                Some(T::P(')')) => {
                                    if dep == 0 {
                                        break;
                                    }
                                    dep -= 1
                                }
                                Some(T::P(',')) if dep == 0 => break,
                                _ => {}
                            }
                            p.i += 1;
                        }
                        args.push((Ty::Other, Val::K(Ty::Other, K::Undef)));
                    } else {
                        let t = p.ty();
                        p.skip_attrs();
                        let v = p.val(&t);
                        args.push((t, v));
                    }
                    if p.eatp(')') {
                        break;
                    }
                    p.expp(',');
                }
            }
            Ins::Call { ret, f, args, d, sret: vec![] }
        }
        "extractvalue" => {
            let ty = p.ty();
            let a = p.val(&ty);
            let mut idx = vec![];
            while p.eatp(',') {
                idx.push(p.u());
            }
            Ins::ExtractValue { ty, a, idx, d: d.unwrap() }
        }
        "insertvalue" => {
            let ty = p.ty();
            let a = p.val(&ty);
            p.expp(',');
            let vty = p.ty();
            let v = p.val(&vty);
            let mut idx = vec![];
            while p.eatp(',') {
                idx.push(p.u());
            }
            Ins::InsertValue { ty, a, vty, v, idx, d: d.unwrap() }
        }
        "extractelement" => {
            let ty = p.ty();
            let a = p.val(&ty);
            p.expp(',');
            let t = p.ty();
            let i = p.val(&t);
            Ins::ExtractElement { ty, a, i, d: d.unwrap() }
        }
        "insertelement" => {
            let ty = p.ty();
            let a = p.val(&ty);
            p.expp(',');
            let t = p.ty();
            let v = p.val(&t);
            p.expp(',');
            let t = p.ty();
            let i = p.val(&t);
            Ins::InsertElement { ty, a, v, i, d: d.unwrap() }
        }
        "shufflevector" => {
            let ty = p.ty();
            let a = p.val(&ty);
            p.expp(',');
            let t = p.ty();
            let b = p.val(&t);
            p.expp(',');
            let mty = p.ty();
            let m = p.val(&mty);
            Ins::Shuffle { ty, a, b, m, mty, d: d.unwrap() }
        }
        "freeze" => {
            let ty = p.ty();
            let a = p.val(&ty);
            Ins::Freeze { a, d: d.unwrap() }
        }
        "atomicrmw" => {
            p.flags();
            let op = match p.next() {
                T::W(w) => w,
                _ => panic!(),
            };
            let t = p.ty();
            let a = p.val(&t);
            p.expp(',');
            let ty = p.ty();
            let v = p.val(&ty);
            Ins::AtomicRmw { op, ty, p: a, v, d: d.unwrap() }
        }
        "cmpxchg" => {
            p.flags();
            let t = p.ty();
            let a = p.val(&t);
            p.expp(',');
            let ty = p.ty();
            let c = p.val(&ty);
            p.expp(',');
            let t = p.ty();
            let n = p.val(&t);
            Ins::CmpXchg { ty, p: a, c, n, d: d.unwrap() }
        }
        "fence" => Ins::Fence,
        "ret" => {
            let ty = p.ty();
            if ty == Ty::Void {
                Ins::Ret { v: None }
            } else {
                let v = p.val(&ty);
                Ins::Ret { v: Some((ty, v)) }
            }
        }
        "br" => {
            if p.isw("label") {
                Ins::Br { to: p.label(labels) }
            } else {
                let t = p.ty();
                let c = p.val(&t);
                p.expp(',');
                let a = p.label(labels);
                p.expp(',');
                let b = p.label(labels);
                Ins::CondBr { c, t: a, f: b }
            }
        }
        "switch" => {
            let ty = p.ty();
            let v = p.val(&ty);
            p.expp(',');
            let def = p.label(labels);
            p.expp('[');
            let mut cases = vec![];
            while !p.eatp(']') {
                let t = p.ty();
                let k = match p.konst(&t) {
                    K::Int(v) => v,
                    K::Zero => 0,
                    x => panic!("{:?}", x),
                };
                p.expp(',');
                let l = p.label(labels);
                cases.push((k, l));
            }
            Ins::Switch { ty, v, def, cases }
        }
        "unreachable" => Ins::Unreachable,
        _ => Ins::Unsupported(src.into()),
    }
}
