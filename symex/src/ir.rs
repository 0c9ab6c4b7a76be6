//! Reader for the textual LLVM IR that rustc emits for the harness program (fat LTO: harness,
//! openid4vci, every dependency and std in one module).  Function bodies are parsed on first use.

use crate::expr::V;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

impl Ty {
    /// Size in bytes of the value in memory (what a store writes).
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(n) => (*n as u64 + 7) / 8,
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Vec(n, t) => match **t {
                Ty::Int(b) => (n * b as u64 + 7) / 8,
                _ => n * t.store_size(),
            },
            _ => self.size(),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(n) => {
                let b = (*n as u64 + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.store_size().next_power_of_two(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
        }
    }
    /// Allocation size (padded to alignment).
    pub fn size(&self) -> u64 {
        match self {
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for t in f.iter() {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    o += t.size();
                }
                if *packed {
                    o
                } else {
                    align_up(o, self.align())
                }
            }
            _ => align_up(self.store_size(), self.align()),
        }
    }
    pub fn field_offset(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (j, t) in f.iter().enumerate() {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    if j == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field index out of range")
            }
            Ty::Arr(_, t) => (t.size() * i as u64, (**t).clone()),
            Ty::Vec(_, t) => (t.size() * i as u64, (**t).clone()),
            _ => panic!("field_offset on {:?}", self),
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(n) => *n,
            Ty::Ptr | Ty::Double => 64,
            Ty::Float => 32,
            Ty::Vec(n, t) => *n as u32 * t.bits(),
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Arr(..) | Ty::Struct(..))
    }
}

pub fn align_up(x: u64, a: u64) -> u64 {
    if a <= 1 {
        x
    } else {
        (x + a - 1) / a * a
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Word(String),
    Local(String),
    Global(String),
    Meta(String),
    Num(String),
    Str(Vec<u8>),
    P(char),
    Nl,
    Eof,
}

pub struct Lexer<'a> {
    s: &'a [u8],
    pub p: usize,
    end: usize,
    peeked: Option<(Tok, usize)>,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lexer<'a> {
    pub fn new(s: &'a [u8], p: usize, end: usize) -> Self {
        Lexer { s, p, end, peeked: None }
    }
    fn quoted(&mut self) -> Vec<u8> {
        // self.p at the opening quote
        self.p += 1;
        let mut v = vec![];
        while self.s[self.p] != b'"' {
            let c = self.s[self.p];
            if c == b'\\' {
                if self.s[self.p + 1] == b'\\' {
                    v.push(b'\\');
                    self.p += 2;
                } else {
                    let h = std::str::from_utf8(&self.s[self.p + 1..self.p + 3]).unwrap();
                    v.push(u8::from_str_radix(h, 16).unwrap());
                    self.p += 3;
                }
            } else {
                v.push(c);
                self.p += 1;
            }
        }
        self.p += 1;
        v
    }
    fn ident(&mut self) -> String {
        if self.p < self.end && self.s[self.p] == b'"' {
            return String::from_utf8_lossy(&self.quoted()).into_owned();
        }
        let st = self.p;
        while self.p < self.end && is_id(self.s[self.p]) {
            self.p += 1;
        }
        String::from_utf8_lossy(&self.s[st..self.p]).into_owned()
    }
    fn lex(&mut self) -> Tok {
        loop {
            if self.p >= self.end {
                return Tok::Eof;
            }
            let c = self.s[self.p];
            match c {
                b' ' | b'\t' | b'\r' => self.p += 1,
                b'\n' => {
                    self.p += 1;
                    return Tok::Nl;
                }
                b';' => {
                    while self.p < self.end && self.s[self.p] != b'\n' {
                        self.p += 1;
                    }
                }
                b'/' if self.s.get(self.p + 1) == Some(&b'*') => {
                    self.p += 2;
                    while !(self.s[self.p] == b'*' && self.s[self.p + 1] == b'/') {
                        self.p += 1;
                    }
                    self.p += 2;
                }
                b'%' => {
                    self.p += 1;
                    return Tok::Local(self.ident());
                }
                b'@' => {
                    self.p += 1;
                    return Tok::Global(self.ident());
                }
                b'!' => {
                    self.p += 1;
                    if self.p < self.end && (is_id(self.s[self.p])) {
                        return Tok::Meta(self.ident());
                    }
                    return Tok::Meta(String::new());
                }
                b'#' => {
                    self.p += 1;
                    let i = self.ident();
                    return Tok::Word(format!("#{}", i));
                }
                b'"' => return Tok::Str(self.quoted()),
                b'c' if self.p + 1 < self.end && self.s[self.p + 1] == b'"' => {
                    self.p += 1;
                    return Tok::Str(self.quoted());
                }
                b'0'..=b'9' | b'-' | b'+' => {
                    let st = self.p;
                    self.p += 1;
                    while self.p < self.end && (is_id(self.s[self.p]) || self.s[self.p] == b'+') {
                        self.p += 1;
                    }
                    return Tok::Num(String::from_utf8_lossy(&self.s[st..self.p]).into_owned());
                }
                c if is_id(c) => {
                    let i = self.ident();
                    return Tok::Word(i);
                }
                c => {
                    self.p += 1;
                    return Tok::P(c as char);
                }
            }
        }
    }
    pub fn peek(&mut self) -> &Tok {
        if self.peeked.is_none() {
            let t = self.lex();
            let p = self.p;
            self.peeked = Some((t, p));
        }
        &self.peeked.as_ref().unwrap().0
    }
    pub fn next(&mut self) -> Tok {
        if let Some((t, _)) = self.peeked.take() {
            return t;
        }
        self.lex()
    }
    pub fn is_p(&mut self, c: char) -> bool {
        *self.peek() == Tok::P(c)
    }
    pub fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn want_p(&mut self, c: char) {
        let t = self.next();
        if t != Tok::P(c) {
            panic!("IR syntax: wanted '{}' got {:?} near {}", c, t, self.ctx());
        }
    }
    pub fn eat_w(&mut self, w: &str) -> bool {
        if let Tok::Word(x) = self.peek() {
            if x == w {
                self.next();
                return true;
            }
        }
        false
    }
    pub fn ctx(&self) -> String {
        let a = self.p.saturating_sub(160);
        let b = (self.p + 80).min(self.end);
        String::from_utf8_lossy(&self.s[a..b]).into_owned()
    }
    pub fn skip_line(&mut self) {
        loop {
            match self.next() {
                Tok::Nl | Tok::Eof => return,
                _ => {}
            }
        }
    }
    pub fn skip_balanced(&mut self) {
        // at '('
        self.want_p('(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                Tok::Eof => panic!("unbalanced"),
                _ => {}
            }
        }
    }
}

/// Constant values as written in the module, addresses still symbolic names.
#[derive(Clone, Debug)]
pub enum Cst {
    Int(u128),
    Global(String),
    Agg(Vec<(Ty, Cst)>),
    Bytes(Vec<u8>),
    Zero,
    Undef,
    Gep(Ty, Box<Cst>, Vec<(Ty, Cst)>),
    Bin(String, Ty, Box<Cst>, Box<Cst>),
    Cast(Box<Cst>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    K(V),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum FOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Bit,
    FpExt,
    FpTrunc,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(String),
    Ind(Opd),
    Asm(String),
}

#[derive(Clone, Debug)]
pub struct CallI {
    pub callee: Callee,
    pub ret: Ty,
    pub args: Vec<(Ty, Opd)>,
    pub byval: Vec<Option<Ty>>,
    pub normal: Option<u32>,
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin(BinOp, Ty, Opd, Opd),
    FBin(FOp, Ty, Opd, Opd),
    FNeg(Ty, Opd),
    ICmp(Pred, Ty, Opd, Opd),
    FCmp(String, Ty, Opd, Opd),
    Cast(Cast, Ty, Opd, Ty),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(Opd, i64, Vec<(Ty, Opd, u64)>),
    Alloca(u64, u64, Ty, Option<Opd>),
    Select(Ty, Ty, Opd, Opd, Opd),
    ExtractValue(Opd, Vec<u32>),
    InsertValue(Ty, Opd, Opd, Vec<u32>),
    ExtractElem(Opd, Opd),
    InsertElem(Ty, Opd, Opd, Opd),
    Shuffle(u64, Opd, Opd, Vec<Option<u32>>),
    Freeze(Opd),
    Call(Rc<CallI>),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u32, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<Opd>),
    Unreachable,
    Rmw(String, Ty, Opd, Opd),
    CmpXchg(Ty, Opd, Opd, Opd),
    Nop,
    LandingPad,
    Resume,
}

#[derive(Clone, Debug)]
pub struct Inst {
    pub dst: Option<u32>,
    pub ins: Ins,
    pub dbg: u32,
    pub ty: Ty,
}

#[derive(Clone, Debug, Default)]
pub struct Block {
    pub phis: Vec<(u32, Ty, Vec<(u32, Opd)>)>,
    pub insts: Vec<Inst>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<(u32, Ty)>,
    pub nregs: usize,
    pub blocks: Vec<Block>,
    pub dbg: u32,
}

pub struct GlobalDef {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Cst>,
    pub align: u64,
}

struct FnText {
    hdr: usize,
    end: usize,
}

pub struct Module {
    pub src: Vec<u8>,
    pub types: RefCell<HashMap<String, Ty>>,
    type_text: HashMap<String, (usize, usize)>,
    pub globals: Vec<GlobalDef>,
    pub aliases: Vec<(String, String)>,
    fn_text: HashMap<String, FnText>,
    pub fn_order: Vec<String>,
    pub declared: Vec<String>,
    parsed: RefCell<HashMap<String, &'static Func>>,
    pub addr: HashMap<String, u64>,
    meta: HashMap<u32, (usize, usize)>,
}

fn line_end(s: &[u8], mut p: usize) -> usize {
    while p < s.len() && s[p] != b'\n' {
        p += 1;
    }
    p
}

impl Module {
    pub fn load(path: &str) -> Module {
        let src = std::fs::read(path).unwrap_or_else(|e| panic!("cannot read {}: {}", path, e));
        let mut m = Module {
            src: vec![],
            types: RefCell::new(HashMap::new()),
            type_text: HashMap::new(),
            globals: vec![],
            aliases: vec![],
            fn_text: HashMap::new(),
            fn_order: vec![],
            declared: vec![],
            parsed: RefCell::new(HashMap::new()),
            addr: HashMap::new(),
            meta: HashMap::new(),
        };
        let mut glob_lines = vec![];
        let mut p = 0;
        let n = src.len();
        while p < n {
            let e = line_end(&src, p);
            let l = &src[p..e];
            if l.starts_with(b"define ") {
                // body ends at a line "}"
                let mut q = e + 1;
                loop {
                    let e2 = line_end(&src, q);
                    if &src[q..e2] == b"}" {
                        break;
                    }
                    q = e2 + 1;
                    if q >= n {
                        panic!("function without end");
                    }
                }
                let name = fn_name(&src, p, e);
                m.fn_order.push(name.clone());
                m.fn_text.insert(name, FnText { hdr: p, end: q });
                p = q + 2;
                continue;
            } else if l.starts_with(b"declare ") {
                m.declared.push(fn_name(&src, p, e));
            } else if l.starts_with(b"@") {
                glob_lines.push((p, e));
            } else if l.starts_with(b"%") {
                let mut lx = Lexer::new(&src, p, e);
                if let Tok::Local(nm) = lx.next() {
                    m.type_text.insert(nm, (lx.p, e));
                }
            } else if l.starts_with(b"!") && l.len() > 1 && l[1].is_ascii_digit() {
                let mut q = p + 1;
                let mut id = 0u32;
                while src[q].is_ascii_digit() {
                    id = id * 10 + (src[q] - b'0') as u32;
                    q += 1;
                }
                m.meta.insert(id, (q, e));
            }
            p = e + 1;
        }
        m.src = src;
        let names: Vec<String> = m.type_text.keys().cloned().collect();
        for nm in names {
            m.named_type(&nm);
        }
        let mut globals = vec![];
        for (a, b) in glob_lines {
            if let Some(g) = m.parse_global(a, b) {
                match g {
                    Ok(g) => globals.push(g),
                    Err(al) => m.aliases.push(al),
                }
            }
        }
        m.globals = globals;
        m
    }

    fn named_type(&self, nm: &str) -> Ty {
        if let Some(t) = self.types.borrow().get(nm) {
            return t.clone();
        }
        let (a, b) = match self.type_text.get(nm) {
            Some(x) => *x,
            None => return Ty::Other,
        };
        let mut lx = Lexer::new(&self.src, a, b);
        lx.want_p('=');
        lx.eat_w("type");
        let t = if lx.eat_w("opaque") { Ty::Other } else { self.ty(&mut lx) };
        self.types.borrow_mut().insert(nm.to_string(), t.clone());
        t
    }

    pub fn is_ty_start(t: &Tok) -> bool {
        match t {
            Tok::Word(w) => {
                matches!(
                    w.as_str(),
                    "void" | "ptr" | "float" | "double" | "half" | "label" | "metadata" | "x86_fp80" | "fp128" | "token" | "opaque"
                ) || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Tok::P('{') | Tok::P('<') | Tok::P('[') => true,
            Tok::Local(_) => false,
            _ => false,
        }
    }

    pub fn ty(&self, lx: &mut Lexer) -> Ty {
        match lx.next() {
            Tok::Word(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if lx.eat_w("addrspace") {
                        lx.skip_balanced();
                    }
                    Ty::Ptr
                }
                "float" => Ty::Float,
                "double" => Ty::Double,
                "label" | "metadata" | "x86_fp80" | "fp128" | "half" | "token" => Ty::Other,
                _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {} near {}", w, lx.ctx()))),
                _ => panic!("unknown type word {} near {}", w, lx.ctx()),
            },
            Tok::P('[') => {
                let n = self.num(lx);
                assert!(lx.eat_w("x"));
                let t = self.ty(lx);
                lx.want_p(']');
                Ty::Arr(n, Rc::new(t))
            }
            Tok::P('<') => {
                if lx.is_p('{') {
                    lx.next();
                    let f = self.ty_list(lx, '}');
                    lx.want_p('>');
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = self.num(lx);
                    assert!(lx.eat_w("x"));
                    let t = self.ty(lx);
                    lx.want_p('>');
                    Ty::Vec(n, Rc::new(t))
                }
            }
            Tok::P('{') => {
                let f = self.ty_list(lx, '}');
                Ty::Struct(Rc::new(f), false)
            }
            Tok::Local(n) => self.named_type(&n),
            t => panic!("type expected, got {:?} near {}", t, lx.ctx()),
        }
    }
    fn ty_list(&self, lx: &mut Lexer, close: char) -> Vec<Ty> {
        let mut v = vec![];
        if lx.eat_p(close) {
            return v;
        }
        loop {
            v.push(self.ty(lx));
            if lx.eat_p(close) {
                return v;
            }
            lx.want_p(',');
        }
    }
    fn num(&self, lx: &mut Lexer) -> u64 {
        match lx.next() {
            Tok::Num(n) => n.parse().unwrap(),
            t => panic!("number expected: {:?} near {}", t, lx.ctx()),
        }
    }

    pub fn cst(&self, lx: &mut Lexer, ty: &Ty) -> Cst {
        match lx.next() {
            Tok::Num(n) => match ty {
                Ty::Float | Ty::Double => Cst::Int(parse_float(&n, ty)),
                _ => Cst::Int(parse_int(&n, ty)),
            },
            Tok::Word(w) => match w.as_str() {
                "true" => Cst::Int(1),
                "false" => Cst::Int(0),
                "null" => Cst::Int(0),
                "undef" | "poison" | "none" => Cst::Undef,
                "zeroinitializer" => Cst::Zero,
                "splat" => {
                    lx.want_p('(');
                    let t = self.ty(lx);
                    let c = self.cst(lx, &t);
                    lx.want_p(')');
                    let n = match ty {
                        Ty::Vec(n, _) => *n,
                        _ => panic!("splat of {:?}", ty),
                    };
                    Cst::Agg((0..n).map(|_| (t.clone(), c.clone())).collect())
                }
                "getelementptr" => {
                    while let Tok::Word(w) = lx.peek().clone() {
                        if Module::is_ty_start(&Tok::Word(w.clone())) {
                            break;
                        }
                        lx.next();
                        if w == "inrange" {
                            lx.skip_balanced();
                        }
                    }
                    lx.want_p('(');
                    let sty = self.ty(lx);
                    lx.want_p(',');
                    let bt = self.ty(lx);
                    let b = self.cst(lx, &bt);
                    let mut idx = vec![];
                    while lx.eat_p(',') {
                        let t = self.ty(lx);
                        let c = self.cst(lx, &t);
                        idx.push((t, c));
                    }
                    lx.want_p(')');
                    Cst::Gep(sty, Box::new(b), idx)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "ptrtoaddr" => {
                    while !lx.is_p('(') {
                        lx.next();
                    }
                    lx.want_p('(');
                    let t = self.ty(lx);
                    let c = self.cst(lx, &t);
                    assert!(lx.eat_w("to"));
                    let t2 = self.ty(lx);
                    lx.want_p(')');
                    if let (Ty::Int(n), "trunc") = (&t2, w.as_str()) {
                        let mask = if *n >= 128 { u128::MAX } else { (1u128 << n) - 1 };
                        return Cst::Bin("and".into(), t2.clone(), Box::new(c), Box::new(Cst::Int(mask)));
                    }
                    Cst::Cast(Box::new(c))
                }
                "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" | "lshr" => {
                    while !lx.is_p('(') {
                        lx.next();
                    }
                    lx.want_p('(');
                    let t = self.ty(lx);
                    let a = self.cst(lx, &t);
                    lx.want_p(',');
                    let t2 = self.ty(lx);
                    let b = self.cst(lx, &t2);
                    lx.want_p(')');
                    Cst::Bin(w, t, Box::new(a), Box::new(b))
                }
                "blockaddress" | "asm" => panic!("unsupported constant {}", w),
                "dso_local_equivalent" | "no_cfi" => self.cst(lx, ty),
                _ => panic!("constant {} near {}", w, lx.ctx()),
            },
            Tok::Global(g) => Cst::Global(g),
            Tok::Str(s) => Cst::Bytes(s),
            Tok::P('[') => Cst::Agg(self.cst_list(lx, ']')),
            Tok::P('{') => Cst::Agg(self.cst_list(lx, '}')),
            Tok::P('<') => {
                if lx.eat_p('{') {
                    let v = self.cst_list(lx, '}');
                    lx.want_p('>');
                    Cst::Agg(v)
                } else {
                    Cst::Agg(self.cst_list(lx, '>'))
                }
            }
            Tok::Meta(_) => {
                // metadata operand: skip
                Cst::Undef
            }
            t => panic!("constant expected, got {:?} near {}", t, lx.ctx()),
        }
    }
    fn cst_list(&self, lx: &mut Lexer, close: char) -> Vec<(Ty, Cst)> {
        let mut v = vec![];
        if lx.eat_p(close) {
            return v;
        }
        loop {
            let t = self.ty(lx);
            let c = self.cst(lx, &t);
            v.push((t, c));
            if lx.eat_p(close) {
                return v;
            }
            lx.want_p(',');
        }
    }

    fn parse_global(&self, a: usize, b: usize) -> Option<Result<GlobalDef, (String, String)>> {
        let mut lx = Lexer::new(&self.src, a, b);
        let name = match lx.next() {
            Tok::Global(g) => g,
            _ => return None,
        };
        lx.want_p('=');
        let mut external = false;
        loop {
            match lx.peek().clone() {
                Tok::Word(w) => match w.as_str() {
                    "global" | "constant" => {
                        lx.next();
                        break;
                    }
                    "alias" => {
                        // @a = alias ty, ptr @b
                        loop {
                            match lx.next() {
                                Tok::Global(g) => return Some(Err((name, g))),
                                Tok::Eof => return None,
                                _ => {}
                            }
                        }
                    }
                    "thread_local" | "addrspace" => {
                        lx.next();
                        if lx.is_p('(') {
                            lx.skip_balanced();
                        }
                    }
                    "external" | "extern_weak" => {
                        external = true;
                        lx.next();
                    }
                    _ => {
                        lx.next();
                    }
                },
                t => panic!("global {}: {:?}", name, t),
            }
        }
        let ty = self.ty(&mut lx);
        let init = if external { None } else { Some(self.cst(&mut lx, &ty)) };
        let mut align = ty.align().max(1);
        loop {
            match lx.next() {
                Tok::Word(w) if w == "align" => {
                    align = self.num(&mut lx);
                }
                Tok::Eof => break,
                _ => {}
            }
        }
        Some(Ok(GlobalDef { name, ty, init, align }))
    }

    pub fn has_func(&self, name: &str) -> bool {
        self.fn_text.contains_key(name)
    }

    pub fn func(&self, name: &str) -> Option<&'static Func> {
        if let Some(f) = self.parsed.borrow().get(name) {
            return Some(f);
        }
        let t = self.fn_text.get(name)?;
        let f: &'static Func = Box::leak(Box::new(FnParser::new(self, t.hdr, t.end).parse(name)));
        self.parsed.borrow_mut().insert(name.to_string(), f);
        Some(f)
    }

    pub fn zero_v(ty: &Ty) -> V {
        match ty {
            Ty::Arr(n, t) | Ty::Vec(n, t) => V::A(Rc::new((0..*n).map(|_| Module::zero_v(t)).collect())),
            Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(Module::zero_v).collect())),
            _ => V::C(0),
        }
    }
    /// Value of a constant; undef and poison are modelled as zero.
    pub fn const_v(&self, c: &Cst, ty: &Ty) -> V {
        match c {
            Cst::Int(k) => V::C(*k),
            Cst::Global(g) => V::C(*self.addr.get(g).unwrap_or_else(|| panic!("no address for @{}", g)) as u128),
            Cst::Agg(v) => V::A(Rc::new(v.iter().map(|(t, c)| self.const_v(c, t)).collect())),
            Cst::Bytes(b) => V::A(Rc::new(b.iter().map(|x| V::C(*x as u128)).collect())),
            Cst::Zero | Cst::Undef => Module::zero_v(ty),
            Cst::Gep(t, b, idx) => {
                let base = self.const_v(b, &Ty::Ptr).c().unwrap() as u64;
                let mut off = 0u64;
                let mut t = t.clone();
                for (i, (it, ic)) in idx.iter().enumerate() {
                    let k = sext_to_i64(self.const_v(ic, it).c().unwrap(), it.bits());
                    if i == 0 {
                        off = off.wrapping_add((k as u64).wrapping_mul(t.size()));
                    } else {
                        match t.clone() {
                            Ty::Struct(..) => {
                                let (o, ft) = t.field_offset(k as usize);
                                off = off.wrapping_add(o);
                                t = ft;
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                off = off.wrapping_add((k as u64).wrapping_mul(e.size()));
                                t = (*e).clone();
                            }
                            _ => panic!("constant gep"),
                        }
                    }
                }
                V::C(base.wrapping_add(off) as u128)
            }
            Cst::Bin(o, t, a, b) => {
                let x = self.const_v(a, t).c().unwrap();
                let y = self.const_v(b, t).c().unwrap();
                let op = match o.as_str() {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    "xor" => BinOp::Xor,
                    "and" => BinOp::And,
                    "or" => BinOp::Or,
                    "shl" => BinOp::Shl,
                    _ => BinOp::LShr,
                };
                V::C(crate::expr::fold(op, t.bits(), x, y))
            }
            Cst::Cast(c) => self.const_v(c, &Ty::Ptr),
        }
    }

    /// Debug location lookup: (file, line, subprogram linkage name) for a !DILocation id.
    pub fn dbg_loc(&self, id: u32) -> Option<(String, u32, String)> {
        let l = self.meta_text(id)?;
        if !l.contains("!DILocation(") {
            return None;
        }
        let line = meta_num(&l, "line:").unwrap_or(0);
        let mut scope = meta_ref(&l, "scope:")?;
        for _ in 0..64 {
            let s = self.meta_text(scope)?;
            if s.contains("!DISubprogram(") {
                let file = meta_ref(&s, "file:").and_then(|f| self.meta_text(f)).and_then(|f| meta_file(&f)).unwrap_or_default();
                let mut name = meta_str(&s, "name:").unwrap_or_default();
                let mut ns = meta_ref(&s, " scope:");
                for _ in 0..16 {
                    let Some(x) = ns else { break };
                    let Some(t) = self.meta_text(x) else { break };
                    if t.contains("DIFile(") || t.contains("DICompileUnit(") {
                        break;
                    }
                    if let Some(p) = meta_str(&t, "name:") {
                        name = format!("{}::{}", p, name);
                    }
                    ns = meta_ref(&t, " scope:");
                }
                return Some((file, line, name));
            }
            scope = meta_ref(&s, "scope:")?;
        }
        None
    }
    fn meta_text(&self, id: u32) -> Option<String> {
        let (a, b) = self.meta.get(&id)?;
        Some(String::from_utf8_lossy(&self.src[*a..*b]).into_owned())
    }
    /// All (file, line) of the module that carry code, for files whose name contains `pat`.
    pub fn code_lines(&self, pat: &str) -> std::collections::BTreeSet<(String, u32)> {
        let mut out = std::collections::BTreeSet::new();
        for id in self.meta.keys() {
            if let Some((f, l, _)) = self.dbg_loc(*id) {
                if f.contains(pat) && l > 0 {
                    out.insert((f, l));
                }
            }
        }
        out
    }
}

fn meta_num(l: &str, k: &str) -> Option<u32> {
    let i = l.find(k)? + k.len();
    let r: String = l[i..].trim_start().chars().take_while(|c| c.is_ascii_digit()).collect();
    r.parse().ok()
}
fn meta_ref(l: &str, k: &str) -> Option<u32> {
    let i = l.find(k)? + k.len();
    let r = l[i..].trim_start();
    let r = r.strip_prefix('!')?;
    let r: String = r.chars().take_while(|c| c.is_ascii_digit()).collect();
    r.parse().ok()
}
fn meta_str(l: &str, k: &str) -> Option<String> {
    let i = l.find(k)? + k.len();
    let r = l[i..].trim_start();
    let r = r.strip_prefix('"')?;
    Some(r[..r.find('"')?].to_string())
}
fn meta_file(l: &str) -> Option<String> {
    let f = meta_str(l, "filename:")?;
    if f.starts_with('/') {
        return Some(f);
    }
    let d = meta_str(l, "directory:").unwrap_or_default();
    Some(format!("{}/{}", d, f))
}

fn parse_int(n: &str, ty: &Ty) -> u128 {
    let bits = match ty {
        Ty::Int(b) => *b,
        Ty::Ptr => 64,
        _ => 128,
    };
    let mask = if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
    if let Some(r) = n.strip_prefix('-') {
        let v: u128 = r.parse().unwrap();
        (v.wrapping_neg()) & mask
    } else {
        n.parse::<u128>().unwrap_or_else(|_| panic!("int {}", n)) & mask
    }
}

fn parse_float(n: &str, ty: &Ty) -> u128 {
    let d = if let Some(h) = n.strip_prefix("0x") {
        f64::from_bits(u64::from_str_radix(h, 16).unwrap_or_else(|_| panic!("float {}", n)))
    } else {
        match n {
            "+inf" | "inf" => f64::INFINITY,
            "-inf" => f64::NEG_INFINITY,
            "+qnan" | "qnan" | "+nan" => f64::NAN,
            "-qnan" | "-nan" => -f64::NAN,
            _ => n.parse::<f64>().unwrap_or_else(|_| panic!("float constant {}", n)),
        }
    };
    match ty {
        Ty::Float => (d as f32).to_bits() as u128,
        _ => d.to_bits() as u128,
    }
}

fn fn_name(s: &[u8], a: usize, e: usize) -> String {
    let mut lx = Lexer::new(s, a, e);
    loop {
        match lx.next() {
            Tok::Global(g) => return g,
            Tok::Eof => panic!("function name"),
            _ => {}
        }
    }
}

struct FnParser<'a> {
    m: &'a Module,
    lx: Lexer<'a>,
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
    nlabels: u32,
}

impl<'a> FnParser<'a> {
    fn new(m: &'a Module, a: usize, e: usize) -> Self {
        FnParser { m, lx: Lexer::new(&m.src, a, e), regs: HashMap::new(), labels: HashMap::new(), nlabels: 0 }
    }
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn label(&mut self, n: &str) -> u32 {
        if let Some(l) = self.labels.get(n) {
            return *l;
        }
        let k = self.nlabels;
        self.nlabels += 1;
        self.labels.insert(n.to_string(), k);
        k
    }
    fn label_ref(&mut self) -> u32 {
        assert!(self.lx.eat_w("label"), "label expected near {}", self.lx.ctx());
        match self.lx.next() {
            Tok::Local(n) => self.label(&n),
            t => panic!("label {:?}", t),
        }
    }
    fn opd(&mut self, ty: &Ty) -> Opd {
        if let Tok::Local(n) = self.lx.peek().clone() {
            self.lx.next();
            return Opd::Reg(self.reg(&n));
        }
        let c = self.m.cst(&mut self.lx, ty);
        Opd::K(self.m.const_v(&c, ty))
    }
    fn ty_opd(&mut self) -> (Ty, Opd) {
        let t = self.m.ty(&mut self.lx);
        let o = self.opd(&t);
        (t, o)
    }
    /// Skips parameter attributes up to the value token; returns byval type if present.
    fn skip_attrs(&mut self) -> Option<Ty> {
        let mut byval = None;
        loop {
            match self.lx.peek().clone() {
                Tok::Word(w) => match w.as_str() {
                    "true" | "false" | "null" | "undef" | "poison" | "none" | "zeroinitializer" | "splat" | "getelementptr"
                    | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" | "add" | "sub" | "trunc" | "xor" => return byval,
                    "align" => {
                        self.lx.next();
                        if self.lx.is_p('(') {
                            self.lx.skip_balanced();
                        } else {
                            self.lx.next();
                        }
                    }
                    "byval" => {
                        self.lx.next();
                        self.lx.want_p('(');
                        byval = Some(self.m.ty(&mut self.lx));
                        self.lx.want_p(')');
                    }
                    _ => {
                        self.lx.next();
                        if self.lx.is_p('(') {
                            self.lx.skip_balanced();
                        }
                    }
                },
                Tok::Str(_) => {
                    // string attribute or c"..." constant; constants only follow array types
                    self.lx.next();
                    if self.lx.eat_p('=') {
                        self.lx.next();
                    }
                }
                _ => return byval,
            }
        }
    }

    fn parse(mut self, name: &str) -> Func {
        // header
        loop {
            if let Tok::Global(_) = self.lx.peek() {
                self.lx.next();
                break;
            }
            self.lx.next();
        }
        self.lx.want_p('(');
        let mut params = vec![];
        let mut nanon = 0;
        if !self.lx.eat_p(')') {
            let mut anon = 0;
            loop {
                if self.lx.is_p('.') || matches!(self.lx.peek(), Tok::Word(w) if w=="...") {
                    self.lx.next();
                } else {
                    let t = self.m.ty(&mut self.lx);
                    self.skip_attrs();
                    let r = match self.lx.peek().clone() {
                        Tok::Local(n) => {
                            self.lx.next();
                            if n.bytes().all(|c| c.is_ascii_digit()) {
                                nanon += 1;
                            }
                            self.reg(&n)
                        }
                        _ => {
                            nanon += 1;
                            let n = format!("{}", anon);
                            self.reg(&n)
                        }
                    };
                    anon += 1;
                    params.push((r, t));
                }
                if self.lx.eat_p(')') {
                    break;
                }
                self.lx.want_p(',');
            }
        }
        let mut fdbg = 0;
        loop {
            match self.lx.next() {
                Tok::Nl => break,
                Tok::Meta(m) if m == "dbg" => {
                    if let Tok::Meta(x) = self.lx.peek().clone() {
                        fdbg = x.parse().unwrap_or(0);
                    }
                }
                Tok::Eof => panic!("eof in header"),
                _ => {}
            }
        }
        // body; find the entry label
        let mut blocks: Vec<Block> = vec![];
        let mut cur: Option<u32> = None;
        let mut dead = false;
        loop {
            match self.lx.peek().clone() {
                Tok::Eof => break,
                Tok::Nl => {
                    self.lx.next();
                    continue;
                }
                Tok::P('}') => break,
                _ => {}
            }
            // label?
            let first = self.lx.next();
            let lbl = match &first {
                Tok::Word(w) => Some(w.clone()),
                Tok::Num(n) => Some(n.clone()),
                Tok::Str(s) => Some(String::from_utf8_lossy(s).into_owned()),
                _ => None,
            };
            if let Some(l) = lbl {
                if self.lx.is_p(':') {
                    self.lx.next();
                    let id = self.label(&l);
                    while blocks.len() <= id as usize {
                        blocks.push(Block::default());
                    }
                    cur = Some(id);
                    dead = false;
                    self.lx.skip_line();
                    continue;
                }
            }
            if cur.is_none() {
                // implicit entry label is the next unnamed number = number of params
                let l = format!("{}", nanon);
                let id = self.label(&l);
                while blocks.len() <= id as usize {
                    blocks.push(Block::default());
                }
                cur = Some(id);
            }
            if dead {
                if first != Tok::Nl {
                    self.lx.skip_line();
                }
                continue;
            }
            let (phi, inst, kill) = self.inst(first);
            let b = &mut blocks[cur.unwrap() as usize];
            if let Some(p) = phi {
                b.phis.push(p);
            }
            if let Some(i) = inst {
                b.insts.push(i);
            }
            dead = kill;
        }
        while blocks.len() < self.nlabels as usize {
            blocks.push(Block::default());
        }
        Func { name: name.to_string(), params, nregs: self.regs.len(), blocks, dbg: fdbg }
    }

    /// Rest of line: collect !dbg id.
    fn tail_dbg(&mut self) -> u32 {
        let mut d = 0;
        loop {
            match self.lx.next() {
                Tok::Nl | Tok::Eof => return d,
                Tok::Meta(m) if m == "dbg" => {
                    if let Tok::Meta(x) = self.lx.peek().clone() {
                        d = x.parse().unwrap_or(0);
                    }
                }
                _ => {}
            }
        }
    }

    fn flags(&mut self) {
        while let Tok::Word(w) = self.lx.peek().clone() {
            if matches!(
                w.as_str(),
                "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "fast" | "nnan" | "ninf" | "nsz"
                    | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "weak"
            ) {
                self.lx.next();
            } else if w == "inrange" {
                self.lx.next();
                self.lx.skip_balanced();
            } else {
                break;
            }
        }
    }

    fn inst(&mut self, first: Tok) -> (Option<(u32, Ty, Vec<(u32, Opd)>)>, Option<Inst>, bool) {
        let (dst, op) = match first {
            Tok::Local(n) => {
                self.lx.want_p('=');
                let r = self.reg(&n);
                match self.lx.next() {
                    Tok::Word(w) => (Some(r), w),
                    t => panic!("opcode {:?}", t),
                }
            }
            Tok::Word(w) => (None, w),
            Tok::P('#') => {
                self.lx.skip_line();
                return (None, None, false);
            }
            t => panic!("instruction {:?} near {}", t, self.lx.ctx()),
        };
        let mut rty = Ty::Void;
        let ins = match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                self.flags();
                let t = self.m.ty(&mut self.lx);
                let a = self.opd(&t);
                self.lx.want_p(',');
                let b = self.opd(&t);
                rty = t.clone();
                let o = match op.as_str() {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    "udiv" => BinOp::UDiv,
                    "sdiv" => BinOp::SDiv,
                    "urem" => BinOp::URem,
                    "srem" => BinOp::SRem,
                    "and" => BinOp::And,
                    "or" => BinOp::Or,
                    "xor" => BinOp::Xor,
                    "shl" => BinOp::Shl,
                    "lshr" => BinOp::LShr,
                    _ => BinOp::AShr,
                };
                Ins::Bin(o, t, a, b)
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.flags();
                let t = self.m.ty(&mut self.lx);
                let a = self.opd(&t);
                self.lx.want_p(',');
                let b = self.opd(&t);
                rty = t.clone();
                let o = match op.as_str() {
                    "fadd" => FOp::Add,
                    "fsub" => FOp::Sub,
                    "fmul" => FOp::Mul,
                    "fdiv" => FOp::Div,
                    _ => FOp::Rem,
                };
                Ins::FBin(o, t, a, b)
            }
            "fneg" => {
                self.flags();
                let (t, a) = self.ty_opd();
                rty = t.clone();
                Ins::FNeg(t, a)
            }
            "icmp" => {
                self.flags();
                let p = match self.lx.next() {
                    Tok::Word(w) => match w.as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        _ => panic!("icmp {}", w),
                    },
                    t => panic!("icmp {:?}", t),
                };
                let t = self.m.ty(&mut self.lx);
                let a = self.opd(&t);
                self.lx.want_p(',');
                let b = self.opd(&t);
                rty = match &t {
                    Ty::Vec(n, _) => Ty::Vec(*n, Rc::new(Ty::Int(1))),
                    _ => Ty::Int(1),
                };
                Ins::ICmp(p, t, a, b)
            }
            "fcmp" => {
                self.flags();
                let p = match self.lx.next() {
                    Tok::Word(w) => w,
                    t => panic!("fcmp {:?}", t),
                };
                let t = self.m.ty(&mut self.lx);
                let a = self.opd(&t);
                self.lx.want_p(',');
                let b = self.opd(&t);
                rty = Ty::Int(1);
                Ins::FCmp(p, t, a, b)
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "fpext" | "fptrunc" | "uitofp" | "sitofp"
            | "fptoui" | "fptosi" | "addrspacecast" => {
                self.flags();
                let (t, a) = self.ty_opd();
                assert!(self.lx.eat_w("to"));
                let t2 = self.m.ty(&mut self.lx);
                rty = t2.clone();
                let c = match op.as_str() {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "fpext" => Cast::FpExt,
                    "fptrunc" => Cast::FpTrunc,
                    "uitofp" => Cast::UiToFp,
                    "sitofp" => Cast::SiToFp,
                    "fptoui" => Cast::FpToUi,
                    "fptosi" => Cast::FpToSi,
                    "ptrtoint" | "ptrtoaddr" | "inttoptr" => {
                        let (a, b) = (t.bits(), t2.bits());
                        if a > b {
                            Cast::Trunc
                        } else if a < b {
                            Cast::ZExt
                        } else {
                            Cast::Bit
                        }
                    }
                    _ => Cast::Bit,
                };
                Ins::Cast(c, t, a, t2)
            }
            "load" => {
                self.lx.eat_w("atomic");
                self.flags();
                let t = self.m.ty(&mut self.lx);
                self.lx.want_p(',');
                let (_, p) = self.ty_opd();
                rty = t.clone();
                Ins::Load(t, p)
            }
            "store" => {
                self.lx.eat_w("atomic");
                self.flags();
                let (t, v) = self.ty_opd();
                self.lx.want_p(',');
                let (_, p) = self.ty_opd();
                Ins::Store(t, v, p)
            }
            "getelementptr" => {
                self.flags();
                let mut t = self.m.ty(&mut self.lx);
                self.lx.want_p(',');
                let (_, b) = self.ty_opd();
                let mut off = 0i64;
                let mut dynv = vec![];
                let mut firsti = true;
                while self.lx.is_p(',') {
                    self.lx.next();
                    if matches!(self.lx.peek(), Tok::Meta(_)) {
                        break;
                    }
                    let (it, io) = self.ty_opd();
                    let ci = match &io {
                        Opd::K(V::C(k)) => Some(sext_to_i64(*k, it.bits())),
                        _ => None,
                    };
                    if firsti {
                        firsti = false;
                        let sz = t.size();
                        match ci {
                            Some(k) => off += k * sz as i64,
                            None => dynv.push((it, io, sz)),
                        }
                    } else {
                        match t.clone() {
                            Ty::Struct(..) => {
                                let (o, ft) = t.field_offset(ci.expect("struct gep index") as usize);
                                off += o as i64;
                                t = ft;
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                let sz = e.size();
                                match ci {
                                    Some(k) => off += k * sz as i64,
                                    None => dynv.push((it, io, sz)),
                                }
                                t = (*e).clone();
                            }
                            _ => panic!("gep into {:?}", t),
                        }
                    }
                }
                rty = Ty::Ptr;
                Ins::Gep(b, off, dynv)
            }
            "alloca" => {
                let t = self.m.ty(&mut self.lx);
                let mut align = t.align();
                let mut cnt = None;
                while self.lx.eat_p(',') {
                    if self.lx.eat_w("align") {
                        align = self.m.num(&mut self.lx);
                    } else if matches!(self.lx.peek(), Tok::Meta(_)) {
                        break;
                    } else {
                        let (_, o) = self.ty_opd();
                        cnt = Some(o);
                    }
                }
                rty = Ty::Ptr;
                Ins::Alloca(t.size(), align, t, cnt)
            }
            "phi" => {
                self.flags();
                let t = self.m.ty(&mut self.lx);
                let mut inc = vec![];
                loop {
                    self.lx.want_p('[');
                    let o = self.opd(&t);
                    self.lx.want_p(',');
                    let b = match self.lx.next() {
                        Tok::Local(n) => self.label(&n),
                        x => panic!("phi label {:?}", x),
                    };
                    self.lx.want_p(']');
                    inc.push((b, o));
                    if self.lx.is_p(',') {
                        self.lx.next();
                        if !self.lx.is_p('[') {
                            break;
                        }
                    } else {
                        break;
                    }
                }
                self.tail_dbg();
                return (Some((dst.unwrap(), t, inc)), None, false);
            }
            "select" => {
                self.flags();
                let (ct, c) = self.ty_opd();
                self.lx.want_p(',');
                let (t, a) = self.ty_opd();
                self.lx.want_p(',');
                let (_, b) = self.ty_opd();
                rty = t.clone();
                Ins::Select(ct, t, c, a, b)
            }
            "extractvalue" => {
                let (t, a) = self.ty_opd();
                let mut idx = vec![];
                let mut ct = t;
                while self.lx.eat_p(',') {
                    if matches!(self.lx.peek(), Tok::Meta(_)) {
                        break;
                    }
                    let i = self.m.num(&mut self.lx) as u32;
                    ct = ct.field_offset(i as usize).1;
                    idx.push(i);
                }
                let d = self.tail_dbg_opt();
                return (None, Some(Inst { dst, ins: Ins::ExtractValue(a, idx), dbg: d, ty: ct }), false);
            }
            "insertvalue" => {
                let (t, a) = self.ty_opd();
                self.lx.want_p(',');
                let (_, v) = self.ty_opd();
                let mut idx = vec![];
                while self.lx.eat_p(',') {
                    if matches!(self.lx.peek(), Tok::Meta(_)) {
                        break;
                    }
                    idx.push(self.m.num(&mut self.lx) as u32);
                }
                let d = self.tail_dbg_opt();
                return (None, Some(Inst { dst, ins: Ins::InsertValue(t.clone(), a, v, idx), dbg: d, ty: t }), false);
            }
            "extractelement" => {
                let (t, a) = self.ty_opd();
                self.lx.want_p(',');
                let (_, i) = self.ty_opd();
                rty = match &t {
                    Ty::Vec(_, e) => (**e).clone(),
                    _ => panic!(),
                };
                Ins::ExtractElem(a, i)
            }
            "insertelement" => {
                let (t, a) = self.ty_opd();
                self.lx.want_p(',');
                let (_, v) = self.ty_opd();
                self.lx.want_p(',');
                let (_, i) = self.ty_opd();
                rty = t.clone();
                Ins::InsertElem(t, a, v, i)
            }
            "shufflevector" => {
                let (t, a) = self.ty_opd();
                self.lx.want_p(',');
                let (_, b) = self.ty_opd();
                self.lx.want_p(',');
                let mt = self.m.ty(&mut self.lx);
                let mc = self.m.cst(&mut self.lx, &mt);
                let n = match &mt {
                    Ty::Vec(n, _) => *n,
                    _ => panic!(),
                };
                let (inn, e) = match &t {
                    Ty::Vec(k, e) => (*k, e.clone()),
                    _ => panic!(),
                };
                rty = Ty::Vec(n, e);
                let mask = match mc {
                    Cst::Zero => vec![Some(0); n as usize],
                    Cst::Undef => vec![None; n as usize],
                    Cst::Agg(v) => v
                        .iter()
                        .map(|(_, c)| match c {
                            Cst::Int(k) => Some(*k as u32),
                            Cst::Zero => Some(0),
                            _ => None,
                        })
                        .collect(),
                    _ => panic!("shuffle mask"),
                };
                Ins::Shuffle(inn, a, b, mask)
            }
            "freeze" => {
                let (t, a) = self.ty_opd();
                rty = t;
                Ins::Freeze(a)
            }
            "br" => {
                if let Tok::Word(w) = self.lx.peek().clone() {
                    if w == "label" {
                        let l = self.label_ref();
                        Ins::Br(l)
                    } else {
                        let (_, c) = self.ty_opd();
                        self.lx.want_p(',');
                        let a = self.label_ref();
                        self.lx.want_p(',');
                        let b = self.label_ref();
                        Ins::CondBr(c, a, b)
                    }
                } else {
                    panic!("br")
                }
            }
            "switch" => {
                let (t, v) = self.ty_opd();
                self.lx.want_p(',');
                let d = self.label_ref();
                self.lx.want_p('[');
                let mut cases = vec![];
                loop {
                    while *self.lx.peek() == Tok::Nl {
                        self.lx.next();
                    }
                    if self.lx.eat_p(']') {
                        break;
                    }
                    let ct = self.m.ty(&mut self.lx);
                    let k = match self.m.cst(&mut self.lx, &ct) {
                        Cst::Int(k) => k,
                        c => panic!("switch case {:?}", c),
                    };
                    self.lx.want_p(',');
                    let l = self.label_ref();
                    cases.push((k, l));
                }
                Ins::Switch(t.bits(), v, d, cases)
            }
            "ret" => {
                let t = self.m.ty(&mut self.lx);
                if t == Ty::Void {
                    Ins::Ret(None)
                } else {
                    Ins::Ret(Some(self.opd(&t)))
                }
            }
            "unreachable" => Ins::Unreachable,
            "resume" => Ins::Resume,
            "landingpad" => {
                self.lx.skip_line();
                return (None, Some(Inst { dst, ins: Ins::LandingPad, dbg: 0, ty: Ty::Void }), true);
            }
            "fence" => Ins::Nop,
            "atomicrmw" => {
                self.flags();
                let o = match self.lx.next() {
                    Tok::Word(w) => w,
                    t => panic!("rmw {:?}", t),
                };
                let (_, p) = self.ty_opd();
                self.lx.want_p(',');
                let (t, v) = self.ty_opd();
                rty = t.clone();
                Ins::Rmw(o, t, p, v)
            }
            "cmpxchg" => {
                self.flags();
                let (_, p) = self.ty_opd();
                self.lx.want_p(',');
                let (t, c) = self.ty_opd();
                self.lx.want_p(',');
                let (_, n) = self.ty_opd();
                rty = Ty::Struct(Rc::new(vec![t.clone(), Ty::Int(1)]), false);
                Ins::CmpXchg(t, p, c, n)
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op != "call" && op != "invoke" {
                    assert!(self.lx.eat_w("call"));
                }
                let inv = op == "invoke";
                // attrs/cc before the return type
                loop {
                    let t = self.lx.peek().clone();
                    if Module::is_ty_start(&t) || matches!(t, Tok::Local(_)) {
                        break;
                    }
                    match t {
                        Tok::Word(w) => {
                            self.lx.next();
                            if w == "align" && !self.lx.is_p('(') {
                                self.lx.next();
                            } else if w == "cc" {
                                self.lx.next();
                            } else if self.lx.is_p('(') {
                                self.lx.skip_balanced();
                            }
                        }
                        Tok::Str(_) => {
                            self.lx.next();
                            if self.lx.eat_p('=') {
                                self.lx.next();
                            }
                        }
                        t => panic!("call {:?} near {}", t, self.lx.ctx()),
                    }
                }
                let ret = self.m.ty(&mut self.lx);
                if self.lx.is_p('(') {
                    self.lx.skip_balanced();
                }
                let callee = match self.lx.next() {
                    Tok::Global(g) => Callee::Direct(g),
                    Tok::Local(n) => Callee::Ind(Opd::Reg(self.reg(&n))),
                    Tok::Word(w) if w == "asm" => {
                        let mut s = String::new();
                        loop {
                            match self.lx.peek().clone() {
                                Tok::P('(') => break,
                                Tok::Str(b) => {
                                    s.push_str(&String::from_utf8_lossy(&b));
                                    s.push('|');
                                    self.lx.next();
                                }
                                _ => {
                                    self.lx.next();
                                }
                            }
                        }
                        Callee::Asm(s)
                    }
                    Tok::Word(w) if w == "inttoptr" || w == "getelementptr" => panic!("const callee {}", self.lx.ctx()),
                    t => panic!("callee {:?} near {}", t, self.lx.ctx()),
                };
                self.lx.want_p('(');
                let mut args = vec![];
                let mut byval = vec![];
                if !self.lx.eat_p(')') {
                    loop {
                        let t = self.m.ty(&mut self.lx);
                        if t == Ty::Other {
                            // metadata argument: skip to , or ) at depth 0
                            let mut d = 0;
                            loop {
                                match self.lx.peek().clone() {
                                    Tok::P('(') => {
                                        d += 1;
                                        self.lx.next();
                                    }
                                    Tok::P(')') if d > 0 => {
                                        d -= 1;
                                        self.lx.next();
                                    }
                                    Tok::P(')') | Tok::P(',') if d == 0 => break,
                                    _ => {
                                        self.lx.next();
                                    }
                                }
                            }
                            args.push((t, Opd::K(V::C(0))));
                            byval.push(None);
                        } else {
                            let bv = self.skip_attrs();
                            let o = self.opd(&t);
                            args.push((t, o));
                            byval.push(bv);
                        }
                        if self.lx.eat_p(')') {
                            break;
                        }
                        self.lx.want_p(',');
                    }
                }
                rty = ret.clone();
                let mut normal = None;
                let mut d = 0;
                if inv {
                    d = self.tail_dbg();
                    assert!(self.lx.eat_w("to"), "invoke tail near {}", self.lx.ctx());
                    normal = Some(self.label_ref());
                }
                let d2 = self.tail_dbg();
                let c = CallI { callee, ret, args, byval, normal };
                let dst = if c.ret == Ty::Void { None } else { dst };
                return (None, Some(Inst { dst, ins: Ins::Call(Rc::new(c)), dbg: d.max(d2), ty: rty }), false);
            }
            _ => panic!("unknown instruction {} near {}", op, self.lx.ctx()),
        };
        let d = self.tail_dbg_opt();
        (None, Some(Inst { dst, ins, dbg: d, ty: rty }), false)
    }
    fn tail_dbg_opt(&mut self) -> u32 {
        self.tail_dbg()
    }
}

pub fn sext_to_i64(k: u128, bits: u32) -> i64 {
    if bits >= 64 {
        k as u64 as i64
    } else {
        let sh = 64 - bits;
        (((k as u64) << sh) as i64) >> sh
    }
}
