//! Textual LLVM IR reader: lays out every global in one flat address space,
//! evaluates initialisers (including relocations) to bytes, and parses
//! function bodies on first use.
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Int(u32),
    Ptr,
    Void,
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Vec(u64, Box<Ty>),
    Other,
}

fn align_up(x: u64, a: u64) -> u64 { (x + a - 1) / a * a }

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match *w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(_, true) => 1,
            Ty::Struct(v, false) => v.iter().map(|t| t.align()).max().unwrap_or(1),
            Ty::Vec(..) => self.store_size().next_power_of_two().max(1),
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(..) => self.layout().1,
            Ty::Vec(n, t) => match **t { Ty::Int(w) => (n * w as u64 + 7) / 8, _ => n * t.size() },
            _ => 0,
        }
    }
    pub fn size(&self) -> u64 { align_up(self.store_size(), self.align()) }
    pub fn layout(&self) -> (Vec<u64>, u64) {
        match self {
            Ty::Struct(v, packed) => {
                let mut off = 0;
                let mut o = vec![];
                for t in v {
                    if !packed { off = align_up(off, t.align()); }
                    o.push(off);
                    off += t.size();
                }
                let al = self.align();
                (o, align_up(off, al))
            }
            _ => (vec![], self.size()),
        }
    }
    pub fn width(&self) -> Option<u32> {
        match self { Ty::Int(w) => Some(*w), Ty::Ptr => Some(64), _ => None }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Local(u32),
    Int(u64, u32),
    Undef(Ty),
    Zero(Ty),
    Agg(Vec<(Ty, Op)>),
    /// constant that needs more than 64 bits
    Big(u128, u32),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinK { Add, Sub, Mul, UDiv, URem, SDiv, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK { Trunc, Zext, Sext, Bit }

#[derive(Clone, Debug)]
pub enum IK {
    Bin(BinK, Ty, Op, Op),
    Icmp(Pred, Ty, Op, Op),
    Cast(CastK, Ty, Op, Ty),
    Select(Ty, Op, Ty, Op, Op),
    Gep(Ty, Op, Vec<(Ty, Op)>),
    Load(Ty, Op),
    Store(Ty, Op, Op),
    Alloca(u64, u64),
    Call { ret: Ty, callee: Callee, args: Vec<(Ty, Op)>, normal: Option<usize> },
    Phi(Ty, Vec<(Op, usize)>),
    ExtractValue(Ty, Op, Vec<u64>),
    InsertValue(Ty, Op, Ty, Op, Vec<u64>),
    ExtractElem(Ty, Op, Op),
    InsertElem(Ty, Op, Op, Op),
    Shuffle(Ty, Op, Op, Vec<Option<u64>>),
    Freeze(Ty, Op),
    /// one thread runs, so these are a load and a store
    CmpXchg(Ty, Op, Op, Op),
    Rmw(String, Ty, Op, Op),
    Br(usize),
    CondBr(Op, usize, usize),
    Switch(u32, Op, usize, Vec<(u64, usize)>),
    Ret(Option<(Ty, Op)>),
    Unreachable,
    Unsupported(String),
}
#[derive(Clone, Debug)]
pub enum Callee { Direct(u32), Indirect(Op) }

#[derive(Clone, Debug)]
pub struct Inst { pub dst: Option<u32>, pub k: IK }
#[derive(Clone, Debug, Default)]
pub struct Block { pub name: String, pub insts: Vec<Inst> }

pub struct Func {
    pub name: String,
    pub nparams: usize,
    pub nlocals: usize,
    pub blocks: Vec<Block>,
    pub succ: Vec<Vec<usize>>,
    /// live-in locals per block (phi destinations excluded)
    pub live: Vec<Vec<u32>>,
    /// loop nest per block: heads of the enclosing WTO components
    pub nest: Vec<Vec<u32>>,
    pub pos: Vec<u32>,
}

pub struct FnInfo {
    pub name: String,
    pub noreturn: bool,
    pub body: Option<(usize, usize)>,
    pub header: String,
    pub parsed: Mutex<Option<Arc<Func>>>,
}

pub struct Global { pub name: String, pub addr: u64, pub size: u64, pub constant: bool, pub defined: bool }

pub struct Module {
    pub lines: Vec<String>,
    pub fns: Vec<FnInfo>,
    pub fn_by_name: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gl_by_name: HashMap<String, usize>,
    pub types: HashMap<String, Ty>,
    pub image: Vec<u8>,
    pub attrs_noreturn: HashMap<String, bool>,
}

pub const FN_BASE: u64 = 0x1000_0000;
pub const GL_BASE: u64 = 0x4000_0000;
pub const STACK_BASE: u64 = 0x10_0000_0000;
pub const HEAP_BASE: u64 = 0x20_0000_0000;

// ---------------------------------------------------------------- lexer ---
#[derive(Clone, Debug, PartialEq)]
pub enum Tok { Local(String), Global(String), Word(String), Str(Vec<u8>), P(u8), Meta, Attr(String) }

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 2 < s.len() + 0 && s[i + 1] != b'\\' {
            let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap();
            o.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else if s[i] == b'\\' && i + 1 < s.len() && s[i + 1] == b'\\' {
            o.push(b'\\');
            i += 2;
        } else {
            o.push(s[i]);
            i += 1;
        }
    }
    o
}

pub fn lex(line: &str) -> Vec<Tok> {
    let b = line.as_bytes();
    let mut i = 0;
    let mut o = vec![];
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\r' | b'\n' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                let (name, e) = if i + 1 < b.len() && b[i + 1] == b'"' {
                    let mut j = i + 2;
                    while b[j] != b'"' { j += 1; }
                    (String::from_utf8(unescape(&b[i + 2..j])).unwrap_or_default(), j + 1)
                } else {
                    let mut j = i + 1;
                    while j < b.len() && idc(b[j]) { j += 1; }
                    (line[i + 1..j].to_string(), j)
                };
                o.push(if c == b'%' { Tok::Local(name) } else { Tok::Global(name) });
                i = e;
            }
            b'!' => {
                // metadata reference or inline node: everything after is ignored by users
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) { j += 1; }
                o.push(Tok::Meta);
                i = j.max(i + 1);
            }
            b'#' => {
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) { j += 1; }
                o.push(Tok::Attr(line[i + 1..j].to_string()));
                i = j;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let mut j = i + 2;
                while b[j] != b'"' { j += 1; }
                o.push(Tok::Str(unescape(&b[i + 2..j])));
                i = j + 1;
            }
            b'"' => {
                let mut j = i + 1;
                while j < b.len() && b[j] != b'"' { j += 1; }
                let s = unescape(&b[i + 1..j]);
                i = j + 1;
                o.push(Tok::Str(s));
            }
            _ if idc(c) => {
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) { j += 1; }
                o.push(Tok::Word(line[i..j].to_string()));
                i = j;
            }
            _ => { o.push(Tok::P(c)); i += 1; }
        }
    }
    o
}

// --------------------------------------------------------------- parser ---
pub struct P<'a> { t: &'a [Tok], i: usize, m: &'a Module, loc: Option<&'a mut HashMap<String, u32>> }
type R<T> = Result<T, String>;

fn mask(w: u32) -> u64 { if w >= 64 { !0 } else { (1u64 << w) - 1 } }

impl<'a> P<'a> {
    fn peek(&self) -> Option<&Tok> { self.t.get(self.i) }
    fn is_p(&self, c: u8) -> bool { self.peek() == Some(&Tok::P(c)) }
    fn is_w(&self, w: &str) -> bool { matches!(self.peek(), Some(Tok::Word(x)) if x == w) }
    fn eat_p(&mut self, c: u8) -> bool { if self.is_p(c) { self.i += 1; true } else { false } }
    fn eat_w(&mut self, w: &str) -> bool { if self.is_w(w) { self.i += 1; true } else { false } }
    fn need(&mut self, c: u8) -> R<()> {
        if self.eat_p(c) { Ok(()) } else { Err(format!("expected '{}' at {:?}", c as char, &self.t[self.i.min(self.t.len())..(self.i + 4).min(self.t.len())])) }
    }
    fn num(&mut self) -> R<u64> {
        if let Some(Tok::Word(w)) = self.peek() {
            if let Ok(v) = w.parse::<u64>() { self.i += 1; return Ok(v); }
            if let Ok(v) = w.parse::<i64>() { self.i += 1; return Ok(v as u64); }
        }
        Err(format!("number expected: {:?}", self.peek()))
    }
    fn skip_group(&mut self) {
        // at '(' : skip balanced
        let mut d = 0;
        while let Some(t) = self.peek() {
            match t { Tok::P(b'(') => d += 1, Tok::P(b')') => d -= 1, _ => {} }
            self.i += 1;
            if d == 0 { break; }
        }
    }
    fn int_ty(w: &str) -> Option<u32> {
        if w.len() > 1 && w.as_bytes()[0] == b'i' { w[1..].parse().ok() } else { None }
    }
    fn at_type(&self) -> bool {
        match self.peek() {
            Some(Tok::Word(w)) => Self::int_ty(w).is_some()
                || matches!(w.as_str(), "ptr" | "void" | "float" | "double" | "half" | "fp128" | "x86_fp80" | "metadata" | "label" | "token" | "opaque"),
            Some(Tok::P(b'{')) | Some(Tok::P(b'[')) | Some(Tok::P(b'<')) => true,
            Some(Tok::Local(n)) => self.m.types.contains_key(n),
            _ => false,
        }
    }
    fn ty(&mut self) -> R<Ty> {
        match self.peek().cloned() {
            Some(Tok::Word(w)) => {
                self.i += 1;
                if let Some(n) = Self::int_ty(&w) { return Ok(Ty::Int(n)); }
                match w.as_str() {
                    "ptr" => {
                        if self.eat_w("addrspace") { self.skip_group(); }
                        Ok(Ty::Ptr)
                    }
                    "void" => Ok(Ty::Void),
                    "float" | "double" | "half" | "fp128" | "x86_fp80" | "metadata" | "label" | "token" | "opaque" => Ok(Ty::Other),
                    _ => Err(format!("type? {}", w)),
                }
            }
            Some(Tok::P(b'[')) => {
                self.i += 1;
                let n = self.num()?;
                if !self.eat_w("x") { return Err("x".into()); }
                let t = self.ty()?;
                self.need(b']')?;
                Ok(Ty::Arr(n, Box::new(t)))
            }
            Some(Tok::P(b'{')) => { self.i += 1; self.struct_body(false) }
            Some(Tok::P(b'<')) => {
                self.i += 1;
                if self.eat_p(b'{') {
                    let t = self.struct_body(true)?;
                    self.need(b'>')?;
                    return Ok(t);
                }
                let n = self.num()?;
                if !self.eat_w("x") { return Err("x".into()); }
                let t = self.ty()?;
                self.need(b'>')?;
                Ok(Ty::Vec(n, Box::new(t)))
            }
            Some(Tok::Local(n)) => {
                if let Some(t) = self.m.types.get(&n) { self.i += 1; Ok(t.clone()) } else { Err(format!("named type {}", n)) }
            }
            x => Err(format!("type? {:?}", x)),
        }
    }
    fn struct_body(&mut self, packed: bool) -> R<Ty> {
        let mut v = vec![];
        if self.eat_p(b'}') { return Ok(Ty::Struct(v, packed)); }
        loop {
            v.push(self.ty()?);
            if self.eat_p(b',') { continue; }
            self.need(b'}')?;
            return Ok(Ty::Struct(v, packed));
        }
    }
    fn skip_attrs(&mut self) {
        // skip parameter attributes until an operand begins
        loop {
            match self.peek() {
                Some(Tok::Word(w)) => {
                    let w = w.clone();
                    if w == "align" || w == "dereferenceable_or_null" && false {
                        self.i += 1;
                        if self.is_p(b'(') { self.skip_group(); } else { self.i += 1; }
                        continue;
                    }
                    let attr = matches!(w.as_str(), "noundef" | "nonnull" | "noalias" | "readonly" | "writeonly" | "readnone" | "zeroext" | "signext"
                        | "inreg" | "immarg" | "nofree" | "allocptr" | "allocalign" | "returned" | "nest" | "dead_on_unwind" | "writable" | "noext" | "dead_on_return"
                        | "swiftself" | "nocapture" | "sret" | "byval" | "captures" | "range" | "initializes" | "dereferenceable" | "dereferenceable_or_null"
                        | "nofpclass" | "elementtype" | "preallocated" | "inalloca" | "swiftasync" | "swifterror" | "alignstack");
                    if !attr { return; }
                    self.i += 1;
                    if self.is_p(b'(') { self.skip_group(); }
                }
                Some(Tok::Str(_)) => {
                    // string attribute "k"="v": only inside parameter lists; c"" handled by operand()
                    return;
                }
                _ => return,
            }
        }
    }
    fn local(&mut self, n: &str) -> u32 {
        let l = self.loc.as_mut().expect("local outside function");
        let k = l.len() as u32;
        *l.entry(n.to_string()).or_insert(k)
    }
    fn op(&mut self, ty: &Ty) -> R<Op> {
        match self.peek().cloned() {
            Some(Tok::Local(n)) => { self.i += 1; Ok(Op::Local(self.local(&n))) }
            Some(Tok::Global(n)) => { self.i += 1; Ok(Op::Int(self.m.sym(&n)?, 64)) }
            Some(Tok::Str(s)) => {
                self.i += 1;
                Ok(Op::Agg(s.into_iter().map(|b| (Ty::Int(8), Op::Int(b as u64, 8))).collect()))
            }
            Some(Tok::P(b'[')) => { self.i += 1; self.agg(b']') }
            Some(Tok::P(b'{')) => { self.i += 1; self.agg(b'}') }
            Some(Tok::P(b'<')) => {
                self.i += 1;
                if self.eat_p(b'{') { let a = self.agg(b'}')?; self.need(b'>')?; return Ok(a); }
                self.agg(b'>')
            }
            Some(Tok::Word(w)) => {
                match w.as_str() {
                    "true" => { self.i += 1; return Ok(Op::Int(1, 1)); }
                    "false" => { self.i += 1; return Ok(Op::Int(0, 1)); }
                    "null" => { self.i += 1; return Ok(Op::Int(0, 64)); }
                    "undef" | "poison" => { self.i += 1; return Ok(Op::Undef(ty.clone())); }
                    "zeroinitializer" => { self.i += 1; return Ok(Op::Zero(ty.clone())); }
                    "none" => { self.i += 1; return Ok(Op::Int(0, 64)); }
                    "splat" => {
                        self.i += 1;
                        self.need(b'(')?;
                        let t = self.ty()?;
                        let o = self.op(&t)?;
                        self.need(b')')?;
                        if let Ty::Vec(n, _) = ty { return Ok(Op::Agg((0..*n).map(|_| (t.clone(), o.clone())).collect())); }
                        return Err("splat".into());
                    }
                    "getelementptr" => {
                        self.i += 1;
                        while matches!(self.peek(), Some(Tok::Word(x)) if matches!(x.as_str(), "inbounds" | "nuw" | "nusw" | "inrange")) {
                            self.i += 1;
                            if self.is_p(b'(') && matches!(self.t.get(self.i - 1), Some(Tok::Word(x)) if x == "inrange") { self.skip_group(); }
                        }
                        self.need(b'(')?;
                        let st = self.ty()?;
                        self.need(b',')?;
                        let bt = self.ty()?;
                        let base = self.op(&bt)?;
                        let mut addr = cint(&base)?;
                        let mut cur = st;
                        let mut first = true;
                        while self.eat_p(b',') {
                            self.eat_w("inrange");
                            let it = self.ty()?;
                            let ix = self.op(&it)?;
                            let w = it.width().unwrap_or(64);
                            let v = sext(cint(&ix)?, w);
                            if first { addr = addr.wrapping_add((v as u64).wrapping_mul(cur.size())); first = false; }
                            else {
                                let (o, n) = step(&cur, v)?;
                                addr = addr.wrapping_add(o);
                                cur = n;
                            }
                        }
                        self.need(b')')?;
                        return Ok(Op::Int(addr, 64));
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "addrspacecast" | "ptrtoaddr" => {
                        self.i += 1;
                        while self.is_w("nuw") || self.is_w("nsw") || self.is_w("nneg") { self.i += 1; }
                        self.need(b'(')?;
                        let t = self.ty()?;
                        let o = self.op(&t)?;
                        if !self.eat_w("to") { return Err("to".into()); }
                        let t2 = self.ty()?;
                        self.need(b')')?;
                        let w = t2.width().ok_or("castw")?;
                        return Ok(Op::Int(cint(&o)? & mask(w), w));
                    }
                    "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" => {
                        self.i += 1;
                        while self.is_w("nuw") || self.is_w("nsw") { self.i += 1; }
                        self.need(b'(')?;
                        let t = self.ty()?;
                        let a = cint(&self.op(&t)?)?;
                        self.need(b',')?;
                        let t2 = self.ty()?;
                        let b = cint(&self.op(&t2)?)?;
                        self.need(b')')?;
                        let wd = t.width().ok_or("w")?;
                        let r = match w.as_str() { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), "mul" => a.wrapping_mul(b), "xor" => a ^ b, "and" => a & b, "or" => a | b, _ => a << b };
                        return Ok(Op::Int(r & mask(wd), wd));
                    }
                    _ => {}
                }
                let wd = match ty { Ty::Int(w) => *w, Ty::Ptr => 64, _ => return Err(format!("const {:?} {}", ty, w)) };
                if let Ok(v) = w.parse::<i128>() {
                    self.i += 1;
                    if wd > 64 { return Ok(Op::Big(v as u128, wd)); }
                    return Ok(Op::Int((v as u64) & mask(wd), wd));
                }
                Err(format!("operand? {}", w))
            }
            x => Err(format!("operand? {:?}", x)),
        }
    }
    fn agg(&mut self, end: u8) -> R<Op> {
        let mut v = vec![];
        if self.eat_p(end) { return Ok(Op::Agg(v)); }
        loop {
            let t = self.ty()?;
            let o = self.op(&t)?;
            v.push((t, o));
            if self.eat_p(b',') { continue; }
            self.need(end)?;
            return Ok(Op::Agg(v));
        }
    }
    fn tyop(&mut self) -> R<(Ty, Op)> {
        let t = self.ty()?;
        self.skip_attrs();
        if t == Ty::Other {
            // metadata / float argument: skip to , or )
            let mut d = 0;
            while let Some(x) = self.peek() {
                match x {
                    Tok::P(b'(') | Tok::P(b'{') => d += 1,
                    Tok::P(b')') | Tok::P(b'}') if d > 0 => d -= 1,
                    Tok::P(b')') | Tok::P(b',') if d == 0 => break,
                    _ => {}
                }
                self.i += 1;
            }
            return Ok((t, Op::Int(0, 64)));
        }
        let o = self.op(&t)?;
        Ok((t, o))
    }
}

pub fn sext(v: u64, w: u32) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }

fn cint(o: &Op) -> R<u64> {
    match o { Op::Int(v, _) => Ok(*v), Op::Zero(_) => Ok(0), _ => Err(format!("const int expected {:?}", o)) }
}

pub fn step(t: &Ty, ix: i64) -> R<(u64, Ty)> {
    match t {
        Ty::Arr(_, e) | Ty::Vec(_, e) => Ok(((ix as u64).wrapping_mul(e.size()), (**e).clone())),
        Ty::Struct(v, _) => { let l = t.layout().0; Ok((l[ix as usize], v[ix as usize].clone())) }
        _ => Err(format!("gep step {:?}", t)),
    }
}

impl Module {
    pub fn find_global(&self, a: u64, n: u64) -> Option<usize> {
        let g = &self.globals;
        let i = g.partition_point(|x| x.addr <= a);
        if i == 0 { return None; }
        let x = &g[i - 1];
        if a.checked_add(n)? <= x.addr + x.size { Some(i - 1) } else { None }
    }
    pub fn sym(&self, n: &str) -> R<u64> {
        if let Some(&g) = self.gl_by_name.get(n) { return Ok(self.globals[g].addr); }
        if let Some(&f) = self.fn_by_name.get(n) { return Ok(FN_BASE + 16 * f as u64); }
        Err(format!("unknown symbol @{}", n))
    }
    pub fn fn_at(&self, addr: u64) -> Option<u32> {
        if addr >= FN_BASE && addr < FN_BASE + 16 * self.fns.len() as u64 && addr % 16 == 0 { Some(((addr - FN_BASE) / 16) as u32) } else { None }
    }

    pub fn load(path: &str) -> R<Module> {
        let text = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?;
        let lines: Vec<String> = text.lines().map(|s| s.to_string()).collect();
        drop(text);
        let mut m = Module {
            lines: vec![], fns: vec![], fn_by_name: HashMap::new(), globals: vec![], gl_by_name: HashMap::new(),
            types: HashMap::new(), image: vec![], attrs_noreturn: HashMap::new(),
        };
        // attribute groups and named types
        for l in &lines {
            if l.starts_with("attributes #") {
                let n = l["attributes #".len()..].split(' ').next().unwrap().to_string();
                let nr = l.split(|c: char| c == ' ' || c == '{' || c == '}').any(|w| w == "noreturn");
                m.attrs_noreturn.insert(n, nr);
            }
        }
        for l in &lines {
            if l.starts_with('%') && l.contains(" = type ") {
                let toks = lex(l);
                if let Tok::Local(n) = &toks[0] {
                    let t = {
                        let mut p = P { t: &toks[3..], i: 0, m: &m, loc: None };
                        p.ty().unwrap_or(Ty::Other)
                    };
                    m.types.insert(n.clone(), t);
                }
            }
        }
        // functions
        let mut i = 0;
        while i < lines.len() {
            let l = &lines[i];
            let def = l.starts_with("define ");
            if def || l.starts_with("declare ") {
                let at = l.find('@').ok_or("fn name")?;
                let name = match lex(&l[at..]).into_iter().next() { Some(Tok::Global(n)) => n, _ => return Err("fn".into()) };
                let mut nr = false;
                for w in l[at..].split(' ') {
                    if let Some(a) = w.strip_prefix('#') { if *m.attrs_noreturn.get(a).unwrap_or(&false) { nr = true; } }
                }
                let mut body = None;
                if def {
                    let s = i + 1;
                    let mut e = s;
                    while lines[e] != "}" { e += 1; }
                    body = Some((s, e));
                    i = e;
                }
                let id = m.fns.len() as u32;
                m.fn_by_name.insert(name.clone(), id);
                m.fns.push(FnInfo { name, noreturn: nr, body, header: l.clone(), parsed: Mutex::new(None) });
            }
            i += 1;
        }
        // globals: layout first
        let mut inits: Vec<(usize, Vec<Tok>, usize, Ty)> = vec![];
        let mut addr = GL_BASE;
        let mut aliases = vec![];
        for l in &lines {
            if !l.starts_with('@') { continue; }
            let toks = lex(l);
            let name = match &toks[0] { Tok::Global(n) => n.clone(), _ => continue };
            let k = toks.iter().position(|t| matches!(t, Tok::Word(w) if w == "global" || w == "constant" || w == "alias"));
            let k = match k { Some(k) => k, None => continue };
            let kw = match &toks[k] { Tok::Word(w) => w.clone(), _ => unreachable!() };
            if kw == "alias" {
                if let Some(Tok::Global(t)) = toks.iter().rev().find(|t| matches!(t, Tok::Global(_))) { aliases.push((name, t.clone())); }
                continue;
            }
            let external = toks[..k].iter().any(|t| matches!(t, Tok::Word(w) if w == "external" || w == "extern_weak"));
            let (ty, used) = {
                let mut p = P { t: &toks[k + 1..], i: 0, m: &m, loc: None };
                let t = p.ty()?;
                (t, p.i)
            };
            let mut al = ty.align().max(1);
            for j in k..toks.len() {
                if toks[j] == Tok::Word("align".into()) { if let Some(Tok::Word(n)) = toks.get(j + 1) { al = n.parse().unwrap_or(al); } }
            }
            let size = ty.size();
            // generous alignment keeps table addressing carry-free
            addr = align_up(addr, al.max(size.max(1).next_power_of_two().min(65536)));
            let gi = m.globals.len();
            m.globals.push(Global { name: name.clone(), addr, size, constant: kw == "constant" && !external, defined: !external });
            m.gl_by_name.insert(name, gi);
            addr += size.max(1) + 1; // one byte gap so that one-past-the-end is unambiguous
            if !external { inits.push((gi, toks, k + 1 + used, ty)); }
        }
        for (a, t) in aliases {
            if let Some(&g) = m.gl_by_name.get(&t) { m.gl_by_name.insert(a, g); }
            else if let Some(&f) = m.fn_by_name.get(&t) { m.fn_by_name.insert(a, f); }
        }
        let mut image = vec![0u8; (addr - GL_BASE) as usize + 64];
        for (gi, toks, at, ty) in &inits {
            let o = {
                let mut p = P { t: &toks[*at..], i: 0, m: &m, loc: None };
                p.op(ty).map_err(|e| format!("global {}: {}", m.globals[*gi].name, e))?
            };
            let base = (m.globals[*gi].addr - GL_BASE) as usize;
            write_const(&mut image, base, ty, &o)?;
        }
        m.image = image;
        m.lines = lines;
        Ok(m)
    }

    pub fn func(&self, id: u32) -> R<Arc<Func>> {
        let fi = &self.fns[id as usize];
        let mut g = fi.parsed.lock().unwrap();
        if let Some(f) = &*g { return Ok(f.clone()); }
        let f = Arc::new(self.parse_fn(fi)?);
        *g = Some(f.clone());
        Ok(f)
    }

    fn parse_fn(&self, fi: &FnInfo) -> R<Func> {
        let (s, e) = fi.body.ok_or_else(|| format!("no body: {}", fi.name))?;
        let mut loc: HashMap<String, u32> = HashMap::new();
        // parameters
        let toks = lex(&fi.header);
        let k = toks.iter().position(|t| matches!(t, Tok::Global(_))).unwrap();
        let mut nparams = 0;
        let mut unnamed = 0;
        {
            let mut p = P { t: &toks[k + 1..], i: 0, m: self, loc: Some(&mut loc) };
            p.need(b'(')?;
            if !p.eat_p(b')') {
                loop {
                    let _t = p.ty()?;
                    p.skip_attrs();
                    match p.peek().cloned() {
                        Some(Tok::Local(n)) => { p.i += 1; if n.bytes().all(|b| b.is_ascii_digit()) { unnamed += 1; } p.local(&n); }
                        _ => { let n = format!("{}", unnamed); unnamed += 1; p.local(&n); }
                    }
                    nparams += 1;
                    if p.eat_p(b',') { continue; }
                    break;
                }
            }
        }
        // block labels
        let mut blocks: Vec<Block> = vec![];
        let mut bidx: HashMap<String, usize> = HashMap::new();
        let mut stmts: Vec<(usize, String)> = vec![];
        let mut i = s;
        let mut cur: Option<usize> = None;
        while i < e {
            let l = &self.lines[i];
            i += 1;
            if l.trim().is_empty() || l.trim_start().starts_with(';') { continue; }
            if !l.starts_with(' ') {
                // label
                let n = match lex(l.split(':').next().unwrap()).into_iter().next() {
                    Some(Tok::Word(w)) => w,
                    Some(Tok::Str(s)) => String::from_utf8(s).unwrap_or_default(),
                    _ => return Err(format!("label {}", l)),
                };
                let n = if l.starts_with('"') {
                    let q = l[1..].find('"').unwrap();
                    l[1..1 + q].to_string()
                } else { n };
                bidx.insert(n.clone(), blocks.len());
                cur = Some(blocks.len());
                blocks.push(Block { name: n, insts: vec![] });
                continue;
            }
            if cur.is_none() {
                let n = format!("{}", unnamed);
                bidx.insert(n.clone(), 0);
                cur = Some(0);
                blocks.push(Block { name: n, insts: vec![] });
            }
            if l.trim_start().starts_with("#dbg") { continue; }
            let mut st = l.trim().to_string();
            let body = match st.find(" = ") { Some(p) if st.starts_with('%') => st[p + 3..].to_string(), _ => st.clone() };
            if body.starts_with("switch ") && !body.contains(']') {
                loop {
                    let x = self.lines[i].trim().to_string();
                    i += 1;
                    st.push(' ');
                    let done = x.starts_with(']');
                    st.push_str(&x);
                    if done { break; }
                }
            } else if body.starts_with("invoke ") {
                while !st.contains(" unwind label ") { st.push(' '); st.push_str(self.lines[i].trim()); i += 1; }
            } else if body.starts_with("landingpad") {
                while { let x = self.lines[i].trim(); x.starts_with("cleanup") || x.starts_with("catch") || x.starts_with("filter") } { i += 1; }
            }
            stmts.push((cur.unwrap(), st));
        }
        for (b, st) in stmts {
            let inst = match self.parse_inst(&st, &mut loc, &bidx) {
                Ok(x) => x,
                Err(er) => {
                    // make the destination known, fail only if executed
                    let toks = lex(&st);
                    let dst = if toks.len() > 1 && toks[1] == Tok::P(b'=') {
                        if let Tok::Local(n) = &toks[0] { let k = loc.len() as u32; Some(*loc.entry(n.clone()).or_insert(k)) } else { None }
                    } else { None };
                    Inst { dst, k: IK::Unsupported(format!("{} [{}]", st, er)) }
                }
            };
            blocks[b].insts.push(inst);
        }
        let n = blocks.len();
        let mut succ = vec![vec![]; n];
        for (b, bl) in blocks.iter().enumerate() {
            match bl.insts.last().map(|i| &i.k) {
                Some(IK::Br(t)) => succ[b].push(*t),
                Some(IK::CondBr(_, t, f)) => { succ[b].push(*t); succ[b].push(*f); }
                Some(IK::Switch(_, _, d, cs)) => { succ[b].push(*d); for c in cs { succ[b].push(c.1); } }
                Some(IK::Call { normal: Some(t), .. }) => succ[b].push(*t),
                _ => {}
            }
        }
        let live = liveness(&blocks, &succ, loc.len());
        let (nest, pos) = wto(&succ);
        Ok(Func { name: fi.name.clone(), nparams, nlocals: loc.len(), blocks, succ, live, nest, pos })
    }

    fn parse_inst(&self, st: &str, loc: &mut HashMap<String, u32>, bidx: &HashMap<String, usize>) -> R<Inst> {
        let toks = lex(st);
        let mut at = 0;
        let mut dst = None;
        if toks.len() > 1 && toks[1] == Tok::P(b'=') {
            if let Tok::Local(n) = &toks[0] { let k = loc.len() as u32; dst = Some(*loc.entry(n.clone()).or_insert(k)); }
            at = 2;
        }
        let mut p = P { t: &toks, i: at, m: self, loc: Some(loc) };
        let label = |p: &mut P| -> R<usize> {
            if !p.eat_w("label") { return Err("label".into()); }
            match p.peek().cloned() {
                Some(Tok::Local(n)) => { p.i += 1; bidx.get(&n).copied().ok_or(format!("block {}", n)) }
                _ => Err("label".into()),
            }
        };
        let mut w = match p.peek() { Some(Tok::Word(w)) => w.clone(), x => return Err(format!("inst {:?}", x)) };
        p.i += 1;
        while matches!(w.as_str(), "tail" | "musttail" | "notail") {
            w = match p.peek() { Some(Tok::Word(w)) => w.clone(), x => return Err(format!("inst {:?}", x)) };
            p.i += 1;
        }
        let bin = |s: &str| Some(match s {
            "add" => BinK::Add, "sub" => BinK::Sub, "mul" => BinK::Mul, "udiv" => BinK::UDiv, "urem" => BinK::URem,
            "sdiv" => BinK::SDiv, "srem" => BinK::SRem, "shl" => BinK::Shl, "lshr" => BinK::LShr, "ashr" => BinK::AShr,
            "and" => BinK::And, "or" => BinK::Or, "xor" => BinK::Xor, _ => return None,
        });
        let flags = |p: &mut P| while matches!(p.peek(), Some(Tok::Word(x)) if matches!(x.as_str(), "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "volatile" | "atomic")) { p.i += 1; };
        let k = if let Some(b) = bin(&w) {
            flags(&mut p);
            let t = p.ty()?;
            let a = p.op(&t)?;
            p.need(b',')?;
            let c = p.op(&t)?;
            IK::Bin(b, t, a, c)
        } else {
            match w.as_str() {
                "icmp" => {
                    flags(&mut p);
                    let pr = match p.peek() { Some(Tok::Word(x)) => x.clone(), _ => return Err("pred".into()) };
                    p.i += 1;
                    let pr = match pr.as_str() {
                        "eq" => Pred::Eq, "ne" => Pred::Ne, "ult" => Pred::Ult, "ule" => Pred::Ule, "ugt" => Pred::Ugt, "uge" => Pred::Uge,
                        "slt" => Pred::Slt, "sle" => Pred::Sle, "sgt" => Pred::Sgt, "sge" => Pred::Sge, x => return Err(format!("pred {}", x)),
                    };
                    let t = p.ty()?;
                    let a = p.op(&t)?;
                    p.need(b',')?;
                    let c = p.op(&t)?;
                    IK::Icmp(pr, t, a, c)
                }
                "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
                    flags(&mut p);
                    let t = p.ty()?;
                    let a = p.op(&t)?;
                    if !p.eat_w("to") { return Err("to".into()); }
                    let t2 = p.ty()?;
                    let (w1, w2) = (t.width(), t2.width());
                    let k = match w.as_str() {
                        "trunc" => CastK::Trunc, "zext" => CastK::Zext, "sext" => CastK::Sext, "bitcast" => CastK::Bit,
                        _ => if w2 < w1 { CastK::Trunc } else if w2 > w1 { CastK::Zext } else { CastK::Bit },
                    };
                    IK::Cast(k, t, a, t2)
                }
                "select" => {
                    let ct = p.ty()?;
                    let c = p.op(&ct)?;
                    p.need(b',')?;
                    let t = p.ty()?;
                    let a = p.op(&t)?;
                    p.need(b',')?;
                    let _ = p.ty()?;
                    let b = p.op(&t)?;
                    IK::Select(ct, c, t, a, b)
                }
                "getelementptr" => {
                    flags(&mut p);
                    let st = p.ty()?;
                    p.need(b',')?;
                    let bt = p.ty()?;
                    if bt != Ty::Ptr { return Err("vector gep".into()); }
                    let base = p.op(&bt)?;
                    let mut ix = vec![];
                    while p.eat_p(b',') {
                        if matches!(p.peek(), Some(Tok::Meta)) { break; }
                        let t = p.ty()?;
                        let o = p.op(&t)?;
                        ix.push((t, o));
                    }
                    IK::Gep(st, base, ix)
                }
                "load" => {
                    flags(&mut p);
                    let t = p.ty()?;
                    p.need(b',')?;
                    let pt = p.ty()?;
                    let a = p.op(&pt)?;
                    IK::Load(t, a)
                }
                "store" => {
                    flags(&mut p);
                    let t = p.ty()?;
                    let v = p.op(&t)?;
                    p.need(b',')?;
                    let pt = p.ty()?;
                    let a = p.op(&pt)?;
                    IK::Store(t, v, a)
                }
                "cmpxchg" => {
                    while p.is_w("weak") || p.is_w("volatile") { p.i += 1; }
                    let (_, a) = p.tyop()?;
                    p.need(b',')?;
                    let (t, c) = p.tyop()?;
                    p.need(b',')?;
                    let (_, n) = p.tyop()?;
                    IK::CmpXchg(t, a, c, n)
                }
                "atomicrmw" => {
                    if p.is_w("volatile") { p.i += 1; }
                    let o = match p.peek() { Some(Tok::Word(x)) => x.to_string(), _ => return Err("atomicrmw".into()) };
                    p.i += 1;
                    let (_, a) = p.tyop()?;
                    p.need(b',')?;
                    let (t, v) = p.tyop()?;
                    IK::Rmw(o, t, a, v)
                }
                "alloca" => {
                    let t = p.ty()?;
                    let mut sz = t.size();
                    let mut al = t.align();
                    while p.eat_p(b',') {
                        if p.eat_w("align") { al = p.num()?; }
                        else if p.at_type() { let ct = p.ty()?; let o = p.op(&ct)?; sz *= cint(&o)?; }
                        else { break; }
                    }
                    IK::Alloca(sz, al)
                }
                "phi" => {
                    let t = p.ty()?;
                    let mut v = vec![];
                    loop {
                        p.need(b'[')?;
                        let o = p.op(&t)?;
                        p.need(b',')?;
                        let b = match p.peek().cloned() { Some(Tok::Local(n)) => *bidx.get(&n).ok_or("phi blk")?, _ => return Err("phi".into()) };
                        p.i += 1;
                        p.need(b']')?;
                        v.push((o, b));
                        if p.is_p(b',') && p.t.get(p.i + 1) == Some(&Tok::P(b'[')) { p.i += 1; continue; }
                        break;
                    }
                    IK::Phi(t, v)
                }
                "extractvalue" => {
                    let (t, o) = p.tyop()?;
                    let mut ix = vec![];
                    while p.eat_p(b',') { match p.num() { Ok(n) => ix.push(n), Err(_) => break } }
                    IK::ExtractValue(t, o, ix)
                }
                "insertvalue" => {
                    let (t, o) = p.tyop()?;
                    p.need(b',')?;
                    let (t2, v) = p.tyop()?;
                    let mut ix = vec![];
                    while p.eat_p(b',') { match p.num() { Ok(n) => ix.push(n), Err(_) => break } }
                    IK::InsertValue(t, o, t2, v, ix)
                }
                "extractelement" => {
                    let (t, o) = p.tyop()?;
                    p.need(b',')?;
                    let (_, ix) = p.tyop()?;
                    IK::ExtractElem(t, o, ix)
                }
                "insertelement" => {
                    let (t, o) = p.tyop()?;
                    p.need(b',')?;
                    let (_, v) = p.tyop()?;
                    p.need(b',')?;
                    let (_, ix) = p.tyop()?;
                    IK::InsertElem(t, o, v, ix)
                }
                "shufflevector" => {
                    let (t, a) = p.tyop()?;
                    p.need(b',')?;
                    let (_, b) = p.tyop()?;
                    p.need(b',')?;
                    let (mt, mo) = p.tyop()?;
                    let n = match &mt { Ty::Vec(n, _) => *n, _ => return Err("shuffle mask".into()) };
                    let mask = match mo {
                        Op::Zero(_) => vec![Some(0); n as usize],
                        Op::Undef(_) => vec![None; n as usize],
                        Op::Agg(v) => v.into_iter().map(|(_, o)| match o { Op::Int(x, _) => Some(x), _ => None }).collect(),
                        _ => return Err("shuffle mask".into()),
                    };
                    IK::Shuffle(t, a, b, mask)
                }
                "freeze" => { let (t, o) = p.tyop()?; IK::Freeze(t, o) }
                "br" => {
                    if p.is_w("label") { let t = label(&mut p)?; IK::Br(t) }
                    else {
                        let (_, c) = p.tyop()?;
                        p.need(b',')?;
                        let t = label(&mut p)?;
                        p.need(b',')?;
                        let f = label(&mut p)?;
                        IK::CondBr(c, t, f)
                    }
                }
                "switch" => {
                    let (t, o) = p.tyop()?;
                    p.need(b',')?;
                    let d = label(&mut p)?;
                    p.need(b'[')?;
                    let mut cs = vec![];
                    while !p.eat_p(b']') {
                        let (_, c) = p.tyop()?;
                        p.need(b',')?;
                        let l = label(&mut p)?;
                        cs.push((cint(&c)?, l));
                    }
                    IK::Switch(t.width().ok_or("switch ty")?, o, d, cs)
                }
                "ret" => {
                    let t = p.ty()?;
                    if t == Ty::Void { IK::Ret(None) } else { let o = p.op(&t)?; IK::Ret(Some((t, o))) }
                }
                "unreachable" => IK::Unreachable,
                "fence" => IK::Freeze(Ty::Void, Op::Int(0, 1)),
                "landingpad" | "resume" | "cleanupret" => IK::Unreachable,
                "call" | "invoke" => {
                    while !p.at_type() {
                        match p.peek() {
                            Some(Tok::Word(_)) => { p.i += 1; if p.is_p(b'(') { p.skip_group(); } }
                            _ => return Err("call".into()),
                        }
                    }
                    let ret = p.ty()?;
                    if p.is_p(b'(') { p.skip_group(); }
                    let callee = match p.peek().cloned() {
                        Some(Tok::Global(n)) => {
                            p.i += 1;
                            match self.fn_by_name.get(&n) { Some(&f) => Callee::Direct(f), None => return Err(format!("callee {}", n)) }
                        }
                        Some(Tok::Local(n)) => { p.i += 1; Callee::Indirect(Op::Local(p.local(&n))) }
                        Some(Tok::Word(x)) if x == "asm" => return Err("inline asm".into()),
                        x => { let o = p.op(&Ty::Ptr).map_err(|e| format!("callee {:?} {}", x, e))?; Callee::Indirect(o) }
                    };
                    p.need(b'(')?;
                    let mut args = vec![];
                    if !p.eat_p(b')') {
                        loop {
                            args.push(p.tyop()?);
                            if p.eat_p(b',') { continue; }
                            p.need(b')')?;
                            break;
                        }
                    }
                    let mut normal = None;
                    if w == "invoke" {
                        while !(p.is_w("to") && matches!(p.t.get(p.i + 1), Some(Tok::Word(x)) if x == "label")) { p.i += 1; if p.i >= p.t.len() { return Err("invoke".into()); } }
                        p.i += 1;
                        normal = Some(label(&mut p)?);
                    }
                    IK::Call { ret, callee, args, normal }
                }
                _ => return Err(format!("opcode {}", w)),
            }
        };
        Ok(Inst { dst, k })
    }
}

fn write_const(img: &mut [u8], at: usize, ty: &Ty, o: &Op) -> R<()> {
    match (ty, o) {
        (_, Op::Zero(_)) | (_, Op::Undef(_)) => Ok(()),
        (Ty::Int(w), Op::Int(v, _)) => {
            let n = ((*w + 7) / 8) as usize;
            img[at..at + n].copy_from_slice(&v.to_le_bytes()[..n]);
            Ok(())
        }
        (Ty::Int(w), Op::Big(v, _)) => {
            let n = ((*w + 7) / 8) as usize;
            img[at..at + n].copy_from_slice(&v.to_le_bytes()[..n]);
            Ok(())
        }
        (Ty::Ptr, Op::Int(v, _)) => { img[at..at + 8].copy_from_slice(&v.to_le_bytes()); Ok(()) }
        (Ty::Arr(n, e), Op::Agg(v)) => {
            if v.len() as u64 != *n { return Err("array len".into()); }
            let s = e.size() as usize;
            for (i, (t, x)) in v.iter().enumerate() { write_const(img, at + i * s, t, x)?; }
            Ok(())
        }
        (Ty::Struct(fs, _), Op::Agg(v)) => {
            let l = ty.layout().0;
            for i in 0..fs.len() { write_const(img, at + l[i] as usize, &fs[i], &v[i].1)?; }
            Ok(())
        }
        (Ty::Vec(_, e), Op::Agg(v)) => {
            let s = e.size() as usize;
            for (i, (t, x)) in v.iter().enumerate() { write_const(img, at + i * s, t, x)?; }
            Ok(())
        }
        _ => Err(format!("initialiser {:?}", ty)),
    }
}

pub fn uses(k: &IK, f: &mut dyn FnMut(u32)) {
    fn o(x: &Op, f: &mut dyn FnMut(u32)) {
        match x { Op::Local(n) => f(*n), Op::Agg(v) => for (_, y) in v { o(y, f) }, _ => {} }
    }
    match k {
        IK::Bin(_, _, a, b) | IK::Icmp(_, _, a, b) => { o(a, f); o(b, f) }
        IK::Cast(_, _, a, _) | IK::Load(_, a) | IK::ExtractValue(_, a, _) | IK::Freeze(_, a) => o(a, f),
        IK::Select(_, c, _, a, b) => { o(c, f); o(a, f); o(b, f) }
        IK::Gep(_, b, ix) => { o(b, f); for (_, x) in ix { o(x, f) } }
        IK::Store(_, a, b) | IK::ExtractElem(_, a, b) => { o(a, f); o(b, f) }
        IK::CmpXchg(_, a, b, c) => { o(a, f); o(b, f); o(c, f) }
        IK::Rmw(_, _, a, b) => { o(a, f); o(b, f) }
        IK::InsertElem(_, a, b, c) => { o(a, f); o(b, f); o(c, f) }
        IK::Shuffle(_, a, b, _) => { o(a, f); o(b, f) }
        IK::Call { callee, args, .. } => {
            if let Callee::Indirect(x) = callee { o(x, f) }
            for (_, a) in args { o(a, f) }
        }
        IK::InsertValue(_, a, _, b, _) => { o(a, f); o(b, f) }
        IK::CondBr(c, _, _) => o(c, f),
        IK::Switch(_, c, _, _) => o(c, f),
        IK::Ret(Some((_, a))) => o(a, f),
        _ => {}
    }
}

fn liveness(blocks: &[Block], succ: &[Vec<usize>], nl: usize) -> Vec<Vec<u32>> {
    let n = blocks.len();
    let words = (nl + 63) / 64;
    let mut live = vec![vec![0u64; words]; n];
    let set = |v: &mut Vec<u64>, x: u32| v[x as usize / 64] |= 1 << (x % 64);
    let clr = |v: &mut Vec<u64>, x: u32| v[x as usize / 64] &= !(1 << (x % 64));
    let mut changed = true;
    while changed {
        changed = false;
        for b in (0..n).rev() {
            let mut cur = vec![0u64; words];
            for &s in &succ[b] {
                for w in 0..words { cur[w] |= live[s][w]; }
                for i in &blocks[s].insts {
                    if let IK::Phi(_, v) = &i.k {
                        clr(&mut cur, i.dst.unwrap());
                        for (o, pb) in v { if *pb == b { if let Op::Local(x) = o { set(&mut cur, *x); } } }
                    } else { break; }
                }
            }
            // phi dsts of successor are not live-in by construction below
            for i in blocks[b].insts.iter().rev() {
                if let Some(d) = i.dst { clr(&mut cur, d); }
                if let IK::Phi(..) = i.k { continue; }
                uses(&i.k, &mut |x| cur[x as usize / 64] |= 1 << (x % 64));
            }
            if cur != live[b] { live[b] = cur; changed = true; }
        }
    }
    // phis: their destinations must be kept at block entry as they are assigned on the edge
    (0..n).map(|b| {
        let mut v: Vec<u32> = (0..nl as u32).filter(|&x| live[b][x as usize / 64] >> (x % 64) & 1 == 1).collect();
        for i in &blocks[b].insts { if let IK::Phi(..) = i.k { v.push(i.dst.unwrap()); } else { break; } }
        v.sort();
        v.dedup();
        v
    }).collect()
}

/// Bourdoncle's weak topological order.
fn wto(succ: &[Vec<usize>]) -> (Vec<Vec<u32>>, Vec<u32>) {
    #[derive(Debug)]
    enum E { V(usize), C(usize, Vec<E>) }
    struct S<'a> { succ: &'a [Vec<usize>], dfn: Vec<usize>, num: usize, st: Vec<usize> }
    const INF: usize = usize::MAX;
    fn visit(s: &mut S, v: usize, part: &mut Vec<E>) -> usize {
        s.st.push(v);
        s.num += 1;
        s.dfn[v] = s.num;
        let mut head = s.num;
        let mut lp = false;
        for i in 0..s.succ[v].len() {
            let w = s.succ[v][i];
            let m = if s.dfn[w] == 0 { visit(s, w, part) } else { s.dfn[w] };
            if m <= head { head = m; lp = true; }
        }
        if head == s.dfn[v] {
            s.dfn[v] = INF;
            let mut e = s.st.pop().unwrap();
            if lp {
                while e != v { s.dfn[e] = 0; e = s.st.pop().unwrap(); }
                let mut p = vec![];
                for i in 0..s.succ[v].len() { let w = s.succ[v][i]; if s.dfn[w] == 0 { visit(s, w, &mut p); } }
                p.reverse();
                part.push(E::C(v, p));
            } else { part.push(E::V(v)); }
        }
        head
    }
    let n = succ.len();
    let mut s = S { succ, dfn: vec![0; n], num: 0, st: vec![] };
    let mut part = vec![];
    visit(&mut s, 0, &mut part);
    part.reverse();
    let mut nest = vec![vec![]; n];
    let mut pos = vec![0u32; n];
    let mut k = 0;
    fn walk(es: &[E], stack: &mut Vec<u32>, nest: &mut Vec<Vec<u32>>, pos: &mut Vec<u32>, k: &mut u32) {
        for e in es {
            match e {
                E::V(v) => { nest[*v] = stack.clone(); pos[*v] = *k; *k += 1; }
                E::C(h, b) => {
                    stack.push(*h as u32);
                    nest[*h] = stack.clone();
                    pos[*h] = *k;
                    *k += 1;
                    walk(b, stack, nest, pos, k);
                    stack.pop();
                }
            }
        }
    }
    walk(&part, &mut vec![], &mut nest, &mut pos, &mut k);
    (nest, pos)
}
