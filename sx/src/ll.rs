//! Reader for textual LLVM IR (the subset rustc 1.9x emits), producing a compact register
//! program per function. Functions are parsed lazily; anything not understood becomes an
//! `Unsupported` instruction, which is an error only if a path reaches it.
use crate::expr::FxMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u8),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Vec(u32, Rc<Ty>),
    Struct(bool, Rc<Vec<Ty>>),
    Opaque,
}
impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Opaque => 0,
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => *n as u64 * t.size(),
            Ty::Struct(p, fs) => {
                let mut o = 0;
                for f in fs.iter() {
                    if !*p {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += f.size();
                }
                if !*p {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
        }
    }
    /// bytes touched by a load/store
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            t => t.size(),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Opaque => 1,
            Ty::Int(w) => match *w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(n, t) => (*n as u64 * t.size()).next_power_of_two().max(1),
            Ty::Struct(p, fs) => {
                if *p {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(p, fs) => {
                let mut o = 0;
                for (k, f) in fs.iter().enumerate() {
                    if !*p {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += f.size();
                }
                o
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() * i as u64,
            _ => 0,
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(_, fs) => fs[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => Ty::Opaque,
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(_, fs) => fs.len(),
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..))
    }
    /// bit width of a scalar
    pub fn w(&self) -> u8 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Val {
    /// concrete, width <= 64 (masked to the width)
    I(u64),
    /// symbolic expression of the type's width
    E(u32),
    /// concrete, width > 64
    W(Rc<u128>),
    Agg(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    C(Val),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Bop {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cast {
    Z,
    S,
    T,
    Same,
}
#[derive(Clone, Debug)]
pub enum Ins {
    Bin(Bop, Ty, u32, Opnd, Opnd),
    ICmp(Pred, Ty, u32, Opnd, Opnd),
    Cast(Cast, Ty, Ty, u32, Opnd),
    BitCast(Ty, Ty, u32, Opnd),
    Load(Ty, u32, Opnd),
    Store(Ty, Opnd, Opnd),
    Gep(u32, Opnd, i64, Vec<(Opnd, u8, i64)>),
    Select(Ty, u32, Opnd, Opnd, Opnd),
    Br(u32),
    CBr(Opnd, u32, u32),
    Switch(u8, Opnd, u32, Vec<(u128, u32)>),
    Call { dst: u32, ret: Ty, f: Callee, args: Vec<Opnd>, tys: Vec<Ty>, normal: u32 },
    Ret(Option<Opnd>),
    Unreachable,
    ExtractV(u32, Opnd, Vec<u32>),
    InsertV(u32, Opnd, Opnd, Vec<u32>),
    Alloca(u32, u64),
    Rmw(String, Ty, u32, Opnd, Opnd),
    CmpXchg(Ty, u32, Opnd, Opnd, Opnd),
    Copy(u32, Opnd),
    ExtractE(u32, Opnd, Opnd),
    InsertE(u32, Opnd, Opnd, Opnd),
    Shuffle(u32, Opnd, Opnd, Vec<u32>, u32),
    Nop,
    Unsupported(String),
}
pub const NOREG: u32 = u32::MAX;
pub const NOBLK: u32 = u32::MAX;

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32),
    Indirect(Opnd),
}

pub struct Block {
    pub start: u32,
    /// phi nodes: (dst, [(pred block, value)])
    pub phis: Vec<(u32, Vec<(u32, Opnd)>)>,
}
pub struct Func {
    pub name: String,
    pub ins: Vec<Ins>,
    pub dbg: Vec<u32>,
    pub blocks: Vec<Block>,
    pub nregs: u32,
    pub nparams: u32,
    pub frame: u64,
}

pub struct FnDecl {
    pub name: String,
    pub header: (usize, usize),
    pub body: Option<(usize, usize)>,
}

pub struct Module {
    pub text: String,
    pub fns: Vec<FnDecl>,
    pub fn_ix: FxMap<String, u32>,
    pub globals: Vec<GlobalDecl>,
    pub gl_ix: FxMap<String, u32>,
    pub aliases: FxMap<String, String>,
    pub named: FxMap<String, Ty>,
    pub meta: FxMap<u32, (usize, usize)>,
}
pub struct GlobalDecl {
    pub name: String,
    pub ty: Ty,
    pub init: Option<(usize, usize)>,
    pub constant: bool,
}

pub const FN_BASE: u64 = 0x4000_0000;
pub fn fn_addr(i: u32) -> u64 {
    (FN_BASE + i as u64) << 32
}
/// global i lives in object i+1
pub fn gl_addr(i: u32) -> u64 {
    (i as u64 + 1) << 32
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    L(String),
    G(String),
    W(String),
    Num(i128),
    Fl(u64),
    Str(Vec<u8>),
    P(char),
    Meta(String),
    Attr,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

pub fn unesc(s: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 2 < s.len() + 0 && s[i + 1] != b'\\' {
            let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap();
            o.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else if s[i] == b'\\' {
            o.push(b'\\');
            i += 2;
        } else {
            o.push(s[i]);
            i += 1;
        }
    }
    o
}

pub fn lex(t: &str) -> Result<Vec<Tok>, String> {
    let b = t.as_bytes();
    let mut i = 0;
    let mut o = vec![];
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1
                }
            }
            b'%' | b'@' => {
                let mut j = i + 1;
                let s;
                if j < b.len() && b[j] == b'"' {
                    j += 1;
                    let st = j;
                    while b[j] != b'"' {
                        j += 1
                    }
                    s = String::from_utf8_lossy(&unesc(&b[st..j])).to_string();
                    j += 1;
                } else {
                    let st = j;
                    while j < b.len() && is_id(b[j]) {
                        j += 1
                    }
                    s = t[st..j].to_string();
                }
                o.push(if c == b'%' { Tok::L(s) } else { Tok::G(s) });
                i = j;
            }
            b'"' => {
                let st = i + 1;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1
                }
                o.push(Tok::Str(unesc(&b[st..j])));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let st = i + 2;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1
                }
                o.push(Tok::Str(unesc(&b[st..j])));
                i = j + 1;
            }
            b'!' => {
                let mut j = i + 1;
                while j < b.len() && is_id(b[j]) {
                    j += 1
                }
                o.push(Tok::Meta(t[i + 1..j].to_string()));
                i = j;
            }
            b'#' => {
                let mut j = i + 1;
                while j < b.len() && is_id(b[j]) {
                    j += 1
                }
                o.push(Tok::Attr);
                i = j;
            }
            b'-' | b'0'..=b'9' => {
                let mut j = i + 1;
                if c == b'0' && j < b.len() && b[j] == b'x' {
                    j += 1;
                    let st = j;
                    while j < b.len() && b[j].is_ascii_hexdigit() {
                        j += 1
                    }
                    o.push(Tok::Fl(u64::from_str_radix(&t[st..j], 16).map_err(|e| e.to_string())?));
                    i = j;
                    continue;
                }
                let mut fl = false;
                while j < b.len() && (b[j].is_ascii_digit() || b[j] == b'.' || (fl && (b[j] == b'e' || b[j] == b'+' || b[j] == b'-'))) {
                    if b[j] == b'.' {
                        fl = true
                    }
                    j += 1
                }
                let s = &t[i..j];
                if fl {
                    let f: f64 = s.parse().map_err(|_| format!("float {}", s))?;
                    o.push(Tok::Fl(f.to_bits()));
                } else {
                    match s.parse::<i128>() {
                        Ok(v) => o.push(Tok::Num(v)),
                        Err(_) => match s.parse::<u128>() {
                            Ok(v) => o.push(Tok::Num(v as i128)),
                            Err(_) => return Err(format!("number {}", s)),
                        },
                    }
                }
                i = j;
            }
            b'.' => {
                // "..." varargs
                i += 3;
                o.push(Tok::W("...".into()));
            }
            _ if c.is_ascii_alphabetic() || c == b'_' => {
                let st = i;
                while i < b.len() && is_id(b[i]) {
                    i += 1
                }
                o.push(Tok::W(t[st..i].to_string()));
            }
            _ => {
                o.push(Tok::P(c as char));
                i += 1
            }
        }
    }
    Ok(o)
}

pub struct Ps<'m> {
    pub m: &'m Module,
    pub t: Vec<Tok>,
    pub i: usize,
    pub regs: FxMap<String, u32>,
    pub nregs: u32,
}
type R<T> = Result<T, String>;

pub fn mask64(w: u8) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1 << w) - 1
    }
}

impl<'m> Ps<'m> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<Tok> {
        let r = self.t.get(self.i).cloned().ok_or("eol".to_string());
        self.i += 1;
        r
    }
    fn isp(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn isw(&self, s: &str) -> bool {
        matches!(self.peek(), Some(Tok::W(x)) if x == s)
    }
    fn eatp(&mut self, c: char) -> bool {
        if self.isp(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: char) -> R<()> {
        if self.eatp(c) {
            Ok(())
        } else {
            Err(format!("expected {} got {:?}", c, self.peek()))
        }
    }
    fn eatw(&mut self, s: &str) -> bool {
        if self.isw(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) -> R<()> {
        self.exp('(')?;
        let mut d = 1;
        while d > 0 {
            match self.next()? {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                _ => {}
            }
        }
        Ok(())
    }
    pub fn ty(&mut self) -> R<Ty> {
        match self.next()? {
            Tok::W(w) => match w.as_str() {
                "void" => Ok(Ty::Void),
                "ptr" => {
                    if self.eatw("addrspace") {
                        self.skip_parens()?;
                    }
                    Ok(Ty::Ptr)
                }
                "float" => Ok(Ty::F32),
                "double" => Ok(Ty::F64),
                "metadata" | "label" | "opaque" => Ok(Ty::Opaque),
                _ => {
                    if let Some(n) = w.strip_prefix('i') {
                        if let Ok(n) = n.parse::<u32>() {
                            if n <= 128 {
                                return Ok(Ty::Int(n as u8));
                            }
                        }
                    }
                    Err(format!("type {}", w))
                }
            },
            Tok::L(n) => self.m.named.get(&n).cloned().ok_or(format!("named type {}", n)),
            Tok::P('[') => {
                let n = self.num()?;
                if !self.eatw("x") {
                    return Err("x".into());
                }
                let t = self.ty()?;
                self.exp(']')?;
                Ok(Ty::Arr(n as u64, Rc::new(t)))
            }
            Tok::P('<') => {
                if self.eatp('{') {
                    let fs = self.ty_list()?;
                    self.exp('>')?;
                    return Ok(Ty::Struct(true, Rc::new(fs)));
                }
                let n = self.num()?;
                if !self.eatw("x") {
                    return Err("x".into());
                }
                let t = self.ty()?;
                self.exp('>')?;
                Ok(Ty::Vec(n as u32, Rc::new(t)))
            }
            Tok::P('{') => {
                let fs = self.ty_list()?;
                Ok(Ty::Struct(false, Rc::new(fs)))
            }
            t => Err(format!("type tok {:?}", t)),
        }
    }
    fn ty_list(&mut self) -> R<Vec<Ty>> {
        let mut v = vec![];
        if self.eatp('}') {
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            if self.eatp('}') {
                return Ok(v);
            }
            self.exp(',')?;
        }
    }
    fn num(&mut self) -> R<i128> {
        match self.next()? {
            Tok::Num(n) => Ok(n),
            t => Err(format!("num {:?}", t)),
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn is_value_word(w: &str) -> bool {
        matches!(
            w,
            "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "splat" | "getelementptr" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "trunc" | "add" | "sub" | "xor" | "bitcast" | "asm"
        )
    }
    fn skip_attrs(&mut self) -> R<()> {
        loop {
            match self.peek() {
                Some(Tok::W(w)) if !Self::is_value_word(w) => {
                    let w = w.clone();
                    // a type may follow the attributes (return attributes)
                    if w == "ptr" || w == "void" || w == "float" || w == "double" || (w.starts_with('i') && w[1..].parse::<u32>().is_ok()) {
                        return Ok(());
                    }
                    self.i += 1;
                    if w == "align" && matches!(self.peek(), Some(Tok::Num(_))) {
                        self.i += 1;
                    } else if self.isp('(') {
                        self.skip_parens()?;
                    }
                }
                Some(Tok::Attr) => self.i += 1,
                _ => return Ok(()),
            }
        }
    }
    fn mkint(w: u8, v: i128) -> Val {
        if w > 64 {
            Val::W(Rc::new((v as u128) & crate::expr::mask(w)))
        } else {
            Val::I((v as u64) & mask64(w))
        }
    }
    pub fn zero(t: &Ty) -> Val {
        match t {
            Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..) => Val::Agg(Rc::new((0..t.count()).map(|i| Self::zero(&t.elem(i))).collect())),
            Ty::Int(w) if *w > 64 => Val::W(Rc::new(0)),
            _ => Val::I(0),
        }
    }
    fn cint(&self, v: &Val) -> R<i128> {
        match v {
            Val::I(x) => Ok(*x as i64 as i128),
            Val::W(x) => Ok(**x as i128),
            _ => Err("const expected".into()),
        }
    }
    pub fn val(&mut self, t: &Ty) -> R<Opnd> {
        match self.next()? {
            Tok::L(n) => Ok(Opnd::R(self.reg(&n))),
            Tok::G(n) => Ok(Opnd::C(Val::I(self.gaddr(&n)?))),
            Tok::Num(n) => Ok(Opnd::C(Self::mkint(t.w(), n))),
            Tok::Fl(b) => Ok(Opnd::C(Val::I(if *t == Ty::F32 { (f64::from_bits(b) as f32).to_bits() as u64 } else { b }))),
            Tok::Str(s) => Ok(Opnd::C(Val::Agg(Rc::new(s.iter().map(|b| Val::I(*b as u64)).collect())))),
            Tok::P('{') | Tok::P('[') => {
                let mut v = vec![];
                if self.eatp('}') || self.eatp(']') {
                    return Ok(Opnd::C(Val::Agg(Rc::new(v))));
                }
                loop {
                    let t = self.ty()?;
                    v.push(self.cval(&t)?);
                    if self.eatp('}') || self.eatp(']') {
                        return Ok(Opnd::C(Val::Agg(Rc::new(v))));
                    }
                    self.exp(',')?;
                }
            }
            Tok::P('<') => {
                let br = self.eatp('{');
                let mut v = vec![];
                loop {
                    let t = self.ty()?;
                    v.push(self.cval(&t)?);
                    if br && self.eatp('}') {
                        self.exp('>')?;
                        break;
                    }
                    if !br && self.eatp('>') {
                        break;
                    }
                    self.exp(',')?;
                }
                Ok(Opnd::C(Val::Agg(Rc::new(v))))
            }
            Tok::W(w) => Ok(Opnd::C(match w.as_str() {
                "true" => Val::I(1),
                "false" | "null" => Val::I(0),
                "undef" | "poison" | "zeroinitializer" | "none" => Self::zero(t),
                "splat" => {
                    self.exp('(')?;
                    let et = self.ty()?;
                    let v = self.cval(&et)?;
                    self.exp(')')?;
                    Val::Agg(Rc::new(vec![v; t.count()]))
                }
                "getelementptr" => {
                    while let Some(Tok::W(_)) = self.peek() {
                        self.i += 1;
                        if self.isp('(') {
                            // inrange(..) or the operand list
                            if matches!(&self.t[self.i - 1], Tok::W(w) if w == "inrange") {
                                self.skip_parens()?;
                            }
                        }
                    }
                    self.exp('(')?;
                    let bt = self.ty()?;
                    self.exp(',')?;
                    let pt = self.ty()?;
                    let b = self.cval(&pt)?;
                    let mut off = self.cint(&b)?;
                    let mut cur = bt.clone();
                    let mut first = true;
                    while self.eatp(',') {
                        let it = self.ty()?;
                        let iv = self.cval(&it)?;
                        let k = sx(self.cint(&iv)?, it.w());
                        if first {
                            off += k * bt.size() as i128;
                            first = false;
                        } else {
                            off += match &cur {
                                Ty::Struct(..) => cur.field_off(k as usize) as i128,
                                _ => cur.elem(0).size() as i128 * k,
                            };
                            cur = cur.elem(if let Ty::Struct(..) = cur { k as usize } else { 0 });
                        }
                    }
                    self.exp(')')?;
                    Val::I(off as u64)
                }
                "inttoptr" | "ptrtoint" | "ptrtoaddr" | "trunc" | "bitcast" => {
                    self.exp('(')?;
                    let ft = self.ty()?;
                    let v = self.cval(&ft)?;
                    if !self.eatw("to") {
                        return Err("to".into());
                    }
                    let tt = self.ty()?;
                    self.exp(')')?;
                    let mut v = self.cint(&v)?;
                    if w == "trunc" && ft.w() == 64 && tt.w() == 32 && (v as u64) >> 32 != 0 {
                        // the distance between two objects, for llvm.load.relative: kept in units of objects
                        if v as u32 != 0 {
                            return Err("distance into the middle of an object".into());
                        }
                        v = ((v as u64) >> 32) as _;
                    }
                    Self::mkint(tt.w(), v)
                }
                "add" | "sub" | "xor" => {
                    while let Some(Tok::W(_)) = self.peek() {
                        self.i += 1;
                    }
                    self.exp('(')?;
                    let at = self.ty()?;
                    let a = self.cval(&at)?;
                    self.exp(',')?;
                    let bt = self.ty()?;
                    let b = self.cval(&bt)?;
                    self.exp(')')?;
                    let (a, b) = (self.cint(&a)?, self.cint(&b)?);
                    Self::mkint(
                        at.w(),
                        match w.as_str() {
                            "add" => a.wrapping_add(b),
                            "sub" => a.wrapping_sub(b),
                            _ => a ^ b,
                        },
                    )
                }
                _ => return Err(format!("value {}", w)),
            })),
            t => Err(format!("value tok {:?}", t)),
        }
    }
    pub fn cval(&mut self, t: &Ty) -> R<Val> {
        match self.val(t)? {
            Opnd::C(v) => Ok(v),
            _ => Err("register in constant".into()),
        }
    }
    fn gaddr(&self, n: &str) -> R<u64> {
        let mut n = n;
        while let Some(a) = self.m.aliases.get(n) {
            n = a;
        }
        if let Some(&i) = self.m.gl_ix.get(n) {
            return Ok(gl_addr(i));
        }
        if let Some(&i) = self.m.fn_ix.get(n) {
            return Ok(fn_addr(i));
        }
        Err(format!("unknown global {}", n))
    }
    fn tval(&mut self) -> R<(Ty, Opnd)> {
        let t = self.ty()?;
        let v = self.val(&t)?;
        Ok((t, v))
    }
}

fn sx(v: i128, w: u8) -> i128 {
    if w == 0 || w >= 128 {
        return v;
    }
    crate::expr::sext((v as u128) & crate::expr::mask(w), w)
}

impl Module {
    pub fn load(path: &str) -> R<Module> {
        let text = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?;
        let mut m = Module {
            text: String::new(),
            fns: vec![],
            fn_ix: Default::default(),
            globals: vec![],
            gl_ix: Default::default(),
            aliases: Default::default(),
            named: Default::default(),
            meta: Default::default(),
        };
        let mut pos = 0usize;
        let mut cur: Option<usize> = None;
        let mut raw_named: Vec<(String, String)> = vec![];
        let mut raw_gl: Vec<(String, usize, usize)> = vec![];
        for line in text.split_inclusive('\n') {
            let st = pos;
            let en = pos + line.len();
            pos = en;
            let b = line.as_bytes();
            if let Some(f) = cur {
                if b[0] == b'}' {
                    m.fns[f].body.as_mut().unwrap().1 = st;
                    cur = None;
                }
                continue;
            }
            match b[0] {
                b'd' if line.starts_with("define ") || line.starts_with("declare ") => {
                    let def = line.starts_with("define ");
                    let at = line.find(" @").ok_or("define without name")? + 2;
                    let name = if b[at] == b'"' { line[at + 1..].split('"').next().unwrap().to_string() } else { line[at..].split('(').next().unwrap().to_string() };
                    let ix = m.fns.len();
                    m.fn_ix.insert(name.clone(), ix as u32);
                    m.fns.push(FnDecl { name, header: (st, en), body: if def { Some((en, en)) } else { None } });
                    if def {
                        cur = Some(ix);
                    }
                }
                b'@' => {
                    let name = if b[1] == b'"' { line[2..].split('"').next().unwrap().to_string() } else { line[1..].split(' ').next().unwrap().to_string() };
                    let eq = line.find(" = ").ok_or("global")? + 3;
                    raw_gl.push((name, st + eq, en));
                }
                b'%' => {
                    let eq = line.find(" = ").ok_or("named")?;
                    let n = line[1..eq].trim_matches('"').to_string();
                    let t = line[eq + 3..].trim().strip_prefix("type ").unwrap_or("").to_string();
                    raw_named.push((n, t));
                }
                b'!' => {
                    if let Some(eq) = line.find(" = ") {
                        if let Ok(n) = line[1..eq].parse::<u32>() {
                            m.meta.insert(n, (st + eq + 3, en));
                        }
                    }
                }
                _ => {}
            }
        }
        m.text = text;
        for _ in 0..raw_named.len() + 1 {
            for (n, t) in &raw_named {
                if m.named.contains_key(n) {
                    continue;
                }
                let toks = lex(t)?;
                let r = {
                    let mut p = Ps { m: &m, t: toks, i: 0, regs: Default::default(), nregs: 0 };
                    p.ty()
                };
                if let Ok(ty) = r {
                    m.named.insert(n.clone(), ty);
                }
            }
        }
        for (name, st, en) in raw_gl {
            let txt = m.text[st..en].to_string();
            if let Some(p) = txt.find(" alias ").or(if txt.starts_with("alias ") { Some(0) } else { None }) {
                let a = txt[p..].rfind(" @").ok_or("alias")? + p + 2;
                let tgt: String = txt[a..].trim_end().split(|c| c == ',' || c == ' ').next().unwrap().trim_matches('"').to_string();
                m.aliases.insert(name, tgt);
                continue;
            }
            // "... global TYPE INIT, align" / "... constant TYPE INIT"
            let (kpos, klen, constant) = {
                let g = find_word(&txt, "global");
                let c = find_word(&txt, "constant");
                match (g, c) {
                    (Some(g), Some(c)) if g < c => (g, 6, false),
                    (_, Some(c)) => (c, 8, true),
                    (Some(g), None) => (g, 6, false),
                    _ => return Err(format!("global {}", txt)),
                }
            };
            let ext = txt[..kpos].contains("external") || txt[..kpos].contains("extern_weak");
            let rest = &txt[kpos + klen..];
            let toks = lex(rest);
            let ty = match toks {
                Ok(toks) => {
                    let mut p = Ps { m: &m, t: toks, i: 0, regs: Default::default(), nregs: 0 };
                    p.ty()?
                }
                Err(e) => return Err(e),
            };
            let ix = m.globals.len() as u32;
            m.gl_ix.insert(name.clone(), ix);
            m.globals.push(GlobalDecl { name, ty, init: if ext { None } else { Some((st + kpos + klen, en)) }, constant });
        }
        Ok(m)
    }

    pub fn global_init(&self, i: usize) -> R<Option<(Ty, Val)>> {
        let g = &self.globals[i];
        let (a, b) = match g.init {
            None => return Ok(None),
            Some(x) => x,
        };
        let toks = lex(&self.text[a..b])?;
        let mut p = Ps { m: self, t: toks, i: 0, regs: Default::default(), nregs: 0 };
        let ty = p.ty()?;
        let v = p.cval(&ty)?;
        Ok(Some((ty, v)))
    }

    pub fn parse_fn(&self, ix: u32) -> R<Func> {
        let d = &self.fns[ix as usize];
        let (bs, be) = d.body.ok_or(format!("no body: {}", d.name))?;
        let head = &self.text[d.header.0..d.header.1];
        let toks = lex(head)?;
        let mut p = Ps { m: self, t: toks, i: 0, regs: Default::default(), nregs: 0 };
        // skip to the function name
        while !matches!(p.peek(), Some(Tok::G(_))) {
            p.i += 1;
            if p.i >= p.t.len() {
                return Err("header".into());
            }
        }
        p.i += 1;
        p.exp('(')?;
        let mut nparams = 0;
        if !p.eatp(')') {
            loop {
                if p.eatw("...") {
                    p.exp(')')?;
                    break;
                }
                let _t = p.ty()?;
                p.skip_attrs()?;
                match p.next()? {
                    Tok::L(n) => {
                        p.reg(&n);
                        nparams += 1;
                    }
                    t => return Err(format!("param {:?}", t)),
                }
                if p.eatp(')') {
                    break;
                }
                p.exp(',')?;
            }
        }
        // logical lines
        let body = &self.text[bs..be];
        let mut lines: Vec<(bool, String)> = vec![];
        let mut open = false; // inside a multi-line switch
        for raw in body.lines() {
            let tr = raw.trim_start();
            if tr.is_empty() || tr.starts_with(';') || tr.starts_with("#dbg") {
                continue;
            }
            if open {
                let l = &mut lines.last_mut().unwrap().1;
                l.push(' ');
                l.push_str(tr);
                if tr.starts_with(']') {
                    open = false;
                }
                continue;
            }
            if raw.as_bytes()[0] != b' ' {
                // label
                let n = if raw.as_bytes()[0] == b'"' { raw[1..].split('"').next().unwrap().to_string() } else { raw.split(':').next().unwrap().to_string() };
                lines.push((true, n));
                continue;
            }
            if tr.starts_with("to label ") || tr.starts_with("cleanup") || tr.starts_with("catch ") || tr.starts_with("filter ") {
                let l = &mut lines.last_mut().unwrap().1;
                l.push(' ');
                l.push_str(tr);
                continue;
            }
            if tr.starts_with("switch ") && tr.ends_with('[') {
                open = true;
            }
            lines.push((false, tr.to_string()));
        }
        let mut blk: FxMap<String, u32> = Default::default();
        let mut nb = 0u32;
        if lines.first().map_or(false, |l| !l.0) {
            // unnamed entry block: numbered after the parameters
            lines.insert(0, (true, format!("\u{1}entry")));
        }
        for (l, n) in &lines {
            if *l {
                blk.insert(n.clone(), nb);
                nb += 1;
            }
        }
        // unnamed entry may be referenced in phis by its number (= number of params)
        if let Some(&e) = blk.get("\u{1}entry") {
            let k = (0..).map(|i: u32| i.to_string()).find(|s| !p.regs.contains_key(s)).unwrap();
            blk.entry(k).or_insert(e);
        }
        let mut f = Func { name: d.name.clone(), ins: vec![], dbg: vec![], blocks: vec![], nregs: 0, nparams, frame: 0 };
        for (l, n) in &lines {
            if *l {
                f.blocks.push(Block { start: f.ins.len() as u32, phis: vec![] });
                continue;
            }
            let dbg = n.rfind(", !dbg !").and_then(|i| n[i + 8..].split(|c: char| !c.is_ascii_digit()).next().and_then(|x| x.parse().ok())).unwrap_or(0u32);
            match lex(n) {
                Err(e) => {
                    f.ins.push(Ins::Unsupported(format!("{}: {}", e, n)));
                    f.dbg.push(dbg);
                }
                Ok(toks) => {
                    p.t = toks;
                    p.i = 0;
                    match p.instr(&mut f, &blk) {
                        Ok(Some(i)) => {
                            f.ins.push(i);
                            f.dbg.push(dbg);
                        }
                        Ok(None) => {}
                        Err(e) => {
                            f.ins.push(Ins::Unsupported(format!("{}: {}", e, n)));
                            f.dbg.push(dbg);
                        }
                    }
                }
            }
        }
        f.nregs = p.nregs;
        Ok(f)
    }
}

fn find_word(t: &str, w: &str) -> Option<usize> {
    let mut i = 0;
    while let Some(p) = t[i..].find(w) {
        let s = i + p;
        let e = s + w.len();
        let okb = s == 0 || t.as_bytes()[s - 1] == b' ';
        let oke = e == t.len() || t.as_bytes()[e] == b' ';
        if okb && oke {
            return Some(s);
        }
        i = e;
    }
    None
}

impl<'m> Ps<'m> {
    fn lab(&mut self, blk: &FxMap<String, u32>) -> R<u32> {
        if !self.eatw("label") {
            return Err("label".into());
        }
        match self.next()? {
            Tok::L(n) => blk.get(&n).copied().ok_or(format!("block {}", n)),
            t => Err(format!("label {:?}", t)),
        }
    }
    fn flags(&mut self) {
        while let Some(Tok::W(w)) = self.peek() {
            match w.as_str() {
                "nuw" | "nsw" | "exact" | "inbounds" | "nneg" | "disjoint" | "samesign" | "nusw" | "fast" | "nnan" | "ninf" | "nsz" | "volatile" | "inrange" | "atomic" | "weak" => {
                    self.i += 1;
                }
                _ => break,
            }
        }
    }
    fn instr(&mut self, f: &mut Func, blk: &FxMap<String, u32>) -> R<Option<Ins>> {
        let mut dst = NOREG;
        if let (Some(Tok::L(n)), Some(Tok::P('='))) = (self.t.get(0).cloned(), self.t.get(1)) {
            dst = self.reg(&n);
            self.i = 2;
        }
        let mut op = match self.next()? {
            Tok::W(w) => w,
            t => return Err(format!("opcode {:?}", t)),
        };
        if op == "tail" || op == "musttail" || op == "notail" {
            op = match self.next()? {
                Tok::W(w) => w,
                t => return Err(format!("opcode {:?}", t)),
            };
        }
        let bop = match op.as_str() {
            "add" => Some(Bop::Add),
            "sub" => Some(Bop::Sub),
            "mul" => Some(Bop::Mul),
            "udiv" => Some(Bop::UDiv),
            "sdiv" => Some(Bop::SDiv),
            "urem" => Some(Bop::URem),
            "srem" => Some(Bop::SRem),
            "and" => Some(Bop::And),
            "or" => Some(Bop::Or),
            "xor" => Some(Bop::Xor),
            "shl" => Some(Bop::Shl),
            "lshr" => Some(Bop::LShr),
            "ashr" => Some(Bop::AShr),
            _ => None,
        };
        if let Some(b) = bop {
            self.flags();
            let (t, x) = self.tval()?;
            self.exp(',')?;
            let y = self.val(&t)?;
            return Ok(Some(Ins::Bin(b, t, dst, x, y)));
        }
        Ok(Some(match op.as_str() {
            "icmp" => {
                self.flags();
                let pr = match self.next()? {
                    Tok::W(w) => match w.as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        _ => return Err("pred".into()),
                    },
                    _ => return Err("pred".into()),
                };
                let (t, x) = self.tval()?;
                self.exp(',')?;
                let y = self.val(&t)?;
                Ins::ICmp(pr, t, dst, x, y)
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" => {
                self.flags();
                let (t, x) = self.tval()?;
                if !self.eatw("to") {
                    return Err("to".into());
                }
                let t2 = self.ty()?;
                if op == "bitcast" {
                    return Ok(Some(Ins::BitCast(t, t2, dst, x)));
                }
                let k = match op.as_str() {
                    "zext" => Cast::Z,
                    "sext" => Cast::S,
                    "trunc" => Cast::T,
                    _ => {
                        let (a, b) = (t.w(), t2.w());
                        if a == b {
                            Cast::Same
                        } else if a > b {
                            Cast::T
                        } else {
                            Cast::Z
                        }
                    }
                };
                Ins::Cast(k, t, t2, dst, x)
            }
            "freeze" => {
                let (_, x) = self.tval()?;
                Ins::Copy(dst, x)
            }
            "load" => {
                self.flags();
                let t = self.ty()?;
                self.exp(',')?;
                let (_, p) = self.tval()?;
                Ins::Load(t, dst, p)
            }
            "store" => {
                self.flags();
                let (t, v) = self.tval()?;
                self.exp(',')?;
                let (_, p) = self.tval()?;
                Ins::Store(t, v, p)
            }
            "getelementptr" => {
                self.flags();
                let bt = self.ty()?;
                self.exp(',')?;
                let (pt, b) = self.tval()?;
                if pt != Ty::Ptr {
                    return Err("vector gep".into());
                }
                let mut off: i64 = 0;
                let mut dynv = vec![];
                let mut cur = bt.clone();
                let mut first = true;
                while self.isp(',') {
                    if matches!(self.t.get(self.i + 1), Some(Tok::Meta(_))) {
                        break;
                    }
                    self.i += 1;
                    let (it, iv) = self.tval()?;
                    let scale = if first {
                        bt.size() as i64
                    } else {
                        match &cur {
                            Ty::Struct(..) => -1,
                            _ => cur.elem(0).size() as i64,
                        }
                    };
                    match iv {
                        Opnd::C(c) => {
                            let k = sx(self.cint(&c)?, it.w()) as i64;
                            if scale < 0 {
                                off += cur.field_off(k as usize) as i64;
                                cur = cur.elem(k as usize);
                            } else {
                                off += k.wrapping_mul(scale);
                                if !first {
                                    cur = cur.elem(0);
                                }
                            }
                        }
                        r => {
                            if scale < 0 {
                                return Err("dynamic struct index".into());
                            }
                            dynv.push((r, it.w(), scale));
                            if !first {
                                cur = cur.elem(0);
                            }
                        }
                    }
                    first = false;
                }
                Ins::Gep(dst, b, off, dynv)
            }
            "select" => {
                self.flags();
                let (ct, c) = self.tval()?;
                self.exp(',')?;
                let (t, x) = self.tval()?;
                self.exp(',')?;
                let (_, y) = self.tval()?;
                if ct.is_agg() && !matches!((&ct, &t), (Ty::Vec(..), Ty::Vec(..))) {
                    return Err("aggregate select".into());
                }
                Ins::Select(t, dst, c, x, y)
            }
            "phi" => {
                self.flags();
                let t = self.ty()?;
                let mut v = vec![];
                loop {
                    self.exp('[')?;
                    let x = self.val(&t)?;
                    self.exp(',')?;
                    let b = match self.next()? {
                        Tok::L(n) => blk.get(&n).copied().ok_or(format!("phi block {}", n))?,
                        t => return Err(format!("phi {:?}", t)),
                    };
                    self.exp(']')?;
                    v.push((b, x));
                    if self.isp(',') && matches!(self.t.get(self.i + 1), Some(Tok::P('['))) {
                        self.i += 1;
                    } else {
                        break;
                    }
                }
                f.blocks.last_mut().unwrap().phis.push((dst, v));
                return Ok(None);
            }
            "br" => {
                if self.isw("label") {
                    Ins::Br(self.lab(blk)?)
                } else {
                    let (_, c) = self.tval()?;
                    self.exp(',')?;
                    let a = self.lab(blk)?;
                    self.exp(',')?;
                    let b = self.lab(blk)?;
                    Ins::CBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tval()?;
                self.exp(',')?;
                let d = self.lab(blk)?;
                self.exp('[')?;
                let mut cs = vec![];
                while !self.eatp(']') {
                    let (_, c) = self.tval()?;
                    self.exp(',')?;
                    let l = self.lab(blk)?;
                    if let Opnd::C(c) = c {
                        cs.push((self.cint(&c)? as u128 & crate::expr::mask(t.w()), l));
                    }
                }
                Ins::Switch(t.w(), v, d, cs)
            }
            "ret" => {
                if self.eatw("void") {
                    Ins::Ret(None)
                } else {
                    let (_, v) = self.tval()?;
                    Ins::Ret(Some(v))
                }
            }
            "unreachable" => Ins::Unreachable,
            "fence" => Ins::Nop,
            "alloca" => {
                self.flags();
                let t = self.ty()?;
                let mut n = 1u64;
                let mut align = t.align();
                while self.eatp(',') {
                    if self.eatw("align") {
                        align = self.num()? as u64;
                    } else if matches!(self.peek(), Some(Tok::Meta(_))) {
                        break;
                    } else {
                        let (_, c) = self.tval()?;
                        match c {
                            Opnd::C(v) => n = self.cint(&v)? as u64,
                            _ => return Err("dynamic alloca".into()),
                        }
                    }
                }
                let align = align.max(1);
                f.frame = (f.frame + align - 1) / align * align;
                let off = f.frame;
                f.frame += (t.size() * n).max(1);
                Ins::Alloca(dst, off)
            }
            "extractvalue" => {
                let (_, v) = self.tval()?;
                let mut ix = vec![];
                while self.eatp(',') {
                    match self.peek() {
                        Some(Tok::Num(n)) => {
                            ix.push(*n as u32);
                            self.i += 1;
                        }
                        _ => break,
                    }
                }
                Ins::ExtractV(dst, v, ix)
            }
            "insertvalue" => {
                let (_, v) = self.tval()?;
                self.exp(',')?;
                let (_, x) = self.tval()?;
                let mut ix = vec![];
                while self.eatp(',') {
                    match self.peek() {
                        Some(Tok::Num(n)) => {
                            ix.push(*n as u32);
                            self.i += 1;
                        }
                        _ => break,
                    }
                }
                Ins::InsertV(dst, v, x, ix)
            }
            "extractelement" => {
                let (_, v) = self.tval()?;
                self.exp(',')?;
                let (_, i) = self.tval()?;
                Ins::ExtractE(dst, v, i)
            }
            "insertelement" => {
                let (_, v) = self.tval()?;
                self.exp(',')?;
                let (_, x) = self.tval()?;
                self.exp(',')?;
                let (_, i) = self.tval()?;
                Ins::InsertE(dst, v, x, i)
            }
            "shufflevector" => {
                let (t, a) = self.tval()?;
                self.exp(',')?;
                let (_, b) = self.tval()?;
                self.exp(',')?;
                let mt = self.ty()?;
                let mv = self.cval(&mt)?;
                let ix = match mv {
                    Val::Agg(v) => v.iter().map(|x| if let Val::I(k) = x { *k as u32 } else { 0 }).collect(),
                    _ => return Err("mask".into()),
                };
                Ins::Shuffle(dst, a, b, ix, t.count() as u32)
            }
            "atomicrmw" => {
                self.flags();
                let k = match self.next()? {
                    Tok::W(w) => w,
                    _ => return Err("rmw".into()),
                };
                let (_, p) = self.tval()?;
                self.exp(',')?;
                let (t, v) = self.tval()?;
                Ins::Rmw(k, t, dst, p, v)
            }
            "cmpxchg" => {
                self.flags();
                let (_, p) = self.tval()?;
                self.exp(',')?;
                let (t, a) = self.tval()?;
                self.exp(',')?;
                let (_, b) = self.tval()?;
                Ins::CmpXchg(t, dst, p, a, b)
            }
            "call" | "invoke" => {
                self.flags();
                self.skip_attrs()?;
                let ret = self.ty()?;
                if self.isp('(') {
                    self.skip_parens()?;
                }
                if self.isw("asm") {
                    return Err("inline asm".into());
                }
                let callee = match self.next()? {
                    Tok::G(n) => {
                        let mut n = n.as_str();
                        while let Some(a) = self.m.aliases.get(n) {
                            n = a;
                        }
                        Callee::Direct(*self.m.fn_ix.get(n).ok_or(format!("callee {}", n))?)
                    }
                    Tok::L(n) => Callee::Indirect(Opnd::R(self.reg(&n))),
                    Tok::W(_) => {
                        self.i -= 1;
                        Callee::Indirect(self.val(&Ty::Ptr)?)
                    }
                    t => return Err(format!("callee {:?}", t)),
                };
                self.exp('(')?;
                let mut args = vec![];
                let mut tys = vec![];
                if !self.eatp(')') {
                    loop {
                        let is_meta = self.isw("metadata");
                        let t = self.ty()?;
                        if is_meta {
                            let mut d = 0;
                            while !(d == 0 && (self.isp(',') || self.isp(')'))) {
                                if self.isp('(') {
                                    d += 1
                                }
                                if self.isp(')') {
                                    d -= 1
                                }
                                self.next()?;
                            }
                            args.push(Opnd::C(Val::I(0)));
                        } else {
                            self.skip_attrs()?;
                            let v = self.val(&t)?;
                            args.push(v);
                        }
                        tys.push(t);
                        if self.eatp(')') {
                            break;
                        }
                        self.exp(',')?;
                    }
                }
                let mut normal = NOBLK;
                if op == "invoke" {
                    while !self.isw("to") {
                        if self.i >= self.t.len() {
                            return Err("invoke".into());
                        }
                        self.i += 1;
                    }
                    self.i += 1;
                    normal = self.lab(blk)?;
                }
                Ins::Call { dst, ret, f: callee, args, tys, normal }
            }
            _ => return Err(format!("opcode {}", op)),
        }))
    }
}
