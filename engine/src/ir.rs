//! Parser for the textual LLVM IR subset rustc produces, plus control-flow analyses.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    I(u32),
    Ptr,
    Void,
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Vec(u32, Box<Ty>),
    Other,
}
impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::I(w) => ((*w as u64 + 7) / 8).next_power_of_two(),
            Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(..) => {
                let (_, s) = self.layout();
                s
            }
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            _ => 0,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::I(w) => ((*w as u64 + 7) / 8).next_power_of_two().min(16),
            Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(..) => self.size().next_power_of_two(),
            _ => 1,
        }
    }
    /// field offsets and total size
    pub fn layout(&self) -> (Vec<u64>, u64) {
        if let Ty::Struct(f, p) = self {
            let (mut o, mut v) = (0, vec![]);
            for t in f {
                if !p {
                    let a = t.align();
                    o = (o + a - 1) / a * a;
                }
                v.push(o);
                o += t.size();
            }
            if !p {
                let a = self.align();
                o = (o + a - 1) / a * a;
            }
            (v, o)
        } else {
            (vec![], self.size())
        }
    }
    /// number of value bits of a first-class scalar or vector
    pub fn bits(&self) -> u32 {
        match self {
            Ty::I(w) => *w,
            Ty::Ptr => 64,
            Ty::Vec(n, t) => n * t.bits(),
            _ => panic!("bits of {self:?}"),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    C(u128),
    /// constant wider than 128 bits (vectors), little endian bits
    Big(Vec<bool>),
    Agg(Vec<Op>),
    Undef,
    Glob(u32),
    Fun(u32),
    /// address + offset
    GlobOff(u32, i64),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum B {
    Add,
    Sub,
    Mul,
    Udiv,
    Urem,
    Sdiv,
    Srem,
    And,
    Or,
    Xor,
    Shl,
    Lshr,
    Ashr,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum P {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    Trunc,
    Zext,
    Sext,
    Bit, // bitcast, ptrtoint, inttoptr, freeze
}

#[derive(Clone, Debug)]
pub enum Callee {
    F(u32),
    Ind(Op),
}

#[derive(Clone, Debug)]
pub enum I {
    Phi { dst: u32, ty: Ty, inc: Vec<(Op, u32)> },
    Bin { op: B, dst: u32, ty: Ty, a: Op, b: Op },
    Icmp { p: P, dst: u32, ty: Ty, a: Op, b: Op },
    Cast { k: K, dst: u32, from: Ty, to: Ty, a: Op },
    Select { dst: u32, cty: Ty, c: Op, ty: Ty, a: Op, b: Op },
    Load { dst: u32, ty: Ty, p: Op },
    Store { ty: Ty, v: Op, p: Op },
    Gep { dst: u32, base: Op, off: i64, idx: Vec<(Op, u32, i64)> },
    Alloca { dst: u32, size: u64, align: u64 },
    Call { dst: Option<u32>, ty: Ty, f: Callee, args: Vec<(Ty, Op)> },
    Extract { dst: u32, a: Op, path: Vec<u32> },
    Insert { dst: u32, aty: Ty, a: Op, v: Op, path: Vec<u32> },
    ExtElem { dst: u32, vty: Ty, v: Op, i: Op },
    InsElem { dst: u32, vty: Ty, v: Op, e: Op, i: Op },
    Shuffle { dst: u32, vty: Ty, a: Op, b: Op, mask: Vec<i32> },
    Br(u32),
    Cond { c: Op, t: u32, f: u32 },
    Switch { ty: Ty, v: Op, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<(Ty, Op)>),
    Unreachable,
    Rmw { dst: u32, op: String, ty: Ty, p: Op, v: Op },
    Cmpx { dst: u32, ty: Ty, p: Op, c: Op, n: Op },
    Fence,
}
impl I {
    pub fn dst(&self) -> Option<u32> {
        use I::*;
        match self {
            Phi { dst, .. } | Bin { dst, .. } | Icmp { dst, .. } | Cast { dst, .. } | Select { dst, .. } | Load { dst, .. } | Gep { dst, .. } | Alloca { dst, .. } | Extract { dst, .. } | Insert { dst, .. } | ExtElem { dst, .. } | InsElem { dst, .. } | Shuffle { dst, .. } | Rmw { dst, .. } | Cmpx { dst, .. } => Some(*dst),
            Call { dst, .. } => *dst,
            _ => None,
        }
    }
    /// operands excluding phi inputs
    pub fn ops(&self) -> Vec<&Op> {
        use I::*;
        match self {
            Phi { .. } | Br(_) | Unreachable | Fence | Alloca { .. } | Ret(None) => vec![],
            Bin { a, b, .. } | Icmp { a, b, .. } | Shuffle { a, b, .. } => vec![a, b],
            Cast { a, .. } | Extract { a, .. } => vec![a],
            Select { c, a, b, .. } => vec![c, a, b],
            Load { p, .. } => vec![p],
            Store { v, p, .. } | Rmw { v, p, .. } => vec![v, p],
            Gep { base, idx, .. } => std::iter::once(base).chain(idx.iter().map(|x| &x.0)).collect(),
            Call { f, args, .. } => {
                let mut v: Vec<&Op> = args.iter().map(|x| &x.1).collect();
                if let Callee::Ind(o) = f {
                    v.push(o)
                }
                v
            }
            Insert { a, v, .. } => vec![a, v],
            ExtElem { v, i, .. } => vec![v, i],
            InsElem { v, e, i, .. } => vec![v, e, i],
            Cond { c, .. } => vec![c],
            Switch { v, .. } => vec![v],
            Ret(Some((_, v))) => vec![v],
            Cmpx { p, c, n, .. } => vec![p, c, n],
        }
    }
    pub fn succs(&self) -> Vec<u32> {
        match self {
            I::Br(b) => vec![*b],
            I::Cond { t, f, .. } => vec![*t, *f],
            I::Switch { def, cases, .. } => std::iter::once(*def).chain(cases.iter().map(|c| c.1)).collect(),
            _ => vec![],
        }
    }
}

pub fn op_regs(o: &Op, f: &mut dyn FnMut(u32)) {
    match o {
        Op::R(r) => f(*r),
        Op::Agg(v) => v.iter().for_each(|x| op_regs(x, f)),
        _ => {}
    }
}

pub struct Block {
    pub name: String,
    pub ins: Vec<I>,
}
pub struct Func {
    pub name: String,
    pub params: Vec<(u32, Ty)>,
    pub ret: Ty,
    pub blocks: Vec<Block>,
    pub nregs: usize,
    pub regname: Vec<String>,
    pub defined: bool,
    pub an: An,
}
/// Analyses used by the executor.
#[derive(Default)]
pub struct An {
    /// storage slot of each register (u32::MAX: never read), and their number
    pub slot: Vec<u32>,
    pub nslots: usize,
    /// registers live at block entry (including phi destinations)
    pub live_in: Vec<Vec<u32>>,
    /// scheduling key of a block: alternating (position, loop slot) pairs, outermost first
    pub order: Vec<Vec<u32>>,
    /// enclosing loop headers, outermost first
    pub loops: Vec<Vec<u32>>,
    /// register reaches an address or shift-amount computation
    pub taint: Vec<bool>,
    /// register is the operand of a count-zeros intrinsic
    pub ctz: Vec<bool>,
    /// defining (block, index) of each register
    pub def: Vec<(u32, u32)>,
    /// no return can be reached from the block
    pub doomed: Vec<bool>,
}

#[derive(Clone, Debug)]
pub enum Init {
    Zero,
    Undef,
    Bytes(Vec<u8>),
    Agg(Ty, Vec<(Ty, Init)>),
    Op(Ty, Op),
}
pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub constant: bool,
    pub init: Option<Init>,
    pub align: u64,
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, u32>,
    pub types: HashMap<String, Ty>,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(String),   // bare word
    Loc(String),  // %x
    Glo(String),  // @x
    Num(String),  // integer literal
    Str(Vec<u8>), // c"..." or "..."
    Meta,         // !foo
    Att,          // #0
    P(char),
}

fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    let idc = |c: u8| c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-');
    let quoted = |i: &mut usize| -> Vec<u8> {
        // at opening quote
        *i += 1;
        let mut v = vec![];
        while b[*i] != b'"' {
            if b[*i] == b'\\' {
                if b[*i + 1] == b'\\' {
                    v.push(b'\\');
                    *i += 2;
                } else {
                    v.push(u8::from_str_radix(std::str::from_utf8(&b[*i + 1..*i + 3]).unwrap(), 16).unwrap());
                    *i += 3;
                }
            } else {
                v.push(b[*i]);
                *i += 1;
            }
        }
        *i += 1;
        v
    };
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                i += 1;
                let n = if b[i] == b'"' {
                    String::from_utf8_lossy(&quoted(&mut i)).into_owned()
                } else {
                    let st = i;
                    while i < b.len() && idc(b[i]) {
                        i += 1
                    }
                    s[st..i].to_owned()
                };
                out.push(if c == b'%' { Tok::Loc(n) } else { Tok::Glo(n) });
            }
            b'!' => {
                i += 1;
                while i < b.len() && idc(b[i]) {
                    i += 1
                }
                out.push(Tok::Meta);
            }
            b'#' => {
                i += 1;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1
                }
                out.push(Tok::Att);
            }
            b'"' => {
                let v = quoted(&mut i);
                out.push(Tok::Str(v));
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                i += 1;
                let v = quoted(&mut i);
                out.push(Tok::Str(v));
            }
            b'-' | b'0'..=b'9' => {
                let st = i;
                i += 1;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.') {
                    i += 1
                }
                out.push(Tok::Num(s[st..i].to_owned()));
            }
            c if c.is_ascii_alphabetic() || c == b'_' || c == b'.' => {
                let st = i;
                while i < b.len() && idc(b[i]) {
                    i += 1
                }
                out.push(Tok::Id(s[st..i].to_owned()));
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1
            }
        }
    }
    out
}

struct Ps<'a> {
    t: Vec<Tok>,
    i: usize,
    m: &'a mut Module,
    regs: HashMap<String, u32>,
    names: Vec<String>,
    blks: HashMap<String, u32>,
    line: String,
}

type R<X> = Result<X, String>;

fn num(s: &str) -> i128 {
    if let Some(h) = s.strip_prefix("u0x").or(s.strip_prefix("0x")) {
        return u128::from_str_radix(h, 16).unwrap() as i128;
    }
    s.parse::<i128>().unwrap_or_else(|_| s.parse::<u128>().map(|x| x as i128).unwrap_or_else(|_| panic!("number {s}")))
}
pub fn maskw(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

impl<'a> Ps<'a> {
    fn e<X>(&self, w: &str) -> R<X> {
        Err(format!("{w} at token {} {:?} in: {}", self.i, self.t.get(self.i), self.line))
    }
    fn pk(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn nx(&mut self) -> Option<Tok> {
        self.i += 1;
        self.t.get(self.i - 1).cloned()
    }
    fn isp(&self, c: char) -> bool {
        self.pk() == Some(&Tok::P(c))
    }
    fn p(&mut self, c: char) -> R<()> {
        if self.isp(c) {
            self.i += 1;
            Ok(())
        } else {
            self.e(&format!("expected {c}"))
        }
    }
    fn eatp(&mut self, c: char) -> bool {
        let r = self.isp(c);
        if r {
            self.i += 1
        }
        r
    }
    fn isid(&self, s: &str) -> bool {
        matches!(self.pk(), Some(Tok::Id(x)) if x == s)
    }
    fn eat(&mut self, s: &str) -> bool {
        let r = self.isid(s);
        if r {
            self.i += 1
        }
        r
    }
    fn id(&mut self) -> R<String> {
        match self.nx() {
            Some(Tok::Id(s)) => Ok(s),
            _ => {
                self.i -= 1;
                self.e("identifier")
            }
        }
    }
    fn int(&mut self) -> R<i128> {
        match self.nx() {
            Some(Tok::Num(s)) => Ok(num(&s)),
            _ => {
                self.i -= 1;
                self.e("number")
            }
        }
    }
    fn is_ty(&self) -> bool {
        match self.pk() {
            Some(Tok::Id(s)) => s == "ptr" || s == "void" || s == "metadata" || s == "label" || s == "float" || s == "double" || (s.starts_with('i') && s[1..].parse::<u32>().is_ok()),
            Some(Tok::P('[')) | Some(Tok::P('{')) | Some(Tok::P('<')) => true,
            Some(Tok::Loc(n)) => self.m.types.contains_key(n),
            _ => false,
        }
    }
    fn ty(&mut self) -> R<Ty> {
        match self.nx() {
            Some(Tok::Id(s)) => Ok(match s.as_str() {
                "ptr" => Ty::Ptr,
                "void" => Ty::Void,
                "metadata" | "label" => Ty::Other,
                "float" => Ty::I(32),
                "double" => Ty::I(64),
                _ => match s.strip_prefix('i').and_then(|x| x.parse().ok()) {
                    Some(w) => Ty::I(w),
                    None => {
                        self.i -= 1;
                        return self.e("type");
                    }
                },
            }),
            Some(Tok::P('[')) => {
                let n = self.int()? as u64;
                if !self.eat("x") {
                    return self.e("x");
                }
                let t = self.ty()?;
                self.p(']')?;
                Ok(Ty::Arr(n, Box::new(t)))
            }
            Some(Tok::P('<')) => {
                if self.eatp('{') {
                    let f = self.fields()?;
                    self.p('>')?;
                    return Ok(Ty::Struct(f, true));
                }
                let n = self.int()? as u32;
                if !self.eat("x") {
                    return self.e("x");
                }
                let t = self.ty()?;
                self.p('>')?;
                Ok(Ty::Vec(n, Box::new(t)))
            }
            Some(Tok::P('{')) => Ok(Ty::Struct(self.fields()?, false)),
            Some(Tok::Loc(n)) => match self.m.types.get(&n) {
                Some(t) => Ok(t.clone()),
                None => self.e("named type"),
            },
            _ => {
                self.i -= 1;
                self.e("type")
            }
        }
    }
    fn fields(&mut self) -> R<Vec<Ty>> {
        let mut v = vec![];
        if !self.isp('}') {
            loop {
                v.push(self.ty()?);
                if !self.eatp(',') {
                    break;
                }
            }
        }
        self.p('}')?;
        Ok(v)
    }
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.names.len() as u32;
        self.regs.insert(n.to_owned(), r);
        self.names.push(n.to_owned());
        r
    }
    fn glob(&mut self, n: &str) -> Op {
        if let Some(&f) = self.m.fidx.get(n) {
            return Op::Fun(f);
        }
        match self.m.gidx.get(n) {
            Some(&g) => Op::Glob(g),
            None => panic!("unknown global {n}"),
        }
    }
    /// value of known type
    fn val(&mut self, ty: &Ty) -> R<Op> {
        match self.nx() {
            Some(Tok::Loc(n)) => Ok(Op::R(self.reg(&n))),
            Some(Tok::Glo(n)) => Ok(self.glob(&n)),
            Some(Tok::Num(s)) => {
                let w = match ty {
                    Ty::I(w) => *w,
                    _ => return self.e("numeric constant of non-integer type"),
                };
                Ok(Op::C(num(&s) as u128 & maskw(w)))
            }
            Some(Tok::P('<')) => {
                // vector or packed struct constant
                if self.eatp('{') {
                    let v = self.agg('}')?;
                    self.p('>')?;
                    return Ok(Op::Agg(v));
                }
                let v = self.agg('>')?;
                let Ty::Vec(_, et) = ty else { return self.e("vector constant") };
                Ok(Self::veccon(&v, et.bits()))
            }
            Some(Tok::P('{')) => Ok(Op::Agg(self.agg('}')?)),
            Some(Tok::P('[')) => Ok(Op::Agg(self.agg(']')?)),
            Some(Tok::Id(s)) => match s.as_str() {
                "true" => Ok(Op::C(1)),
                "false" => Ok(Op::C(0)),
                "null" => Ok(Op::C(0)),
                "undef" | "poison" => Ok(Op::Undef),
                "zeroinitializer" => Ok(match ty {
                    Ty::Vec(..) if ty.bits() > 128 => Op::Big(vec![false; ty.bits() as usize]),
                    Ty::Struct(f, _) => Op::Agg(f.iter().map(|_| Op::C(0)).collect()),
                    Ty::Arr(..) => Op::Undef,
                    _ => Op::C(0),
                }),
                "splat" => {
                    self.p('(')?;
                    let t = self.ty()?;
                    let v = self.val(&t)?;
                    self.p(')')?;
                    let Ty::Vec(n, _) = ty else { return self.e("splat") };
                    Ok(Self::veccon(&vec![v; *n as usize], t.bits()))
                }
                "getelementptr" => {
                    while matches!(self.pk(), Some(Tok::Id(_))) {
                        self.i += 1;
                        if self.isp('(') && self.t.get(self.i - 1) == Some(&Tok::Id("inrange".into())) {
                            while !self.eatp(')') {
                                self.i += 1
                            }
                        }
                    }
                    self.p('(')?;
                    let t = self.ty()?;
                    self.p(',')?;
                    let bt = self.ty()?;
                    let base = self.val(&bt)?;
                    let mut off = 0i64;
                    let mut first = true;
                    let mut cur = t;
                    while self.eatp(',') {
                        let it = self.ty()?;
                        let Op::C(c) = self.val(&it)? else { return self.e("gep const index") };
                        let c = sx(c, it.bits());
                        if first {
                            off += c as i64 * cur.size() as i64;
                            first = false;
                        } else {
                            let (nt, o) = step(&cur, c as i64);
                            off += o;
                            cur = nt;
                        }
                    }
                    self.p(')')?;
                    Ok(match base {
                        Op::Glob(g) => Op::GlobOff(g, off),
                        Op::GlobOff(g, o) => Op::GlobOff(g, o + off),
                        Op::C(c) => Op::C((c as u64).wrapping_add(off as u64) as u128),
                        _ => return self.e("gep const base"),
                    })
                }
                "inttoptr" | "ptrtoint" | "bitcast" => {
                    self.p('(')?;
                    let t = self.ty()?;
                    let v = self.val(&t)?;
                    if !self.eat("to") {
                        return self.e("to");
                    }
                    self.ty()?;
                    self.p(')')?;
                    Ok(v)
                }
                _ => {
                    self.i -= 1;
                    self.e("value")
                }
            },
            _ => {
                self.i -= 1;
                self.e("value")
            }
        }
    }
    fn veccon(v: &[Op], w: u32) -> Op {
        let n = v.len() as u32 * w;
        let mut bits = vec![false; n as usize];
        for (k, x) in v.iter().enumerate() {
            if let Op::C(c) = x {
                for j in 0..w {
                    bits[k * w as usize + j as usize] = c >> j & 1 == 1;
                }
            }
        }
        if n > 128 {
            Op::Big(bits)
        } else {
            Op::C(bits.iter().enumerate().fold(0, |a, (i, &b)| a | (b as u128) << i))
        }
    }
    fn agg(&mut self, end: char) -> R<Vec<Op>> {
        let mut v = vec![];
        if !self.isp(end) {
            loop {
                let t = self.ty()?;
                v.push(self.val(&t)?);
                if !self.eatp(',') {
                    break;
                }
            }
        }
        self.p(end)?;
        Ok(v)
    }
    fn tv(&mut self) -> R<(Ty, Op)> {
        let t = self.ty()?;
        let v = self.val(&t)?;
        Ok((t, v))
    }
    fn label(&mut self) -> R<u32> {
        if !self.eat("label") {
            return self.e("label");
        }
        match self.nx() {
            Some(Tok::Loc(n)) => Ok(self.blk(&n)),
            _ => self.e("label"),
        }
    }
    fn blk(&mut self, n: &str) -> u32 {
        let k = self.blks.len() as u32;
        *self.blks.entry(n.to_owned()).or_insert(k)
    }
    fn skip_attrs(&mut self) -> R<()> {
        // parameter / return attributes before a value or type
        loop {
            match self.pk() {
                Some(Tok::Id(_)) if !self.is_ty() => {
                    let kw = self.id()?;
                    if kw == "align" && matches!(self.pk(), Some(Tok::Num(_))) {
                        self.i += 1;
                    } else if self.isp('(') {
                        self.skip_parens();
                    }
                }
                Some(Tok::Str(_)) | Some(Tok::Att) => {
                    self.i += 1;
                }
                _ => return Ok(()),
            }
        }
    }
    fn skip_parens(&mut self) {
        let mut d = 0;
        loop {
            match self.nx() {
                Some(Tok::P('(')) => d += 1,
                Some(Tok::P(')')) => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                None => return,
                _ => {}
            }
        }
    }
    fn flags(&mut self) {
        while let Some(Tok::Id(s)) = self.pk() {
            match s.as_str() {
                "nuw" | "nsw" | "nusw" | "exact" | "inbounds" | "disjoint" | "nneg" | "samesign" | "volatile" | "atomic" | "weak" | "fast" => {
                    self.i += 1;
                }
                _ => break,
            }
        }
    }
    fn val_attr(&mut self, t: &Ty) -> R<Op> {
        // attributes between type and value, then value
        loop {
            match self.pk() {
                Some(Tok::Id(s)) if matches!(s.as_str(), "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr" | "inttoptr" | "ptrtoint") => break,
                Some(Tok::Id(s)) => {
                    let al = s == "align";
                    self.i += 1;
                    if al && matches!(self.pk(), Some(Tok::Num(_))) {
                        self.i += 1
                    } else if self.isp('(') {
                        self.skip_parens()
                    }
                }
                _ => break,
            }
        }
        if matches!(t, Ty::Other) {
            // metadata argument
            self.i += 1;
            if self.isp('{') || self.isp('(') {
                let mut d = 0;
                loop {
                    match self.nx() {
                        Some(Tok::P('{')) | Some(Tok::P('(')) => d += 1,
                        Some(Tok::P('}')) | Some(Tok::P(')')) => {
                            d -= 1;
                            if d == 0 {
                                break;
                            }
                        }
                        None => break,
                        _ => {}
                    }
                }
            }
            return Ok(Op::Undef);
        }
        self.val(t)
    }
    fn instr(&mut self) -> R<I> {
        let mut dst = None;
        if let (Some(Tok::Loc(n)), Some(Tok::P('='))) = (self.t.get(self.i).cloned(), self.t.get(self.i + 1)) {
            self.i += 2;
            dst = Some(self.reg(&n));
        }
        let mut op = self.id()?;
        if matches!(op.as_str(), "tail" | "musttail" | "notail") {
            op = self.id()?;
        }
        let d = || dst.ok_or_else(|| "no destination".to_string());
        let bin = |s: &str| {
            Some(match s {
                "add" => B::Add,
                "sub" => B::Sub,
                "mul" => B::Mul,
                "udiv" => B::Udiv,
                "urem" => B::Urem,
                "sdiv" => B::Sdiv,
                "srem" => B::Srem,
                "and" => B::And,
                "or" => B::Or,
                "xor" => B::Xor,
                "shl" => B::Shl,
                "lshr" => B::Lshr,
                "ashr" => B::Ashr,
                _ => return None,
            })
        };
        if let Some(b) = bin(&op) {
            self.flags();
            let (ty, a) = self.tv()?;
            self.p(',')?;
            let c = self.val(&ty)?;
            return Ok(I::Bin { op: b, dst: d()?, ty, a, b: c });
        }
        Ok(match op.as_str() {
            "icmp" => {
                self.flags();
                let p = match self.id()?.as_str() {
                    "eq" => P::Eq,
                    "ne" => P::Ne,
                    "ugt" => P::Ugt,
                    "uge" => P::Uge,
                    "ult" => P::Ult,
                    "ule" => P::Ule,
                    "sgt" => P::Sgt,
                    "sge" => P::Sge,
                    "slt" => P::Slt,
                    "sle" => P::Sle,
                    _ => return self.e("predicate"),
                };
                let (ty, a) = self.tv()?;
                self.p(',')?;
                let b = self.val(&ty)?;
                I::Icmp { p, dst: d()?, ty, a, b }
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" => {
                self.flags();
                let (from, a) = self.tv()?;
                if !self.eat("to") {
                    return self.e("to");
                }
                let to = self.ty()?;
                let k = match op.as_str() {
                    "trunc" => K::Trunc,
                    "zext" => K::Zext,
                    "sext" => K::Sext,
                    _ => K::Bit,
                };
                I::Cast { k, dst: d()?, from, to, a }
            }
            "freeze" => {
                let (from, a) = self.tv()?;
                I::Cast { k: K::Bit, dst: d()?, to: from.clone(), from, a }
            }
            "phi" => {
                let ty = self.ty()?;
                let mut inc = vec![];
                loop {
                    self.p('[')?;
                    let v = self.val(&ty)?;
                    self.p(',')?;
                    let Some(Tok::Loc(n)) = self.nx() else { return self.e("phi label") };
                    let b = self.blk(&n);
                    self.p(']')?;
                    inc.push((v, b));
                    if !(self.isp(',') && self.t.get(self.i + 1) == Some(&Tok::P('['))) {
                        break;
                    }
                    self.i += 1;
                }
                I::Phi { dst: d()?, ty, inc }
            }
            "select" => {
                self.flags();
                let (cty, c) = self.tv()?;
                self.p(',')?;
                let (ty, a) = self.tv()?;
                self.p(',')?;
                let (_, b) = self.tv()?;
                I::Select { dst: d()?, cty, c, ty, a, b }
            }
            "load" => {
                self.flags();
                let ty = self.ty()?;
                self.p(',')?;
                let (_, p) = self.tv()?;
                I::Load { dst: d()?, ty, p }
            }
            "store" => {
                self.flags();
                let (ty, v) = self.tv()?;
                self.p(',')?;
                let (_, p) = self.tv()?;
                I::Store { ty, v, p }
            }
            "getelementptr" => {
                self.flags();
                let t = self.ty()?;
                self.p(',')?;
                let (bt, base) = self.tv()?;
                if !matches!(bt, Ty::Ptr) {
                    return self.e("vector gep");
                }
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = t;
                let mut first = true;
                while self.isp(',') && !matches!(self.t.get(self.i + 1), Some(Tok::Meta)) {
                    self.i += 1;
                    let (it, iv) = self.tv()?;
                    let w = it.bits();
                    if first {
                        first = false;
                        match iv {
                            Op::C(c) => off += sx(c, w) as i64 * cur.size() as i64,
                            o => idx.push((o, w, cur.size() as i64)),
                        }
                    } else if let Op::C(c) = iv {
                        let (nt, o) = step(&cur, sx(c, w) as i64);
                        off += o;
                        cur = nt;
                    } else {
                        let (nt, o) = step(&cur, 1);
                        idx.push((iv, w, o));
                        cur = nt;
                    }
                }
                I::Gep { dst: d()?, base, off, idx }
            }
            "alloca" => {
                let t = self.ty()?;
                let mut al = t.align();
                let mut n = 1;
                while self.eatp(',') {
                    if self.eat("align") {
                        al = self.int()? as u64;
                    } else if self.is_ty() {
                        let (_, c) = self.tv()?;
                        let Op::C(c) = c else { return self.e("dynamic alloca") };
                        n = c as u64;
                    } else {
                        break;
                    }
                }
                I::Alloca { dst: d()?, size: t.size() * n, align: al }
            }
            "call" | "invoke" => {
                self.flags();
                self.skip_attrs()?;
                let ty = self.ty()?;
                // function type in parentheses for varargs is not expected
                let callee = match self.nx() {
                    Some(Tok::Glo(n)) => match self.m.fidx.get(&n) {
                        Some(&f) => Callee::F(f),
                        None => return self.e("unknown function"),
                    },
                    Some(Tok::Loc(n)) => Callee::Ind(Op::R(self.reg(&n))),
                    _ => {
                        self.i -= 1;
                        return self.e("callee");
                    }
                };
                self.p('(')?;
                let mut args = vec![];
                if !self.isp(')') {
                    loop {
                        let t = self.ty()?;
                        let v = self.val_attr(&t)?;
                        args.push((t, v));
                        if !self.eatp(',') {
                            break;
                        }
                    }
                }
                self.p(')')?;
                I::Call { dst, ty, f: callee, args }
            }
            "extractvalue" => {
                let (_, a) = self.tv()?;
                let mut path = vec![];
                while self.isp(',') && matches!(self.t.get(self.i + 1), Some(Tok::Num(_))) {
                    self.i += 1;
                    path.push(self.int()? as u32);
                }
                I::Extract { dst: d()?, a, path }
            }
            "insertvalue" => {
                let (aty, a) = self.tv()?;
                self.p(',')?;
                let (_, v) = self.tv()?;
                let mut path = vec![];
                while self.isp(',') && matches!(self.t.get(self.i + 1), Some(Tok::Num(_))) {
                    self.i += 1;
                    path.push(self.int()? as u32);
                }
                I::Insert { dst: d()?, aty, a, v, path }
            }
            "extractelement" => {
                let (vty, v) = self.tv()?;
                self.p(',')?;
                let (_, i) = self.tv()?;
                I::ExtElem { dst: d()?, vty, v, i }
            }
            "insertelement" => {
                let (vty, v) = self.tv()?;
                self.p(',')?;
                let (_, e) = self.tv()?;
                self.p(',')?;
                let (_, i) = self.tv()?;
                I::InsElem { dst: d()?, vty, v, e, i }
            }
            "shufflevector" => {
                let (vty, a) = self.tv()?;
                self.p(',')?;
                let (_, b) = self.tv()?;
                self.p(',')?;
                let mt = self.ty()?;
                let Ty::Vec(n, _) = mt else { return self.e("mask") };
                let mask = match self.nx() {
                    Some(Tok::Id(s)) if s == "zeroinitializer" => vec![0; n as usize],
                    Some(Tok::Id(s)) if s == "poison" || s == "undef" => vec![-1; n as usize],
                    Some(Tok::Id(s)) if s == "splat" => {
                        self.p('(')?;
                        let (_, v) = self.tv()?;
                        self.p(')')?;
                        let Op::C(c) = v else { return self.e("mask") };
                        vec![c as i32; n as usize]
                    }
                    Some(Tok::P('<')) => {
                        let v = self.agg('>')?;
                        v.iter().map(|o| if let Op::C(c) = o { *c as i32 } else { -1 }).collect()
                    }
                    _ => return self.e("mask"),
                };
                I::Shuffle { dst: d()?, vty, a, b, mask }
            }
            "br" => {
                if self.isid("label") {
                    I::Br(self.label()?)
                } else {
                    let (_, c) = self.tv()?;
                    self.p(',')?;
                    let t = self.label()?;
                    self.p(',')?;
                    let f = self.label()?;
                    I::Cond { c, t, f }
                }
            }
            "switch" => {
                let (ty, v) = self.tv()?;
                self.p(',')?;
                let def = self.label()?;
                self.p('[')?;
                let mut cases = vec![];
                while !self.eatp(']') {
                    let (_, c) = self.tv()?;
                    let Op::C(c) = c else { return self.e("case") };
                    self.p(',')?;
                    cases.push((c, self.label()?));
                }
                I::Switch { ty, v, def, cases }
            }
            "ret" => {
                if self.isid("void") {
                    I::Ret(None)
                } else {
                    I::Ret(Some(self.tv()?))
                }
            }
            "unreachable" => I::Unreachable,
            "atomicrmw" => {
                self.flags();
                let o = self.id()?;
                let (_, p) = self.tv()?;
                self.p(',')?;
                let (ty, v) = self.tv()?;
                I::Rmw { dst: d()?, op: o, ty, p, v }
            }
            "cmpxchg" => {
                self.flags();
                let (_, p) = self.tv()?;
                self.p(',')?;
                let (ty, c) = self.tv()?;
                self.p(',')?;
                let (_, n) = self.tv()?;
                I::Cmpx { dst: d()?, ty, p, c, n }
            }
            "fence" => I::Fence,
            _ => return self.e(&format!("unknown instruction {op}")),
        })
    }
}

pub fn sx(c: u128, w: u32) -> i128 {
    if w >= 128 {
        c as i128
    } else {
        ((c << (128 - w)) as i128) >> (128 - w)
    }
}
fn step(t: &Ty, i: i64) -> (Ty, i64) {
    match t {
        Ty::Arr(_, e) => ((**e).clone(), i * e.size() as i64),
        Ty::Vec(_, e) => ((**e).clone(), i * e.size() as i64),
        Ty::Struct(f, _) => (f[i as usize].clone(), t.layout().0[i as usize] as i64),
        _ => panic!("gep into {t:?}"),
    }
}

fn func_name(line: &str) -> Option<String> {
    let at = line.find('@')?;
    let r = &line[at + 1..];
    if let Some(q) = r.strip_prefix('"') {
        return Some(q[..q.find('"')?].to_owned());
    }
    Some(r[..r.find('(')?].to_owned())
}

impl Module {
    pub fn parse(text: &str) -> R<Module> {
        let mut m = Module { funcs: vec![], fidx: HashMap::new(), globals: vec![], gidx: HashMap::new(), types: HashMap::new() };
        let lines: Vec<&str> = text.lines().collect();
        // pass 1: names
        for l in &lines {
            if l.starts_with("define ") || l.starts_with("declare ") {
                let n = func_name(l).ok_or("function name")?;
                let k = m.funcs.len() as u32;
                m.fidx.insert(n.clone(), k);
                m.funcs.push(Func { name: n, params: vec![], ret: Ty::Void, blocks: vec![], nregs: 0, regname: vec![], defined: false, an: An::default() });
            } else if l.starts_with('@') {
                let t = lex(l.split(" = ").next().unwrap());
                let Some(Tok::Glo(n)) = t.first().cloned() else { return Err(format!("global {l}")) };
                let k = m.globals.len() as u32;
                m.gidx.insert(n.clone(), k);
                m.globals.push(Global { name: n, ty: Ty::Void, constant: false, init: None, align: 1 });
            } else if l.starts_with('%') && l.contains(" = type ") {
                let t = lex(l);
                let Some(Tok::Loc(n)) = t.first().cloned() else { continue };
                let mut ps = Ps { t, i: 3, m: &mut m, regs: HashMap::new(), names: vec![], blks: HashMap::new(), line: l.to_string() };
                let ty = if ps.isid("opaque") { Ty::Other } else { ps.ty()? };
                m.types.insert(n, ty);
            }
        }
        // pass 2
        let mut i = 0;
        while i < lines.len() {
            let l = lines[i];
            if l.starts_with('@') {
                let t = lex(l);
                let mut ps = Ps { t, i: 0, m: &mut m, regs: HashMap::new(), names: vec![], blks: HashMap::new(), line: l.to_string() };
                ps.global()?;
            } else if l.starts_with("declare ") || l.starts_with("define ") {
                let def = l.starts_with("define ");
                let fi = m.fidx[&func_name(l).unwrap()];
                let mut ps = Ps { t: lex(l), i: 1, m: &mut m, regs: HashMap::new(), names: vec![], blks: HashMap::new(), line: l.chars().take(200).collect() };
                // return type: first type token before the @name
                loop {
                    match ps.pk() {
                        Some(Tok::Id(_)) if !ps.is_ty() => {
                            let kw = ps.id()?;
                            if kw == "align" && matches!(ps.pk(), Some(Tok::Num(_))) {
                                ps.i += 1
                            } else if ps.isp('(') {
                                ps.skip_parens()
                            }
                        }
                        _ => break,
                    }
                }
                let ret = ps.ty()?;
                ps.i += 1; // name
                ps.p('(')?;
                let mut params = vec![];
                if !ps.isp(')') {
                    loop {
                        if ps.isp('.') || ps.isid("...") {
                            ps.i += 1;
                            while ps.eatp('.') {}
                            break;
                        }
                        let t = ps.ty()?;
                        while !ps.isp(',') && !ps.isp(')') {
                            if matches!(ps.pk(), Some(Tok::Loc(_))) {
                                break;
                            }
                            if ps.isp('(') {
                                ps.skip_parens()
                            } else {
                                ps.i += 1
                            }
                        }
                        let r = if let Some(Tok::Loc(n)) = ps.pk().cloned() {
                            ps.i += 1;
                            ps.reg(&n)
                        } else {
                            let k = ps.names.len();
                            ps.reg(&format!("{k}"))
                        };
                        params.push((r, t));
                        if !ps.eatp(',') {
                            break;
                        }
                    }
                }
                if !def {
                    m.funcs[fi as usize].params = params;
                    m.funcs[fi as usize].ret = ret;
                    i += 1;
                    continue;
                }
                let mut blocks: Vec<Block> = vec![];
                let mut order: Vec<u32> = vec![];
                i += 1;
                while lines[i] != "}" {
                    let mut l = lines[i].to_string();
                    if l.is_empty() || l.trim_start().starts_with(';') {
                        i += 1;
                        continue;
                    }
                    if !l.starts_with(' ') {
                        let e = if l.starts_with('"') { l[1..].find('"').unwrap() + 2 } else { l.find(':').unwrap() };
                        let n = l[..e].trim_matches('"').to_owned();
                        let b = ps.blk(&n);
                        order.push(b);
                        blocks.push(Block { name: n, ins: vec![] });
                        i += 1;
                        continue;
                    }
                    if l.trim_start().starts_with("switch ") {
                        while !lines[i].trim_start().starts_with(']') {
                            i += 1;
                            l.push(' ');
                            l.push_str(lines[i]);
                        }
                    }
                    if l.trim_start().starts_with("#dbg") {
                        i += 1;
                        continue;
                    }
                    ps.t = lex(&l);
                    ps.i = 0;
                    ps.line = l;
                    let ins = ps.instr()?;
                    blocks.last_mut().ok_or("no block")?.ins.push(ins);
                    i += 1;
                }
                // reorder so that block id == index
                let n = ps.blks.len();
                let (regname, nregs) = (ps.names.clone(), ps.names.len());
                let mut bs: Vec<Option<Block>> = (0..n).map(|_| None).collect();
                let entry = order[0];
                for (b, id) in blocks.into_iter().zip(order) {
                    bs[id as usize] = Some(b);
                }
                // make the entry block index 0
                let mut bs: Vec<Block> = bs.into_iter().map(|b| b.unwrap()).collect();
                if entry != 0 {
                    bs.swap(0, entry as usize);
                    let fix = |x: &mut u32| {
                        if *x == 0 {
                            *x = entry
                        } else if *x == entry {
                            *x = 0
                        }
                    };
                    for b in &mut bs {
                        for ins in &mut b.ins {
                            match ins {
                                I::Br(x) => fix(x),
                                I::Cond { t, f, .. } => {
                                    fix(t);
                                    fix(f)
                                }
                                I::Switch { def, cases, .. } => {
                                    fix(def);
                                    cases.iter_mut().for_each(|c| fix(&mut c.1))
                                }
                                I::Phi { inc, .. } => inc.iter_mut().for_each(|c| fix(&mut c.1)),
                                _ => {}
                            }
                        }
                    }
                }
                let f = &mut m.funcs[fi as usize];
                f.params = params;
                f.ret = ret;
                f.blocks = bs;
                f.nregs = nregs;
                f.regname = regname;
                f.defined = true;
            }
            i += 1;
        }
        Ok(m)
    }
}

impl<'a> Ps<'a> {
    fn global(&mut self) -> R<()> {
        let Some(Tok::Glo(n)) = self.nx() else { return self.e("global") };
        self.p('=')?;
        let mut constant = false;
        let mut external = false;
        loop {
            match self.pk() {
                Some(Tok::Id(s)) if s == "global" => {
                    self.i += 1;
                    break;
                }
                Some(Tok::Id(s)) if s == "constant" => {
                    constant = true;
                    self.i += 1;
                    break;
                }
                Some(Tok::Id(s)) => {
                    if s == "external" {
                        external = true
                    }
                    self.i += 1;
                    if self.isp('(') {
                        self.skip_parens()
                    }
                }
                _ => return self.e("global kind"),
            }
        }
        let ty = self.ty()?;
        let init = if external || self.i >= self.t.len() || self.isp(',') { None } else { Some(self.init(&ty)?) };
        let mut align = ty.align();
        while self.i < self.t.len() {
            if self.eat("align") {
                align = self.int()? as u64;
            } else {
                self.i += 1;
            }
        }
        let g = self.m.gidx[&n] as usize;
        self.m.globals[g] = Global { name: n, ty, constant, init, align };
        Ok(())
    }
    fn init(&mut self, ty: &Ty) -> R<Init> {
        match self.pk().cloned() {
            Some(Tok::Str(b)) => {
                self.i += 1;
                Ok(Init::Bytes(b))
            }
            Some(Tok::Id(s)) if s == "zeroinitializer" => {
                self.i += 1;
                Ok(Init::Zero)
            }
            Some(Tok::Id(s)) if s == "undef" || s == "poison" => {
                self.i += 1;
                Ok(Init::Undef)
            }
            Some(Tok::P('<')) | Some(Tok::P('{')) | Some(Tok::P('[')) if !matches!(ty, Ty::Vec(..)) => {
                let packed = self.eatp('<');
                self.i += 1;
                let mut v = vec![];
                if !(self.isp('}') || self.isp(']')) {
                    loop {
                        let t = self.ty()?;
                        let x = self.init(&t)?;
                        v.push((t, x));
                        if !self.eatp(',') {
                            break;
                        }
                    }
                }
                self.i += 1;
                if packed {
                    self.p('>')?
                }
                Ok(Init::Agg(ty.clone(), v))
            }
            _ => Ok(Init::Op(ty.clone(), self.val(ty)?)),
        }
    }
}
