//! Parser for textual LLVM IR as printed by rustc. Function bodies are parsed on first use.
use crate::ir::*;
use crate::lex::*;
use std::collections::HashMap;

type R<T> = Result<T, String>;

fn lex_all(s: &'static str) -> Vec<Tok<'static>> {
    let mut l = Lexer::new(s.as_bytes());
    let mut v = vec![];
    loop {
        let t = l.next();
        if t == Tok::Eof {
            break;
        }
        v.push(t);
    }
    v
}

struct P<'m> {
    m: &'m Module,
    t: Vec<Tok<'static>>,
    i: usize,
}

const VALUE_WORDS: &[&str] = &[
    "null", "undef", "poison", "zeroinitializer", "true", "false", "getelementptr", "inttoptr", "ptrtoint", "splat",
    "none", "trunc", "add", "sub", "xor", "bitcast", "and", "or", "blockaddress", "dso_local_equivalent", "asm", "nan", "inf",
];

fn is_int_ty(w: &str) -> Option<u32> {
    if w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) {
        w[1..].parse().ok()
    } else {
        None
    }
}

impl<'m> P<'m> {
    fn new(m: &'m Module, s: &'static str) -> Self {
        P { m, t: lex_all(s), i: 0 }
    }
    fn peek(&self) -> &Tok<'static> {
        self.t.get(self.i).unwrap_or(&Tok::Eof)
    }
    fn peek_at(&self, k: usize) -> &Tok<'static> {
        self.t.get(self.i + k).unwrap_or(&Tok::Eof)
    }
    fn next(&mut self) -> Tok<'static> {
        let t = self.t.get(self.i).cloned().unwrap_or(Tok::Eof);
        self.i += 1;
        t
    }
    fn is_p(&self, c: char) -> bool {
        *self.peek() == Tok::P(c)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) -> R<()> {
        if self.eat_p(c) { Ok(()) } else { Err(format!("expected {:?} at {:?}", c, &self.t[self.i.min(self.t.len())..(self.i + 4).min(self.t.len())])) }
    }
    fn word(&self) -> Option<&'static str> {
        match self.peek() {
            Tok::Word(w) => Some(w),
            _ => None,
        }
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.word() == Some(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    /// Skips a balanced parenthesised group, positioned at the opening one.
    fn skip_group(&mut self) {
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P('(') | Tok::P('[') | Tok::P('{') | Tok::P('<') => d += 1,
                Tok::P(')') | Tok::P(']') | Tok::P('}') | Tok::P('>') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::Eof => return,
                _ => {}
            }
        }
    }
    fn at_type(&self) -> bool {
        match self.peek() {
            Tok::Word(w) => is_int_ty(w).is_some() || matches!(*w, "void" | "ptr" | "float" | "double" | "label" | "metadata" | "token" | "half" | "x86_fp80" | "fp128"),
            Tok::P('{') | Tok::P('<') | Tok::P('[') => true,
            Tok::Local(_) => true,
            _ => false,
        }
    }
    fn ty(&mut self) -> R<Type> {
        let t = match self.next() {
            Tok::Word(w) => {
                if let Some(n) = is_int_ty(w) {
                    Type::Int(n)
                } else {
                    match w {
                        "void" => Type::Void,
                        "ptr" => {
                            if self.word() == Some("addrspace") {
                                self.i += 1;
                                self.skip_group();
                            }
                            Type::Ptr
                        }
                        "float" => Type::Float,
                        "double" => Type::Double,
                        "label" => Type::Label,
                        "metadata" => Type::Metadata,
                        "token" => Type::Token,
                        _ => return Err(format!("type {}", w)),
                    }
                }
            }
            Tok::P('[') => {
                let n = self.int()? as u64;
                if !self.eat_word("x") {
                    return Err("array".into());
                }
                let t = self.ty()?;
                self.expect(']')?;
                Type::Array(n, Box::new(t))
            }
            Tok::P('<') => {
                if self.eat_p('{') {
                    let ts = self.ty_list('}')?;
                    self.expect('>')?;
                    Type::Struct(ts, true)
                } else {
                    let n = self.int()? as u64;
                    if !self.eat_word("x") {
                        return Err("vector".into());
                    }
                    let t = self.ty()?;
                    self.expect('>')?;
                    Type::Vector(n, Box::new(t))
                }
            }
            Tok::P('{') => Type::Struct(self.ty_list('}')?, false),
            Tok::Local(n) => match self.m.types.get(&n) {
                Some(t) => t.clone(),
                None => Type::Named(n),
            },
            t => return Err(format!("type at {:?}", t)),
        };
        Ok(t)
    }
    fn ty_list(&mut self, end: char) -> R<Vec<Type>> {
        let mut v = vec![];
        if self.eat_p(end) {
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            if self.eat_p(end) {
                return Ok(v);
            }
            self.expect(',')?;
        }
    }
    fn int(&mut self) -> R<i128> {
        match self.next() {
            Tok::Int(v) => Ok(v),
            t => Err(format!("int at {:?}", t)),
        }
    }
    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                Tok::Word(w) => {
                    if VALUE_WORDS.contains(w) {
                        return;
                    }
                    let w = *w;
                    self.i += 1;
                    if w == "align" && matches!(self.peek(), Tok::Int(_)) {
                        self.i += 1;
                    } else if self.is_p('(') {
                        self.skip_group();
                    }
                }
                Tok::Str(_) => {
                    self.i += 1;
                    if self.eat_p('=') {
                        self.i += 1;
                    }
                }
                Tok::Attr(_) => self.i += 1,
                _ => return,
            }
        }
    }
    fn constant(&mut self, t: &Type) -> R<Const> {
        Ok(match self.next() {
            Tok::Int(v) => Const::Int(v as u128),
            Tok::Float(f) => match t {
                Type::Float => Const::Int((f as f32).to_bits() as u128),
                _ => Const::Int(f.to_bits() as u128),
            },
            Tok::Word("true") => Const::Int(1),
            Tok::Word("false") => Const::Int(0),
            Tok::Word("null") | Tok::Word("zeroinitializer") | Tok::Word("none") => Const::Zero,
            Tok::Word("undef") | Tok::Word("poison") => Const::Undef,
            Tok::CStr(b) => Const::Bytes(b),
            Tok::Global(n) => Const::Global(n),
            Tok::P('[') => Const::Agg(self.const_list(']')?),
            Tok::P('{') => Const::Agg(self.const_list('}')?),
            Tok::P('<') => {
                if self.eat_p('{') {
                    let v = self.const_list('}')?;
                    self.expect('>')?;
                    Const::Agg(v)
                } else {
                    Const::Agg(self.const_list('>')?)
                }
            }
            Tok::Word("splat") => {
                self.expect('(')?;
                let t = self.ty()?;
                let c = self.constant(&t)?;
                self.expect(')')?;
                Const::Splat(t, Box::new(c))
            }
            Tok::Word("getelementptr") => {
                while let Tok::Word(_) = self.peek() {
                    self.i += 1;
                    if self.is_p('(') {
                        // either "inrange(..)" or the operand list itself
                        if let Tok::Word("inrange") = self.t[self.i - 1] {
                            self.skip_group();
                        }
                    }
                }
                self.expect('(')?;
                let bt = self.ty()?;
                self.expect(',')?;
                let pt = self.ty()?;
                let base = self.constant(&pt)?;
                let mut idx = vec![];
                while self.eat_p(',') {
                    let it = self.ty()?;
                    match self.constant(&it)? {
                        Const::Int(v) => idx.push(v as i64),
                        Const::Zero => idx.push(0),
                        _ => return Err("gep index".into()),
                    }
                }
                self.expect(')')?;
                Const::Gep(bt, Box::new(base), idx)
            }
            Tok::Word(w @ ("ptrtoint" | "inttoptr" | "trunc" | "bitcast")) => {
                self.expect('(')?;
                let st = self.ty()?;
                let c = self.constant(&st)?;
                if !self.eat_word("to") {
                    return Err("cast const".into());
                }
                let dt = self.ty()?;
                self.expect(')')?;
                match w {
                    "ptrtoint" => Const::PtrToInt(Box::new(c), dt.bits()),
                    "inttoptr" => Const::IntToPtr(Box::new(c)),
                    "trunc" => Const::Trunc(Box::new(c), dt.bits()),
                    _ => c,
                }
            }
            Tok::Word(w @ ("add" | "sub" | "xor" | "and" | "or")) => {
                while let Tok::Word(_) = self.peek() {
                    self.i += 1;
                }
                self.expect('(')?;
                let t1 = self.ty()?;
                let a = self.constant(&t1)?;
                self.expect(',')?;
                let t2 = self.ty()?;
                let b = self.constant(&t2)?;
                self.expect(')')?;
                let op = match w {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "xor" => BinOp::Xor,
                    "and" => BinOp::And,
                    _ => BinOp::Or,
                };
                Const::Bin(op, t1.bits(), Box::new(a), Box::new(b))
            }
            t => return Err(format!("const at {:?}", t)),
        })
    }
    fn const_list(&mut self, end: char) -> R<Vec<(Type, Const)>> {
        let mut v = vec![];
        if self.eat_p(end) {
            return Ok(v);
        }
        loop {
            let t = self.ty()?;
            let c = self.constant(&t)?;
            v.push((t, c));
            if self.eat_p(end) {
                return Ok(v);
            }
            self.expect(',')?;
        }
    }
}

pub fn parse_module(text: &'static str) -> Module {
    let mut m = Module { text, ..Default::default() };
    let mut global_lines: Vec<(String, &'static str)> = vec![];
    let b = text.as_bytes();
    let mut pos = 0;
    let n = b.len();
    let mut in_func: Option<(usize, usize, usize)> = None; // header start, header end, body start
    while pos < n {
        let e = text[pos..].find('\n').map(|x| pos + x).unwrap_or(n);
        let line = &text[pos..e];
        if let Some((hs, he, bs)) = in_func {
            if line == "}" {
                let header = &text[hs..he];
                let name = func_name(header);
                m.function_ids.insert(name.clone(), m.functions.len() as u32);
                m.functions.push(FuncSlot { name, header, body: &text[bs..pos], parsed: Default::default() });
                in_func = None;
            }
        } else if line.starts_with("define ") {
            in_func = Some((pos, e, (e + 1).min(n)));
        } else if line.starts_with("declare ") {
            let name = func_name(line);
            m.extern_ids.insert(name.clone(), m.externs.len() as u32);
            m.externs.push(name);
        } else if line.starts_with('@') {
            let mut l = Lexer::new(line.as_bytes());
            if let Tok::Global(name) = l.next() {
                global_lines.push((name, line));
            }
        } else if line.starts_with('%') {
            let mut p = P::new(&m, line);
            let r: R<(String, Type)> = (|| {
                let n = match p.next() { Tok::Local(n) => n, _ => return Err("".into()) };
                p.expect('=')?;
                if !p.eat_word("type") {
                    return Err("".into());
                }
                Ok((n, p.ty()?))
            })();
            if let Ok((n, t)) = r {
                m.types.insert(n, t);
            }
        } else if line.starts_with('!') {
            if let Some(x) = line.find(" = ") {
                if let Ok(id) = line[1..x].parse::<u32>() {
                    let rest = &line[x + 3..];
                    let rest = rest.strip_prefix("distinct ").unwrap_or(rest);
                    if rest.starts_with("!DI") {
                        m.dbg.insert(id, rest);
                    }
                }
            }
        }
        pos = e + 1;
    }
    let mut out: Vec<Global> = vec![];
    let mut ids = HashMap::new();
    let mut aliases = vec![];
    for (name, line) in global_lines {
        let mut p = P::new(&m, line);
        p.i = 1;
        let r: R<Option<Global>> = (|| {
            p.expect('=')?;
            let mut external = false;
            let constant;
            loop {
                match p.next() {
                    Tok::Word("global") => {
                        constant = false;
                        break;
                    }
                    Tok::Word("constant") => {
                        constant = true;
                        break;
                    }
                    Tok::Word("alias") => {
                        let _ = p.ty()?;
                        p.expect(',')?;
                        let t = p.ty()?;
                        let c = p.constant(&t)?;
                        aliases.push((name.clone(), c));
                        return Ok(None);
                    }
                    Tok::Word("external") | Tok::Word("extern_weak") => external = true,
                    Tok::Word("thread_local") | Tok::Word("addrspace") => {
                        if p.is_p('(') {
                            p.skip_group();
                        }
                    }
                    Tok::Word(_) => {}
                    t => return Err(format!("global {:?}", t)),
                }
            }
            let ty = p.ty()?;
            let init = if external { None } else { Some(p.constant(&ty)?) };
            let mut align = ty.size_align().1;
            while p.i < p.t.len() {
                if p.eat_word("align") {
                    align = p.int()? as u64;
                    break;
                }
                p.i += 1;
            }
            Ok(Some(Global { name: name.clone(), ty, init, constant, align }))
        })();
        match r {
            Ok(Some(g)) => {
                ids.insert(name, out.len() as u32);
                out.push(g);
            }
            Ok(None) => {}
            Err(e) => {
                eprintln!("global {}: {}", name, e);
                ids.insert(name.clone(), out.len() as u32);
                out.push(Global { name, ty: Type::Struct(vec![], false), init: None, constant: true, align: 1 });
            }
        }
    }
    m.globals = out;
    m.global_ids = ids;
    for (n, c) in aliases {
        m.aliases.insert(n, c);
    }
    // Initial contents
    let mut data = vec![];
    for g in &m.globals {
        let t = m.resolve_type(&g.ty);
        let mut d = vec![0u8; t.alloc_size() as usize];
        if let Some(c) = &g.init {
            match m.resolve(&t, c) {
                Some(rc) => write_const(&t, &rc, &mut d, 0),
                None => eprintln!("unresolved initializer of {}", g.name),
            }
        }
        data.push(d);
    }
    m.global_data = data;
    m
}

fn write_const(t: &Type, c: &RConst, d: &mut [u8], off: usize) {
    match c {
        RConst::I(v) => {
            let s = t.store_size() as usize;
            d[off..off + s].copy_from_slice(&v.to_le_bytes()[..s]);
        }
        RConst::W(v) => {
            let s = t.store_size() as usize;
            d[off..off + s].copy_from_slice(&v.to_le_bytes()[..s]);
        }
        RConst::Agg(vs) => {
            for (i, v) in vs.iter().enumerate() {
                write_const(t.field_type(i), v, d, off + t.field_offset(i) as usize);
            }
        }
    }
}

fn func_name(header: &str) -> String {
    let mut rest = header;
    loop {
        let i = match rest.find('@') {
            Some(i) => i,
            None => return String::new(),
        };
        rest = &rest[i..];
        let mut l = Lexer::new(rest.as_bytes());
        if let Tok::Global(n) = l.next() {
            if rest.as_bytes().get(l.i) == Some(&b'(') {
                return n;
            }
        }
        rest = &rest[1..];
    }
}

struct FP<'m> {
    m: &'m Module,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
    consts: Vec<RConst>,
    nregs: u32,
}

impl<'m> FP<'m> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn label(&self, p: &mut P) -> R<u32> {
        if !p.eat_word("label") {
            return Err("label".into());
        }
        self.block_name(p)
    }
    fn block_name(&self, p: &mut P) -> R<u32> {
        match p.next() {
            Tok::Local(n) => Ok(self.blocks.get(&n).copied().unwrap_or(0)),
            t => Err(format!("label {:?}", t)),
        }
    }
    fn opnd(&mut self, p: &mut P, t: &Type) -> R<Opnd> {
        if let Tok::Local(_) = p.peek() {
            if let Tok::Local(n) = p.next() {
                return Ok(Opnd::Reg(self.reg(&n)));
            }
        }
        let c = p.constant(t)?;
        let rt = self.m.resolve_type(t);
        let rc = self.m.resolve(&rt, &c).ok_or_else(|| format!("unresolved {:?}", c))?;
        Ok(match rc {
            RConst::I(v) => Opnd::Imm(v),
            rc => {
                self.consts.push(rc);
                Opnd::Const(self.consts.len() as u32 - 1)
            }
        })
    }
    fn typed(&mut self, p: &mut P) -> R<(Type, Opnd)> {
        let t = p.ty()?;
        p.skip_attrs();
        let o = self.opnd(p, &t)?;
        Ok((t, o))
    }

    fn inst(&mut self, p: &mut P, dst: &mut Option<String>) -> R<Op> {
        if let (Tok::Local(n), Tok::P('=')) = (p.peek().clone(), p.peek_at(1).clone()) {
            *dst = Some(n);
            p.i += 2;
        }
        let w = match p.next() {
            Tok::Word(w) => w,
            t => return Err(format!("opcode {:?}", t)),
        };
        let w = if matches!(w, "tail" | "musttail" | "notail") { p.i += 1; "call" } else { w };
        let bin = match w {
            "add" => Some(BinOp::Add),
            "sub" => Some(BinOp::Sub),
            "mul" => Some(BinOp::Mul),
            "udiv" => Some(BinOp::UDiv),
            "sdiv" => Some(BinOp::SDiv),
            "urem" => Some(BinOp::URem),
            "srem" => Some(BinOp::SRem),
            "shl" => Some(BinOp::Shl),
            "lshr" => Some(BinOp::LShr),
            "ashr" => Some(BinOp::AShr),
            "and" => Some(BinOp::And),
            "or" => Some(BinOp::Or),
            "xor" => Some(BinOp::Xor),
            "fadd" => Some(BinOp::FAdd),
            "fsub" => Some(BinOp::FSub),
            "fmul" => Some(BinOp::FMul),
            "fdiv" => Some(BinOp::FDiv),
            "frem" => Some(BinOp::FRem),
            _ => None,
        };
        let skip_flags = |p: &mut P| {
            while !p.at_type() {
                p.i += 1;
                if p.is_p('(') {
                    p.skip_group();
                }
                if p.i >= p.t.len() {
                    break;
                }
            }
        };
        if let Some(op) = bin {
            skip_flags(p);
            let t = p.ty()?;
            let a = self.opnd(p, &t)?;
            p.expect(',')?;
            let b = self.opnd(p, &t)?;
            return Ok(match &t {
                Type::Vector(_, e) => Op::VBin(op, e.bits(), a, b),
                _ => Op::Bin(op, t.bits(), a, b),
            });
        }
        Ok(match w {
            "fneg" => {
                skip_flags(p);
                let (t, a) = self.typed(p)?;
                Op::FNeg(t.bits(), a)
            }
            "icmp" => {
                let mut pred = match p.next() { Tok::Word(w) => w, _ => return Err("icmp".into()) };
                if pred == "samesign" {
                    pred = match p.next() { Tok::Word(w) => w, _ => return Err("icmp".into()) };
                }
                let c = match pred {
                    "eq" => ICmp::Eq,
                    "ne" => ICmp::Ne,
                    "ult" => ICmp::Ult,
                    "ule" => ICmp::Ule,
                    "ugt" => ICmp::Ugt,
                    "uge" => ICmp::Uge,
                    "slt" => ICmp::Slt,
                    "sle" => ICmp::Sle,
                    "sgt" => ICmp::Sgt,
                    "sge" => ICmp::Sge,
                    _ => return Err(format!("icmp {}", pred)),
                };
                let t = p.ty()?;
                let a = self.opnd(p, &t)?;
                p.expect(',')?;
                let b = self.opnd(p, &t)?;
                match &t {
                    Type::Vector(_, e) => Op::VICmp(c, e.bits(), a, b),
                    _ => Op::ICmp(c, t.bits(), a, b),
                }
            }
            "fcmp" => {
                let mut pred;
                loop {
                    pred = match p.next() { Tok::Word(w) => w, _ => return Err("fcmp".into()) };
                    if !matches!(pred, "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") {
                        break;
                    }
                }
                let c = match pred {
                    "false" => FCmp::False,
                    "oeq" => FCmp::Oeq,
                    "ogt" => FCmp::Ogt,
                    "oge" => FCmp::Oge,
                    "olt" => FCmp::Olt,
                    "ole" => FCmp::Ole,
                    "one" => FCmp::One,
                    "ord" => FCmp::Ord,
                    "ueq" => FCmp::Ueq,
                    "ugt" => FCmp::Ugt,
                    "uge" => FCmp::Uge,
                    "ult" => FCmp::Ult,
                    "ule" => FCmp::Ule,
                    "une" => FCmp::Une,
                    "uno" => FCmp::Uno,
                    "true" => FCmp::True,
                    _ => return Err(format!("fcmp {}", pred)),
                };
                let t = p.ty()?;
                let a = self.opnd(p, &t)?;
                p.expect(',')?;
                let b = self.opnd(p, &t)?;
                if t.is_agg() {
                    return Err("vector fcmp".into());
                }
                Op::FCmp(c, t.bits(), a, b)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" => {
                let k = match w {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "ptrtoint" => Cast::PtrToInt,
                    "inttoptr" => Cast::IntToPtr,
                    "bitcast" => Cast::Bitcast,
                    "uitofp" => Cast::UIToFP,
                    "sitofp" => Cast::SIToFP,
                    "fptoui" => Cast::FPToUI,
                    "fptosi" => Cast::FPToSI,
                    "fpext" => Cast::FPExt,
                    _ => Cast::FPTrunc,
                };
                skip_flags(p);
                let (st, a) = self.typed(p)?;
                if !p.eat_word("to") {
                    return Err("cast".into());
                }
                let dt = p.ty()?;
                Op::Cast(k, st, a, dt)
            }
            "select" => {
                skip_flags(p);
                let (ct, c) = self.typed(p)?;
                if ct.is_agg() {
                    return Err("vector select".into());
                }
                p.expect(',')?;
                let (t, a) = self.typed(p)?;
                p.expect(',')?;
                let (_, b) = self.typed(p)?;
                Op::Select(c, a, b, if t.is_agg() { 0 } else { t.bits() })
            }
            "load" => {
                while matches!(p.word(), Some("atomic") | Some("volatile")) {
                    p.i += 1;
                }
                let t = p.ty()?;
                p.expect(',')?;
                let (_, a) = self.typed(p)?;
                Op::Load(self.m.resolve_type(&t), a)
            }
            "store" => {
                while matches!(p.word(), Some("atomic") | Some("volatile")) {
                    p.i += 1;
                }
                let (t, v) = self.typed(p)?;
                p.expect(',')?;
                let (_, a) = self.typed(p)?;
                Op::Store(self.m.resolve_type(&t), v, a)
            }
            "getelementptr" => {
                skip_flags(p);
                let bt = p.ty()?;
                let bt = self.m.resolve_type(&bt);
                p.expect(',')?;
                let (pt, base) = self.typed(p)?;
                if pt.is_agg() {
                    return Err("vector gep".into());
                }
                let mut off = 0i64;
                let mut dynidx = vec![];
                let mut cur = bt;
                let mut first = true;
                while p.is_p(',') {
                    if let Tok::Meta(_) = p.peek_at(1) {
                        break;
                    }
                    p.i += 1;
                    let (it, o) = self.typed(p)?;
                    let iw = it.bits();
                    let scale = if first {
                        cur.alloc_size() as i64
                    } else {
                        match cur.clone() {
                            Type::Struct(..) => {
                                let k = match o { Opnd::Imm(k) => k as usize, _ => return Err("gep struct".into()) };
                                off += cur.field_offset(k) as i64;
                                cur = cur.field_type(k).clone();
                                first = false;
                                continue;
                            }
                            Type::Array(_, e) | Type::Vector(_, e) => {
                                cur = (*e).clone();
                                cur.alloc_size() as i64
                            }
                            t => return Err(format!("gep {:?}", t)),
                        }
                    };
                    first = false;
                    match o {
                        Opnd::Imm(k) => {
                            let k = ((k << (64 - iw)) as i64) >> (64 - iw);
                            off = off.wrapping_add(k.wrapping_mul(scale));
                        }
                        o => dynidx.push((o, scale, iw)),
                    }
                }
                Op::Gep(base, off, dynidx)
            }
            "alloca" => {
                p.eat_word("inalloca");
                let t = p.ty()?;
                let t = self.m.resolve_type(&t);
                let mut n = None;
                let mut align = t.size_align().1;
                while p.eat_p(',') {
                    if p.eat_word("align") {
                        align = p.int()? as u64;
                    } else if let Tok::Meta(_) = p.peek() {
                        break;
                    } else {
                        let (_, o) = self.typed(p)?;
                        n = Some(o);
                    }
                }
                Op::Alloca(t.alloc_size(), align, n)
            }
            "extractvalue" => {
                let (_, a) = self.typed(p)?;
                let mut idx = vec![];
                while p.is_p(',') {
                    if let Tok::Int(k) = p.peek_at(1) {
                        idx.push(*k as u32);
                        p.i += 2;
                    } else {
                        break;
                    }
                }
                Op::ExtractValue(a, idx)
            }
            "insertvalue" => {
                let (_, a) = self.typed(p)?;
                p.expect(',')?;
                let (_, b) = self.typed(p)?;
                let mut idx = vec![];
                while p.is_p(',') {
                    if let Tok::Int(k) = p.peek_at(1) {
                        idx.push(*k as u32);
                        p.i += 2;
                    } else {
                        break;
                    }
                }
                Op::InsertValue(a, b, idx)
            }
            "extractelement" => {
                let (_, a) = self.typed(p)?;
                p.expect(',')?;
                let (_, b) = self.typed(p)?;
                Op::ExtractElement(a, b)
            }
            "insertelement" => {
                let (_, a) = self.typed(p)?;
                p.expect(',')?;
                let (_, b) = self.typed(p)?;
                p.expect(',')?;
                let (_, c) = self.typed(p)?;
                Op::InsertElement(a, b, c)
            }
            "shufflevector" => {
                let (t, a) = self.typed(p)?;
                p.expect(',')?;
                let (_, b) = self.typed(p)?;
                p.expect(',')?;
                let mt = p.ty()?;
                let mc = p.constant(&mt)?;
                let n = mt.field_count();
                let mask: Vec<i32> = match mc {
                    Const::Zero | Const::Undef => vec![0; n],
                    Const::Agg(v) => v.iter().map(|(_, c)| match c { Const::Int(k) => *k as i32, _ => 0 }).collect(),
                    Const::Splat(_, c) => vec![match *c { Const::Int(k) => k as i32, _ => 0 }; n],
                    _ => return Err("shuffle mask".into()),
                };
                Op::Shuffle(a, b, mask, t.field_count())
            }
            "freeze" => {
                let (_, a) = self.typed(p)?;
                Op::Freeze(a)
            }
            "call" | "invoke" => {
                loop {
                    if p.at_type() {
                        break;
                    }
                    match p.next() {
                        Tok::Word("align") | Tok::Word("cc") => p.i += 1,
                        Tok::Word(_) => {
                            if p.is_p('(') {
                                p.skip_group();
                            }
                        }
                        t => return Err(format!("call {:?}", t)),
                    }
                }
                let mut rt = p.ty()?;
                if p.is_p('(') {
                    p.skip_group();
                }
                rt = self.m.resolve_type(&rt);
                let mut ext_name: Option<String> = None;
                let callee = match p.next() {
                    Tok::Global(n) => {
                        if let Some(f) = self.m.function_ids.get(&n) {
                            Callee::Func(*f)
                        } else if let Some(e) = self.m.extern_ids.get(&n) {
                            ext_name = Some(n);
                            Callee::Extern(*e)
                        } else if let Some(a) = self.m.global_addr(&n) {
                            Callee::Indirect(Opnd::Imm(a))
                        } else {
                            return Err(format!("callee {}", n));
                        }
                    }
                    Tok::Local(n) => Callee::Indirect(Opnd::Reg(self.reg(&n))),
                    Tok::Word("asm") => return Err("inline asm".into()),
                    t => return Err(format!("callee {:?}", t)),
                };
                if let Some(n) = &ext_name {
                    if n.starts_with("llvm.dbg") || n.starts_with("llvm.experimental.noalias") {
                        return Ok(Op::Fence);
                    }
                }
                p.expect('(')?;
                let mut args = vec![];
                if !p.eat_p(')') {
                    loop {
                        let t = p.ty()?;
                        p.skip_attrs();
                        if t == Type::Metadata {
                            p.i += 1;
                            args.push(Opnd::Imm(0));
                        } else {
                            let o = self.opnd(p, &t)?;
                            // Attach widths of integer arguments through constants where needed
                            args.push(o);
                        }
                        if p.eat_p(')') {
                            break;
                        }
                        p.expect(',')?;
                    }
                }
                let mut normal = None;
                if w == "invoke" {
                    while p.i < p.t.len() && p.word() != Some("to") {
                        p.i += 1;
                    }
                    p.i += 1;
                    normal = Some(self.label(p)?);
                }
                Op::Call(callee, args, rt, normal)
            }
            "br" => {
                if p.word() == Some("label") {
                    Op::Br(self.label(p)?)
                } else {
                    let (_, c) = self.typed(p)?;
                    p.expect(',')?;
                    let a = self.label(p)?;
                    p.expect(',')?;
                    let b = self.label(p)?;
                    Op::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.typed(p)?;
                p.expect(',')?;
                let d = self.label(p)?;
                p.expect('[')?;
                let mut cases = vec![];
                while !p.eat_p(']') {
                    let (_, k) = self.typed(p)?;
                    p.expect(',')?;
                    let l = self.label(p)?;
                    match k {
                        Opnd::Imm(k) => cases.push((k, l)),
                        _ => return Err("switch case".into()),
                    }
                }
                Op::Switch(t.bits(), v, d, cases)
            }
            "ret" => {
                if p.eat_word("void") {
                    Op::Ret(None)
                } else {
                    let (_, v) = self.typed(p)?;
                    Op::Ret(Some(v))
                }
            }
            "unreachable" => Op::Unreachable,
            "fence" => Op::Fence,
            "atomicrmw" => {
                p.eat_word("volatile");
                let op = match p.next() {
                    Tok::Word("xchg") => RmwOp::Xchg,
                    Tok::Word("add") => RmwOp::Add,
                    Tok::Word("sub") => RmwOp::Sub,
                    Tok::Word("and") => RmwOp::And,
                    Tok::Word("or") => RmwOp::Or,
                    Tok::Word("xor") => RmwOp::Xor,
                    Tok::Word("nand") => RmwOp::Nand,
                    Tok::Word("umax") => RmwOp::UMax,
                    Tok::Word("umin") => RmwOp::UMin,
                    Tok::Word("max") => RmwOp::Max,
                    Tok::Word("min") => RmwOp::Min,
                    t => return Err(format!("rmw {:?}", t)),
                };
                let (_, a) = self.typed(p)?;
                p.expect(',')?;
                let (t, v) = self.typed(p)?;
                Op::Rmw(op, t.bits(), a, v)
            }
            "cmpxchg" => {
                p.eat_word("weak");
                p.eat_word("volatile");
                let (_, a) = self.typed(p)?;
                p.expect(',')?;
                let (t, c) = self.typed(p)?;
                p.expect(',')?;
                let (_, n) = self.typed(p)?;
                Op::CmpXchg(t.bits(), a, c, n)
            }
            w => return Err(format!("opcode {}", w)),
        })
    }
}

pub fn parse_function(m: &Module, id: u32) -> Function {
    let slot = &m.functions[id as usize];
    let mut fp = FP { m, regs: HashMap::new(), blocks: HashMap::new(), consts: vec![], nregs: 0 };
    // Parameters
    let mut p = P::new(m, slot.header);
    while p.i < p.t.len() {
        if let Tok::Global(n) = p.peek() {
            if *n == slot.name && *p.peek_at(1) == Tok::P('(') {
                break;
            }
        }
        p.i += 1;
    }
    p.i += 1;
    // Each parameter's name is the last local token at depth 1 before ',' or ')'
    let mut depth = 0;
    let mut cur: Option<String> = None;
    let mut any = false;
    let mut nparams = 0;
    loop {
        let t = p.next();
        match t {
            Tok::P('(') | Tok::P('[') | Tok::P('{') | Tok::P('<') => depth += 1,
            Tok::P(')') | Tok::P(']') | Tok::P('}') | Tok::P('>') => {
                depth -= 1;
                if depth == 0 {
                    if any {
                        let n = cur.take().unwrap_or_else(|| format!("?{}", nparams));
                        fp.reg(&n);
                        nparams += 1;
                    }
                    break;
                }
            }
            Tok::P(',') if depth == 1 => {
                let n = cur.take().unwrap_or_else(|| format!("?{}", nparams));
                fp.reg(&n);
                nparams += 1;
            }
            Tok::Local(n) if depth == 1 => {
                cur = Some(n);
                any = true;
            }
            Tok::Eof => break,
            _ => any = true,
        }
    }
    // Logical lines
    let mut lines: Vec<(Option<String>, &'static str)> = vec![];
    {
        let text = slot.body;
        let mut pos = 0;
        let n = text.len();
        while pos < n {
            let mut e = text[pos..].find('\n').map(|x| pos + x).unwrap_or(n);
            let line = &text[pos..e];
            if line.is_empty() || line.starts_with(';') {
                pos = e + 1;
                continue;
            }
            if !line.starts_with(' ') {
                // label
                let mut l = Lexer::new(line.as_bytes());
                if let Tok::LabelDef(s) = l.next() {
                    lines.push((Some(s), ""));
                }
                pos = e + 1;
                continue;
            }
            // continuation lines
            let is_switch = line.trim_end().ends_with('[');
            if is_switch {
                loop {
                    let s2 = e + 1;
                    let e2 = text[s2..].find('\n').map(|x| s2 + x).unwrap_or(n);
                    let l2 = text[s2..e2].trim();
                    e = e2;
                    if l2.starts_with(']') || e2 >= n {
                        break;
                    }
                }
            } else {
                loop {
                    let s2 = e + 1;
                    if s2 >= n {
                        break;
                    }
                    let e2 = text[s2..].find('\n').map(|x| s2 + x).unwrap_or(n);
                    if text[s2..e2].starts_with("    ") {
                        e = e2;
                    } else {
                        break;
                    }
                }
            }
            lines.push((None, &text[pos..e]));
            pos = e + 1;
        }
    }
    let mut nb = 0;
    for (i, (l, _)) in lines.iter().enumerate() {
        match l {
            Some(l) => {
                fp.blocks.insert(l.clone(), nb);
                nb += 1;
            }
            None => {
                if i == 0 {
                    nb += 1;
                }
            }
        }
    }
    let mut blocks: Vec<Block> = vec![];
    for (l, text) in lines.iter() {
        if l.is_some() || blocks.is_empty() {
            blocks.push(Block::default());
            if l.is_some() {
                continue;
            }
        }
        let tt = text.trim_start();
        if tt.starts_with('#') {
            continue;
        }
        let mut p = P::new(m, text);
        let mut dbg = 0;
        for k in 0..p.t.len() {
            if p.t[k] == Tok::Meta("dbg") {
                if let Some(Tok::Meta(n)) = p.t.get(k + 1) {
                    dbg = n.parse().unwrap_or(0);
                }
            }
        }
        // phi
        if let (Tok::Local(d), Tok::P('='), Tok::Word("phi")) = (p.peek().clone(), p.peek_at(1).clone(), p.peek_at(2).clone()) {
            p.i += 3;
            let r: R<Vec<(u32, Opnd)>> = (|| {
                while !p.at_type() {
                    p.i += 1;
                }
                let t = p.ty()?;
                let mut v = vec![];
                loop {
                    p.expect('[')?;
                    let o = fp.opnd(&mut p, &t)?;
                    p.expect(',')?;
                    let b = fp.block_name(&mut p)?;
                    p.expect(']')?;
                    v.push((b, o));
                    if !(p.is_p(',') && *p.peek_at(1) == Tok::P('[')) {
                        return Ok(v);
                    }
                    p.i += 1;
                }
            })();
            let dst = fp.reg(&d);
            match r {
                Ok(v) => blocks.last_mut().unwrap().phis.push((dst, v)),
                Err(e) => blocks.last_mut().unwrap().insts.push(Inst { dst, dbg, op: Op::Unsupported(format!("phi: {}", e)) }),
            }
            continue;
        }
        let mut dst = None;
        let op = match fp.inst(&mut p, &mut dst) {
            Ok(op) => op,
            Err(e) => Op::Unsupported(format!("{} in: {}", e, &tt[..tt.len().min(200)])),
        };
        let d = match dst {
            Some(n) => fp.reg(&n),
            None => NOREG,
        };
        blocks.last_mut().unwrap().insts.push(Inst { dst: d, dbg, op });
    }
    let is_panic = slot.name.contains("9panicking") && !slot.name.contains("panic_count");
    Function { name: slot.name.clone(), nparams, nregs: fp.nregs, blocks, consts: fp.consts, is_panic, id, ret: Default::default() }
}

impl Module {
    pub fn func(&self, id: u32) -> &Function {
        self.functions[id as usize].parsed.get_or_init(|| parse_function(self, id))
    }
}
