//! Parser for the textual LLVM IR rustc emits after fat LTO.
use std::collections::HashMap;
use std::sync::Arc;

pub type TyId = u32;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    F32,
    F64,
    Array(u64, TyId),
    Struct(Vec<TyId>, bool),
    Vec(u32, TyId),
    Meta,
    Label,
    Named(String),
}

/// Constants, pointers already resolved to addresses.
#[derive(Clone, Debug, PartialEq)]
pub enum K {
    I(u128),
    Undef,
    Agg(Arc<Vec<K>>),
    Zero,         // zeroinitializer, shape given by type
    Bytes(Arc<Vec<u8>>), // c"..."
    Splat(Arc<K>),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    K(K),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    Same, // bitcast / ptrtoint / inttoptr of equal or differing width handled by widths
}

#[derive(Clone, Debug)]
pub enum Callee {
    Addr(Opnd),
    Fn(u32),
    Asm(String),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: BinOp, w: u16, lanes: u32, dst: u32, a: Opnd, b: Opnd },
    ICmp { p: Pred, w: u16, lanes: u32, dst: u32, a: Opnd, b: Opnd },
    Cast { op: CastOp, from: u16, to: u16, lanes: u32, dst: u32, a: Opnd },
    BitcastVec { from: TyId, to: TyId, dst: u32, a: Opnd },
    /// floating point: operation, operand and result width
    Fp { op: String, from: u16, to: u16, lanes: u32, dst: u32, a: Opnd, b: Option<Opnd> },
    Gep { dst: u32, base: Opnd, off: u64, terms: Vec<(Opnd, u16, u64)> },
    Load { dst: u32, ty: TyId, ptr: Opnd },
    Store { ty: TyId, val: Opnd, ptr: Opnd },
    Alloca { dst: u32, size: u64, align: u64, n: Option<Opnd> },
    Select { dst: u32, ty: TyId, c: Opnd, cvec: bool, a: Opnd, b: Opnd },
    Call { dst: Option<u32>, callee: Callee, args: Vec<(TyId, Opnd)>, ret: TyId, normal: Option<u32> },
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch { w: u16, v: Opnd, default: u32, cases: Vec<(u128, u32)> },
    Ret(Option<(TyId, Opnd)>),
    Unreachable,
    Resume,
    ExtractValue { dst: u32, ty: TyId, a: Opnd, path: Vec<u32> },
    InsertValue { dst: u32, ty: TyId, a: Opnd, v: Opnd, vty: TyId, path: Vec<u32> },
    ExtractElement { dst: u32, ty: TyId, a: Opnd, i: Opnd },
    InsertElement { dst: u32, ty: TyId, a: Opnd, v: Opnd, i: Opnd },
    Shuffle { dst: u32, ty: TyId, a: Opnd, b: Opnd, m: Vec<Option<u32>> },
    Rmw { dst: u32, op: String, w: u16, ptr: Opnd, v: Opnd, ty: TyId },
    CmpXchg { dst: u32, w: u16, ty: TyId, ptr: Opnd, old: Opnd, new: Opnd },
    Freeze { dst: u32, ty: TyId, a: Opnd },
    Nop,
    Unsupported(String),
}
impl Inst {
    pub fn dst(&self) -> Option<u32> {
        use Inst::*;
        match self {
            Bin { dst, .. } | ICmp { dst, .. } | Cast { dst, .. } | BitcastVec { dst, .. } | Fp { dst, .. } | Gep { dst, .. } | Load { dst, .. } | Alloca { dst, .. } | Select { dst, .. } | ExtractValue { dst, .. } | InsertValue { dst, .. } | ExtractElement { dst, .. } | InsertElement { dst, .. } | Shuffle { dst, .. } | Rmw { dst, .. } | CmpXchg { dst, .. } | Freeze { dst, .. } => Some(*dst),
            Call { dst, .. } => *dst,
            _ => None,
        }
    }
}

#[derive(Default, Debug)]
pub struct Block {
    pub phis: Vec<(u32, TyId, Vec<(u32, Opnd)>)>,
    pub insts: Vec<Inst>,
    pub dbg: Vec<u32>,
}

#[derive(Default, Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<(TyId, u32)>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub defined: bool,
    pub weak: bool,
    pub ret: TyId,
    pub ninst: usize,
}

pub struct Global {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub constant: bool,
    pub bytes: Vec<u8>,
    pub undef: bool,
}

pub struct Module {
    pub tys: Vec<Ty>,
    tymap: HashMap<Ty, TyId>,
    named: HashMap<String, TyId>,
    pub funcs: Vec<Func>,
    pub fmap: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, usize>,
    /// dbg id -> Vec<(file, line, function)> innermost first
    pub meta: HashMap<u32, Meta>,
}

#[derive(Debug, Clone)]
pub enum Meta {
    Loc { line: u32, scope: u32, inl: u32 },
    Sub { name: String, file: u32, line: u32 },
    Scope { scope: u32, file: u32 },
    File { dir: String, name: String },
}

pub const FN_BASE: u64 = 0x1000_0000;
pub const GL_BASE: u64 = 0x2000_0000;

impl Module {
    pub fn ty(&mut self, t: Ty) -> TyId {
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let i = self.tys.len() as TyId;
        self.tys.push(t.clone());
        self.tymap.insert(t, i);
        i
    }
    pub fn fn_addr(&self, f: u32) -> u64 {
        if self.funcs[f as usize].weak && !self.funcs[f as usize].defined {
            let n = self.funcs[f as usize].name.as_str();
            if n != "getrandom" && n != "__cxa_thread_atexit_impl" {
                return 0;
            }
        }
        FN_BASE + 16 * f as u64
    }
    pub fn align_of(&self, t: TyId) -> u64 {
        match &self.tys[t as usize] {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Array(_, e) => self.align_of(*e),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| self.align_of(*f)).max().unwrap_or(1)
                }
            }
            Ty::Vec(n, e) => (*n as u64 * self.size_of(*e)).next_power_of_two(),
            Ty::Named(n) => self.align_of(self.named[n]),
            _ => 1,
        }
    }
    pub fn size_of(&self, t: TyId) -> u64 {
        match &self.tys[t as usize] {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = self.align_of(t);
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Array(n, e) => n * self.size_of(*e),
            Ty::Struct(fs, _) => {
                let mut o = 0;
                for i in 0..fs.len() {
                    o = self.field_off(t, i) + self.size_of(fs[i]);
                }
                let a = self.align_of(t);
                (o + a - 1) / a * a
            }
            Ty::Vec(n, e) => {
                let w = self.width(*e) as u64 * *n as u64;
                (w + 7) / 8
            }
            Ty::Named(n) => self.size_of(self.named[n]),
            _ => 0,
        }
    }
    pub fn field_off(&self, t: TyId, i: usize) -> u64 {
        match &self.tys[t as usize] {
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for (j, f) in fs.iter().enumerate() {
                    if !*packed {
                        let a = self.align_of(*f);
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return o;
                    }
                    o += self.size_of(*f);
                }
                panic!("field_off")
            }
            Ty::Array(_, e) => i as u64 * self.size_of(*e),
            Ty::Vec(_, e) => i as u64 * self.size_of(*e),
            Ty::Named(n) => self.field_off(self.named[n], i),
            _ => panic!("field_off of scalar"),
        }
    }
    pub fn resolve(&self, t: TyId) -> TyId {
        match &self.tys[t as usize] {
            Ty::Named(n) => self.resolve(self.named[n]),
            _ => t,
        }
    }
    pub fn field_ty(&self, t: TyId, i: usize) -> TyId {
        match &self.tys[self.resolve(t) as usize] {
            Ty::Struct(fs, _) => fs[i],
            Ty::Array(_, e) => *e,
            Ty::Vec(_, e) => *e,
            x => panic!("field_ty {:?}", x),
        }
    }
    pub fn nfields(&self, t: TyId) -> usize {
        match &self.tys[self.resolve(t) as usize] {
            Ty::Struct(fs, _) => fs.len(),
            Ty::Array(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn is_agg(&self, t: TyId) -> bool {
        matches!(&self.tys[self.resolve(t) as usize], Ty::Struct(..) | Ty::Array(..) | Ty::Vec(..))
    }
    /// scalar bit width
    pub fn width(&self, t: TyId) -> u16 {
        match &self.tys[self.resolve(t) as usize] {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            x => panic!("width of {:?}", x),
        }
    }
    /// (scalar width, lanes) lanes = 0 for a scalar
    pub fn wl(&self, t: TyId) -> (u16, u32) {
        match &self.tys[self.resolve(t) as usize] {
            Ty::Vec(n, e) => (self.width(*e), *n),
            _ => (self.width(t), 0),
        }
    }

    /// innermost-first chain of (file, line, function name) for a debug location
    pub fn locate(&self, mut id: u32) -> Vec<(String, u32, String)> {
        let mut out = vec![];
        let mut guard = 0;
        while id != 0 && guard < 64 {
            guard += 1;
            let (line, scope, inl) = match self.meta.get(&id) {
                Some(Meta::Loc { line, scope, inl }) => (*line, *scope, *inl),
                _ => break,
            };
            let mut s = scope;
            let mut file = None;
            let mut name = String::new();
            let mut g2 = 0;
            while s != 0 && g2 < 64 {
                g2 += 1;
                match self.meta.get(&s) {
                    Some(Meta::Scope { scope, file: f }) => {
                        if file.is_none() && *f != 0 {
                            file = Some(*f);
                        }
                        s = *scope;
                    }
                    Some(Meta::Sub { name: n, file: f, .. }) => {
                        if file.is_none() {
                            file = Some(*f);
                        }
                        name = n.clone();
                        break;
                    }
                    _ => break,
                }
            }
            let fname = match file.and_then(|f| self.meta.get(&f)) {
                Some(Meta::File { dir, name }) => {
                    if name.starts_with('/') {
                        name.clone()
                    } else {
                        format!("{}/{}", dir, name)
                    }
                }
                _ => String::new(),
            };
            out.push((fname, line, name));
            id = inl;
        }
        out
    }

    pub fn parse(text: &str) -> Result<Module, String> {
        let mut m = Module {
            tys: vec![],
            tymap: HashMap::new(),
            named: HashMap::new(),
            funcs: vec![],
            fmap: HashMap::new(),
            globals: vec![],
            gmap: HashMap::new(),
            meta: HashMap::new(),
        };
        m.ty(Ty::Void);
        let lines: Vec<&str> = text.lines().collect();
        // pass 1: names
        let mut glines: Vec<(usize, usize, TyId)> = vec![]; // (line, cursor, type)
        let mut flines: Vec<(usize, u32)> = vec![];
        let mut aliases: Vec<usize> = vec![];
        let mut next = GL_BASE;
        let mut i = 0;
        while i < lines.len() {
            let l = lines[i];
            if l.starts_with('@') {
                let mut c = Cur::new(l);
                let name = c.gname()?;
                c.expect("=")?;
                let mut external = false;
                let mut constant = false;
                let mut alias = false;
                loop {
                    let id = c.peek_ident();
                    match id {
                        "global" => {
                            c.ident();
                            break;
                        }
                        "constant" => {
                            c.ident();
                            constant = true;
                            break;
                        }
                        "alias" => {
                            alias = true;
                            break;
                        }
                        "external" | "extern_weak" => {
                            external = true;
                            c.ident();
                        }
                        "" => return Err(format!("global? {}", l)),
                        _ => {
                            c.ident();
                            c.skip_parens();
                        }
                    }
                }
                if alias {
                    aliases.push(i);
                    i += 1;
                    continue;
                }
                let t = m.parse_ty(&mut c)?;
                let size = m.size_of(t);
                let align = match l.rfind(", align ") {
                    Some(p) => l[p + 8..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(8u64),
                    None => 8,
                }
                .max(1);
                next = (next + align - 1) / align * align;
                let addr = next;
                next += size + 16;
                m.gmap.insert(name.clone(), m.globals.len());
                m.globals.push(Global { name, addr, size, constant, bytes: vec![], undef: external });
                glines.push((i, c.p, t));
            } else if l.starts_with("define") || l.starts_with("declare") {
                let defined = l.starts_with("define");
                let at = l.find('@').ok_or("no fn name")?;
                let mut c = Cur::new(l);
                c.p = at;
                let name = c.gname()?;
                let weak = l[..at].contains("extern_weak");
                let id = m.funcs.len() as u32;
                m.fmap.insert(name.clone(), id);
                m.funcs.push(Func { name, defined, weak, ..Default::default() });
                if defined {
                    flines.push((i, id));
                    while lines[i] != "}" {
                        i += 1;
                    }
                }
            } else if l.starts_with('%') {
                let mut c = Cur::new(l);
                let n = c.lname()?;
                c.expect("=")?;
                c.expect("type")?;
                let t = if c.peek_ident() == "opaque" { m.ty(Ty::Struct(vec![], false)) } else { m.parse_ty(&mut c)? };
                m.named.insert(n, t);
            } else if l.starts_with('!') {
                m.parse_meta(l);
            }
            i += 1;
        }
        for li in aliases {
            // alias to a function or global
            let l = lines[li];
            let mut c = Cur::new(l);
            let name = c.gname()?;
            let at = l.rfind('@').unwrap();
            c.p = at;
            let target = c.gname()?;
            if let Some(f) = m.fmap.get(&target).copied() {
                m.fmap.insert(name, f);
            } else if let Some(g) = m.gmap.get(&target).copied() {
                m.gmap.insert(name, g);
            } else {
                return Err(format!("alias {}", l));
            }
        }
        // pass 2: initialisers
        for (gi, (li, p, t)) in glines.iter().enumerate() {
            if m.globals[gi].undef {
                m.globals[gi].bytes = vec![0; m.globals[gi].size as usize];
                continue;
            }
            let mut c = Cur::new(lines[*li]);
            c.p = *p;
            let k = m.parse_const(&mut c, *t).map_err(|e| format!("{} in {}", e, &lines[*li][..lines[*li].len().min(300)]))?;
            let mut b = vec![0u8; m.globals[gi].size as usize];
            m.write_const(&mut b, 0, *t, &k);
            m.globals[gi].bytes = b;
        }
        // pass 3: functions
        for (li, id) in flines {
            m.parse_func(&lines, li, id)?;
        }
        Ok(m)
    }

    fn parse_meta(&mut self, l: &str) {
        // !123 = [distinct] !DIxxx(...)
        let eq = match l.find(" = ") {
            Some(x) => x,
            None => return,
        };
        let id: u32 = match l[1..eq].parse() {
            Ok(x) => x,
            Err(_) => return,
        };
        let r = l[eq + 3..].trim_start_matches("distinct ");
        fn field<'a>(r: &'a str, k: &str) -> Option<&'a str> {
            // find "k: " preceded by '(' or ' '
            let mut from = 0;
            while let Some(p) = r[from..].find(k) {
                let p = p + from;
                let before = r.as_bytes()[p - 1];
                if before == b'(' || before == b' ' {
                    let s = &r[p + k.len()..];
                    if s.starts_with('"') {
                        let e = s[1..].find('"').unwrap_or(0);
                        return Some(&s[1..1 + e]);
                    }
                    let e = s.find(|c| c == ',' || c == ')').unwrap_or(s.len());
                    return Some(&s[..e]);
                }
                from = p + k.len();
            }
            None
        }
        fn mref(s: Option<&str>) -> u32 {
            s.and_then(|x| x.trim_start_matches('!').parse().ok()).unwrap_or(0)
        }
        let num = |s: Option<&str>| -> u32 { s.and_then(|x| x.parse().ok()).unwrap_or(0) };
        let v = if r.starts_with("!DILocation(") {
            Meta::Loc { line: num(field(r, "line: ")), scope: mref(field(r, "scope: ")), inl: mref(field(r, "inlinedAt: ")) }
        } else if r.starts_with("!DISubprogram(") {
            Meta::Sub { name: field(r, "name: ").unwrap_or("").to_string(), file: mref(field(r, "file: ")), line: num(field(r, "line: ")) }
        } else if r.starts_with("!DILexicalBlock") {
            Meta::Scope { scope: mref(field(r, "scope: ")), file: mref(field(r, "file: ")) }
        } else if r.starts_with("!DIFile(") {
            Meta::File { name: field(r, "filename: ").unwrap_or("").to_string(), dir: field(r, "directory: ").unwrap_or("").to_string() }
        } else {
            return;
        };
        self.meta.insert(id, v);
    }

    fn write_const(&self, b: &mut [u8], off: u64, t: TyId, k: &K) {
        let o = off as usize;
        match k {
            K::Zero | K::Undef => {}
            K::Bytes(x) => b[o..o + x.len()].copy_from_slice(x),
            K::I(v) => {
                let n = ((self.width(t) as usize) + 7) / 8;
                b[o..o + n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
            K::Agg(xs) => {
                for (i, x) in xs.iter().enumerate() {
                    self.write_const(b, off + self.field_off(self.resolve(t), i), self.field_ty(t, i), x);
                }
            }
            K::Splat(x) => {
                for i in 0..self.nfields(t) {
                    self.write_const(b, off + self.field_off(self.resolve(t), i), self.field_ty(t, i), x);
                }
            }
        }
    }

    pub fn parse_ty(&mut self, c: &mut Cur) -> Result<TyId, String> {
        c.ws();
        match c.peek() {
            b'{' => {
                c.p += 1;
                let mut fs = vec![];
                c.ws();
                if c.peek() == b'}' {
                    c.p += 1;
                    return Ok(self.ty(Ty::Struct(fs, false)));
                }
                loop {
                    fs.push(self.parse_ty(c)?);
                    c.ws();
                    if c.peek() == b',' {
                        c.p += 1;
                    } else {
                        c.expect("}")?;
                        break;
                    }
                }
                Ok(self.ty(Ty::Struct(fs, false)))
            }
            b'[' => {
                c.p += 1;
                let n = c.num()? as u64;
                c.expect("x")?;
                let e = self.parse_ty(c)?;
                c.expect("]")?;
                Ok(self.ty(Ty::Array(n, e)))
            }
            b'<' => {
                c.p += 1;
                c.ws();
                if c.peek() == b'{' {
                    let t = self.parse_ty(c)?;
                    c.expect(">")?;
                    if let Ty::Struct(fs, _) = self.tys[t as usize].clone() {
                        return Ok(self.ty(Ty::Struct(fs, true)));
                    }
                    unreachable!()
                }
                let n = c.num()? as u32;
                c.expect("x")?;
                let e = self.parse_ty(c)?;
                c.expect(">")?;
                Ok(self.ty(Ty::Vec(n, e)))
            }
            b'%' => {
                let n = c.lname()?;
                Ok(self.ty(Ty::Named(n)))
            }
            _ => {
                let id = c.ident().to_string();
                let t = match id.as_str() {
                    "void" => Ty::Void,
                    "ptr" => {
                        c.ws();
                        if c.rest().starts_with("addrspace(") {
                            c.ident();
                            c.skip_parens();
                        }
                        Ty::Ptr
                    }
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "metadata" => Ty::Meta,
                    "label" => Ty::Label,
                    _ => {
                        if let Some(n) = id.strip_prefix('i').and_then(|s| s.parse::<u16>().ok()) {
                            Ty::Int(n)
                        } else {
                            return Err(format!("type? '{}' at {}", id, c.rest().chars().take(80).collect::<String>()));
                        }
                    }
                };
                Ok(self.ty(t))
            }
        }
    }

    fn sym_addr(&self, n: &str) -> Result<u64, String> {
        if let Some(f) = self.fmap.get(n) {
            return Ok(self.fn_addr(*f));
        }
        if let Some(g) = self.gmap.get(n) {
            return Ok(self.globals[*g].addr);
        }
        Err(format!("unknown symbol {}", n))
    }

    pub fn parse_const(&mut self, c: &mut Cur, t: TyId) -> Result<K, String> {
        c.ws();
        match c.peek() {
            b'@' => {
                let n = c.gname()?;
                Ok(K::I(self.sym_addr(&n)? as u128))
            }
            b'{' | b'[' | b'<' => {
                let open = c.peek();
                c.p += 1;
                let mut packed = false;
                if open == b'<' {
                    c.ws();
                    if c.peek() == b'{' {
                        packed = true;
                        c.p += 1;
                    }
                }
                let close = match open {
                    b'{' => b'}',
                    b'[' => b']',
                    _ => {
                        if packed {
                            b'}'
                        } else {
                            b'>'
                        }
                    }
                };
                let mut xs = vec![];
                c.ws();
                if c.peek() == close {
                    c.p += 1;
                } else {
                    loop {
                        let et = self.parse_ty(c)?;
                        xs.push(self.parse_const(c, et)?);
                        c.ws();
                        if c.peek() == b',' {
                            c.p += 1;
                        } else if c.peek() == close {
                            c.p += 1;
                            break;
                        } else {
                            return Err(format!("agg const {}", c.rest().chars().take(60).collect::<String>()));
                        }
                    }
                }
                if packed {
                    c.expect(">")?;
                }
                Ok(K::Agg(Arc::new(xs)))
            }
            b'c' if c.rest().starts_with("c\"") => {
                c.p += 1;
                Ok(K::Bytes(Arc::new(c.qbytes()?)))
            }
            b'-' | b'0'..=b'9' => {
                let w = match &self.tys[self.resolve(t) as usize] {
                    Ty::F32 | Ty::F64 => {
                        let s = c.token();
                        let d = if let Some(h) = s.strip_prefix("0x") {
                            u64::from_str_radix(h, 16).map_err(|e| e.to_string())?
                        } else {
                            s.parse::<f64>().map_err(|e| e.to_string())?.to_bits()
                        };
                        let is32 = matches!(self.tys[t as usize], Ty::F32);
                        return Ok(K::I(if is32 { (f64::from_bits(d) as f32).to_bits() as u128 } else { d as u128 }));
                    }
                    _ => self.width(t),
                };
                let neg = c.peek() == b'-';
                if neg {
                    c.p += 1;
                }
                let v = c.num()?;
                let v = if neg { v.wrapping_neg() } else { v };
                Ok(K::I(v & crate::expr::mask(w)))
            }
            _ => {
                let id = c.ident().to_string();
                match id.as_str() {
                    "true" => Ok(K::I(1)),
                    "false" => Ok(K::I(0)),
                    "null" => Ok(K::I(0)),
                    "undef" | "poison" => Ok(K::Undef),
                    "none" => Ok(K::Undef),
                    "zeroinitializer" => Ok(K::Zero),
                    "splat" => {
                        c.expect("(")?;
                        let et = self.parse_ty(c)?;
                        let k = self.parse_const(c, et)?;
                        c.expect(")")?;
                        Ok(K::Splat(Arc::new(k)))
                    }
                    "getelementptr" => {
                        loop {
                            let x = c.peek_ident();
                            if x == "inbounds" || x == "nuw" || x == "nusw" {
                                c.ident();
                            } else if x == "inrange" {
                                c.ident();
                                c.skip_parens();
                            } else {
                                break;
                            }
                        }
                        c.expect("(")?;
                        let st = self.parse_ty(c)?;
                        c.expect(",")?;
                        let pt = self.parse_ty(c)?;
                        let base = self.parse_const(c, pt)?;
                        let mut off: u64 = match base {
                            K::I(v) => v as u64,
                            _ => return Err("gep base".into()),
                        };
                        let mut cur = st;
                        let mut first = true;
                        loop {
                            c.ws();
                            if c.peek() == b')' {
                                c.p += 1;
                                break;
                            }
                            c.expect(",")?;
                            let it = self.parse_ty(c)?;
                            let iw = self.width(it);
                            let v = match self.parse_const(c, it)? {
                                K::I(v) => crate::expr::sext(v, iw) as i64,
                                K::Zero => 0,
                                _ => return Err("gep idx".into()),
                            };
                            if first {
                                off = off.wrapping_add((v as u64).wrapping_mul(self.size_of(st)));
                                first = false;
                            } else {
                                let r = self.resolve(cur);
                                if matches!(self.tys[r as usize], Ty::Struct(..)) {
                                    off = off.wrapping_add(self.field_off(r, v as usize));
                                    cur = self.field_ty(r, v as usize);
                                } else {
                                    let e = self.field_ty(r, 0);
                                    off = off.wrapping_add((v as u64).wrapping_mul(self.size_of(e)));
                                    cur = e;
                                }
                            }
                        }
                        Ok(K::I(off as u128))
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" => {
                        c.expect("(")?;
                        let ft = self.parse_ty(c)?;
                        let k = self.parse_const(c, ft)?;
                        c.expect("to")?;
                        let tt = self.parse_ty(c)?;
                        c.expect(")")?;
                        match k {
                            K::I(v) => Ok(K::I(v & crate::expr::mask(self.width(tt)))),
                            k => Ok(k),
                        }
                    }
                    "sub" | "add" | "xor" => {
                        loop {
                            let x = c.peek_ident();
                            if x == "nuw" || x == "nsw" {
                                c.ident();
                            } else {
                                break;
                            }
                        }
                        c.expect("(")?;
                        let at = self.parse_ty(c)?;
                        let a = self.parse_const(c, at)?;
                        c.expect(",")?;
                        let bt = self.parse_ty(c)?;
                        let b = self.parse_const(c, bt)?;
                        c.expect(")")?;
                        match (a, b) {
                            (K::I(a), K::I(b)) => {
                                let r = match id.as_str() {
                                    "sub" => a.wrapping_sub(b),
                                    "add" => a.wrapping_add(b),
                                    _ => a ^ b,
                                };
                                Ok(K::I(r & crate::expr::mask(self.width(at))))
                            }
                            _ => Err("const expr".into()),
                        }
                    }
                    _ => Err(format!("const? '{}' {}", id, c.rest().chars().take(60).collect::<String>())),
                }
            }
        }
    }

    fn parse_func(&mut self, lines: &[&str], li: usize, id: u32) -> Result<(), String> {
        let name = self.funcs[id as usize].name.clone();
        let r = self.parse_func_inner(lines, li, id);
        r.map_err(|e| format!("{} (function {})", e, name))
    }

    fn parse_func_inner(&mut self, lines: &[&str], li: usize, id: u32) -> Result<(), String> {
        let hdr = lines[li];
        let mut fp = FP { regs: HashMap::new(), blocks: HashMap::new(), n: 0 };
        let mut unnamed = 0usize;
        // return type
        {
            let at = hdr.find('@').unwrap();
            let mut c = Cur::new(hdr);
            c.p = 6;
            c.skip_to_type();
            let t = self.parse_ty(&mut c)?;
            if c.p > at {
                return Err("ret type".into());
            }
            self.funcs[id as usize].ret = t;
            c.p = at;
            c.gname()?;
            c.expect("(")?;
            let mut params = vec![];
            unnamed = 0;
            loop {
                c.ws();
                if c.peek() == b')' {
                    break;
                }
                if c.peek() == b',' {
                    c.p += 1;
                    continue;
                }
                if c.rest().starts_with("...") {
                    c.p += 3;
                    continue;
                }
                let t = self.parse_ty(&mut c)?;
                c.skip_attrs();
                c.ws();
                if c.peek() == b'%' {
                    let n = c.lname()?;
                    unnamed += n.bytes().all(|b| b.is_ascii_digit()) as usize;
                    params.push((t, fp.reg(&n)));
                } else {
                    let n = format!("{}", unnamed);
                    unnamed += 1;
                    params.push((t, fp.reg(&n)));
                }
            }
            self.funcs[id as usize].params = params;
        }
        // logical lines
        let mut i = li + 1;
        let mut logical: Vec<(Option<String>, String)> = vec![]; // (label, inst)
        let mut pending: Option<String> = None;
        let mut order: Vec<String> = vec![];
        let mut first = true;
        while lines[i] != "}" {
            let l = lines[i];
            i += 1;
            if l.is_empty() || l.starts_with(';') {
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let mut c = Cur::new(l);
                let lab = if c.peek() == b'"' {
                    String::from_utf8_lossy(&c.qbytes()?).to_string()
                } else {
                    let e = l.find(':').ok_or_else(|| format!("label? {}", l))?;
                    l[..e].to_string()
                };
                order.push(lab.clone());
                pending = Some(lab);
                first = false;
                continue;
            }
            if l.trim_start().starts_with("#dbg_") || l.trim_start().starts_with(';') {
                continue;
            }
            let mut s = l.trim().to_string();
            if first {
                order.push("".into());
                pending = Some("".into());
                first = false;
            }
            if s.starts_with("switch ") && s.ends_with('[') {
                loop {
                    let x = lines[i].trim();
                    i += 1;
                    s.push(' ');
                    s.push_str(x);
                    if x.starts_with(']') {
                        break;
                    }
                }
            } else if (s.starts_with("invoke ") || s.contains(" = invoke ")) && !s.contains(" unwind label ") {
                s.push(' ');
                s.push_str(lines[i].trim());
                i += 1;
            } else if s.contains(" = landingpad ") {
                while lines[i].trim_start().starts_with("cleanup") || lines[i].trim_start().starts_with("catch ") || lines[i].trim_start().starts_with("filter ") {
                    i += 1;
                }
            }
            logical.push((pending.take(), s));
        }
        for (k, l) in order.iter().enumerate() {
            fp.blocks.insert(l.clone(), k as u32);
        }
        // unnamed entry: its implicit number is the number of unnamed params; phi may reference it
        if order[0].is_empty() {
            let n = format!("{}", unnamed);
            fp.blocks.entry(n).or_insert(0);
        }
        let mut blocks: Vec<Block> = order.iter().map(|_| Block::default()).collect();
        let mut cur: Option<usize> = None;
        let mut ninst = 0;
        for (lab, s) in &logical {
            if let Some(l) = lab {
                cur = Some(fp.blocks[l] as usize);
            }
            let b = &mut blocks[cur.unwrap()];
            let dbg = match s.rfind("!dbg !") {
                Some(p) => s[p + 6..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(0),
                None => 0,
            };
            ninst += 1;
            match self.parse_inst(&mut fp, s) {
                Ok(Some(PI::Phi(d, t, v))) => b.phis.push((d, t, v)),
                Ok(Some(PI::I(x))) => {
                    b.insts.push(x);
                    b.dbg.push(dbg);
                }
                Ok(None) => {}
                Err(e) => {
                    b.insts.push(Inst::Unsupported(format!("{}: {}", e, s.chars().take(200).collect::<String>())));
                    b.dbg.push(dbg);
                }
            }
        }
        let f = &mut self.funcs[id as usize];
        f.blocks = blocks;
        f.nregs = fp.n;
        f.ninst = ninst;
        Ok(())
    }

    fn opnd(&mut self, fp: &mut FP, c: &mut Cur, t: TyId) -> Result<Opnd, String> {
        c.ws();
        if c.peek() == b'%' {
            let n = c.lname()?;
            return Ok(Opnd::R(fp.reg(&n)));
        }
        if matches!(self.tys[t as usize], Ty::Meta) {
            c.skip_meta();
            return Ok(Opnd::K(K::Undef));
        }
        let k = self.parse_const(c, t)?;
        Ok(Opnd::K(k))
    }

    fn topnd(&mut self, fp: &mut FP, c: &mut Cur) -> Result<(TyId, Opnd), String> {
        let t = self.parse_ty(c)?;
        let o = self.opnd(fp, c, t)?;
        Ok((t, o))
    }

    fn parse_inst(&mut self, fp: &mut FP, s: &str) -> Result<Option<PI>, String> {
        let mut c = Cur::new(s);
        let mut dst: Option<u32> = None;
        if c.peek() == b'%' {
            let n = c.lname()?;
            c.expect("=")?;
            dst = Some(fp.reg(&n));
        }
        let mut op = c.ident().to_string();
        if op == "tail" || op == "musttail" || op == "notail" {
            op = c.ident().to_string();
        }
        let d = || dst.ok_or("no dst".to_string());
        let bin = |o: &str| -> Option<BinOp> {
            Some(match o {
                "add" => BinOp::Add,
                "sub" => BinOp::Sub,
                "mul" => BinOp::Mul,
                "udiv" => BinOp::UDiv,
                "sdiv" => BinOp::SDiv,
                "urem" => BinOp::URem,
                "srem" => BinOp::SRem,
                "shl" => BinOp::Shl,
                "lshr" => BinOp::LShr,
                "ashr" => BinOp::AShr,
                "and" => BinOp::And,
                "or" => BinOp::Or,
                "xor" => BinOp::Xor,
                _ => return None,
            })
        };
        let inst = if let Some(b) = bin(&op) {
            c.skip_flags();
            let (t, a) = self.topnd(fp, &mut c)?;
            c.expect(",")?;
            let o2 = self.opnd(fp, &mut c, t)?;
            let (w, lanes) = self.wl(t);
            Inst::Bin { op: b, w, lanes, dst: d()?, a, b: o2 }
        } else {
            match op.as_str() {
                "icmp" => {
                    c.skip_flags();
                    let p = match c.ident() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        x => return Err(format!("pred {}", x)),
                    };
                    let (t, a) = self.topnd(fp, &mut c)?;
                    c.expect(",")?;
                    let b = self.opnd(fp, &mut c, t)?;
                    let (w, lanes) = self.wl(t);
                    Inst::ICmp { p, w, lanes, dst: d()?, a, b }
                }
                "fcmp" => {
                    c.skip_flags();
                    let p = c.ident().to_string();
                    let (t, a) = self.topnd(fp, &mut c)?;
                    c.expect(",")?;
                    let b = self.opnd(fp, &mut c, t)?;
                    let (w, lanes) = self.wl(t);
                    Inst::Fp { op: format!("fcmp.{}", p), from: w, to: 1, lanes, dst: d()?, a, b: Some(b) }
                }
                "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                    c.skip_flags();
                    let (t, a) = self.topnd(fp, &mut c)?;
                    c.expect(",")?;
                    let b = self.opnd(fp, &mut c, t)?;
                    let (w, lanes) = self.wl(t);
                    Inst::Fp { op, from: w, to: w, lanes, dst: d()?, a, b: Some(b) }
                }
                "fneg" => {
                    c.skip_flags();
                    let (t, a) = self.topnd(fp, &mut c)?;
                    let (w, lanes) = self.wl(t);
                    Inst::Fp { op, from: w, to: w, lanes, dst: d()?, a, b: None }
                }
                "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fptrunc" | "fpext" => {
                    c.skip_flags();
                    let (ft, a) = self.topnd(fp, &mut c)?;
                    c.expect("to")?;
                    let tt = self.parse_ty(&mut c)?;
                    let (fw, lanes) = self.wl(ft);
                    let (tw, _) = self.wl(tt);
                    Inst::Fp { op, from: fw, to: tw, lanes, dst: d()?, a, b: None }
                }
                "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast" => {
                    c.skip_flags();
                    let (ft, a) = self.topnd(fp, &mut c)?;
                    c.expect("to")?;
                    let tt = self.parse_ty(&mut c)?;
                    if op == "bitcast" && (self.is_agg(ft) || self.is_agg(tt)) {
                        Inst::BitcastVec { from: ft, to: tt, dst: d()?, a }
                    } else {
                        let (fw, lanes) = self.wl(ft);
                        let (tw, _) = self.wl(tt);
                        let k = match op.as_str() {
                            "trunc" => CastOp::Trunc,
                            "zext" => CastOp::ZExt,
                            "sext" => CastOp::SExt,
                            _ => {
                                if tw < fw {
                                    CastOp::Trunc
                                } else if tw > fw {
                                    CastOp::ZExt
                                } else {
                                    CastOp::Same
                                }
                            }
                        };
                        Inst::Cast { op: k, from: fw, to: tw, lanes, dst: d()?, a }
                    }
                }
                "getelementptr" => {
                    c.skip_flags();
                    let st = self.parse_ty(&mut c)?;
                    c.expect(",")?;
                    let (_, base) = self.topnd(fp, &mut c)?;
                    let mut off = 0u64;
                    let mut terms = vec![];
                    let mut cur = st;
                    let mut first = true;
                    loop {
                        c.ws();
                        if c.peek() != b',' {
                            break;
                        }
                        let save = c.p;
                        c.p += 1;
                        c.ws();
                        if c.peek() == b'!' {
                            c.p = save;
                            break;
                        }
                        let (it, io) = self.topnd(fp, &mut c)?;
                        let iw = self.width(it);
                        let r = self.resolve(cur);
                        if !first && matches!(self.tys[r as usize], Ty::Struct(..)) {
                            let v = match io {
                                Opnd::K(K::I(v)) => v as usize,
                                Opnd::K(K::Zero) => 0,
                                _ => return Err("gep struct idx".into()),
                            };
                            off = off.wrapping_add(self.field_off(r, v));
                            cur = self.field_ty(r, v);
                            continue;
                        }
                        let scale = if first {
                            self.size_of(st)
                        } else {
                            let e = self.field_ty(r, 0);
                            cur = e;
                            self.size_of(e)
                        };
                        first = false;
                        match io {
                            Opnd::K(K::I(v)) => off = off.wrapping_add((crate::expr::sext(v, iw) as u64).wrapping_mul(scale)),
                            Opnd::K(K::Zero) => {}
                            o => terms.push((o, iw, scale)),
                        }
                    }
                    Inst::Gep { dst: d()?, base, off, terms }
                }
                "load" => {
                    c.skip_flags();
                    let t = self.parse_ty(&mut c)?;
                    c.expect(",")?;
                    let (_, p) = self.topnd(fp, &mut c)?;
                    Inst::Load { dst: d()?, ty: t, ptr: p }
                }
                "store" => {
                    c.skip_flags();
                    let (t, v) = self.topnd(fp, &mut c)?;
                    c.expect(",")?;
                    let (_, p) = self.topnd(fp, &mut c)?;
                    Inst::Store { ty: t, val: v, ptr: p }
                }
                "alloca" => {
                    c.skip_flags();
                    let t = self.parse_ty(&mut c)?;
                    let size = self.size_of(t);
                    let mut align = self.align_of(t).max(1);
                    let mut n = None;
                    loop {
                        c.ws();
                        if c.peek() != b',' {
                            break;
                        }
                        c.p += 1;
                        c.ws();
                        if c.peek() == b'!' {
                            break;
                        }
                        if c.peek_ident() == "align" {
                            c.ident();
                            align = c.num()? as u64;
                        } else {
                            n = Some(self.topnd(fp, &mut c)?.1);
                        }
                    }
                    Inst::Alloca { dst: d()?, size, align, n }
                }
                "phi" => {
                    c.skip_flags();
                    let t = self.parse_ty(&mut c)?;
                    let mut v = vec![];
                    loop {
                        c.expect("[")?;
                        let o = self.opnd(fp, &mut c, t)?;
                        c.expect(",")?;
                        let b = c.lname()?;
                        c.expect("]")?;
                        v.push((fp.block(&b)?, o));
                        c.ws();
                        if c.peek() == b',' {
                            let save = c.p;
                            c.p += 1;
                            c.ws();
                            if c.peek() != b'[' {
                                c.p = save;
                                break;
                            }
                        } else {
                            break;
                        }
                    }
                    return Ok(Some(PI::Phi(d()?, t, v)));
                }
                "select" => {
                    c.skip_flags();
                    let (ct, cc) = self.topnd(fp, &mut c)?;
                    c.expect(",")?;
                    let (t, a) = self.topnd(fp, &mut c)?;
                    c.expect(",")?;
                    let (_, b) = self.topnd(fp, &mut c)?;
                    Inst::Select { dst: d()?, ty: t, c: cc, cvec: self.is_agg(ct), a, b }
                }
                "br" => {
                    c.ws();
                    if c.peek_ident() == "label" {
                        c.ident();
                        let b = c.lname()?;
                        Inst::Br(fp.block(&b)?)
                    } else {
                        let (_, cc) = self.topnd(fp, &mut c)?;
                        c.expect(",")?;
                        c.expect("label")?;
                        let x = c.lname()?;
                        c.expect(",")?;
                        c.expect("label")?;
                        let y = c.lname()?;
                        Inst::CondBr(cc, fp.block(&x)?, fp.block(&y)?)
                    }
                }
                "switch" => {
                    let (t, v) = self.topnd(fp, &mut c)?;
                    c.expect(",")?;
                    c.expect("label")?;
                    let def = c.lname()?;
                    c.expect("[")?;
                    let mut cases = vec![];
                    loop {
                        c.ws();
                        if c.peek() == b']' {
                            break;
                        }
                        let ct = self.parse_ty(&mut c)?;
                        let k = match self.parse_const(&mut c, ct)? {
                            K::I(v) => v,
                            _ => return Err("switch case".into()),
                        };
                        c.expect(",")?;
                        c.expect("label")?;
                        let b = c.lname()?;
                        cases.push((k, fp.block(&b)?));
                    }
                    Inst::Switch { w: self.width(t), v, default: fp.block(&def)?, cases }
                }
                "ret" => {
                    let t = self.parse_ty(&mut c)?;
                    if matches!(self.tys[t as usize], Ty::Void) {
                        Inst::Ret(None)
                    } else {
                        let o = self.opnd(fp, &mut c, t)?;
                        Inst::Ret(Some((t, o)))
                    }
                }
                "unreachable" => Inst::Unreachable,
                "resume" => Inst::Resume,
                "fence" => Inst::Nop,
                "landingpad" => Inst::Resume,
                "extractvalue" => {
                    let (t, a) = self.topnd(fp, &mut c)?;
                    let path = c.idx_path()?;
                    Inst::ExtractValue { dst: d()?, ty: t, a, path }
                }
                "insertvalue" => {
                    let (t, a) = self.topnd(fp, &mut c)?;
                    c.expect(",")?;
                    let (vty, v) = self.topnd(fp, &mut c)?;
                    let path = c.idx_path()?;
                    Inst::InsertValue { dst: d()?, ty: t, a, v, vty, path }
                }
                "extractelement" => {
                    let (t, a) = self.topnd(fp, &mut c)?;
                    c.expect(",")?;
                    let (_, i) = self.topnd(fp, &mut c)?;
                    Inst::ExtractElement { dst: d()?, ty: t, a, i }
                }
                "insertelement" => {
                    let (t, a) = self.topnd(fp, &mut c)?;
                    c.expect(",")?;
                    let (_, v) = self.topnd(fp, &mut c)?;
                    c.expect(",")?;
                    let (_, i) = self.topnd(fp, &mut c)?;
                    Inst::InsertElement { dst: d()?, ty: t, a, v, i }
                }
                "shufflevector" => {
                    let (t, a) = self.topnd(fp, &mut c)?;
                    c.expect(",")?;
                    let (_, b) = self.topnd(fp, &mut c)?;
                    c.expect(",")?;
                    let mt = self.parse_ty(&mut c)?;
                    let n = self.nfields(mt);
                    let mut m: Vec<Option<u32>> = vec![];
                    match self.parse_const(&mut c, mt)? {
                        K::Agg(xs) => {
                            for x in xs.iter() {
                                m.push(match x {
                                    K::I(v) => Some(*v as u32),
                                    _ => None,
                                });
                            }
                        }
                        K::Zero => m = vec![Some(0); n],
                        K::Splat(k) => {
                            if let K::I(v) = &*k {
                                m = vec![Some(*v as u32); n]
                            } else {
                                m = vec![None; n]
                            }
                        }
                        _ => m = vec![None; n],
                    }
                    Inst::Shuffle { dst: d()?, ty: t, a, b, m }
                }
                "freeze" => {
                    let (t, a) = self.topnd(fp, &mut c)?;
                    Inst::Freeze { dst: d()?, ty: t, a }
                }
                "atomicrmw" => {
                    c.skip_flags();
                    let o = c.ident().to_string();
                    let (_, p) = self.topnd(fp, &mut c)?;
                    c.expect(",")?;
                    let (t, v) = self.topnd(fp, &mut c)?;
                    Inst::Rmw { dst: d()?, op: o, w: self.width(t), ptr: p, v, ty: t }
                }
                "cmpxchg" => {
                    c.skip_flags();
                    let (_, p) = self.topnd(fp, &mut c)?;
                    c.expect(",")?;
                    let (t, old) = self.topnd(fp, &mut c)?;
                    c.expect(",")?;
                    let (_, new) = self.topnd(fp, &mut c)?;
                    Inst::CmpXchg { dst: d()?, w: self.width(t), ty: t, ptr: p, old, new }
                }
                "call" | "invoke" => {
                    c.skip_to_type();
                    let ret = self.parse_ty(&mut c)?;
                    c.ws();
                    if c.peek() == b'(' {
                        c.skip_parens(); // explicit function type
                        c.ws();
                    }
                    let callee;
                    if c.peek_ident() == "asm" {
                        c.ident();
                        loop {
                            c.ws();
                            if c.peek() == b'"' {
                                break;
                            }
                            c.ident();
                        }
                        let a = String::from_utf8_lossy(&c.qbytes()?).to_string();
                        c.expect(",")?;
                        c.ws();
                        c.qbytes()?;
                        callee = Callee::Asm(a);
                    } else if c.peek() == b'%' {
                        let n = c.lname()?;
                        callee = Callee::Addr(Opnd::R(fp.reg(&n)));
                    } else if c.peek() == b'@' {
                        let n = c.gname()?;
                        match self.fmap.get(&n) {
                            Some(f) => callee = Callee::Fn(*f),
                            None => return Err(format!("callee {}", n)),
                        }
                    } else {
                        let pt = self.ty(Ty::Ptr);
                        callee = Callee::Addr(self.opnd(fp, &mut c, pt)?);
                    }
                    c.expect("(")?;
                    let mut args = vec![];
                    loop {
                        c.ws();
                        if c.peek() == b')' {
                            c.p += 1;
                            break;
                        }
                        if c.peek() == b',' {
                            c.p += 1;
                            continue;
                        }
                        let t = self.parse_ty(&mut c)?;
                        c.skip_attrs();
                        let o = self.opnd(fp, &mut c, t)?;
                        args.push((t, o));
                    }
                    let normal = if op == "invoke" {
                        let p = s.find(" to label ").ok_or("invoke label")?;
                        c.p = p + " to label ".len();
                        let b = c.lname()?;
                        Some(fp.block(&b)?)
                    } else {
                        None
                    };
                    if let Callee::Fn(f) = &callee {
                        let n = &self.funcs[*f as usize].name;
                        if n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") || n.starts_with("llvm.invariant") {
                            return Ok(None);
                        }
                    }
                    Inst::Call { dst, callee, args, ret, normal }
                }
                _ => return Err(format!("opcode {}", op)),
            }
        };
        Ok(Some(PI::I(inst)))
    }
}

enum PI {
    Phi(u32, TyId, Vec<(u32, Opnd)>),
    I(Inst),
}

struct FP {
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
    n: u32,
}
impl FP {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.n;
        self.n += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn block(&self, n: &str) -> Result<u32, String> {
        self.blocks.get(n).copied().ok_or_else(|| format!("block {}", n))
    }
}

pub struct Cur<'a> {
    s: &'a str,
    b: &'a [u8],
    pub p: usize,
}
fn idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}
impl<'a> Cur<'a> {
    pub fn new(s: &'a str) -> Self {
        Cur { s, b: s.as_bytes(), p: 0 }
    }
    pub fn rest(&self) -> &'a str {
        &self.s[self.p..]
    }
    pub fn ws(&mut self) {
        while self.p < self.b.len() && (self.b[self.p] == b' ' || self.b[self.p] == b'\t' || self.b[self.p] == b'\n') {
            self.p += 1;
        }
    }
    pub fn peek(&self) -> u8 {
        *self.b.get(self.p).unwrap_or(&0)
    }
    pub fn peek_ident(&mut self) -> &'a str {
        let save = self.p;
        let r = self.ident();
        self.p = save;
        r
    }
    pub fn ident(&mut self) -> &'a str {
        self.ws();
        let st = self.p;
        while self.p < self.b.len() && (self.b[self.p].is_ascii_alphanumeric() || self.b[self.p] == b'_' || self.b[self.p] == b'.') {
            self.p += 1;
        }
        &self.s[st..self.p]
    }
    pub fn token(&mut self) -> &'a str {
        self.ws();
        let st = self.p;
        while self.p < self.b.len() && !matches!(self.b[self.p], b' ' | b',' | b')' | b']' | b'>' | b'}') {
            self.p += 1;
        }
        &self.s[st..self.p]
    }
    pub fn num(&mut self) -> Result<u128, String> {
        self.ws();
        let st = self.p;
        while self.p < self.b.len() && self.b[self.p].is_ascii_digit() {
            self.p += 1;
        }
        self.s[st..self.p].parse().map_err(|_| format!("number at {}", self.s[st..].chars().take(60).collect::<String>()))
    }
    pub fn expect(&mut self, t: &str) -> Result<(), String> {
        self.ws();
        if self.rest().starts_with(t) {
            self.p += t.len();
            Ok(())
        } else {
            Err(format!("expected '{}' at '{}'", t, self.rest().chars().take(80).collect::<String>()))
        }
    }
    pub fn qbytes(&mut self) -> Result<Vec<u8>, String> {
        if self.peek() != b'"' {
            return Err("expected string".into());
        }
        self.p += 1;
        let mut v = vec![];
        while self.peek() != b'"' {
            if self.p >= self.b.len() {
                return Err("unterminated string".into());
            }
            if self.peek() == b'\\' {
                if self.b[self.p + 1] == b'\\' {
                    v.push(b'\\');
                    self.p += 2;
                    continue;
                }
                let h = u8::from_str_radix(&self.s[self.p + 1..self.p + 3], 16).map_err(|e| e.to_string())?;
                v.push(h);
                self.p += 3;
            } else {
                v.push(self.peek());
                self.p += 1;
            }
        }
        self.p += 1;
        Ok(v)
    }
    fn name(&mut self) -> Result<String, String> {
        if self.peek() == b'"' {
            return Ok(String::from_utf8_lossy(&self.qbytes()?).to_string());
        }
        let st = self.p;
        while self.p < self.b.len() && idc(self.b[self.p]) {
            self.p += 1;
        }
        Ok(self.s[st..self.p].to_string())
    }
    pub fn gname(&mut self) -> Result<String, String> {
        self.expect("@")?;
        self.name()
    }
    pub fn lname(&mut self) -> Result<String, String> {
        self.expect("%")?;
        self.name()
    }
    pub fn skip_parens(&mut self) {
        self.ws();
        if self.peek() != b'(' {
            return;
        }
        let mut d = 0;
        while self.p < self.b.len() {
            match self.b[self.p] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.p += 1;
                        return;
                    }
                }
                b'"' => {
                    let _ = self.qbytes();
                    continue;
                }
                _ => {}
            }
            self.p += 1;
        }
    }
    pub fn skip_meta(&mut self) {
        // !123 or !{...} or !"..." or !DIExpression()
        self.ws();
        while self.p < self.b.len() && !matches!(self.b[self.p], b',' | b')') {
            if self.b[self.p] == b'(' {
                self.skip_parens();
            } else {
                self.p += 1;
            }
        }
    }
    pub fn skip_flags(&mut self) {
        loop {
            let x = self.peek_ident();
            match x {
                "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "volatile" | "atomic" | "weak" | "inalloca" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" => {
                    self.ident();
                }
                "inrange" => {
                    self.ident();
                    self.skip_parens();
                }
                _ => return,
            }
        }
    }
    /// skip parameter attributes in front of a value
    pub fn skip_attrs(&mut self) {
        loop {
            self.ws();
            let c = self.peek();
            if c == b'"' {
                let _ = self.qbytes();
                self.ws();
                if self.peek() == b'=' {
                    self.p += 1;
                    self.ws();
                    let _ = self.qbytes();
                }
                continue;
            }
            if !c.is_ascii_lowercase() {
                return;
            }
            if c == b'c' && self.rest().starts_with("c\"") {
                return;
            }
            let x = self.peek_ident();
            match x {
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "sub" | "add" | "xor" | "none" => return,
                "align" => {
                    self.ident();
                    self.ws();
                    if self.peek() == b'(' {
                        self.skip_parens();
                    } else {
                        let _ = self.num();
                    }
                }
                _ => {
                    self.ident();
                    if self.peek() == b'(' {
                        self.skip_parens();
                    }
                }
            }
        }
    }
    /// skip linkage, calling convention and return attributes in front of a type
    pub fn skip_to_type(&mut self) {
        loop {
            self.ws();
            let c = self.peek();
            if !c.is_ascii_lowercase() {
                return;
            }
            let x = self.peek_ident();
            let is_int = x.len() > 1 && x.starts_with('i') && x[1..].bytes().all(|b| b.is_ascii_digit());
            if is_int || matches!(x, "void" | "ptr" | "float" | "double") {
                return;
            }
            self.ident();
            if x == "align" || x == "cc" {
                self.ws();
                if self.peek().is_ascii_digit() {
                    let _ = self.num();
                    continue;
                }
            }
            if self.peek() == b'(' {
                self.skip_parens();
            }
        }
    }
    pub fn idx_path(&mut self) -> Result<Vec<u32>, String> {
        let mut v = vec![];
        loop {
            self.ws();
            if self.peek() != b',' {
                break;
            }
            let save = self.p;
            self.p += 1;
            self.ws();
            if !self.peek().is_ascii_digit() {
                self.p = save;
                break;
            }
            v.push(self.num()? as u32);
        }
        Ok(v)
    }
}
