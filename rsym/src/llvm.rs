//! Hand-written FFI to the LLVM C API and the lowering of an LLVM module to
//! the engine's internal instruction set (see ir.rs).
#![allow(non_camel_case_types)]
use crate::bits::Bits;
use crate::expr::*;
use crate::ir::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_ulonglong, c_void, CStr, CString};

pub type P = *mut c_void;
extern "C" {
    fn LLVMContextCreate() -> P;
    fn LLVMCreateMemoryBufferWithContentsOfFile(p: *const c_char, out: *mut P, err: *mut *mut c_char) -> c_int;
    fn LLVMParseBitcodeInContext2(c: P, b: P, out: *mut P) -> c_int;
    fn LLVMLinkModules2(d: P, s: P) -> c_int;
    fn LLVMModuleCreateWithNameInContext(n: *const c_char, c: P) -> P;
    fn LLVMGetModuleDataLayout(m: P) -> P;
    fn LLVMSetDataLayout(m: P, s: *const c_char);
    fn LLVMGetDataLayoutStr(m: P) -> *const c_char;
    fn LLVMSetTarget(m: P, s: *const c_char);
    fn LLVMGetTarget(m: P) -> *const c_char;
    fn LLVMStripModuleDebugInfo(m: P) -> c_int;
    fn LLVMWriteBitcodeToFile(m: P, p: *const c_char) -> c_int;
    fn LLVMPrintModuleToFile(m: P, p: *const c_char, err: *mut *mut c_char) -> c_int;
    fn LLVMGetFirstFunction(m: P) -> P;
    fn LLVMGetNextFunction(f: P) -> P;
    fn LLVMGetFirstGlobal(m: P) -> P;
    fn LLVMGetNextGlobal(f: P) -> P;
    fn LLVMGetFirstGlobalAlias(m: P) -> P;
    fn LLVMGetNextGlobalAlias(f: P) -> P;
    fn LLVMAliasGetAliasee(a: P) -> P;
    fn LLVMGetNamedFunction(m: P, n: *const c_char) -> P;
    fn LLVMGetValueName2(v: P, n: *mut usize) -> *const c_char;
    fn LLVMIsDeclaration(v: P) -> c_int;
    fn LLVMSetLinkage(v: P, l: c_int);
    fn LLVMGetLinkage(v: P) -> c_int;
    fn LLVMSetInitializer(v: P, i: P);
    fn LLVMDeleteGlobal(v: P);
    fn LLVMCountParams(f: P) -> c_uint;
    fn LLVMGetParam(f: P, i: c_uint) -> P;
    fn LLVMGetFirstBasicBlock(f: P) -> P;
    fn LLVMGetNextBasicBlock(b: P) -> P;
    fn LLVMGetFirstInstruction(b: P) -> P;
    fn LLVMGetNextInstruction(i: P) -> P;
    fn LLVMGetInstructionOpcode(i: P) -> c_int;
    fn LLVMGetNumOperands(i: P) -> c_int;
    fn LLVMGetOperand(i: P, n: c_uint) -> P;
    fn LLVMTypeOf(v: P) -> P;
    fn LLVMGetTypeKind(t: P) -> c_int;
    fn LLVMGetIntTypeWidth(t: P) -> c_uint;
    fn LLVMGetElementType(t: P) -> P;
    fn LLVMGetArrayLength2(t: P) -> u64;
    fn LLVMGetVectorSize(t: P) -> c_uint;
    fn LLVMCountStructElementTypes(t: P) -> c_uint;
    fn LLVMStructGetTypeAtIndex(t: P, i: c_uint) -> P;
    fn LLVMOffsetOfElement(d: P, t: P, i: c_uint) -> c_ulonglong;
    fn LLVMABISizeOfType(d: P, t: P) -> c_ulonglong;
    fn LLVMGetICmpPredicate(i: P) -> c_int;
    fn LLVMGetConstOpcode(c: P) -> c_int;
    fn LLVMConstIntGetZExtValue(c: P) -> c_ulonglong;
    fn LLVMPrintValueToString(v: P) -> *mut c_char;
    fn LLVMDisposeMessage(m: *mut c_char);
    fn LLVMGetAllocatedType(i: P) -> P;
    fn LLVMGetGEPSourceElementType(i: P) -> P;
    fn LLVMGetNumIndices(i: P) -> c_uint;
    fn LLVMGetIndices(i: P) -> *const c_uint;
    fn LLVMGetCalledValue(i: P) -> P;
    fn LLVMGetNumArgOperands(i: P) -> c_uint;
    fn LLVMGetNumSuccessors(i: P) -> c_uint;
    fn LLVMGetSuccessor(i: P, n: c_uint) -> P;
    fn LLVMGetSwitchCaseValue(i: P, n: c_uint) -> P;
    fn LLVMGetCondition(i: P) -> P;
    fn LLVMCountIncoming(i: P) -> c_uint;
    fn LLVMGetIncomingValue(i: P, n: c_uint) -> P;
    fn LLVMGetIncomingBlock(i: P, n: c_uint) -> P;
    fn LLVMGetNumMaskElements(i: P) -> c_uint;
    fn LLVMGetMaskValue(i: P, n: c_uint) -> c_int;
    fn LLVMIsNull(v: P) -> c_int;
    fn LLVMIsUndef(v: P) -> c_int;
    fn LLVMIsPoison(v: P) -> c_int;
    fn LLVMGetAggregateElement(v: P, i: c_uint) -> P;
    fn LLVMGetAsString(v: P, n: *mut usize) -> *const c_char;
    fn LLVMIsConstantString(v: P) -> c_int;
    fn LLVMGetInitializer(v: P) -> P;
    fn LLVMIsGlobalConstant(v: P) -> c_int;
    fn LLVMGlobalGetValueType(v: P) -> P;
    fn LLVMGetValueKind(v: P) -> c_int;
    fn LLVMGetBasicBlockTerminator(b: P) -> P;
    fn LLVMGetAtomicRMWBinOp(i: P) -> c_int;
    fn LLVMIsConditional(i: P) -> c_int;
    fn LLVMCreateEnumAttribute(c: P, k: c_uint, v: u64) -> P;
    fn LLVMGetEnumAttributeKindForName(n: *const c_char, l: usize) -> c_uint;
    fn LLVMAddAttributeAtIndex(f: P, i: c_uint, a: P);
    fn LLVMRemoveEnumAttributeAtIndex(f: P, i: c_uint, k: c_uint);
    fn LLVMCreatePassBuilderOptions() -> P;
    fn LLVMRunPasses(m: P, p: *const c_char, tm: P, o: P) -> P;
    fn LLVMGetErrorMessage(e: P) -> *mut c_char;
    fn LLVMParseCommandLineOptions(n: c_int, v: *const *const c_char, o: *const c_char);
}

fn cstr(s: &str) -> CString {
    CString::new(s).unwrap()
}
fn name_of(v: P) -> String {
    unsafe {
        let mut n = 0;
        let p = LLVMGetValueName2(v, &mut n);
        String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).to_string()
    }
}

pub struct Module {
    ctx: P,
    pub m: P,
}

impl Module {
    pub fn cmdline(opts: &[&str]) {
        let v: Vec<CString> = std::iter::once("rsym").chain(opts.iter().copied()).map(cstr).collect();
        let p: Vec<*const c_char> = v.iter().map(|x| x.as_ptr()).collect();
        unsafe { LLVMParseCommandLineOptions(p.len() as c_int, p.as_ptr(), std::ptr::null()) }
    }
    pub fn new() -> Module {
        unsafe {
            let ctx = LLVMContextCreate();
            let m = LLVMModuleCreateWithNameInContext(cstr("all").as_ptr(), ctx);
            Module { ctx, m }
        }
    }
    pub fn link_file(&mut self, path: &str, first: bool) -> Result<(), String> {
        unsafe {
            let mut buf = std::ptr::null_mut();
            let mut err = std::ptr::null_mut();
            if LLVMCreateMemoryBufferWithContentsOfFile(cstr(path).as_ptr(), &mut buf, &mut err) != 0 {
                return Err(format!("cannot read {path}"));
            }
            let mut m = std::ptr::null_mut();
            if LLVMParseBitcodeInContext2(self.ctx, buf, &mut m) != 0 {
                return Err(format!("cannot parse {path}"));
            }
            LLVMStripModuleDebugInfo(m);
            if first {
                LLVMSetDataLayout(self.m, LLVMGetDataLayoutStr(m));
                LLVMSetTarget(self.m, LLVMGetTarget(m));
            }
            if LLVMLinkModules2(self.m, m) != 0 {
                return Err(format!("cannot link {path}"));
            }
            Ok(())
        }
    }
    pub fn functions(&self) -> Vec<(String, P, bool)> {
        let mut v = vec![];
        unsafe {
            let mut f = LLVMGetFirstFunction(self.m);
            while !f.is_null() {
                v.push((name_of(f), f, LLVMIsDeclaration(f) != 0));
                f = LLVMGetNextFunction(f);
            }
        }
        v
    }
    fn attr_kind(n: &str) -> c_uint {
        unsafe { LLVMGetEnumAttributeKindForName(n.as_ptr() as *const c_char, n.len()) }
    }
    pub fn set_noinline(&self, f: P) {
        unsafe {
            LLVMRemoveEnumAttributeAtIndex(f, !0, Self::attr_kind("alwaysinline"));
            LLVMRemoveEnumAttributeAtIndex(f, !0, Self::attr_kind("inlinehint"));
            let a = LLVMCreateEnumAttribute(self.ctx, Self::attr_kind("noinline"), 0);
            LLVMAddAttributeAtIndex(f, !0, a);
            // keep the call's effects opaque to the optimiser
            for k in ["memory", "willreturn", "nosync", "nofree", "speculatable"] {
                LLVMRemoveEnumAttributeAtIndex(f, !0, Self::attr_kind(k));
            }
        }
    }
    pub fn set_internal(&self, v: P, internal: bool) {
        unsafe { LLVMSetLinkage(v, if internal { 8 } else { 0 }) }
    }
    pub fn linkage(&self, v: P) -> i32 {
        unsafe { LLVMGetLinkage(v) }
    }
    /// make every definition internal, except `roots`
    pub fn internalize(&self, roots: &dyn Fn(&str) -> bool) {
        unsafe {
            for (n, f, decl) in self.functions() {
                if !decl {
                    self.set_internal(f, !roots(&n));
                }
            }
            let mut g = LLVMGetFirstGlobal(self.m);
            while !g.is_null() {
                let next = LLVMGetNextGlobal(g);
                let n = name_of(g);
                if n == "llvm.used" || n == "llvm.compiler.used" || n == "llvm.global_ctors" {
                    LLVMDeleteGlobal(g);
                } else if LLVMIsDeclaration(g) == 0 {
                    self.set_internal(g, true);
                }
                g = next;
            }
        }
    }
    pub fn passes(&self, p: &str) -> Result<(), String> {
        unsafe {
            let o = LLVMCreatePassBuilderOptions();
            let e = LLVMRunPasses(self.m, cstr(p).as_ptr(), std::ptr::null_mut(), o);
            if !e.is_null() {
                return Err(CStr::from_ptr(LLVMGetErrorMessage(e)).to_string_lossy().to_string());
            }
            Ok(())
        }
    }
    pub fn write(&self, path: &str) {
        unsafe {
            LLVMWriteBitcodeToFile(self.m, cstr(path).as_ptr());
        }
    }
    pub fn print(&self, path: &str) {
        unsafe {
            let mut err = std::ptr::null_mut();
            LLVMPrintModuleToFile(self.m, cstr(path).as_ptr(), &mut err);
        }
    }

    // ------------------------------------------------------------ lowering

    pub fn lower(&self) -> Program {
        unsafe { Lower::new(self).run() }
    }
}

struct Lower<'a> {
    md: &'a Module,
    dl: P,
    addr: HashMap<P, u64>,
    prog: Program,
    tys: HashMap<P, Ty>,
    size_memo: HashMap<P, u64>,
    ccache: HashMap<P, Opd>,
}

impl<'a> Lower<'a> {
    unsafe fn new(md: &'a Module) -> Self {
        Lower {
            md,
            dl: LLVMGetModuleDataLayout(md.m),
            addr: HashMap::new(),
            prog: Program::default(),
            tys: HashMap::new(),
            size_memo: HashMap::new(),
            ccache: HashMap::new(),
        }
    }
    unsafe fn size(&mut self, t: P) -> u64 {
        if let Some(s) = self.size_memo.get(&t) {
            return *s;
        }
        let s = LLVMABISizeOfType(self.dl, t);
        self.size_memo.insert(t, s);
        s
    }
    /// bytes touched by a load or store (an i40 takes 5, not its ABI size 8)
    unsafe fn msize(&mut self, t: P) -> u64 {
        match self.ty(t) {
            Ty::Int(w) => (w as u64 + 7) / 8,
            _ => self.size(t),
        }
    }
    unsafe fn ty(&mut self, t: P) -> Ty {
        if let Some(x) = self.tys.get(&t) {
            return x.clone();
        }
        let r = match LLVMGetTypeKind(t) {
            0 => Ty::Void,
            1 => Ty::Int(16),
            2 => Ty::Int(32),
            3 => Ty::Int(64),
            8 => Ty::Int(LLVMGetIntTypeWidth(t)),
            12 => Ty::Int(64),
            10 => {
                let n = LLVMCountStructElementTypes(t);
                let mut f = vec![];
                for i in 0..n {
                    let et = LLVMStructGetTypeAtIndex(t, i);
                    f.push((LLVMOffsetOfElement(self.dl, t, i), self.ty(et)));
                }
                Ty::Agg(std::rc::Rc::new(AggTy { size: self.size(t), fields: f, vec: false }))
            }
            11 => {
                let n = LLVMGetArrayLength2(t);
                let et = LLVMGetElementType(t);
                let es = self.size(et);
                let e = self.ty(et);
                let n = n.min(100000);
                Ty::Agg(std::rc::Rc::new(AggTy {
                    size: es * n,
                    fields: (0..n).map(|i| (i * es, e.clone())).collect(),
                    vec: false,
                }))
            }
            13 => {
                let n = LLVMGetVectorSize(t) as u64;
                let et = LLVMGetElementType(t);
                let e = self.ty(et);
                let Ty::Int(ew) = e else { panic!("vector of non-int") };
                Ty::Agg(std::rc::Rc::new(AggTy {
                    size: (ew as u64 * n + 7) / 8,
                    fields: (0..n).map(|i| (i * ew as u64 / 8, e.clone())).collect(),
                    vec: true,
                }))
            }
            7 => Ty::Void, // label
            9 | 14 | 16 | 20 => Ty::Void,
            k => Ty::Unsupported(k),
        };
        self.tys.insert(t, r.clone());
        r
    }

    unsafe fn run(mut self) -> Program {
        // functions get addresses in window 1
        let fs = self.md.functions();
        for (i, (n, f, _)) in fs.iter().enumerate() {
            let a = FN_WINDOW << 32 | (i as u64 + 1) * 16;
            self.addr.insert(*f, a);
            self.prog.funcs.push(Func::empty(n.clone()));
        }
        // globals: windows 2..
        let mut globs = vec![];
        let mut g = LLVMGetFirstGlobal(self.md.m);
        while !g.is_null() {
            globs.push(g);
            g = LLVMGetNextGlobal(g);
        }
        // mutable globals last, so that they form the start of the dynamic space
        globs.sort_by_key(|g| (LLVMIsGlobalConstant(*g) == 0) as u8);
        let nconst = globs.iter().filter(|g| LLVMIsGlobalConstant(**g) != 0).count();
        self.prog.nconst = nconst;
        for (i, g) in globs.iter().enumerate() {
            self.addr.insert(*g, (GLOB_BASE + i as u64) << 32);
        }
        let mut a = LLVMGetFirstGlobalAlias(self.md.m);
        let mut aliases = vec![];
        while !a.is_null() {
            aliases.push(a);
            a = LLVMGetNextGlobalAlias(a);
        }
        for a in aliases {
            let t = LLVMAliasGetAliasee(a);
            if let Some(x) = self.addr.get(&t).copied() {
                self.addr.insert(a, x);
            }
        }
        for g in &globs {
            let t = LLVMGlobalGetValueType(*g);
            let sz = self.size(t);
            let mut data = vec![0u8; sz as usize];
            let init = LLVMGetInitializer(*g);
            let mut ext = false;
            if LLVMIsDeclaration(*g) != 0 || init.is_null() {
                ext = true;
            } else {
                self.init(init, t, &mut data);
            }
            self.prog.globals.push(Global { name: name_of(*g), data, external: ext });
        }
        for (i, (n, f, decl)) in fs.iter().enumerate() {
            if *decl {
                continue;
            }
            let fun = self.func(*f, n);
            self.prog.funcs[i] = fun;
        }
        self.prog
    }

    unsafe fn init(&mut self, c: P, t: P, out: &mut [u8]) {
        if LLVMIsNull(c) != 0 || LLVMIsUndef(c) != 0 || LLVMIsPoison(c) != 0 {
            return;
        }
        match LLVMGetTypeKind(t) {
            11 | 13 => {
                if LLVMGetTypeKind(t) == 11 && LLVMIsConstantString(c) != 0 {
                    let mut n = 0;
                    let p = LLVMGetAsString(c, &mut n);
                    out[..n].copy_from_slice(std::slice::from_raw_parts(p as *const u8, n));
                    return;
                }
                let et = LLVMGetElementType(t);
                let es = self.size(et) as usize;
                let n = if LLVMGetTypeKind(t) == 11 { LLVMGetArrayLength2(t) as usize } else { LLVMGetVectorSize(t) as usize };
                for i in 0..n {
                    let e = LLVMGetAggregateElement(c, i as u32);
                    self.init(e, et, &mut out[i * es..(i + 1) * es]);
                }
            }
            10 => {
                let n = LLVMCountStructElementTypes(t);
                for i in 0..n {
                    let et = LLVMStructGetTypeAtIndex(t, i);
                    let o = LLVMOffsetOfElement(self.dl, t, i) as usize;
                    let s = self.size(et) as usize;
                    let e = LLVMGetAggregateElement(c, i);
                    self.init(e, et, &mut out[o..o + s]);
                }
            }
            _ => match self.constant(c) {
                Opd::C(v) => {
                    for (i, b) in out.iter_mut().enumerate() {
                        *b = if i < 8 { (v >> (8 * i)) as u8 } else { 0 };
                    }
                }
                Opd::E(e) => {
                    let b = const_bits(e).expect("constant initialiser");
                    let by = b.to_le_bytes(width(e));
                    for (i, x) in by.iter().enumerate() {
                        out[i] = *x;
                    }
                }
                o => panic!("initialiser {o:?}"),
            },
        }
    }

    /// constants
    unsafe fn constant(&mut self, v: P) -> Opd {
        if let Some(o) = self.ccache.get(&v) {
            return o.clone();
        }
        let o = self.constant0(v);
        self.ccache.insert(v, o.clone());
        o
    }
    unsafe fn constant0(&mut self, v: P) -> Opd {
        let t = LLVMTypeOf(v);
        let ty = self.ty(t);
        if let Some(a) = self.addr.get(&v) {
            return Opd::C(*a);
        }
        if LLVMIsNull(v) != 0 || LLVMIsUndef(v) != 0 || LLVMIsPoison(v) != 0 {
            return zero_of(&ty);
        }
        if let Ty::Agg(a) = &ty {
            let f = (0..a.fields.len())
                .map(|i| {
                    let e = LLVMGetAggregateElement(v, i as u32);
                    self.constant(e)
                })
                .collect();
            return Opd::Agg(f);
        }
        // value kinds: ConstantInt=18?, ConstantExpr=10 ... use the printed form for wide ints
        let kind = LLVMGetValueKind(v);
        match kind {
            VK_CONSTANT_INT => {
                let Ty::Int(w) = ty else { panic!() };
                if w <= 64 {
                    return Opd::C(LLVMConstIntGetZExtValue(v) & crate::bits::mask(w));
                }
                let s = LLVMPrintValueToString(v);
                let txt = CStr::from_ptr(s).to_string_lossy().to_string();
                LLVMDisposeMessage(s);
                let num = txt.rsplit(' ').next().unwrap();
                let (neg, digits) = match num.strip_prefix('-') {
                    Some(d) => (true, d),
                    None => (false, num),
                };
                let b = if digits == "true" { Bits::from_u64(w, 1) } else { crate::z3::parse_dec(digits, w) };
                Opd::E(cbits(w, &if neg { b.neg(w) } else { b }))
            }
            VK_CONSTANT_FP => {
                let s = LLVMPrintValueToString(v);
                let txt = CStr::from_ptr(s).to_string_lossy().to_string();
                LLVMDisposeMessage(s);
                let num = txt.rsplit(' ').next().unwrap().to_string();
                let bits = if let Some(h) = num.strip_prefix("0x") {
                    u64::from_str_radix(h.trim_start_matches(|c: char| !c.is_ascii_hexdigit()), 16).unwrap_or(0)
                } else {
                    num.parse::<f64>().unwrap_or(0.0).to_bits()
                };
                Opd::C(bits)
            }
            VK_CONSTANT_EXPR => {
                let op = LLVMGetConstOpcode(v);
                match op {
                    29 => {
                        // GEP
                        let (base, off) = self.const_gep(v);
                        Opd::C(base.wrapping_add(off))
                    }
                    // trunc, zext, ptrtoint, inttoptr, bitcast
                    30 | 31 | 39 | 40 | 41 | 60 | 69 => {
                        let x = LLVMGetOperand(v, 0);
                        let r = self.constant(x);
                        match (r, &ty) {
                            (Opd::C(a), Ty::Int(w)) => Opd::C(a & crate::bits::mask(*w)),
                            (r, _) => r,
                        }
                    }
                    8 | 10 | 12 | 38 => {
                        let a = self.constant(LLVMGetOperand(v, 0));
                        let b = self.constant(LLVMGetOperand(v, 1));
                        let Ty::Int(w) = ty else { panic!() };
                        match (a, b) {
                            (Opd::C(a), Opd::C(b)) => Opd::C(
                                match op {
                                    8 => a.wrapping_add(b),
                                    10 => a.wrapping_sub(b),
                                    12 => a.wrapping_mul(b),
                                    _ => a ^ b,
                                } & crate::bits::mask(w),
                            ),
                            _ => panic!("const expr operands"),
                        }
                    }
                    _ => {
                        let s = LLVMPrintValueToString(v);
                        panic!("const expr opcode {op}: {}", CStr::from_ptr(s).to_string_lossy())
                    }
                }
            }
            VK_ALIAS => {
                let x = LLVMAliasGetAliasee(v);
                self.constant(x)
            }
            k => {
                // unsupported constants are kept as a poison marker that only
                // matters if executed
                let s = LLVMPrintValueToString(v);
                let txt = CStr::from_ptr(s).to_string_lossy().to_string();
                Opd::Bad(format!("const kind {k}: {}", txt.chars().take(120).collect::<String>()))
            }
        }
    }
    unsafe fn const_gep(&mut self, v: P) -> (u64, u64) {
        let b = self.constant(LLVMGetOperand(v, 0));
        let Opd::C(base) = b else { panic!("const gep base") };
        let st = LLVMGetGEPSourceElementType(v);
        let n = LLVMGetNumOperands(v);
        let mut off = 0u64;
        let mut t = st;
        for i in 1..n {
            let o = self.constant(LLVMGetOperand(v, i as u32));
            let ow = match self.ty(LLVMTypeOf(LLVMGetOperand(v, i as u32))) {
                Ty::Int(w) => w,
                _ => 64,
            };
            let Opd::C(k) = o else { panic!("const gep index") };
            let k = Bits::S(k).sext(ow, 64).u64();
            if i == 1 {
                off = off.wrapping_add(k.wrapping_mul(self.size(t)));
            } else {
                match LLVMGetTypeKind(t) {
                    10 => {
                        off = off.wrapping_add(LLVMOffsetOfElement(self.dl, t, k as u32));
                        t = LLVMStructGetTypeAtIndex(t, k as u32);
                    }
                    _ => {
                        t = LLVMGetElementType(t);
                        off = off.wrapping_add(k.wrapping_mul(self.size(t)));
                    }
                }
            }
        }
        (base, off)
    }

    unsafe fn func(&mut self, f: P, name: &str) -> Func {
        let mut out = Func::empty(name.to_string());
        out.defined = true;
        let mut regs: HashMap<P, u32> = HashMap::new();
        let np = LLVMCountParams(f);
        for i in 0..np {
            let p = LLVMGetParam(f, i);
            let t = self.ty(LLVMTypeOf(p));
            out.params.push(t);
            regs.insert(p, i);
        }
        let mut nreg = np;
        let mut blocks: HashMap<P, u32> = HashMap::new();
        let mut bl = vec![];
        let mut b = LLVMGetFirstBasicBlock(f);
        while !b.is_null() {
            blocks.insert(b, bl.len() as u32);
            bl.push(b);
            let mut i = LLVMGetFirstInstruction(b);
            while !i.is_null() {
                let t = self.ty(LLVMTypeOf(i));
                if !matches!(t, Ty::Void) {
                    regs.insert(i, nreg);
                    nreg += 1;
                }
                i = LLVMGetNextInstruction(i);
            }
            b = LLVMGetNextBasicBlock(b);
        }
        out.nregs = nreg;
        for b in &bl {
            let mut blk = Block { phis: vec![], insts: vec![] };
            let mut i = LLVMGetFirstInstruction(*b);
            while !i.is_null() {
                let op = LLVMGetInstructionOpcode(i);
                if op == 44 {
                    let mut inc = vec![];
                    for k in 0..LLVMCountIncoming(i) {
                        let v = LLVMGetIncomingValue(i, k);
                        let bb = LLVMGetIncomingBlock(i, k);
                        inc.push((blocks[&bb], self.opd(v, &regs)));
                    }
                    blk.phis.push((regs[&i], inc));
                } else {
                    let inst = self.inst(i, op, &regs, &blocks);
                    if let Some(x) = inst {
                        blk.insts.push(x);
                    }
                }
                i = LLVMGetNextInstruction(i);
            }
            out.blocks.push(blk);
        }
        out
    }
    unsafe fn opd(&mut self, v: P, regs: &HashMap<P, u32>) -> Opd {
        if let Some(r) = regs.get(&v) {
            return Opd::R(*r);
        }
        if LLVMGetTypeKind(LLVMTypeOf(v)) == 14 {
            return Opd::C(0);
        }
        self.constant(v)
    }
    unsafe fn inst(&mut self, i: P, op: c_int, regs: &HashMap<P, u32>, blocks: &HashMap<P, u32>) -> Option<Inst> {
        let t = self.ty(LLVMTypeOf(i));
        let dst = regs.get(&i).copied().unwrap_or(u32::MAX);
        macro_rules! o {
            ($n:expr) => {{
                let v = LLVMGetOperand(i, $n);
                self.opd(v, regs)
            }};
        }
        macro_rules! oty {
            ($n:expr) => {{
                let v = LLVMGetOperand(i, $n);
                self.ty(LLVMTypeOf(v))
            }};
        }
        Some(match op {
            1 => {
                let v = if LLVMGetNumOperands(i) > 0 { Some(o!(0)) } else { None };
                Inst::Ret(v)
            }
            // LLVMBr (older) = 2; newer C API splits br into Br / CondBr
            2 | 70..=73 => {
                let n = LLVMGetNumSuccessors(i);
                if n == 1 {
                    Inst::Br(blocks[&LLVMGetSuccessor(i, 0)])
                } else if n == 2 {
                    let c = LLVMGetCondition(i);
                    Inst::CondBr(self.opd(c, regs), blocks[&LLVMGetSuccessor(i, 0)], blocks[&LLVMGetSuccessor(i, 1)])
                } else {
                    Inst::Bad(format!("br with {n} successors"))
                }
            }
            3 => {
                let c = o!(0);
                let Ty::Int(w) = oty!(0) else { panic!() };
                let n = LLVMGetNumSuccessors(i);
                let d = blocks[&LLVMGetSuccessor(i, 0)];
                let mut cases = vec![];
                for k in 1..n {
                    let v = LLVMGetSwitchCaseValue(i, k);
                    let cv = self.constant(v);
                    cases.push((cv.to_e(w), cv.c64(), blocks[&LLVMGetSuccessor(i, k)]));
                }
                Inst::Switch { c, w, cases, def: d }
            }
            5 => {
                let s = LLVMPrintValueToString(i);
                panic!("invoke left: {}", CStr::from_ptr(s).to_string_lossy())
            }
            7 => Inst::Unreachable,
            8 | 10 | 12 | 14 | 15 | 17 | 18 | 20..=25 => {
                let b = match op {
                    8 => Bin::Add,
                    10 => Bin::Sub,
                    12 => Bin::Mul,
                    14 => Bin::UDiv,
                    15 => Bin::SDiv,
                    17 => Bin::URem,
                    18 => Bin::SRem,
                    20 => Bin::Shl,
                    21 => Bin::LShr,
                    22 => Bin::AShr,
                    23 => Bin::And,
                    24 => Bin::Or,
                    _ => Bin::Xor,
                };
                Inst::Bin { op: b, dst, ty: t, a: o!(0), b: o!(1) }
            }
            26 => {
                let et = LLVMGetAllocatedType(i);
                let sz = self.size(et);
                let n = o!(0);
                Inst::Alloca { dst, size: sz, n }
            }
            27 => {
                let sz = self.msize(LLVMTypeOf(i));
                Inst::Load { dst, ty: t, size: sz, p: o!(0) }
            }
            28 => {
                let ty = oty!(0);
                let sz = self.msize(LLVMTypeOf(LLVMGetOperand(i, 0)));
                Inst::Store { ty, size: sz, v: o!(0), p: o!(1) }
            }
            29 => {
                if matches!(t, Ty::Agg(_)) {
                    return Some(Inst::Bad("vector gep".into()));
                }
                let base = o!(0);
                let st = LLVMGetGEPSourceElementType(i);
                let n = LLVMGetNumOperands(i) as u32;
                let mut off = 0u64;
                let mut idx = vec![];
                let mut ct = st;
                for k in 1..n {
                    let ov = LLVMGetOperand(i, k);
                    let ow = match self.ty(LLVMTypeOf(ov)) {
                        Ty::Int(w) => w,
                        _ => 64,
                    };
                    let scale;
                    if k == 1 {
                        scale = self.size(ct);
                    } else {
                        match LLVMGetTypeKind(ct) {
                            10 => {
                                let Opd::C(f) = self.constant(ov) else { panic!() };
                                off = off.wrapping_add(LLVMOffsetOfElement(self.dl, ct, f as u32));
                                ct = LLVMStructGetTypeAtIndex(ct, f as u32);
                                continue;
                            }
                            _ => {
                                ct = LLVMGetElementType(ct);
                                scale = self.size(ct);
                            }
                        }
                    }
                    match self.opd(ov, regs) {
                        Opd::C(c) => {
                            let c = Bits::S(c).sext(ow, 64).u64();
                            off = off.wrapping_add(c.wrapping_mul(scale));
                        }
                        r => idx.push((r, ow, scale)),
                    }
                }
                Inst::Gep { dst, base, off, idx }
            }
            30..=32 | 39..=41 | 60 => {
                let from = oty!(0);
                let k = match op {
                    30 | 31 | 39 | 40 => Cast::ZTrunc,
                    32 => Cast::SExt,
                    41 => Cast::Bitcast,
                    _ => Cast::ZTrunc,
                };
                Inst::Cast { k, dst, from, to: t, a: o!(0) }
            }
            42 => Inst::Icmp { dst, pred: LLVMGetICmpPredicate(i) as u8, ty: oty!(0), a: o!(0), b: o!(1) },
            45 => {
                let cv = LLVMGetCalledValue(i);
                let n = LLVMGetNumArgOperands(i);
                let mut args = vec![];
                let mut atys = vec![];
                for k in 0..n {
                    args.push(o!(k));
                    atys.push(oty!(k));
                }
                let callee = self.opd(cv, regs);
                Inst::Call(Box::new(Call { dst, ret: t, callee, args, atys }))
            }
            46 => Inst::Select { dst, ty: t, c: o!(0), a: o!(1), b: o!(2), vc: matches!(oty!(0), Ty::Agg(_)) },
            50 => Inst::ExtractElt { dst, v: o!(0), i: o!(1), iw: oty!(1).w() },
            51 => Inst::InsertElt { dst, v: o!(0), e: o!(1), i: o!(2), iw: oty!(2).w() },
            52 => {
                let n = LLVMGetNumMaskElements(i);
                let m = (0..n).map(|k| LLVMGetMaskValue(i, k)).collect();
                Inst::Shuffle { dst, a: o!(0), b: o!(1), mask: m }
            }
            53 | 54 => {
                let n = LLVMGetNumIndices(i);
                let p = LLVMGetIndices(i);
                let ix: Vec<u32> = (0..n).map(|k| *p.add(k as usize)).collect();
                if op == 53 {
                    Inst::ExtractVal { dst, v: o!(0), ix }
                } else {
                    Inst::InsertVal { dst, v: o!(0), e: o!(1), ix }
                }
            }
            55 => return None, // fence
            56 => {
                let ty = oty!(1);
                let sz = self.size(LLVMTypeOf(LLVMGetOperand(i, 1)));
                Inst::CmpXchg { dst, ty, size: sz, p: o!(0), c: o!(1), n: o!(2) }
            }
            57 => {
                let sz = self.size(LLVMTypeOf(i));
                Inst::Rmw { dst, op: LLVMGetAtomicRMWBinOp(i), ty: t, size: sz, p: o!(0), v: o!(1) }
            }
            68 => Inst::Copy { dst, a: o!(0) },
            _ => {
                let s = LLVMPrintValueToString(i);
                let txt = CStr::from_ptr(s).to_string_lossy().to_string();
                LLVMDisposeMessage(s);
                Inst::Bad(format!("opcode {op}: {}", txt.chars().take(160).collect::<String>()))
            }
        })
    }
}

const VK_CONSTANT_EXPR: c_int = 10;
const VK_CONSTANT_INT: c_int = 18;
const VK_CONSTANT_FP: c_int = 19;
const VK_ALIAS: c_int = 6;

pub fn zero_of(t: &Ty) -> Opd {
    match t {
        Ty::Int(w) if *w <= 64 => Opd::C(0),
        Ty::Int(w) => Opd::E(cst(*w, 0)),
        Ty::Agg(a) => Opd::Agg(a.fields.iter().map(|f| zero_of(&f.1)).collect()),
        _ => Opd::C(0),
    }
}
