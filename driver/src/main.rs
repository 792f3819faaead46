//! MIR fact extractor.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER (argv[1] is the real rustc).  For the crate named in
//! VP_CRATE it walks the monomorphic call graph from every non-generic function of that
//! crate and writes the bodies, types and constants it finds to VP_OUT as JSON lines.
//! Nothing is executed: only the type-checked program is read.
#![feature(rustc_private)]

extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_session;
extern crate rustc_span;

use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;


use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // wrapper mode: drop our own name, keep rustc as argv[0]
    args.remove(0);
    let krate = std::env::var("VP_CRATE").unwrap_or_default();
    let mut name = String::new();
    for w in args.windows(2) {
        if w[0] == "--crate-name" {
            name = w[1].clone();
        }
    }
    if name != krate || name.is_empty() {
        // behave as rustc
        let status = std::process::Command::new(&args[0])
            .args(&args[1..])
            .status()
            .expect("rustc");
        std::process::exit(status.code().unwrap_or(1));
    }
    let out = std::env::var("VP_OUT").expect("VP_OUT");
    let res = rustc_public::run!(&args, || {
        let mut d = Dump::default();
        d.run();
        std::fs::write(&out, d.out.join("\n")).expect("write facts");
        ControlFlow::<(), ()>::Continue(())
    });
    if res.is_err() {
        std::process::exit(1);
    }
}

#[derive(Default)]
struct Dump {
    out: Vec<String>,
    tys: HashMap<Ty, usize>,
    seen: HashSet<Instance>,
    queue: VecDeque<Instance>,
    deep: Vec<String>,
    depth_guard: usize,
    models: HashMap<String, FnDef>,
    redirect: HashMap<String, String>,
}

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

impl Dump {
    fn run(&mut self) {
        self.deep = std::env::var("VP_DEEP")
            .unwrap_or_default()
            .split('\n')
            .map(str::to_owned)
            .filter(|s| !s.is_empty())
            .collect();
        for l in std::env::var("VP_REDIRECT").unwrap_or_default().split('\n') {
            if let Some((a, b)) = l.split_once('=') {
                self.redirect.insert(a.to_owned(), b.to_owned());
            }
        }
        for f in rustc_public::local_crate().fn_defs() {
            self.models.insert(f.name(), f);
        }
        for item in rustc_public::all_local_items() {
            if let Ok(inst) = Instance::try_from(item) {
                if matches!(item.kind(), rustc_public::ItemKind::Fn) {
                    self.enqueue(inst);
                    let l = format!("[\"root\",{},{}]", js(&inst.mangled_name()), js(&item.name()));
                    self.out.push(l);
                }
            }
        }
        while let Some(inst) = self.queue.pop_front() {
            self.dump_instance(inst);
        }
    }

    fn enqueue(&mut self, inst: Instance) {
        if self.seen.insert(inst) {
            self.queue.push_back(inst);
        }
    }

    fn want_body(&self, inst: &Instance) -> bool {
        let krate = inst.def.krate().name;
        if !matches!(krate.as_str(), "core" | "alloc" | "std" | "hashbrown" | "byteorder" | "log"
            | "crc32fast" | "itertools" | "flexstr" | "bpaf" | "modular_bitfield" | "static_assertions") {
            return true;
        }
        let name = inst.def.name();
        self.deep.iter().any(|p| match p.strip_suffix('*') {
            Some(pre) => name.starts_with(pre),
            None => name == *p,
        })
    }

    fn dump_instance(&mut self, inst: Instance) {
        let want = match inst.kind {
            InstanceKind::Item => self.want_body(&inst),
            InstanceKind::Shim => true,
            _ => false,
        };
        let body = if want { inst.body() } else { None };
        let mut s = String::new();
        let span = inst.def.span();
        let args = inst.args();
        let targs: Vec<String> = args
            .0
            .iter()
            .filter_map(|a| match a {
                GenericArgKind::Type(t) => Some(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => Some(js(&c
                    .eval_target_usize()
                    .map(|v| v.to_string())
                    .unwrap_or_else(|_| format!("{c:?}")))),
                GenericArgKind::Lifetime(_) => None,
            })
            .collect();
        let kind = match inst.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let _ = write!(
            s,
            "[\"fn\",{},{},{},{},{},{},{},",
            js(&inst.mangled_name()),
            js(&inst.name()),
            js(&inst.def.name()),
            js(&inst.def.krate().name),
            js(kind),
            arr(targs),
            js(&format!("{}:{}", span.get_filename(), span.get_lines().start_line)),
        );
        match body {
            Some(b) => {
                let t = self.body(&b);
                s.push_str(&t);
            }
            None => s.push_str("null"),
        }
        s.push(']');
        self.out.push(s);
    }

    fn body(&mut self, b: &Body) -> String {
        let locals = arr(b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect::<Vec<_>>());
        // reachable blocks, ignoring unwind edges
        let mut reach = vec![false; b.blocks.len()];
        let mut st = vec![0usize];
        while let Some(i) = st.pop() {
            if reach[i] {
                continue;
            }
            reach[i] = true;
            match &b.blocks[i].terminator.kind {
                TerminatorKind::Goto { target } => st.push(*target),
                TerminatorKind::SwitchInt { targets, .. } => st.extend(targets.all_targets()),
                TerminatorKind::Drop { target, .. } | TerminatorKind::Assert { target, .. } => st.push(*target),
                TerminatorKind::Call { target: Some(t), .. } => st.push(*t),
                _ => {}
            }
        }
        let mut blocks = Vec::new();
        for (i, bb) in b.blocks.iter().enumerate() {
            if !reach[i] {
                blocks.push("null".to_owned());
                continue;
            }
            let mut stmts = Vec::new();
            for st in &bb.statements {
                let line = st.source_info.span.get_lines().start_line;
                match &st.kind {
                    StatementKind::Assign(p, r) => {
                        let r = self.rvalue(r, b);
                        stmts.push(format!("[\"=\",{},{},{}]", self.place(p), r, line));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        stmts.push(format!("[\"sd\",{},{}]", self.place(place), variant_index.to_index()));
                    }
                    StatementKind::StorageLive(l) => stmts.push(format!("[\"live\",{l}]")),
                    StatementKind::StorageDead(l) => stmts.push(format!("[\"dead\",{l}]")),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        let (x, y, z) = (self.op(&c.src), self.op(&c.dst), self.op(&c.count));
                        stmts.push(format!("[\"memcpy\",{x},{y},{z}]"));
                    }
                    _ => {}
                }
            }
            let line = bb.terminator.source_info.span.get_lines().start_line;
            let file = bb.terminator.source_info.span.get_filename();
            let term = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{target}]"),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.op(discr);
                    let ty = discr.ty(b.locals()).map(|t| self.ty(t)).unwrap_or(0);
                    let br = arr(targets.branches().map(|(v, t)| format!("[{v},{t}]")));
                    format!("[\"sw\",{d},{br},{},{ty},{line}]", targets.otherwise())
                }
                TerminatorKind::Return => "[\"ret\"]".to_owned(),
                TerminatorKind::Unreachable => "[\"unreach\"]".to_owned(),
                TerminatorKind::Resume => "[\"resume\"]".to_owned(),
                TerminatorKind::Abort => "[\"abort\"]".to_owned(),
                TerminatorKind::Drop { place, target, .. } => {
                    let ty = place.ty(b.locals()).map(|t| self.ty(t)).unwrap_or(0);
                    format!("[\"drop\",{},{target},{ty}]", self.place(place))
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.callee(func, b);
                    let a = arr(args.iter().map(|a| self.op(a)).collect::<Vec<_>>());
                    let t = target.map_or("null".to_owned(), |t| t.to_string());
                    format!("[\"call\",{f},{a},{},{t},{line},{}]", self.place(destination), js(&file))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.op(cond);
                    let (k, ops) = match msg {
                        AssertMessage::BoundsCheck { len, index } => {
                            ("bounds".to_owned(), vec![self.op(len), self.op(index)])
                        }
                        AssertMessage::Overflow(o, x, y) => {
                            (format!("overflow:{o:?}"), vec![self.op(x), self.op(y)])
                        }
                        AssertMessage::OverflowNeg(x) => ("overflow:Neg".to_owned(), vec![self.op(x)]),
                        AssertMessage::DivisionByZero(x) => ("div0".to_owned(), vec![self.op(x)]),
                        AssertMessage::RemainderByZero(x) => ("rem0".to_owned(), vec![self.op(x)]),
                        _ => ("other".to_owned(), vec![]),
                    };
                    format!("[\"assert\",{c},{expected},{},{},{target},{line}]", js(&k), arr(ops))
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".to_owned(),
            };
            blocks.push(format!("[{},{}]", arr(stmts), term));
        }
        let names = arr(b.var_debug_info.iter().filter_map(|v| {
            v.local().map(|l| format!("[{l},{}]", js(&v.name)))
        }));
        let spread = b.spread_arg().map_or("null".to_owned(), |l| l.to_string());
        format!(
            "{{\"locals\":{locals},\"argc\":{},\"spread\":{spread},\"names\":{names},\"blocks\":{}}}",
            b.arg_locals().len(),
            arr(blocks)
        )
    }

    fn callee(&mut self, func: &Operand, b: &Body) -> String {
        if let Ok(t) = func.ty(b.locals()) {
            if let TyKind::RigidTy(RigidTy::FnDef(def, args)) = t.kind() {
                if let Some(intr) = def.as_intrinsic() {
                    if intr.must_be_overridden() || !def.has_body() {
                        let ta = arr(args.0.iter().filter_map(|a| match a {
                            GenericArgKind::Type(t) => Some(self.ty(*t).to_string()),
                            _ => None,
                        }).collect::<Vec<_>>());
                        return format!("[\"intr\",{},{ta}]", js(&intr.fn_name()));
                    }
                }
                if let Some(k) = self.redirected(&def.name(), &args) {
                    return k;
                }
                return match Instance::resolve(def, &args) {
                    Ok(inst) => {
                        let iargs = inst.args();
                        if let Some(k) = self.redirected(&inst.def.name(), &iargs) {
                            return k;
                        }
                        if let InstanceKind::Virtual { idx } = inst.kind {
                            let ta = arr(args.0.iter().filter_map(|a| match a {
                                GenericArgKind::Type(t) => Some(self.ty(*t).to_string()),
                                _ => None,
                            }).collect::<Vec<_>>());
                            format!("[\"virt\",{},{idx},{ta}]", js(&def.name()))
                        } else {
                            self.enqueue(inst);
                            format!("[\"fn\",{}]", js(&inst.mangled_name()))
                        }
                    }
                    Err(_) => format!("[\"unres\",{}]", js(&def.name())),
                };
            }
        }
        format!("[\"ptr\",{}]", self.op(func))
    }

    /// A library function for which the harness has a reference model: the model is analysed
    /// in its place, at the same generic arguments.
    fn redirected(&mut self, name: &str, args: &GenericArgs) -> Option<String> {
        let m = *self.models.get(self.redirect.get(name)?)?;
        let filtered: Vec<GenericArgKind> = args
            .0
            .iter()
            .filter(|a| !matches!(a, GenericArgKind::Lifetime(_)))
            .cloned()
            .collect();
        let inst = Instance::resolve(m, &GenericArgs(filtered)).ok()?;
        self.enqueue(inst);
        Some(format!("[\"fn\",{}]", js(&inst.mangled_name())))
    }

    fn place(&mut self, p: &Place) -> String {
        let pr = arr(p.projection.iter().map(|e| match e {
            ProjectionElem::Deref => "\"*\"".to_owned(),
            ProjectionElem::Field(i, t) => format!("[\"f\",{i},{}]", self.ty(*t)),
            ProjectionElem::Index(l) => format!("[\"i\",{l}]"),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                format!("[\"ci\",{offset},{min_length},{from_end}]")
            }
            ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{from},{to},{from_end}]"),
            ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
            ProjectionElem::OpaqueCast(_) => "\"oc\"".to_owned(),
        }).collect::<Vec<_>>());
        format!("[{},{}]", p.local, pr)
    }

    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.mconst(&c.const_)),
            Operand::RuntimeChecks(r) => format!("[\"k\",[\"rtc\",{}]]", js(&format!("{r:?}"))),
        }
    }

    fn rvalue(&mut self, r: &Rvalue, b: &Body) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"ref\",true,{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Discriminant(p) => {
                let ty = p.ty(b.locals()).map(|t| self.ty(t)).unwrap_or(0);
                format!("[\"discr\",{},{ty}]", self.place(p))
            }
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::BinaryOp(o, x, y) => {
                let ty = x.ty(b.locals()).map(|t| self.ty(t)).unwrap_or(0);
                format!("[\"bin\",{},{},{},{ty}]", js(&format!("{o:?}")), self.op(x), self.op(y))
            }
            Rvalue::CheckedBinaryOp(o, x, y) => {
                let ty = x.ty(b.locals()).map(|t| self.ty(t)).unwrap_or(0);
                format!("[\"chk\",{},{},{},{ty}]", js(&format!("{o:?}")), self.op(x), self.op(y))
            }
            Rvalue::UnaryOp(o, x) => {
                let ty = x.ty(b.locals()).map(|t| self.ty(t)).unwrap_or(0);
                format!("[\"un\",{},{},{ty}]", js(&format!("{o:?}")), self.op(x))
            }
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(b.locals()).map(|t| self.ty(t)).unwrap_or(0);
                if let CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_) | PointerCoercion::ClosureFnPointer(_)) = k {
                    // value keeps its FnDef/closure type
                }
                format!("[\"cast\",{},{},{},{from}]", js(&format!("{k:?}")), self.op(o), self.ty(*t))
            }
            Rvalue::Aggregate(k, ops) => {
                let (kind, ty, var) = match k {
                    AggregateKind::Array(_) => ("array", r.ty(b.locals()).map(|t| self.ty(t)).unwrap_or(0), 0),
                    AggregateKind::Tuple => ("tuple", r.ty(b.locals()).map(|t| self.ty(t)).unwrap_or(0), 0),
                    AggregateKind::Adt(_, v, _, _, active) => (
                        if active.is_some() { "union" } else { "adt" },
                        r.ty(b.locals()).map(|t| self.ty(t)).unwrap_or(0),
                        v.to_index(),
                    ),
                    AggregateKind::Closure(..) => ("closure", r.ty(b.locals()).map(|t| self.ty(t)).unwrap_or(0), 0),
                    AggregateKind::RawPtr(..) => ("rawptr", r.ty(b.locals()).map(|t| self.ty(t)).unwrap_or(0), 0),
                    _ => ("other", 0, 0),
                };
                let o = arr(ops.iter().map(|o| self.op(o)).collect::<Vec<_>>());
                format!("[\"agg\",{},{ty},{var},{o}]", js(kind))
            }
            Rvalue::Repeat(o, n) => {
                let n = n.eval_target_usize().map(|v| v.to_string()).unwrap_or("null".to_owned());
                format!("[\"repeat\",{},{n}]", self.op(o))
            }
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".to_owned(),
        }
    }

    // ---- types -------------------------------------------------------------------------
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let id = self.tys.len() + 1;
        self.tys.insert(t, id);
        let name = format!("{t}");
        let desc = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "[\"bool\"]".to_owned(),
                RigidTy::Char => "[\"char\"]".to_owned(),
                RigidTy::Int(i) => format!("[\"int\",{},true]", i.num_bytes()),
                RigidTy::Uint(i) => format!("[\"int\",{},false]", i.num_bytes()),
                RigidTy::Float(f) => format!("[\"float\",{}]", js(&format!("{f:?}"))),
                RigidTy::Str => "[\"str\"]".to_owned(),
                RigidTy::Never => "[\"never\"]".to_owned(),
                RigidTy::Array(e, n) => format!(
                    "[\"array\",{},{}]",
                    self.ty(e),
                    n.eval_target_usize().map(|v| v.to_string()).unwrap_or("null".to_owned())
                ),
                RigidTy::Slice(e) => format!("[\"slice\",{}]", self.ty(e)),
                RigidTy::RawPtr(e, _) => format!("[\"ptr\",{}]", self.ty(e)),
                RigidTy::Ref(_, e, m) => format!("[\"ref\",{},{}]", self.ty(e), matches!(m, Mutability::Mut)),
                RigidTy::Tuple(ts) => format!("[\"tuple\",{}]", arr(ts.iter().map(|t| self.ty(*t).to_string()).collect::<Vec<_>>())),
                RigidTy::FnDef(def, args) => {
                    let key = if def.is_intrinsic() { None } else {
                        Instance::resolve(def, &args).ok().filter(|i| !matches!(i.kind, InstanceKind::Virtual { .. }))
                    };
                    let k = match key {
                        Some(i) => {
                            self.enqueue(i);
                            js(&i.mangled_name())
                        }
                        None => "null".to_owned(),
                    };
                    format!("[\"fndef\",{k},{}]", js(&def.name()))
                }
                RigidTy::Closure(def, args) => {
                    let k = match Instance::resolve_closure(def, &args, ClosureKind::Fn) {
                        Ok(i) => {
                            self.enqueue(i);
                            js(&i.mangled_name())
                        }
                        Err(_) => "null".to_owned(),
                    };
                    // upvar types: last generic arg is the tuple of captures
                    let up = match args.0.last() {
                        Some(GenericArgKind::Type(t)) => self.ty(*t).to_string(),
                        _ => "null".to_owned(),
                    };
                    format!("[\"closure\",{k},{},{up}]", js(&def.name()))
                }
                RigidTy::Adt(def, args) => {
                    let targs = arr(args.0.iter().filter_map(|a| match a {
                        GenericArgKind::Type(t) => Some(self.ty(*t).to_string()),
                        GenericArgKind::Const(c) => Some(js(&c.eval_target_usize().map(|v| v.to_string()).unwrap_or_default())),
                        _ => None,
                    }).collect::<Vec<_>>());
                    let mut vs = Vec::new();
                    for v in def.variants() {
                        let discr = if def.kind().is_enum() {
                            def.discriminant_for_variant(v.idx()).val.to_string()
                        } else { "0".to_owned() };
                        let fs = arr(v.fields().iter().map(|f| {
                            format!("[{},{}]", js(&f.name), self.ty(f.ty_with_args(&args)))
                        }).collect::<Vec<_>>());
                        vs.push(format!("[{},{discr},{fs}]", js(&v.name())));
                    }
                    let kind = match def.kind() { AdtKind::Enum => "enum", AdtKind::Union => "union", AdtKind::Struct => "struct" };
                    format!("[\"adt\",{},{},{},{}]", js(&def.name()), js(kind), targs, arr(vs))
                }
                RigidTy::FnPtr(_) => "[\"fnptr\"]".to_owned(),
                RigidTy::Dynamic(..) => "[\"dyn\"]".to_owned(),
                _ => "[\"other\"]".to_owned(),
            },
            _ => "[\"other\"]".to_owned(),
        };
        let size = t.layout().map(|l| l.shape().size.bytes().to_string()).unwrap_or("null".to_owned());
        self.out.push(format!("[\"ty\",{id},{},{desc},{size}]", js(&name)));
        id
    }

    // ---- constants ---------------------------------------------------------------------
    fn mconst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        match c.kind() {
            ConstantKind::ZeroSized => format!("[\"zst\",{}]", self.ty(t)),
            ConstantKind::Allocated(a) => self.alloc_val(a, 0, t),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, a) => self.alloc_val(a, 0, *t),
                TyConstKind::ZSTValue(t) => format!("[\"zst\",{}]", self.ty(*t)),
                _ => format!("[\"opaque\",{}]", js(&format!("{tc:?}"))),
            },
            _ => format!("[\"opaque\",{}]", js(&format!("{c:?}"))),
        }
    }

    fn read_uint(&self, a: &Allocation, off: usize, n: usize) -> Option<u128> {
        a.read_partial_uint(off..off + n).ok()
    }

    fn ptr_at(&self, a: &Allocation, off: usize) -> Option<rustc_public::mir::alloc::AllocId> {
        a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0)
    }

    fn bytes_of(&self, a: &Allocation) -> Vec<u8> {
        a.bytes.iter().map(|b| b.unwrap_or(0)).collect()
    }

    fn alloc_val(&mut self, a: &Allocation, off: usize, t: Ty) -> String {
        if self.depth_guard > 40 {
            return "[\"opaque\",\"deep\"]".to_owned();
        }
        self.depth_guard += 1;
        let r = self.alloc_val_(a, off, t);
        self.depth_guard -= 1;
        r.unwrap_or_else(|| format!("[\"opaque\",{}]", js(&format!("{t}"))))
    }

    fn alloc_val_(&mut self, a: &Allocation, off: usize, t: Ty) -> Option<String> {
        let tid = self.ty(t);
        let shape = t.layout().ok()?.shape();
        let size = shape.size.bytes();
        let TyKind::RigidTy(r) = t.kind() else { return None };
        Some(match r {
            RigidTy::Bool => format!("[\"bool\",{}]", self.read_uint(a, off, 1)? != 0),
            RigidTy::Int(i) => {
                let n = i.num_bytes();
                let v = self.read_uint(a, off, n)?;
                let sh = 128 - 8 * n as u32;
                format!("[\"int\",{},{tid}]", ((v << sh) as i128) >> sh)
            }
            RigidTy::Uint(i) => format!("[\"int\",{},{tid}]", self.read_uint(a, off, i.num_bytes())?),
            RigidTy::Char => format!("[\"char\",{}]", self.read_uint(a, off, 4)?),
            RigidTy::Float(_) => format!("[\"float\",{},{size}]", self.read_uint(a, off, size)?),
            RigidTy::Ref(_, inner, _) | RigidTy::RawPtr(inner, _) => {
                let id = self.ptr_at(a, off);
                let base = self.read_uint(a, off, 8);
                match inner.kind() {
                    TyKind::RigidTy(RigidTy::Str) => {
                        let len = self.read_uint(a, off + 8, 8)? as usize;
                        let Some(id) = id else { return Some("[\"ref\",[\"str\",\"\"]]".to_owned()) };
                        let GlobalAlloc::Memory(m) = GlobalAlloc::from(id) else { return None };
                        let b = self.bytes_of(&m);
                        let o = base? as usize;
                        let s = String::from_utf8_lossy(b.get(o..o + len)?).into_owned();
                        format!("[\"ref\",[\"str\",{}]]", js(&s))
                    }
                    TyKind::RigidTy(RigidTy::Slice(e)) => {
                        let len = self.read_uint(a, off + 8, 8)? as usize;
                        let et = self.ty(e);
                        if len == 0 { return Some(format!("[\"ref\",[\"slice\",{et},[]]]")); }
                        let id = id?;
                        let GlobalAlloc::Memory(m) = GlobalAlloc::from(id) else { return None };
                        let es = e.layout().ok()?.shape().size.bytes();
                        let o = base? as usize;
                        if len > 4096 { return None; }
                        let v: Vec<String> = (0..len).map(|i| self.alloc_val(&m, o + i * es, e)).collect();
                        format!("[\"ref\",[\"slice\",{et},{}]]", arr(v))
                    }
                    TyKind::RigidTy(RigidTy::Dynamic(..)) => return None,
                    _ => {
                        let Some(id) = id else { return Some("[\"opaque\",\"danglingptr\"]".to_owned()) };
                        match GlobalAlloc::from(id) {
                            GlobalAlloc::Memory(m) => format!("[\"ref\",{}]", self.alloc_val(&m, base? as usize, inner)),
                            GlobalAlloc::Static(s) => format!("[\"static\",{}]", js(&s.name())),
                            _ => return None,
                        }
                    }
                }
            }
            RigidTy::FnPtr(_) => {
                let id = self.ptr_at(a, off)?;
                match GlobalAlloc::from(id) {
                    GlobalAlloc::Function(i) => {
                        self.enqueue(i);
                        format!("[\"fn\",{}]", js(&i.mangled_name()))
                    }
                    _ => return None,
                }
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().ok()? as usize;
                if n > 4096 { return None; }
                let es = e.layout().ok()?.shape().size.bytes();
                let et = self.ty(e);
                let v: Vec<String> = (0..n).map(|i| self.alloc_val(a, off + i * es, e)).collect();
                format!("[\"slice\",{et},{}]", arr(v))
            }
            RigidTy::Tuple(ts) => {
                if size == 0 { return Some(format!("[\"zst\",{tid}]")); }
                let FieldsShape::Arbitrary { offsets } = &shape.fields else { return None };
                let v: Vec<String> = ts.iter().enumerate().map(|(i, ft)| self.alloc_val(a, off + offsets[i].bytes(), *ft)).collect();
                format!("[\"agg\",{tid},0,{}]", arr(v))
            }
            RigidTy::FnDef(..) | RigidTy::Closure(..) => format!("[\"zst\",{tid}]"),
            RigidTy::Adt(def, args) => match def.kind() {
                AdtKind::Struct => {
                    let v0 = def.variants();
                    let fs = v0[0].fields();
                    let offs: Vec<usize> = match &shape.fields {
                        FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
                        _ => vec![0; fs.len()],
                    };
                    let v: Vec<String> = fs.iter().enumerate().map(|(i, f)| {
                        self.alloc_val(a, off + offs[i], f.ty_with_args(&args))
                    }).collect();
                    format!("[\"agg\",{tid},0,{}]", arr(v))
                }
                AdtKind::Enum => {
                    let (vi, offs): (usize, Vec<usize>) = match &shape.variants {
                        VariantsShape::Single { index } => {
                            let o = match &shape.fields {
                                FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
                                _ => vec![],
                            };
                            (index.to_index(), o)
                        }
                        VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                            let to = match &shape.fields {
                                FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                                _ => 0,
                            };
                            let ts = match tag {
                                rustc_public::abi::Scalar::Initialized { value, .. }
                                | rustc_public::abi::Scalar::Union { value } => {
                                    value.size(&rustc_public::target::MachineInfo::target()).bytes()
                                }
                            };
                            let isptr = self.ptr_at(a, off + to).is_some();
                            let raw = self.read_uint(a, off + to, ts)?;
                            let vi = match tag_encoding {
                                TagEncoding::Direct => {
                                    let mut f = None;
                                    for v in def.variants() {
                                        let d = def.discriminant_for_variant(v.idx()).val;
                                        let mask = if ts >= 16 { u128::MAX } else { (1u128 << (8 * ts)) - 1 };
                                        if d & mask == raw { f = Some(v.idx().to_index()); }
                                    }
                                    f?
                                }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    let mask = if ts >= 16 { u128::MAX } else { (1u128 << (8 * ts)) - 1 };
                                    let rel = raw.wrapping_sub(*niche_start) & mask;
                                    let lo = niche_variants.start().to_index() as u128;
                                    let hi = niche_variants.end().to_index() as u128;
                                    if !isptr && rel <= hi - lo { (lo + rel) as usize } else { untagged_variant.to_index() }
                                }
                            };
                            (vi, variants[vi].offsets.iter().map(|o| o.bytes()).collect())
                        }
                        VariantsShape::Empty => return None,
                    };
                    let v = &def.variants()[vi];
                    let fs: Vec<String> = v.fields().iter().enumerate().map(|(i, f)| {
                        self.alloc_val(a, off + offs[i], f.ty_with_args(&args))
                    }).collect();
                    format!("[\"agg\",{tid},{vi},{}]", arr(fs))
                }
                AdtKind::Union if def.name().contains("FlexStr") => {
                    // a text known at compile time
                    let o = (0..size).step_by(8).find(|o| self.ptr_at(a, off + o).is_some())?;
                    let id = self.ptr_at(a, off + o)?;
                    let base = self.read_uint(a, off + o, 8)? as usize;
                    let len = self.read_uint(a, off + o + 8, 8)? as usize;
                    let GlobalAlloc::Memory(m) = GlobalAlloc::from(id) else { return None };
                    let b = self.bytes_of(&m);
                    let s = String::from_utf8(b.get(base..base.checked_add(len)?)?.to_vec()).ok()?;
                    format!("[\"str\",{}]", js(&s))
                }
                AdtKind::Union => return None,
            },
            _ => return None,
        })
    }
}
