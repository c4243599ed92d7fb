//! Compiler driver: type-checks and monomorphises the crate it is handed and
//! writes the MIR of everything reachable from its local functions as JSON.
//! Invoked by cargo as RUSTC_WORKSPACE_WRAPPER; DCP_MIR_OUT names the output.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

use rustc_middle::ty::TyCtxt;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::crate_def::CrateDef;
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDefType, ItemKind};
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty, usize>,
    ty_json: Vec<Option<String>>,
    ty_queue: VecDeque<Ty>,
    fns: HashMap<Instance, usize>,
    fn_json: Vec<Option<String>>,
    fn_queue: VecDeque<Instance>,
    allocs: HashMap<AllocId, usize>,
    alloc_json: Vec<Option<String>>,
    alloc_queue: VecDeque<AllocId>,
    files: Vec<String>,
    file_ids: HashMap<String, usize>,
}

/// Functions the analysis models itself: their bodies are not needed.
fn opaque(name: &str) -> bool {
    const P: &[&str] = &[
        "core::core_arch::",
        "std::core_arch::",
        "core::panicking::",
        "std::rt::",
        "std::panicking::",
        "core::fmt::",
        "alloc::fmt::",
        "std::fmt::",
        "std::sync::",
        "core::sync::",
        "std::thread::",
        "std::sys::",
        "std_detect::",
        "std::alloc::",
        "alloc::alloc::",
        "std::string::",
        "alloc::string::",
        "alloc::ffi::",
        "std::ffi::",
        "core::ffi::",
        "std::vec::",
        "alloc::vec::",
        "std::borrow::",
        "core::str::",
        "std::io::",
        "std::env::",
        "std::error::",
    ];
    P.iter().any(|p| name.starts_with(p))
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_json.len();
        self.tys.insert(t, i);
        self.ty_json.push(None);
        self.ty_queue.push_back(t);
        i
    }
    fn inst(&mut self, f: Instance) -> usize {
        if let Some(i) = self.fns.get(&f) {
            return *i;
        }
        let i = self.fn_json.len();
        self.fns.insert(f, i);
        self.fn_json.push(None);
        self.fn_queue.push_back(f);
        i
    }
    fn alloc_id(&mut self, a: AllocId) -> usize {
        if let Some(i) = self.allocs.get(&a) {
            return *i;
        }
        let i = self.alloc_json.len();
        self.allocs.insert(a, i);
        self.alloc_json.push(None);
        self.alloc_queue.push_back(a);
        i
    }
    fn span(&mut self, s: Span) -> String {
        let f = s.get_filename().to_string();
        let l = s.get_lines();
        let id = match self.file_ids.get(&f) {
            Some(i) => *i,
            None => {
                let i = self.files.len();
                self.files.push(f.clone());
                self.file_ids.insert(f, i);
                i
            }
        };
        format!("[{},{},{}]", id, l.start_line, l.start_col)
    }

    fn alloc(&mut self, a: &Allocation) -> String {
        let mut hex = String::new();
        for b in &a.bytes {
            match b {
                Some(b) => {
                    let _ = write!(hex, "{:02x}", b);
                }
                None => hex.push_str("??"),
            }
        }
        let ptrs = a
            .provenance
            .ptrs
            .iter()
            .map(|(o, p)| {
                let id = self.alloc_id(p.0);
                format!("[{},{}]", o, id)
            })
            .collect::<Vec<_>>();
        format!(
            "{{\"b\":\"{}\",\"p\":{},\"al\":{},\"mut\":{}}}",
            hex,
            list(ptrs),
            a.align,
            matches!(a.mutability, Mutability::Mut)
        )
    }

    fn gen_args(&mut self, a: &GenericArgs) -> String {
        let v: Vec<String> = a
            .0
            .iter()
            .map(|k| match k {
                GenericArgKind::Lifetime(_) => "[\"l\"]".to_string(),
                GenericArgKind::Type(t) => format!("[\"t\",{}]", self.ty(*t)),
                GenericArgKind::Const(c) => self.tyconst(c),
            })
            .collect();
        list(v)
    }
    fn tyconst(&mut self, c: &TyConst) -> String {
        match c.kind() {
            TyConstKind::Value(t, a) => {
                let al = self.alloc(a);
                format!("[\"c\",{},{}]", self.ty(*t), al)
            }
            TyConstKind::ZSTValue(t) => format!("[\"z\",{}]", self.ty(*t)),
            o => format!("[\"?\",{}]", q(&format!("{:?}", o))),
        }
    }

    fn attrs(&mut self, f: Instance) -> String {
        let did = match rustc_public::rustc_internal::internal(self.tcx, f.def.def_id()) {
            d => d,
        };
        let kind = self.tcx.def_kind(did);
        let mut feats: Vec<String> = vec![];
        use rustc_hir::def::DefKind;
        let mut export = false;
        if matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            let a = self.tcx.codegen_fn_attrs(did);
            for t in a.target_features.iter() {
                feats.push(q(t.name.as_str()));
            }
            export = a.contains_extern_indicator();
        }
        format!("\"features\":{},\"export\":{}", list(feats), export)
    }

    fn emit_fn(&mut self, f: Instance) -> String {
        let name = f.name().to_string();
        let tname = f.trimmed_name().to_string();
        let mangled = f.mangled_name().to_string();
        let kind = match f.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let mut def = String::new();
        let ty = f.ty();
        let mut local = false;
        let mut span = None;
        match ty.kind() {
            TyKind::RigidTy(RigidTy::FnDef(d, _)) => {
                def = d.name().to_string();
                local = d.krate().is_local;
                span = Some(d.span());
            }
            TyKind::RigidTy(RigidTy::Closure(d, _)) => {
                def = d.name().to_string();
                local = d.krate().is_local;
                span = Some(d.span());
            }
            _ => {}
        }
        let args = f.args();
        let ga = self.gen_args(&args);
        let intr = f.intrinsic_name().map(|s| s.to_string()).unwrap_or_default();
        let tyid = self.ty(ty);
        let attrs = if f.kind == InstanceKind::Shim { "\"features\":[],\"export\":false".into() } else { self.attrs(f) };
        let mut o = String::new();
        let _ = write!(
            o,
            "{{\"name\":{},\"tname\":{},\"def\":{},\"sym\":{},\"kind\":{},\"intr\":{},\"ty\":{},\"ga\":{},\"local\":{},{}",
            q(&name), q(&tname), q(&def), q(&mangled), q(kind), q(&intr), tyid, ga, local, attrs
        );
        if let Some(s) = span {
            let s = self.span(s);
            let _ = write!(o, ",\"span\":{}", s);
        }
        let _ = write!(o, ",\"foreign\":{}", f.is_foreign_item());
        if local || f.kind == InstanceKind::Item {
            if let Ok(abi) = f.fn_abi() {
                let v: Vec<String> = abi.args.iter().map(|a| self.ty(a.ty).to_string()).collect();
                let r = self.ty(abi.ret.ty);
                let _ = write!(
                    o,
                    ",\"abi\":{{\"args\":{},\"ret\":{},\"conv\":{}}}",
                    list(v), r, q(&format!("{:?}", abi.conv))
                );
            }
        }
        let is_drop_empty = f.kind == InstanceKind::Shim && f.is_empty_shim();
        if is_drop_empty {
            let _ = write!(o, ",\"empty_shim\":true");
        }
        let want = match f.kind {
            InstanceKind::LlvmIntrinsic | InstanceKind::Virtual { .. } => false,
            InstanceKind::Intrinsic => true,
            _ => !opaque(&name) && !opaque(&def) && !is_drop_empty,
        };
        if want {
            if let Some(b) = f.body() {
                let body = self.body(&b);
                let _ = write!(o, ",{}", body);
            }
        }
        o.push('}');
        o
    }

    fn body(&mut self, b: &Body) -> String {
        let locals: Vec<String> =
            b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let names: Vec<String> = b
            .var_debug_info
            .iter()
            .filter_map(|v| match &v.value {
                VarDebugInfoContents::Place(p) if p.projection.is_empty() => {
                    Some(format!("[{},{}]", p.local, q(&v.name)))
                }
                _ => None,
            })
            .collect();
        let blocks: Vec<String> = b
            .blocks
            .iter()
            .map(|bb| {
                let st: Vec<String> = bb
                    .statements
                    .iter()
                    .filter_map(|s| {
                        let x = self.stmt(b, s)?;
                        let sp = self.span(s.source_info.span);
                        Some(format!("[{},{}]", x, sp))
                    })
                    .collect();
                let t = self.term(b, &bb.terminator);
                let sp = self.span(bb.terminator.source_info.span);
                format!("[{},{},{}]", list(st), t, sp)
            })
            .collect();
        let spread = 0;
        format!(
            "\"locals\":{},\"argc\":{},\"spread\":{},\"names\":{},\"blocks\":{}",
            list(locals),
            b.arg_locals().len(),
            spread,
            list(names),
            list(blocks)
        )
    }

    fn place(&mut self, p: &Place) -> String {
        let pr: Vec<String> = p
            .projection
            .iter()
            .map(|e| match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"c\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"s\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(t) => format!("[\"o\",{}]", self.ty(*t)),
            })
            .collect();
        format!("[{},{}]", p.local, list(pr))
    }

    fn constant(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        // function items: resolve now
        if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = t.kind() {
            if let Ok(i) = Instance::resolve(d, &a) {
                let id = self.inst(i);
                return format!("{{\"t\":{},\"fn\":{}}}", ti, id);
            }
        }
        match c.kind() {
            ConstantKind::Allocated(a) => {
                let x = self.alloc(a);
                format!("{{\"t\":{},\"a\":{}}}", ti, x)
            }
            ConstantKind::ZeroSized => format!("{{\"t\":{},\"z\":1}}", ti),
            ConstantKind::Ty(c) => {
                let x = self.tyconst(c);
                format!("{{\"t\":{},\"tc\":{}}}", ti, x)
            }
            o => format!("{{\"t\":{},\"u\":{}}}", ti, q(&format!("{:?}", o))),
        }
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => {
                let x = self.constant(&c.const_);
                format!("[\"k\",{}]", x)
            }
            Operand::RuntimeChecks(r) => format!("[\"r\",{}]", q(&format!("{:?}", r))),
        }
    }

    fn rvalue(&mut self, b: &Body, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let kk = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, vi, a, _, fi) => {
                        let t = d.ty_with_args(a);
                        let t = self.ty(t);
                        format!(
                            "[\"adt\",{},{},{}]",
                            t,
                            vi.to_index(),
                            fi.map(|x| x.to_string()).unwrap_or("null".into())
                        )
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(*d, a.clone());
                        format!("[\"closure\",{}]", self.ty(t))
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"?\"]".into(),
                };
                format!("[\"agg\",{},{}]", kk, list(v))
            }
            Rvalue::BinaryOp(op, x, y) => {
                let (x, y) = (self.operand(x), self.operand(y));
                format!("[\"bin\",\"{:?}\",{},{}]", op, x, y)
            }
            Rvalue::CheckedBinaryOp(op, x, y) => {
                let (x, y) = (self.operand(x), self.operand(y));
                format!("[\"cbin\",\"{:?}\",{},{}]", op, x, y)
            }
            Rvalue::Cast(k, o, t) => {
                if let CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)) = k {
                    if let Ok(ot) = o.ty(b.locals()) {
                        if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = ot.kind() {
                            if let Ok(i) = Instance::resolve_for_fn_ptr(d, &a) {
                                let id = self.inst(i);
                                let t = self.ty(*t);
                                return format!("[\"reify\",{},{}]", id, t);
                            }
                        }
                    }
                }
                if let CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)) = k {
                    if let Ok(ot) = o.ty(b.locals()) {
                        if let TyKind::RigidTy(RigidTy::Closure(d, a)) = ot.kind() {
                            if let Ok(i) = Instance::resolve_closure(d, &a, ClosureKind::FnOnce) {
                                let id = self.inst(i);
                                let t = self.ty(*t);
                                return format!("[\"reify\",{},{}]", id, t);
                            }
                        }
                    }
                }
                let kk = match k {
                    CastKind::PointerCoercion(p) => format!("{:?}", p),
                    k => format!("{:?}", k),
                };
                let src = o.ty(b.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                let o = self.operand(o);
                format!("[\"cast\",{},{},{},{}]", q(&kk), o, src, self.ty(*t))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Ref(_, _, p) => format!("[\"ref\",{}]", self.place(p)),
            Rvalue::Repeat(o, c) => {
                let o = self.operand(o);
                format!(
                    "[\"repeat\",{},{}]",
                    o,
                    c.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())
                )
            }
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
            Rvalue::UnaryOp(op, o) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(o)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
        }
    }

    fn stmt(&mut self, b: &Body, s: &Statement) -> Option<String> {
        Some(match &s.kind {
            StatementKind::Assign(p, r) => {
                let p = self.place(p);
                let r = self.rvalue(b, r);
                format!("\"=\",{},{}", p, r)
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                format!("\"sd\",{},{}", self.place(place), variant_index.to_index())
            }
            StatementKind::StorageDead(l) => format!("\"dead\",{}", l),
            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                format!("\"assume\",{}", self.operand(o))
            }
            StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                let (x, y, z) = (self.operand(&c.src), self.operand(&c.dst), self.operand(&c.count));
                format!("\"cpy\",{},{},{}", x, y, z)
            }
            _ => return None,
        })
    }

    fn term(&mut self, b: &Body, t: &Terminator) -> String {
        match &t.kind {
            TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
            TerminatorKind::SwitchInt { discr, targets } => {
                let v: Vec<String> =
                    targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                let dt = discr.ty(b.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!(
                    "[\"switch\",{},{},{},{}]",
                    self.operand(discr),
                    list(v),
                    targets.otherwise(),
                    dt
                )
            }
            TerminatorKind::Resume => "[\"resume\"]".into(),
            TerminatorKind::Abort => "[\"abort\"]".into(),
            TerminatorKind::Return => "[\"ret\"]".into(),
            TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
            TerminatorKind::Drop { place, target, .. } => {
                let t = place.ty(b.locals()).ok();
                let (ti, gi) = match t {
                    Some(t) => {
                        let i = Instance::resolve_drop_in_place(t);
                        (self.ty(t).to_string(), self.inst(i).to_string())
                    }
                    None => ("null".into(), "null".into()),
                };
                format!("[\"drop\",{},{},{},{}]", self.place(place), target, ti, gi)
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let f = self.operand(func);
                let v: Vec<String> = args.iter().map(|o| self.operand(o)).collect();
                let at: Vec<String> = args
                    .iter()
                    .map(|o| o.ty(b.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into()))
                    .collect();
                format!(
                    "[\"call\",{},{},{},{},{}]",
                    f,
                    list(v),
                    self.place(destination),
                    target.map(|x| x.to_string()).unwrap_or("null".into()),
                    list(at)
                )
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let k = match msg {
                    AssertMessage::BoundsCheck { .. } => "bounds",
                    AssertMessage::Overflow(..) => "overflow",
                    AssertMessage::OverflowNeg(..) => "overflow",
                    AssertMessage::DivisionByZero(..) => "div0",
                    AssertMessage::RemainderByZero(..) => "rem0",
                    AssertMessage::MisalignedPointerDereference { .. } => "align",
                    AssertMessage::NullPointerDereference => "null",
                    AssertMessage::NullReferenceConstructed => "null",
                    AssertMessage::InvalidEnumConstruction(..) => "enum",
                    _ => "other",
                };
                let ops: Vec<String> = match msg {
                    AssertMessage::BoundsCheck { len, index } => {
                        vec![self.operand(len), self.operand(index)]
                    }
                    _ => vec![],
                };
                let extra = match msg {
                    AssertMessage::Overflow(op, ..) => format!("{:?}", op),
                    _ => String::new(),
                };
                format!(
                    "[\"assert\",{},{},\"{}\",{},{},\"{}\"]",
                    self.operand(cond),
                    expected,
                    k,
                    target,
                    list(ops),
                    extra
                )
            }
            TerminatorKind::InlineAsm { template, destination, .. } => format!(
                "[\"asm\",{},{}]",
                q(template),
                destination.map(|x| x.to_string()).unwrap_or("null".into())
            ),
        }
    }

    fn layout(&mut self, t: Ty) -> String {
        let Ok(l) = t.layout() else { return "null".into() };
        let s = l.shape();
        let by = |x: rustc_public::target::MachineSize| x.bits() / 8;
        let fields = match &s.fields {
            FieldsShape::Primitive => "[\"p\"]".to_string(),
            FieldsShape::Union(n) => format!("[\"u\",{}]", n),
            FieldsShape::Array { stride, count } => format!("[\"a\",{},{}]", by(*stride), count),
            FieldsShape::Arbitrary { offsets } => {
                format!("[\"s\",{}]", list(offsets.iter().map(|o| by(*o).to_string())))
            }
        };
        let variants = match &s.variants {
            VariantsShape::Empty => "[\"e\"]".to_string(),
            VariantsShape::Single { index } => format!("[\"1\",{}]", index.to_index()),
            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                let tagsz = {
                    use rustc_public::abi::{Primitive, Scalar};
                    let p = match tag {
                        Scalar::Initialized { value, .. } | Scalar::Union { value } => value,
                    };
                    match p {
                        Primitive::Int { length, .. } => length.bits() / 8,
                        _ => 8,
                    }
                };
                let tagoff = match &s.fields {
                    FieldsShape::Arbitrary { offsets } => by(offsets[*tag_field]),
                    _ => 0,
                };
                let enc = match tag_encoding {
                    TagEncoding::Direct => "[\"d\"]".to_string(),
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => format!(
                        "[\"n\",{},{},{},{}]",
                        untagged_variant.to_index(),
                        niche_variants.start().to_index(),
                        niche_variants.end().to_index(),
                        niche_start
                    ),
                };
                let vs: Vec<String> = variants
                    .iter()
                    .map(|v| list(v.offsets.iter().map(|o| by(*o).to_string())))
                    .collect();
                format!("[\"m\",{},{},{},{}]", tagoff, tagsz, enc, list(vs))
            }
        };
        format!(
            "{{\"size\":{},\"align\":{},\"fields\":{},\"variants\":{},\"sized\":{}}}",
            by(s.size),
            s.abi_align,
            fields,
            variants,
            s.is_sized()
        )
    }

    fn emit_ty(&mut self, t: Ty) -> String {
        let k = t.kind();
        let name = q(&format!("{}", t));
        let lay = self.layout(t);
        let body = match k {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".to_string(),
                RigidTy::Char => "\"k\":\"char\"".into(),
                RigidTy::Int(i) => {
                    format!("\"k\":\"int\",\"bits\":{},\"signed\":true", i.num_bytes() * 8)
                }
                RigidTy::Uint(i) => {
                    format!("\"k\":\"int\",\"bits\":{},\"signed\":false", i.num_bytes() * 8)
                }
                RigidTy::Float(_) => "\"k\":\"float\"".into(),
                RigidTy::Adt(d, a) => {
                    let kind = format!("{:?}", d.kind()).to_lowercase();
                    let mut vs = vec![];
                    for v in d.variants() {
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = f.ty_with_args(&a);
                            let ft = self.ty(ft);
                            fs.push(format!("[{},{}]", q(&f.name.to_string()), ft));
                        }
                        let dv = if format!("{:?}", d.kind()).to_lowercase() == "enum" {
                            d.discriminant_for_variant(v.idx_pub()).val.to_string()
                        } else {
                            "0".into()
                        };
                        vs.push(format!(
                            "{{\"n\":{},\"d\":{},\"f\":{}}}",
                            q(&v.name().to_string()),
                            dv,
                            list(fs)
                        ));
                    }
                    let ga = self.gen_args(&a);
                    let repr = d.repr();
                    format!(
                        "\"k\":\"adt\",\"ak\":\"{}\",\"adt\":{},\"local\":{},\"ga\":{},\"simd\":{},\"reprc\":{},\"variants\":{}",
                        kind,
                        q(&d.name().to_string()),
                        d.krate().is_local,
                        ga,
                        d.is_simd(),
                        repr.flags.is_c,
                        list(vs)
                    )
                }
                RigidTy::Foreign(d) => format!("\"k\":\"foreign\",\"adt\":{}", q(&d.name().to_string())),
                RigidTy::Str => "\"k\":\"str\"".into(),
                RigidTy::Array(t, c) => format!(
                    "\"k\":\"array\",\"e\":{},\"n\":{}",
                    self.ty(t),
                    c.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())
                ),
                RigidTy::Pat(t, _) => format!("\"k\":\"pat\",\"e\":{}", self.ty(t)),
                RigidTy::Slice(t) => format!("\"k\":\"slice\",\"e\":{}", self.ty(t)),
                RigidTy::RawPtr(t, m) => format!(
                    "\"k\":\"ptr\",\"e\":{},\"mut\":{}",
                    self.ty(t),
                    matches!(m, Mutability::Mut)
                ),
                RigidTy::Ref(_, t, m) => format!(
                    "\"k\":\"ref\",\"e\":{},\"mut\":{}",
                    self.ty(t),
                    matches!(m, Mutability::Mut)
                ),
                RigidTy::FnDef(d, a) => {
                    let x = match Instance::resolve(d, &a) {
                        Ok(i) => self.inst(i).to_string(),
                        Err(_) => "null".into(),
                    };
                    format!("\"k\":\"fndef\",\"fn\":{}", x)
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".into(),
                RigidTy::Closure(d, a) => {
                    let x = match Instance::resolve_closure(d, &a, ClosureKind::FnOnce) {
                        Ok(i) => self.inst(i).to_string(),
                        Err(_) => "null".into(),
                    };
                    // upvar types: last generic argument is the tuple of captures
                    let up = match a.0.last() {
                        Some(GenericArgKind::Type(t)) => self.ty(*t).to_string(),
                        _ => "null".into(),
                    };
                    format!("\"k\":\"closure\",\"name\":{},\"once\":{},\"up\":{}", q(&d.name().to_string()), x, up)
                }
                RigidTy::Dynamic(..) => "\"k\":\"dyn\"".into(),
                RigidTy::Never => "\"k\":\"never\"".into(),
                RigidTy::Tuple(ts) => {
                    let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                    format!("\"k\":\"tuple\",\"e\":{}", list(v))
                }
                _ => "\"k\":\"?\"".into(),
            },
            _ => "\"k\":\"?\"".into(),
        };
        let freeze = {
            let it = rustc_public::rustc_internal::internal(self.tcx, t);
            let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
            it.is_freeze(self.tcx, env)
        };
        format!("{{\"s\":{},{},\"freeze\":{},\"l\":{}}}", name, body, freeze, lay)
    }

    fn drain(&mut self) {
        loop {
            if let Some(f) = self.fn_queue.pop_front() {
                let j = self.emit_fn(f);
                let i = self.fns[&f];
                self.fn_json[i] = Some(j);
                continue;
            }
            if let Some(t) = self.ty_queue.pop_front() {
                let j = self.emit_ty(t);
                let i = self.tys[&t];
                self.ty_json[i] = Some(j);
                continue;
            }
            if let Some(a) = self.alloc_queue.pop_front() {
                let g = GlobalAlloc::from(a);
                let j = match g {
                    GlobalAlloc::Function(i) => format!("{{\"k\":\"fn\",\"fn\":{}}}", self.inst(i)),
                    GlobalAlloc::VTable(t, _) => format!("{{\"k\":\"vt\",\"t\":{}}}", self.ty(t)),
                    GlobalAlloc::Static(s) => {
                        let t = self.ty(s.ty());
                        let init = if s.krate().is_local {
                            match s.eval_initializer() {
                                Ok(a) => self.alloc(&a),
                                Err(_) => "null".into(),
                            }
                        } else {
                            "null".into()
                        };
                        format!(
                            "{{\"k\":\"static\",\"name\":{},\"t\":{},\"local\":{},\"init\":{}}}",
                            q(&s.name().to_string()),
                            t,
                            s.krate().is_local,
                            init
                        )
                    }
                    GlobalAlloc::Memory(a) => format!("{{\"k\":\"mem\",\"a\":{}}}", self.alloc(&a)),
                    GlobalAlloc::TypeId { .. } => "{\"k\":\"typeid\"}".into(),
                };
                let i = self.allocs[&a];
                self.alloc_json[i] = Some(j);
                continue;
            }
            break;
        }
    }
}

trait IdxPub {
    fn idx_pub(&self) -> VariantIdx;
}
impl IdxPub for VariantDef {
    fn idx_pub(&self) -> VariantIdx {
        self.idx()
    }
}

fn run(tcx: TyCtxt<'_>) -> ControlFlow<(), ()> {
    let krate = rustc_public::local_crate();
    if krate.name != "dcv_color_primitives" {
        return ControlFlow::Continue(());
    }
    let Ok(out) = std::env::var("DCP_MIR_OUT") else { return ControlFlow::Continue(()) };
    let mut cx = Cx {
        tcx,
        tys: HashMap::new(),
        ty_json: vec![],
        ty_queue: VecDeque::new(),
        fns: HashMap::new(),
        fn_json: vec![],
        fn_queue: VecDeque::new(),
        allocs: HashMap::new(),
        alloc_json: vec![],
        alloc_queue: VecDeque::new(),
        files: vec![],
        file_ids: HashMap::new(),
    };
    let mut roots = vec![];
    let mut generic = vec![];
    let mut statics = vec![];
    for it in rustc_public::all_local_items() {
        match it.kind() {
            ItemKind::Fn => {
                if it.requires_monomorphization() {
                    generic.push(q(&it.name().to_string()));
                    continue;
                }
                if let Ok(i) = Instance::try_from(it) {
                    let id = cx.inst(i);
                    roots.push(id.to_string());
                }
            }
            ItemKind::Static => {
                let s: StaticDef = match StaticDef::try_from(it) {
                    Ok(s) => s,
                    Err(_) => continue,
                };
                let t = cx.ty(s.ty());
                let did = rustc_public::rustc_internal::internal(tcx, s.def_id());
                let m = tcx.static_mutability(did).map(|m| m.is_mut()).unwrap_or(false);
                let tl = tcx.is_thread_local_static(did);
                let sp = cx.span(s.span());
                statics.push(format!(
                    "{{\"name\":{},\"t\":{},\"mut\":{},\"tls\":{},\"span\":{}}}",
                    q(&s.name().to_string()), t, m, tl, sp
                ));
            }
            _ => {}
        }
    }
    // local ADTs without parameters: layouts for the ABI check
    let mut adts = vec![];
    for a in krate.adts() {
        if a.generics_of().params.is_empty() {
            let t = cx.ty(a.ty());
            adts.push(t.to_string());
        }
    }
    cx.drain();
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"roots\":{},\"generic\":{},\"statics\":{},\"adts\":{},\n\"fns\":[\n",
        list(roots), list(generic), list(statics), list(adts)
    );
    o.push_str(&cx.fn_json.iter().map(|x| x.clone().unwrap()).collect::<Vec<_>>().join(",\n"));
    o.push_str("],\n\"types\":[\n");
    o.push_str(&cx.ty_json.iter().map(|x| x.clone().unwrap()).collect::<Vec<_>>().join(",\n"));
    o.push_str("],\n\"allocs\":[\n");
    o.push_str(&cx.alloc_json.iter().map(|x| x.clone().unwrap()).collect::<Vec<_>>().join(",\n"));
    let _ = write!(o, "],\n\"files\":{}}}\n", list(cx.files.iter().map(|f| q(f)).collect::<Vec<_>>()));
    std::fs::write(&out, o).expect("write DCP_MIR_OUT");
    ControlFlow::Continue(())
}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let code = match run_with_tcx!(&args, run) {
        Ok(_) => 0,
        Err(rustc_public::CompilerError::Skipped) => 0,
        Err(_) => 1,
    };
    std::process::exit(code);
}
