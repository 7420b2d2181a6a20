// MIR exporter: runs inside rustc (nightly, rustc_private), collects every
// function of the crate being compiled plus everything it reaches
// (monomorphised), and writes it as JSON.  It never executes any of it.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, EarlyBinder, GenericArg, GenericArgKind, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// std modules whose bodies are exported too; everything else of std stays a
// call to a named function.
const STD_BODIES: &[&str] = &[
    "core::option::", "core::result::", "core::ops::", "core::convert::", "core::iter::", "core::array::", "core::cmp::", "core::bool::",
    "core::mem::", "core::num::", "core::clone::", "core::default::", "core::borrow::", "core::io::", "alloc::io::", "core::slice::", "core::str::", "core::tuple::",
    "std::io::Write::", "std::io::error::", "core::char::", "core::ascii::", "core::intrinsics::", "core::marker::", "core::any::", "core::ptr::",
    "alloc::borrow::", "std::io::impls::",
];
// external crates that are analysed like local ones
const EXTERNAL_FULL: &[&str] = &["bp3d_proto", "bp3d_protoc", "bytesutil", "bp3d_util"];

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    tyout: Vec<String>,
    tyq: VecDeque<Ty<'tcx>>,
    seen: HashSet<Instance<'tcx>>,
    queue: VecDeque<Instance<'tcx>>,
}

impl<'tcx> Cx<'tcx> {
    fn key(&self, i: Instance<'tcx>) -> String {
        let base = self.tcx.def_path_str_with_args(i.def_id(), i.args);
        match i.def {
            InstanceKind::Item(d) => {
                if self.tcx.is_closure_like(d) {
                    // closures need their definition site, not only their type
                    let dp = format!("{:?}", self.tcx.def_path(d).data.iter().map(|d| d.as_sym(true).to_string()).collect::<Vec<_>>().join("::"));
                    let parent = i.args.iter().map(|a| self.garg_str(a)).collect::<Vec<_>>().join(",");
                    format!("closure:{}:{}<{}>", self.tcx.crate_name(d.krate), dp.trim_matches('"'), parent)
                } else {
                    format!("{}@{}", base, self.tcx.crate_name(d.krate))
                }
            }
            other => {
                let s = format!("{:?}", other);
                let mut k: String = s.chars().take(200).collect();
                k.push('@');
                k.push_str(&base);
                k
            }
        }
    }

    fn garg_str(&self, a: GenericArg<'tcx>) -> String {
        format!("{}", a)
    }

    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    // crate-qualified definition path without generic arguments
    fn dpath(&self, d: DefId) -> String {
        let c = self.tcx.crate_name(d.krate);
        let mut s = c.to_string();
        for e in self.tcx.def_path(d).data.iter() {
            s.push_str("::");
            s.push_str(e.as_sym(true).as_str());
        }
        s
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let id = self.tyout.len();
        self.types.insert(t, id);
        self.tyout.push(String::new());
        self.tyq.push_back(t);
        id
    }

    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t)).unwrap_or(t)
    }

    fn fill_types(&mut self) {
        while let Some(t) = self.tyq.pop_front() {
            let id = self.types[&t];
            let s = self.ty_json(t);
            self.tyout[id] = s;
        }
    }

    fn gargs(&mut self, args: GenericArgsRef<'tcx>) -> String {
        let mut v = Vec::new();
        for a in args.iter() {
            match a.kind() {
                GenericArgKind::Type(t) => { let i = self.ty(t); v.push(i.to_string()) }
                GenericArgKind::Const(c) => v.push(match c.try_to_target_usize(self.tcx) { Some(n) => format!("{{\"c\":{}}}", n), None => format!("{{\"c\":{}}}", esc(&format!("{}", c))) }),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        format!("[{}]", v.join(","))
    }

    fn ty_json(&mut self, t: Ty<'tcx>) -> String {
        let name = esc(&rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t)));
        let body = match *t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(i) => format!("\"k\":\"int\",\"bits\":{}", i.bit_width().unwrap_or(64)),
            ty::Uint(i) => format!("\"k\":\"uint\",\"bits\":{}", i.bit_width().unwrap_or(64)),
            ty::Float(f) => format!("\"k\":\"float\",\"bits\":{}", f.bit_width()),
            ty::Str => "\"k\":\"str\"".into(),
            ty::Never => "\"k\":\"never\"".into(),
            ty::Slice(e) => format!("\"k\":\"slice\",\"e\":{}", self.ty(e)),
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|v| v.to_string()).unwrap_or("null".into());
                format!("\"k\":\"array\",\"e\":{},\"n\":{}", self.ty(e), n)
            }
            ty::Ref(_, e, m) => format!("\"k\":\"ref\",\"e\":{},\"mut\":{}", self.ty(e), m.is_mut()),
            ty::RawPtr(e, m) => format!("\"k\":\"ptr\",\"e\":{},\"mut\":{}", self.ty(e), m.is_mut()),
            ty::Tuple(l) => {
                let v: Vec<String> = l.iter().map(|e| self.ty(e).to_string()).collect();
                format!("\"k\":\"tuple\",\"f\":[{}]", v.join(","))
            }
            ty::Adt(def, args) => {
                let mut vs = Vec::new();
                let path = self.dpath(def.did());
                self.push_next(t, def.did(), &path);
                let ga = self.gargs(args);
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = Vec::new();
                    for f in v.fields.iter() {
                        let ft = self.norm(f.ty(self.tcx, args).skip_norm_wip());
                        fs.push(format!("[{},{}]", esc(f.name.as_str()), self.ty(ft)));
                    }
                    let d = if def.is_enum() { def.discriminant_for_variant(self.tcx, vi).val.to_string() } else { "0".into() };
                    let d = if def.is_enum() {
                        let disc = def.discriminant_for_variant(self.tcx, vi);
                        if disc.ty.is_signed() {
                            let b = self.tcx.layout_of(self.env.as_query_input(disc.ty)).map(|l| l.size.bits()).unwrap_or(64);
                            let sh = 128 - b;
                            (((disc.val << sh) as i128) >> sh).to_string()
                        } else { d }
                    } else { d };
                    vs.push(format!("{{\"n\":{},\"d\":{},\"f\":[{}]}}", esc(v.name.as_str()), d, fs.join(",")));
                }
                format!("\"k\":\"adt\",\"p\":{},\"a\":{},\"enum\":{},\"union\":{},\"v\":[{}]", esc(&path), ga, def.is_enum(), def.is_union(), vs.join(","))
            }
            ty::Closure(d, args) => {
                let inst = Instance::new_raw(d, args);
                let k = self.key(inst);
                self.push(inst);
                let ups: Vec<String> = args.as_closure().upvar_tys().iter().map(|e| self.ty(e).to_string()).collect();
                format!("\"k\":\"closure\",\"fn\":{},\"f\":[{}]", esc(&k), ups.join(","))
            }
            ty::FnDef(d, args) => {
                let c = self.callee(d, args.skip_binder());
                format!("\"k\":\"fndef\",\"c\":{}", c)
            }
            ty::FnPtr(..) => "\"k\":\"fnptr\"".into(),
            ty::Dynamic(..) => "\"k\":\"dyn\"".into(),
            ty::Param(p) => format!("\"k\":\"param\",\"p\":{}", esc(p.name.as_str())),
            _ => "\"k\":\"other\"".into(),
        };
        format!("{{\"s\":{},{}}}", name, body)
    }

    // collecting an iterator is modelled as calling its next until it ends
    fn push_next(&mut self, t: Ty<'tcx>, d: DefId, path: &str) {
        let c = self.tcx.crate_name(d.krate);
        if !(path.starts_with("core::iter::") || d.krate == LOCAL_CRATE || EXTERNAL_FULL.contains(&c.as_str())) || t.has_param() {
            return;
        }
        let Some(next) = self.tcx.lang_items().next_fn() else { return };
        let tr = self.tcx.parent(next);
        if self.tcx.non_blanket_impls_for_ty(tr, t).next().is_none() {
            return;
        }
        let args = self.tcx.mk_args(&[t.into()]);
        if let Ok(Some(i)) = Instance::try_resolve(self.tcx, self.env, next, args) {
            self.push(i);
        }
    }

    fn wanted(&self, i: Instance<'tcx>) -> bool {
        let d = i.def_id();
        match i.def {
            InstanceKind::Item(_) => {}
            InstanceKind::Shim(_) => {
                let s = format!("{:?}", i.def);
                return s.contains("FnPtr") || s.contains("ClosureOnce") || s.contains("Clone");
            }
            _ => return false,
        }
        if d.krate == LOCAL_CRATE {
            return true;
        }
        let c = self.tcx.crate_name(d.krate);
        if !EXTERNAL_FULL.contains(&c.as_str()) {
            let p = self.dpath(d);
            if !STD_BODIES.iter().any(|m| p.starts_with(m)) {
                return false;
            }
        }
        self.tcx.is_mir_available(d)
    }

    fn push(&mut self, i: Instance<'tcx>) -> bool {
        if !self.wanted(i) {
            return false;
        }
        if self.seen.insert(i) {
            self.queue.push_back(i);
        }
        true
    }

    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        let mut out = String::from("{");
        let dp = self.dpath(d);
        let _ = write!(out, "\"d\":{},\"a\":{}", esc(&dp), self.gargs(args));
        if let Some(t) = self.tcx.trait_of_assoc(d) {
            let _ = write!(out, ",\"tr\":{}", esc(&format!("{}::{}", self.dpath(t), self.tcx.item_name(d))));
        }
        let args = self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(args)).unwrap_or(args);
        match Instance::try_resolve(self.tcx, self.env, d, args) {
            Ok(Some(i)) => {
                let rd = i.def_id();
                let _ = write!(out, ",\"r\":{},\"ps\":{},\"ra\":{}", esc(&self.dpath(rd)), esc(&self.path(rd)), self.gargs(i.args));
                match i.def {
                    InstanceKind::Intrinsic(d) => { let _ = write!(out, ",\"intr\":{}", esc(self.tcx.item_name(d).as_str())); }
                    InstanceKind::Virtual(..) => { out.push_str(",\"virt\":true"); }
                    _ => {}
                }
                if self.push(i) {
                    let k = self.key(i);
                    let _ = write!(out, ",\"fn\":{}", esc(&k));
                }
                if let Some(im) = self.tcx.impl_of_assoc(rd) {
                    let st = self.tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    let _ = write!(out, ",\"impl\":{}", esc(&rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", st))));
                }
            }
            _ => { out.push_str(",\"unres\":true"); }
        }
        out.push('}');
        out
    }

    // ---- constants
    fn const_json(&mut self, c: Const<'tcx>) -> String {
        let t = c.ty();
        let tid = self.ty(t);
        if let ty::FnDef(d, args) = *t.kind() {
            let cal = self.callee(d, args.skip_binder());
            return format!("{{\"t\":{},\"fn\":{}}}", tid, cal);
        }
        let name = match c {
            Const::Unevaluated(u, _) if u.promoted.is_none() => format!(",\"from\":{}", esc(&self.dpath(u.def))),
            _ => String::new(),
        };
        match c.eval(self.tcx, self.env, rustc_span::DUMMY_SP) {
            Ok(v) => {
                let j = self.cv(v, t, 0);
                format!("{{\"t\":{},\"v\":{}{}}}", tid, j, name)
            }
            Err(_) => format!("{{\"t\":{},\"v\":{{\"?\":{}}}{}}}", tid, esc(&format!("{}", c)), name),
        }
    }

    fn scalar_json(&mut self, bits: u128, t: Ty<'tcx>) -> String {
        match *t.kind() {
            ty::Int(i) => {
                let b = i.bit_width().unwrap_or(64);
                let sh = 128 - b;
                format!("{{\"i\":{}}}", ((bits << sh) as i128) >> sh)
            }
            ty::Bool => format!("{{\"b\":{}}}", bits != 0),
            ty::Float(_) => format!("{{\"f\":{}}}", bits),
            _ => format!("{{\"i\":{}}}", bits),
        }
    }

    fn cv(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        if depth > 12 {
            return "{\"?\":\"deep\"}".into();
        }
        match (v, t.kind()) {
            (ConstValue::Scalar(Scalar::Int(i)), ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_)) => {
                let bits = i.to_bits(i.size());
                self.scalar_json(bits, t)
            }
            (ConstValue::Scalar(Scalar::Ptr(p, _)), ty::Ref(_, e, _) | ty::RawPtr(e, _)) => {
                let (prov, off) = p.into_raw_parts();
                match self.tcx.global_alloc(prov.alloc_id()) {
                    GlobalAlloc::Memory(_) => {
                        let inner = self.at(prov.alloc_id(), off, *e, depth + 1);
                        format!("{{\"r\":{}}}", inner)
                    }
                    _ => "{\"?\":\"static\"}".into(),
                }
            }
            (ConstValue::Slice { alloc_id, meta }, ty::Ref(_, e, _)) => self.slice_at(alloc_id, rustc_abi::Size::ZERO, meta, *e, depth + 1),
            (ConstValue::Indirect { alloc_id, offset }, _) => self.at(alloc_id, offset, t, depth),
            (ConstValue::ZeroSized, ty::Closure(d, args)) => {
                let inst = Instance::new_raw(*d, args);
                let k = self.key(inst);
                self.push(inst);
                format!("{{\"clo\":{}}}", esc(&k))
            }
            (ConstValue::ZeroSized, ty::Tuple(_)) => "{\"tup\":[]}".into(),
            (_, ty::Adt(..) | ty::Tuple(_) | ty::Array(..)) => self.destr(v, t, depth),
            _ => format!("{{\"?\":{}}}", esc(&format!("{:?}", v).chars().take(80).collect::<String>())),
        }
    }

    fn destr(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        if let ty::Adt(d, _) = t.kind() {
            if d.is_union() {
                return "{\"?\":\"union\"}".into();
            }
        }
        match self.tcx.try_destructure_mir_constant_for_user_output(v, t) {
            Some(d) => {
                let fs: Vec<String> = d.fields.iter().map(|(v, t)| {
                    let tid = self.ty(*t);
                    let j = self.cv(*v, *t, depth + 1);
                    format!("{{\"t\":{},\"v\":{}}}", tid, j)
                }).collect();
                match t.kind() {
                    ty::Adt(..) => format!("{{\"adt\":{},\"f\":[{}]}}", d.variant.map(|v| v.as_u32()).unwrap_or(0), fs.join(",")),
                    ty::Array(..) => format!("{{\"arr\":[{}]}}", fs.join(",")),
                    _ => format!("{{\"tup\":[{}]}}", fs.join(",")),
                }
            }
            None => "{\"?\":\"destructure\"}".into(),
        }
    }

    fn slice_at(&mut self, id: rustc_middle::mir::interpret::AllocId, off: rustc_abi::Size, n: u64, e: Ty<'tcx>, depth: usize) -> String {
        let GlobalAlloc::Memory(al) = self.tcx.global_alloc(id) else { return "{\"?\":\"static\"}".into() };
        let al = al.inner();
        match *e.kind() {
            ty::Str => {
                let b = al.inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..off.bytes_usize() + n as usize);
                format!("{{\"str\":{}}}", esc(&String::from_utf8_lossy(b)))
            }
            ty::Slice(el) if el == self.tcx.types.u8 => {
                let b = al.inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..off.bytes_usize() + n as usize);
                format!("{{\"bytes\":[{}]}}", b.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(","))
            }
            ty::Slice(el) => {
                let sz = match self.tcx.layout_of(self.env.as_query_input(el)) { Ok(l) => l.size, Err(_) => return "{\"?\":\"layout\"}".into() };
                let tid = self.ty(el);
                let mut v = Vec::new();
                for i in 0..n.min(4096) {
                    let j = self.at(id, off + sz * i, el, depth + 1);
                    v.push(format!("{{\"t\":{},\"v\":{}}}", tid, j));
                }
                format!("{{\"r\":{{\"arr\":[{}]}}}}", v.join(","))
            }
            _ => "{\"?\":\"slice\"}".into(),
        }
    }

    fn at(&mut self, id: rustc_middle::mir::interpret::AllocId, off: rustc_abi::Size, t: Ty<'tcx>, depth: usize) -> String {
        let GlobalAlloc::Memory(al) = self.tcx.global_alloc(id) else { return "{\"?\":\"static\"}".into() };
        let al = al.inner();
        let Ok(lay) = self.tcx.layout_of(self.env.as_query_input(t)) else { return "{\"?\":\"layout\"}".into() };
        let ps = rustc_abi::Size::from_bytes(8u64);
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                match al.read_scalar(&self.tcx, rustc_middle::mir::interpret::alloc_range(off, lay.size), false) {
                    Ok(Scalar::Int(i)) => { let b = i.to_bits(i.size()); self.scalar_json(b, t) }
                    _ => "{\"?\":\"scalar\"}".into(),
                }
            }
            ty::Ref(_, e, _) => {
                let p = match al.read_scalar(&self.tcx, rustc_middle::mir::interpret::alloc_range(off, ps), true) { Ok(Scalar::Ptr(p, _)) => p, _ => return "{\"?\":\"ptr\"}".into() };
                let (prov, poff) = p.into_raw_parts();
                if lay.size.bytes() == 16 {
                    let n = match al.read_scalar(&self.tcx, rustc_middle::mir::interpret::alloc_range(off + ps, ps), false) { Ok(Scalar::Int(i)) => i.to_bits(i.size()) as u64, _ => return "{\"?\":\"meta\"}".into() };
                    if matches!(e.kind(), ty::Str | ty::Slice(_)) {
                        return self.slice_at(prov.alloc_id(), poff, n, e, depth + 1);
                    }
                    return "{\"?\":\"fat\"}".into();
                }
                match self.tcx.global_alloc(prov.alloc_id()) {
                    GlobalAlloc::Memory(_) => { let inner = self.at(prov.alloc_id(), poff, e, depth + 1); format!("{{\"r\":{}}}", inner) }
                    _ => "{\"?\":\"static\"}".into(),
                }
            }
            ty::Array(e, n) if e == self.tcx.types.u8 => {
                let n = n.try_to_target_usize(self.tcx).unwrap_or(0) as usize;
                let b = al.inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..off.bytes_usize() + n);
                format!("{{\"bytearr\":[{}]}}", b.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(","))
            }
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(self.tcx).unwrap_or(0);
                let sz = match self.tcx.layout_of(self.env.as_query_input(e)) { Ok(l) => l.size, Err(_) => return "{\"?\":\"layout\"}".into() };
                let tid = self.ty(e);
                let mut v = Vec::new();
                for i in 0..n.min(4096) {
                    let j = self.at(id, off + sz * i, e, depth + 1);
                    v.push(format!("{{\"t\":{},\"v\":{}}}", tid, j));
                }
                format!("{{\"arr\":[{}]}}", v.join(","))
            }
            ty::Tuple(l) => {
                let mut v = Vec::new();
                for (i, e) in l.iter().enumerate() {
                    let o = lay.fields.offset(i);
                    let tid = self.ty(e);
                    let j = self.at(id, off + o, e, depth + 1);
                    v.push(format!("{{\"t\":{},\"v\":{}}}", tid, j));
                }
                format!("{{\"tup\":[{}]}}", v.join(","))
            }
            ty::Adt(..) => self.destr(ConstValue::Indirect { alloc_id: id, offset: off }, t, depth + 1),
            _ => "{\"?\":\"at\"}".into(),
        }
    }

    // ---- bodies
    fn place(&mut self, p: Place<'tcx>) -> String {
        let mut v = Vec::new();
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.as_u32(), self.ty(t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_u32()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"c\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"d\",{}]", v.as_u32()),
                _ => "[\"o\"]".to_string(),
            });
        }
        format!("[{},[{}]]", p.local.as_u32(), v.join(","))
    }

    fn operand(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(*p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(*p)),
            Operand::Constant(c) => format!("{{\"k\":{}}}", self.const_json(c.const_)),
            Operand::RuntimeChecks(_) => "{\"rc\":1}".into(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Repeat(o, n) => format!("[\"rep\",{},{}]", self.operand(o), n.try_to_target_usize(self.tcx).map(|v| v.to_string()).unwrap_or("null".into())),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(*p)),
            Rvalue::RawPtr(k, p) => format!("[\"raw\",{},{}]", format!("{:?}", k).contains("Mut"), self.place(*p)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", m.is_mut(), self.place(*p)),
            Rvalue::Cast(k, o, t) => { let ks = format!("{:?}", k); format!("[\"cast\",{},{},{}]", esc(&ks), self.operand(o), self.ty(*t)) }
            Rvalue::BinaryOp(op, b) => format!("[\"bin\",{},{},{}]", esc(&format!("{:?}", op)), self.operand(&b.0), self.operand(&b.1)),
            Rvalue::UnaryOp(op, o) => format!("[\"un\",{},{}]", esc(&format!("{:?}", op)), self.operand(o)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(*p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(*p)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let os = format!("[{}]", os.join(","));
                match **k {
                    AggregateKind::Array(t) => format!("[\"agg\",\"array\",{},{}]", self.ty(t), os),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",0,{}]", os),
                    AggregateKind::Adt(d, v, args, _, uf) => {
                        let t = self.tcx.type_of(d).instantiate(self.tcx, args).skip_norm_wip();
                        let t = self.norm(t);
                        format!("[\"agg\",\"adt\",{},{},{},{}]", self.ty(t), os, v.as_u32(), uf.map(|f| f.as_u32().to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, d, args);
                        format!("[\"agg\",\"closure\",{},{}]", self.ty(t), os)
                    }
                    AggregateKind::RawPtr(t, m) => format!("[\"agg\",\"rawptr\",{},{},{}]", self.ty(t), os, m.is_mut()),
                    _ => format!("[\"agg\",\"other\",0,{}]", os),
                }
            }
            _ => "[\"other\"]".into(),
        }
    }

    fn line(&self, s: rustc_span::Span) -> String {
        let s = s.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line)
    }

    fn body(&mut self, i: Instance<'tcx>) -> String {
        let mir = self.tcx.instance_mir(i.def);
        let body: Body<'tcx> = i.instantiate_mir_and_normalize_erasing_regions(self.tcx, self.env, EarlyBinder::bind(self.tcx, mir.clone()));
        let mut o = String::new();
        let d = i.def_id();
        let file_line = self.line(body.span);
        let _ = write!(o, "{{\"key\":{},\"p\":{},\"crate\":{},\"args\":{},\"span\":{},\"argc\":{}", esc(&self.key(i)), esc(&self.dpath(d)), esc(self.tcx.crate_name(d.krate).as_str()), self.gargs(i.args), esc(&file_line), body.arg_count);
        if let Some(im) = self.tcx.impl_of_assoc(d) {
            let st = self.tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let _ = write!(o, ",\"impl\":{}", esc(&rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", st))));
            if let Some(tr) = self.tcx.impl_opt_trait_ref(im) {
                let _ = write!(o, ",\"trait\":{}", esc(&self.dpath(tr.skip_binder().def_id)));
            }
        }
        let kind = self.tcx.def_kind(d);
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let _ = write!(o, ",\"vis\":{},\"unsafe\":{}", esc(&format!("{:?}", self.tcx.visibility(d).is_public())), self.tcx.fn_sig(d).skip_binder().safety().is_unsafe());
            let _ = write!(o, ",\"name\":{}", esc(self.tcx.item_name(d).as_str()));
        }
        let _ = write!(o, ",\"kind\":{}", esc(&format!("{:?}", kind)));
        if let Some(sp) = body.spread_arg {
            let _ = write!(o, ",\"spread\":{}", sp.as_u32());
        }
        o.push_str(",\"locals\":[");
        for (n, l) in body.local_decls.iter().enumerate() {
            if n > 0 { o.push(','); }
            let _ = write!(o, "{}", self.ty(l.ty));
        }
        o.push_str("],\"names\":{");
        let mut first = true;
        let mut names: HashSet<String> = HashSet::new();
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    let k = p.local.as_u32().to_string();
                    if names.insert(k.clone()) {
                        if !first { o.push(','); }
                        first = false;
                        let _ = write!(o, "\"{}\":{}", k, esc(v.name.as_str()));
                    }
                }
            }
        }
        o.push_str("},\"blocks\":[");
        for (n, b) in body.basic_blocks.iter().enumerate() {
            if n > 0 { o.push(','); }
            if b.is_cleanup {
                o.push_str("{\"s\":[],\"t\":[\"cleanup\"]}");
                continue;
            }
            o.push_str("{\"s\":[");
            let mut f = true;
            for s in b.statements.iter() {
                let j = match &s.kind {
                    StatementKind::Assign(a) => format!("[\"=\",{},{},{}]", self.place(a.0), self.rvalue(&a.1), esc(&self.line(s.source_info.span))),
                    StatementKind::SetDiscriminant { place, variant_index } => format!("[\"sd\",{},{}]", self.place(**place), variant_index.as_u32()),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(_) => continue,
                        NonDivergingIntrinsic::CopyNonOverlapping(_) => "[\"cno\"]".into(),
                    },
                    _ => continue,
                };
                if !f { o.push(','); }
                f = false;
                o.push_str(&j);
            }
            o.push_str("],\"t\":");
            let t = b.terminator();
            let sp = esc(&self.line(t.source_info.span));
            let j = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, self.tcx);
                    let v: Vec<String> = targets.iter().map(|(v, t)| {
                        let val = match *dt.kind() {
                            ty::Int(i) => { let b = i.bit_width().unwrap_or(64); let sh = 128 - b; (((v << sh) as i128) >> sh).to_string() }
                            _ => v.to_string(),
                        };
                        format!("[{},{}]", val, t.as_u32())
                    }).collect();
                    format!("[\"switch\",{},[{}],{},{},{}]", self.operand(discr), v.join(","), targets.otherwise().as_u32(), self.ty(dt), sp)
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&body.local_decls, self.tcx).ty;
                    format!("[\"drop\",{},{},{},{}]", self.place(*place), target.as_u32(), self.ty(pt), sp)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fj = self.operand(func);
                    let aj: Vec<String> = args.iter().map(|a| self.operand(&a.node)).collect();
                    let uns = match *func.ty(&body.local_decls, self.tcx).kind() {
                        ty::FnDef(fd, _) => self.tcx.fn_sig(fd).skip_binder().safety().is_unsafe(),
                        _ => false,
                    };
                    format!("[\"call\",{},[{}],{},{},{},{}]", fj, aj.join(","), self.place(*destination), target.map(|t| t.as_u32().to_string()).unwrap_or("null".into()), sp, uns)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => format!("[\"bounds\",{},{}]", self.operand(len), self.operand(index)),
                        AssertKind::Overflow(op, a, b) => format!("[\"overflow\",{},{},{}]", esc(&format!("{:?}", op)), self.operand(a), self.operand(b)),
                        AssertKind::OverflowNeg(a) => format!("[\"overflow\",\"Neg\",{}]", self.operand(a)),
                        AssertKind::DivisionByZero(a) => format!("[\"div0\",{}]", self.operand(a)),
                        AssertKind::RemainderByZero(a) => format!("[\"rem0\",{}]", self.operand(a)),
                        other => format!("[\"other\",{}]", esc(&format!("{:?}", other).chars().take(60).collect::<String>())),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", self.operand(cond), expected, m, target.as_u32(), sp)
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"cleanup\"]".into(),
                other => format!("[\"other\",{}]", esc(&format!("{:?}", other).chars().take(60).collect::<String>())),
            };
            o.push_str(&j);
            o.push('}');
        }
        o.push_str("]}");
        o
    }

    // arguments for a function we want to analyse on its own; None if no
    // argument choice is known for one of its parameters
    fn root_args(&self, d: DefId) -> Option<GenericArgsRef<'tcx>> {
        let tcx = self.tcx;
        let preds: Vec<(ty::Ty<'tcx>, DefId)> = tcx.clauses_of(d).instantiate_identity(tcx).clauses.iter().filter_map(|c| {
            let c = c.skip_norm_wip();
            c.as_trait_clause().map(|t| (t.skip_binder().self_ty(), t.skip_binder().def_id()))
        }).collect();
        let mut ok = true;
        let u8s = Ty::new_slice(tcx, tcx.types.u8);
        let args = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
            ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
            ty::GenericParamDefKind::Const { .. } => { ok = false; ty::Const::from_target_usize(tcx, 8).into() }
            ty::GenericParamDefKind::Type { .. } => {
                let mut kind = "";
                for (t, tr) in preds.iter() {
                    if let ty::Param(pp) = t.kind() {
                        if pp.name == p.name {
                            let n = self.dpath(*tr);
                            if n.ends_with("::AsMut") { kind = "mut"; }
                            else if n.ends_with("::AsRef") && kind != "mut" { kind = "ref"; }
                            else if n.ends_with("::Write") && n.contains("::io::") { kind = "write"; }
                            else if n.ends_with("marker::Sized") { }
                            else if kind.is_empty() { kind = "?"; }
                        }
                    }
                }
                match kind {
                    "mut" => Ty::new_mut_ref(tcx, tcx.lifetimes.re_erased, u8s).into(),
                    "ref" | "" => Ty::new_imm_ref(tcx, tcx.lifetimes.re_erased, u8s).into(),
                    "write" => match self.opaque_writer() { Some(t) => t.into(), None => { ok = false; tcx.types.u8.into() } },
                    _ => { ok = false; tcx.types.u8.into() }
                }
            }
        });
        if ok { Some(args) } else { None }
    }

    fn opaque_writer(&self) -> Option<Ty<'tcx>> {
        for id in self.tcx.hir_crate_items(()).definitions() {
            if self.tcx.def_kind(id) == DefKind::Struct && self.tcx.item_name(id.to_def_id()).as_str() == "OpaqueW" {
                return Some(self.tcx.type_of(id.to_def_id()).instantiate_identity().skip_norm_wip());
            }
        }
        None
    }
}

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        tcx.dcx().abort_if_errors();
        let mut cx = Cx { tcx, env: TypingEnv::fully_monomorphized(), types: HashMap::new(), tyout: vec![], tyq: VecDeque::new(), seen: HashSet::new(), queue: VecDeque::new() };
        let mut roots = Vec::new();
        let mut skipped = Vec::new();
        let mut consts = Vec::new();
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            let k = tcx.def_kind(d);
            if !matches!(k, DefKind::Fn | DefKind::AssocFn) || !tcx.is_mir_available(d) {
                continue;
            }
            if tcx.trait_of_assoc(d).is_some() {
                continue;
            }
            match cx.root_args(d) {
                Some(args) => {
                    let i = match Instance::try_resolve(tcx, cx.env, d, args) { Ok(Some(i)) => i, _ => { skipped.push(cx.dpath(d)); continue } };
                    if cx.push(i) {
                        roots.push(cx.key(i));
                    }
                }
                None => skipped.push(cx.dpath(d)),
            }
        }
        let mut fns = Vec::new();
        loop {
            if let Some(i) = cx.queue.pop_front() {
                fns.push(cx.body(i));
                continue;
            }
            if !cx.tyq.is_empty() {
                cx.fill_types();
                continue;
            }
            break;
        }
        consts.extend(collect_consts(&mut cx));
        cx.fill_types();
        let mut s = String::new();
        s.push_str("{\"types\":[\n");
        s.push_str(&cx.tyout.join(",\n"));
        s.push_str("],\n\"fns\":[\n");
        s.push_str(&fns.join(",\n"));
        s.push_str("],\n\"consts\":[\n");
        s.push_str(&consts.join(",\n"));
        let r: Vec<String> = roots.iter().map(|r| esc(r)).collect();
        let k: Vec<String> = skipped.iter().map(|r| esc(r)).collect();
        let _ = write!(s, "],\n\"roots\":[{}],\n\"skipped\":[{}]}}\n", r.join(",\n"), k.join(",\n"));
        std::fs::write(&self.out, s).expect("write dump");
        Compilation::Continue
    }
}

fn collect_consts<'tcx>(cx: &mut Cx<'tcx>) -> Vec<String> {
    let tcx = cx.tcx;
    let mut out = Vec::new();
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        let k = tcx.def_kind(d);
        if !matches!(k, DefKind::Const { .. } | DefKind::AssocConst { .. }) {
            continue;
        }
        let Some(args) = cx.root_args(d) else { continue };
        let t = cx.norm(tcx.type_of(d).instantiate(tcx, args).skip_norm_wip());
        let c = Const::Unevaluated(UnevaluatedConst { def: d, args, promoted: None }, t);
        let j = cx.const_json(c);
        let im = tcx.impl_of_assoc(d).map(|im| rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", tcx.type_of(im).instantiate_identity().skip_norm_wip()))).unwrap_or_default();
        out.push(format!("{{\"p\":{},\"impl\":{},\"c\":{}}}", esc(&cx.dpath(d)), esc(&im), j));
    }
    out
}

struct Plain;
impl Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // used as RUSTC_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    let out = std::env::var("MIR_DUMP").ok();
    let want = std::env::var("MIR_CRATE").ok();
    let name = args.iter().position(|a| a == "--crate-name").and_then(|p| args.get(p + 1)).cloned();
    let m = match (&out, &want) { (Some(_), Some(w)) => name.as_deref() == Some(w.as_str()), (Some(_), None) => true, _ => false };
    if m {
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out: out.unwrap() });
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    }
}
