//! MIR exporter.  Runs as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`, and for every
//! workspace crate writes one JSON file with the type-checked, resolved MIR of every function of
//! the crate plus (instantiated at the call) the bodies of the workspace / combinator functions
//! they call.  It decides nothing; the rules live in /verif/analyzer.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TyKind, TypingEnv};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_json: Vec<String>,
    adts: HashMap<String, String>,
    work: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>)>,
    seen: HashSet<String>,
    bodies: Vec<String>,
}

/// upstream (std) functions whose real bodies we want instantiated: closure-taking combinators
fn want_std(path: &str) -> bool {
    const P: &[&str] = &[
        "std::option::Option::<T>::map",
        "std::option::Option::<T>::map_or",
        "std::option::Option::<T>::map_or_else",
        "std::option::Option::<T>::and_then",
        "std::option::Option::<T>::is_some_and",
        "std::option::Option::<T>::is_none_or",
        "std::option::Option::<T>::ok_or",
        "std::option::Option::<T>::ok_or_else",
        "std::option::Option::<T>::or_else",
        "std::option::Option::<T>::unwrap_or",
        "std::option::Option::<T>::unwrap_or_else",
        "std::option::Option::<T>::filter",
        "std::option::Option::<T>::is_some",
        "std::option::Option::<T>::is_none",
        "std::option::Option::<T>::as_ref",
        "std::option::Option::<T>::as_mut",
        "std::option::Option::<T>::take",
        "std::option::Option::<T>::replace",
        "std::option::Option::<T>::insert",
        "std::option::Option::<&T>::copied",
        "std::option::Option::<&T>::cloned",
        "std::result::Result::<T, E>::map",
        "std::result::Result::<T, E>::map_err",
        "std::result::Result::<T, E>::and_then",
        "std::result::Result::<T, E>::or_else",
        "std::result::Result::<T, E>::unwrap_or_else",
        "std::result::Result::<T, E>::map_or",
        "std::result::Result::<T, E>::map_or_else",
        "std::result::Result::<T, E>::is_ok",
        "std::result::Result::<T, E>::is_err",
        "std::result::Result::<T, E>::ok",
        "std::result::Result::<T, E>::inspect_err",
        "std::bool::<impl bool>::then",
        "core::bool::<impl bool>::then",
        "std::mem::swap",
        "std::mem::replace",
        "std::mem::take",
        "std::ptr::swap",
    ];
    P.contains(&path)
        || path.starts_with("std::ops::function::impls::")
        || path.starts_with("core::ops::function::impls::")
        || (path.starts_with("<") && (path.contains("as std::ops::Try>") || path.contains("as std::ops::FromResidual")))
}

fn is_ws_crate(tcx: TyCtxt<'_>, d: DefId) -> bool {
    let n = tcx.crate_name(d.krate);
    let n = n.as_str();
    n == "disc_riider" || n == "disc_riider_py" || n == "iso_tool"
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let p = with_no_trimmed_paths!(self.tcx.def_path_str(d));
        if d.is_local() {
            format!("{}::{}", self.tcx.crate_name(d.krate), p)
        } else {
            p
        }
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(t.to_string())
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let i = self.type_json.len();
        self.types.insert(t, i);
        self.type_json.push(String::new());
        let s = self.tystr(t);
        let mut o = format!("{{\"s\":{}", esc(&s));
        match t.kind() {
            TyKind::Bool => o.push_str(",\"k\":\"bool\""),
            TyKind::Char => o.push_str(",\"k\":\"char\""),
            TyKind::Int(it) => {
                let _ = write!(o, ",\"k\":\"int\",\"bits\":{}", it.bit_width().unwrap_or(64));
            }
            TyKind::Uint(it) => {
                let _ = write!(o, ",\"k\":\"uint\",\"bits\":{}", it.bit_width().unwrap_or(64));
            }
            TyKind::Float(_) => o.push_str(",\"k\":\"float\""),
            TyKind::Str => o.push_str(",\"k\":\"str\""),
            TyKind::Never => o.push_str(",\"k\":\"never\""),
            TyKind::Adt(d, args) => {
                let p = self.path(d.did());
                let mut a = vec![];
                for x in args.types() {
                    a.push(self.ty(x).to_string());
                }
                let _ = write!(o, ",\"k\":\"adt\",\"n\":{},\"a\":[{}]", esc(&p), a.join(","));
                if !self.adts.contains_key(&p) {
                    self.adts.insert(p.clone(), String::new());
                    let mut vs = vec![];
                    for (vi, v) in d.variants().iter_enumerated() {
                        let discr = if d.is_enum() { d.discriminant_for_variant(self.tcx, vi).val as i128 } else { 0 };
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            fs.push(format!("[{},{}]", esc(f.name.as_str()), esc(&self.tystr(ft))));
                        }
                        vs.push(format!("{{\"n\":{},\"d\":{},\"f\":[{}]}}", esc(v.name.as_str()), discr, fs.join(",")));
                    }
                    let kind = if d.is_enum() { "enum" } else if d.is_union() { "union" } else { "struct" };
                    self.adts.insert(p, format!("{{\"k\":\"{}\",\"v\":[{}]}}", kind, vs.join(",")));
                }
            }
            TyKind::Array(e, n) => {
                let ei = self.ty(*e);
                let _ = write!(o, ",\"k\":\"array\",\"e\":{}", ei);
                if let Some(v) = n.try_to_target_usize(self.tcx) {
                    let _ = write!(o, ",\"len\":{}", v);
                }
            }
            TyKind::Slice(e) => {
                let ei = self.ty(*e);
                let _ = write!(o, ",\"k\":\"slice\",\"e\":{}", ei);
            }
            TyKind::RawPtr(e, m) => {
                let ei = self.ty(*e);
                let _ = write!(o, ",\"k\":\"ptr\",\"e\":{},\"mut\":{}", ei, m.is_mut());
            }
            TyKind::Ref(_, e, m) => {
                let ei = self.ty(*e);
                let _ = write!(o, ",\"k\":\"ref\",\"e\":{},\"mut\":{}", ei, m.is_mut());
            }
            TyKind::Tuple(l) => {
                let v: Vec<String> = l.iter().map(|x| self.ty(x).to_string()).collect();
                let _ = write!(o, ",\"k\":\"tuple\",\"a\":[{}]", v.join(","));
            }
            TyKind::Closure(d, args) => {
                let up: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                let p = self.path((*d).into());
                let kind = format!("{:?}", args.as_closure().kind());
                let _ = write!(o, ",\"k\":\"closure\",\"n\":{},\"up\":[{}],\"ck\":{}", esc(&p), up.join(","), esc(&kind));
            }
            TyKind::Param(p) => {
                let _ = write!(o, ",\"k\":\"param\",\"n\":{}", esc(p.name.as_str()));
            }
            TyKind::FnDef(..) => {
                if let Some((d, _)) = fndef(t) {
                    let p = self.path(d);
                    let _ = write!(o, ",\"k\":\"fndef\",\"n\":{}", esc(&p));
                } else {
                    o.push_str(",\"k\":\"fndef\"");
                }
            }
            TyKind::FnPtr(..) => o.push_str(",\"k\":\"fnptr\""),
            TyKind::Dynamic(..) => o.push_str(",\"k\":\"dyn\""),
            _ => o.push_str(",\"k\":\"other\""),
        }
        o.push('}');
        self.type_json[i] = o;
        i
    }

    fn key(&self, inst: &Instance<'tcx>) -> String {
        let shim = match inst.def {
            InstanceKind::Item(_) => "",
            InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "shim-once ",
            _ => "shim ",
        };
        let did = inst.def.def_id();
        let did = match inst.def {
            InstanceKind::Shim(ShimKind::ClosureOnce { closure, .. }) => closure,
            _ => did,
        };
        with_no_trimmed_paths!(format!("{}{}{:?}", shim, self.path(did), inst.args))
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut o = format!("[{}", p.local.as_usize());
        let mut pt = rustc_middle::mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            o.push(',');
            match e {
                ProjectionElem::Deref => o.push_str("\"*\""),
                ProjectionElem::Field(f, _) => {
                    let mut name = String::new();
                    if let TyKind::Adt(d, _) = pt.ty.kind() {
                        let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                        if d.is_enum() || d.is_struct() {
                            if let Some(fd) = d.variant(vi).fields.get(f) {
                                name = fd.name.to_string();
                            }
                        }
                    }
                    let _ = write!(o, "[\"f\",{},{}]", f.as_usize(), esc(&name));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, "[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(o, "[\"ci\",{},{}]", offset, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, "[\"ss\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(s, v) => {
                    let _ = write!(o, "[\"d\",{},{}]", v.as_usize(), esc(s.map(|s| s.to_string()).unwrap_or_default().as_str()));
                }
                _ => o.push_str("[\"?\"]"),
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        o.push(']');
        o
    }

    fn alloc_bytes(&self, id: rustc_middle::mir::interpret::AllocId, off: u64, len: u64) -> Option<String> {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let total = a.size().bytes();
                if off + len > total || len > 1 << 16 {
                    return None;
                }
                if !a.provenance().ptrs().is_empty() {
                    return None;
                }
                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize);
                let mut s = String::with_capacity(b.len() * 2);
                for x in b {
                    let _ = write!(s, "{:02x}", x);
                }
                Some(s)
            }
            _ => None,
        }
    }

    fn constant(&mut self, te: TypingEnv<'tcx>, c: &Const<'tcx>, span: rustc_span::Span) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        let mut o = format!("{{\"t\":{}", ti);
        if let Some((d, args)) = fndef(t) {
            let _ = write!(o, ",\"fn\":{}", self.callee(te, d, args, true));
            o.push('}');
            return o;
        }
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                let pk = with_no_trimmed_paths!(format!("{}{:?}", self.path(u.def), u.args));
                let _ = write!(o, ",\"promoted\":{},\"pdef\":{}}}", p.as_usize(), esc(&pk));
                return o;
            }
            let p = self.path(u.def);
            let _ = write!(o, ",\"item\":{}", esc(&p));
        }
        let v = match c {
            Const::Ty(..) => None,
            _ => c.eval(self.tcx, te, span).ok(),
        };
        if let Some(v) = v {
            match v {
                ConstValue::Scalar(Scalar::Int(i)) => {
                    let bits = i.to_bits(i.size());
                    let val: i128 = match t.kind() {
                        TyKind::Int(_) => i.to_int(i.size()),
                        _ => bits as i128,
                    };
                    let _ = write!(o, ",\"int\":\"{}\"", val);
                }
                ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                    let (prov, off) = p.into_raw_parts();
                    let id = prov.alloc_id();
                    // &[u8; N], &ADT of bytes
                    if let TyKind::Ref(_, inner, _) = t.kind() {
                        if let TyKind::Array(e, n) = inner.kind() {
                            if let (Some(n), true) = (n.try_to_target_usize(self.tcx), e.is_integral()) {
                                if let Ok(l) = self.tcx.layout_of(te.as_query_input(*e)) {
                                    let es = l.size.bytes();
                                    if let Some(b) = self.alloc_bytes(id, off.bytes(), n * es) {
                                        let _ = write!(o, ",\"refbytes\":\"{}\",\"n\":{}", b, n);
                                    }
                                }
                            }
                        }
                    }
                    if let GlobalAlloc::Static(d) = self.tcx.global_alloc(id) {
                        let p = self.path(d);
                        let _ = write!(o, ",\"static\":{}", esc(&p));
                    }
                }
                ConstValue::ZeroSized => o.push_str(",\"zst\":true"),
                ConstValue::Slice { alloc_id, meta } => {
                    if let GlobalAlloc::Memory(a) = self.tcx.global_alloc(alloc_id) {
                        let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
                        let is_str = matches!(t.kind(), TyKind::Ref(_, i, _) if i.is_str());
                        if is_str {
                            let _ = write!(o, ",\"str\":{}", esc(&String::from_utf8_lossy(b)));
                        } else {
                            let h: String = b.iter().map(|x| format!("{:02x}", x)).collect();
                            let _ = write!(o, ",\"refbytes\":\"{}\",\"n\":{}", h, meta);
                        }
                    }
                }
                ConstValue::Indirect { alloc_id, offset } => {
                    if let Ok(l) = self.tcx.layout_of(te.as_query_input(t)) {
                        let sz = l.size.bytes();
                        let all = match self.tcx.global_alloc(alloc_id) {
                            GlobalAlloc::Memory(a) => a.inner().size().bytes(),
                            _ => 0,
                        };
                        let zero = sz > 1 << 16 && offset.bytes() + sz <= all && match self.tcx.global_alloc(alloc_id) {
                            GlobalAlloc::Memory(a) => a
                                .inner()
                                .inspect_with_uninit_and_ptr_outside_interpreter(offset.bytes() as usize..(offset.bytes() + sz) as usize)
                                .iter()
                                .all(|b| *b == 0),
                            _ => false,
                        };
                        if zero {
                            let _ = write!(o, ",\"zeros\":{}", sz);
                        } else if let Some(b) = self.alloc_bytes(alloc_id, offset.bytes(), sz) {
                            let _ = write!(o, ",\"bytes\":\"{}\"", b);
                        }
                    }
                }
            }
        }
        let _ = write!(o, ",\"s\":{}", esc(&with_no_trimmed_paths!(format!("{}", c))));
        o.push('}');
        o
    }

    fn operand(&mut self, te: TypingEnv<'tcx>, body: &Body<'tcx>, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(body, p)),
            Operand::Constant(c) => format!("{{\"k\":{}}}", self.constant(te, &c.const_, c.span)),
            _ => "{\"u\":1}".to_string(),
        }
    }

    fn callee(&mut self, te: TypingEnv<'tcx>, d: DefId, args: GenericArgsRef<'tcx>, enqueue: bool) -> String {
        let tcx = self.tcx;
        let p = self.path(d);
        let a: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
        let mut o = format!("{{\"p\":{},\"a\":[{}]", esc(&p), a.join(","));
        if matches!(tcx.def_kind(d), DefKind::AssocFn) {
            if let Some(tr) = tcx.trait_of_assoc(d) {
                let tp = self.path(tr);
                let _ = write!(o, ",\"tr\":{},\"m\":{}", esc(&tp), esc(tcx.item_name(d).as_str()));
            } else {
                let _ = write!(o, ",\"m\":{}", esc(tcx.item_name(d).as_str()));
            }
        } else if matches!(tcx.def_kind(d), DefKind::Fn) {
            let _ = write!(o, ",\"m\":{}", esc(tcx.item_name(d).as_str()));
        } else if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            let par = tcx.parent(d);
            let _ = write!(o, ",\"ctor\":{}", esc(&self.path(par)));
            if tcx.def_kind(par) == DefKind::Variant {
                let adt = tcx.adt_def(tcx.parent(par));
                let vi = adt.variant_index_with_ctor_id(d);
                let _ = write!(o, ",\"cadt\":{},\"cvar\":{},\"cvn\":{}", esc(&self.path(adt.did())), vi.as_usize(), esc(adt.variant(vi).name.as_str()));
            } else {
                let _ = write!(o, ",\"cadt\":{},\"cvar\":0,\"cvn\":{}", esc(&self.path(par)), esc(tcx.item_name(par).as_str()));
            }
        }
        if tcx.intrinsic(d).is_some() {
            o.push_str(",\"intr\":true");
        }
        let okk = matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
        if okk {
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, te, d, args) {
                let rd = inst.def.def_id();
                let rp = self.path(rd);
                let kind = match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closure_once",
                    InstanceKind::Shim(ShimKind::FnPtr(..)) => "fnptr",
                    InstanceKind::Shim(ShimKind::DropGlue(..)) => "drop",
                    InstanceKind::Shim(ShimKind::Clone(..)) => "clone",
                    _ => "shim",
                };
                let ra: Vec<String> = inst.args.types().map(|t| self.ty(t).to_string()).collect();
                let _ = write!(o, ",\"rp\":{},\"rk\":\"{}\",\"ra\":[{}]", esc(&rp), kind, ra.join(","));
                let target = match inst.def {
                    InstanceKind::Item(did) => Some(Instance { def: InstanceKind::Item(did), args: inst.args }),
                    InstanceKind::Shim(ShimKind::ClosureOnce { closure, .. }) => {
                        // the closure body itself; the caller passes the closure by value
                        if let TyKind::Closure(_, cargs) = inst.args.type_at(0).kind() {
                            Some(Instance { def: InstanceKind::Item(closure), args: cargs })
                        } else {
                            None
                        }
                    }
                    _ => None,
                };
                if let Some(ti) = target {
                    let did = ti.def.def_id();
                    let tp = self.path(did);
                    let ws = is_ws_crate(tcx, did);
                    let want = (ws || want_std(&tp) || want_std(&rp)) && has_mir(tcx, did);
                    if want {
                        let k = self.key(&ti);
                        let _ = write!(o, ",\"b\":{}", esc(&k));
                        if enqueue && self.seen.insert(k) {
                            self.work.push_back((ti, te));
                        }
                    }
                }
            }
        }
        o.push('}');
        o
    }

    fn rvalue(&mut self, te: TypingEnv<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(te, body, o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|n| n.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.operand(te, body, o), n)
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", self.place(body, p), m)
            }
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{},true]", self.place(body, p)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", self.place(body, p), m.is_mut()),
            Rvalue::Cast(k, o, t) => {
                let kn = match k {
                    CastKind::IntToInt => "int".to_string(),
                    CastKind::Transmute => "transmute".to_string(),
                    CastKind::BoxDerefTransmute => "boxderef".to_string(),
                    CastKind::PointerCoercion(pc, _) => format!("coerce-{:?}", pc),
                    k => format!("{:?}", k),
                };
                let from = o.ty(&body.local_decls, self.tcx);
                format!("[\"cast\",{},{},{},{}]", esc(&kn), self.operand(te, body, o), self.ty(from), self.ty(*t))
            }
            Rvalue::BinaryOp(op, b) => {
                let lt = b.0.ty(&body.local_decls, self.tcx);
                format!("[\"bin\",\"{:?}\",{},{},{}]", op, self.operand(te, body, &b.0), self.operand(te, body, &b.1), self.ty(lt))
            }
            Rvalue::UnaryOp(op, a) => {
                let lt = a.ty(&body.local_decls, self.tcx);
                format!("[\"un\",\"{:?}\",{},{}]", op, self.operand(te, body, a), self.ty(lt))
            }
            Rvalue::Discriminant(p) => {
                let lt = p.ty(&body.local_decls, self.tcx).ty;
                format!("[\"discr\",{},{}]", self.place(body, p), self.ty(lt))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(body, p)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(te, body, o)).collect();
                let kind = match &**k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let ad = self.tcx.adt_def(*d);
                        let p = self.path(*d);
                        let names: Vec<String> = ad.variant(*vi).fields.iter().map(|f| esc(f.name.as_str())).collect();
                        format!("[\"adt\",{},{},{},[{}],{}]", esc(&p), vi.as_usize(), esc(ad.variant(*vi).name.as_str()), names.join(","), ad.is_enum())
                    }
                    AggregateKind::Closure(d, args) => {
                        let inst = Instance { def: InstanceKind::Item(*d), args };
                        let k = self.key(&inst);
                        if is_ws_crate(self.tcx, *d) && self.seen.insert(k.clone()) {
                            self.work.push_back((inst, te));
                        }
                        format!("[\"closure\",{},{}]", esc(&self.path(*d)), esc(&k))
                    }
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},[{}]]", kind, v.join(","))
            }
            _ => format!("[\"other\",{}]", esc(&format!("{:?}", r))),
        }
    }

    fn line(&self, sp: rustc_span::Span) -> (String, usize, bool) {
        let exp = sp.from_expansion();
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        (f, lo.line, exp)
    }

    fn body(&mut self, te: TypingEnv<'tcx>, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = String::new();
        let names: HashMap<usize, String> = body
            .var_debug_info
            .iter()
            .filter_map(|v| match &v.value {
                VarDebugInfoContents::Place(p) if p.projection.is_empty() => Some((p.local.as_usize(), v.name.to_string())),
                _ => None,
            })
            .collect();
        let _ = write!(o, "\"argc\":{},\"locals\":[", body.arg_count);
        for (i, l) in body.local_decls.iter_enumerated() {
            if i.as_usize() > 0 {
                o.push(',');
            }
            let t = self.ty(l.ty);
            let _ = write!(o, "[{},{}]", t, names.get(&i.as_usize()).map(|s| esc(s)).unwrap_or("null".into()));
        }
        let _ = write!(o, "],\"spread\":{},\"blocks\":[", body.spread_arg.map(|l| l.as_usize().to_string()).unwrap_or("null".into()));
        for (bi, bb) in body.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 {
                o.push(',');
            }
            let _ = write!(o, "{{\"cl\":{},\"s\":[", bb.is_cleanup);
            let mut first = true;
            for s in &bb.statements {
                let js = match &s.kind {
                    StatementKind::Assign(b) => {
                        let (_, ln, _) = self.line(s.source_info.span);
                        Some(format!("[\"=\",{},{},{}]", self.place(body, &b.0), self.rvalue(te, body, &b.1), ln))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        Some(format!("[\"sd\",{},{}]", self.place(body, place), variant_index.as_usize()))
                    }
                    StatementKind::StorageDead(l) => Some(format!("[\"dead\",{}]", l.as_usize())),
                    _ => None,
                };
                if let Some(j) = js {
                    if !first {
                        o.push(',');
                    }
                    first = false;
                    o.push_str(&j);
                }
            }
            let t = bb.terminator();
            let (file, ln, exp) = self.line(t.source_info.span);
            let _ = write!(o, "],\"f\":{},\"l\":{},\"x\":{},\"t\":", esc(&file), ln, exp);
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    let _ = write!(o, "[\"goto\",{}]", target.as_usize());
                }
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                    let _ = write!(o, "[\"goto\",{}]", real_target.as_usize());
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_usize())).collect();
                    let _ = write!(o, "[\"switch\",{},{},[{}],{}]", self.operand(te, body, discr), self.ty(dt), v.join(","), targets.otherwise().as_usize());
                }
                TerminatorKind::Return => o.push_str("[\"ret\"]"),
                TerminatorKind::Unreachable => o.push_str("[\"unreach\"]"),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => o.push_str("[\"resume\"]"),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    let _ = write!(o, "[\"drop\",{},{},{}]", self.place(body, place), self.ty(pt), target.as_usize());
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            format!("[\"bounds\",{},{}]", self.operand(te, body, len), self.operand(te, body, index))
                        }
                        AssertKind::Overflow(op, a, b) => {
                            format!("[\"overflow\",\"{:?}\",{},{}]", op, self.operand(te, body, a), self.operand(te, body, b))
                        }
                        AssertKind::OverflowNeg(a) => format!("[\"neg\",{}]", self.operand(te, body, a)),
                        AssertKind::DivisionByZero(a) => format!("[\"div0\",{}]", self.operand(te, body, a)),
                        AssertKind::RemainderByZero(a) => format!("[\"rem0\",{}]", self.operand(te, body, a)),
                        _ => "[\"other\"]".to_string(),
                    };
                    let _ = write!(o, "[\"assert\",{},{},{},{}]", self.operand(te, body, cond), expected, m, target.as_usize());
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(&body.local_decls, tcx);
                    let f = if let Some((d, a)) = fndef(ft) {
                        self.callee(te, d, a, true)
                    } else {
                        format!("{{\"dyn\":{}}}", self.operand(te, body, func))
                    };
                    let av: Vec<String> = args.iter().map(|a| self.operand(te, body, &a.node)).collect();
                    let at: Vec<String> = args.iter().map(|a| { let t = a.node.ty(&body.local_decls, tcx); self.ty(t).to_string() }).collect();
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    let _ = write!(
                        o,
                        "[\"call\",{},[{}],{},{},{},[{}]]",
                        f,
                        av.join(","),
                        self.place(body, destination),
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()),
                        self.ty(dt),
                        at.join(",")
                    );
                }
                k => {
                    let _ = write!(o, "[\"other\",{}]", esc(&format!("{:?}", std::mem::discriminant(k))));
                }
            }
            o.push('}');
        }
        o.push(']');
        o
    }

    fn instance(&mut self, inst: Instance<'tcx>, te: TypingEnv<'tcx>, root: bool) {
        let tcx = self.tcx;
        let did = inst.def.def_id();
        let key = self.key(&inst);
        let mir = tcx.instance_mir(inst.def).clone();
        let b = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, te, EarlyBinder::bind(tcx, mir)) {
            Ok(b) => b,
            Err(_) => return,
        };
        let sp = tcx.def_span(did);
        let (f, l, exp) = self.line(sp);
        let sm = tcx.sess.source_map();
        let fl = sm.lookup_char_pos(b.span.source_callsite().hi()).line;
        let mut o = format!(
            "{{\"key\":{},\"path\":{},\"crate\":{},\"root\":{},\"file\":{},\"line\":{},\"endline\":{},\"exp\":{},\"closure\":{},",
            esc(&key),
            esc(&self.path(did)),
            esc(tcx.crate_name(did.krate).as_str()),
            root,
            esc(&f),
            l,
            fl,
            exp,
            matches!(tcx.def_kind(did), DefKind::Closure)
        );
        if matches!(tcx.def_kind(did), DefKind::Closure) {
            let mut p = tcx.parent(did);
            while matches!(tcx.def_kind(p), DefKind::Closure) {
                p = tcx.parent(p);
            }
            let _ = write!(o, "\"parent\":{},", esc(&self.path(p)));
        }
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            let _ = write!(o, "\"pub\":{},\"name\":{},", tcx.visibility(did).is_public(), esc(tcx.item_name(did).as_str()));
            if let Some(ld) = did.as_local() {
                let _ = write!(o, "\"reach\":{},", tcx.effective_visibilities(()).is_reachable(ld));
            }
            let par = tcx.parent(did);
            if let DefKind::Impl { .. } = tcx.def_kind(par) {
                let st = tcx.type_of(par).instantiate_identity().skip_norm_wip();
                let _ = write!(o, "\"impl_self\":{},", esc(&self.tystr(st)));
                if let Some(tr) = tcx.impl_opt_trait_ref(par) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    let _ = write!(o, "\"impl_trait\":{},", esc(&self.path(tr.def_id)));
                }
            }
        }
        o.push_str(&self.body(te, &b));
        // promoted
        o.push_str(",\"promoted\":[");
        if !matches!(tcx.def_kind(did), DefKind::Ctor(..)) {
            let proms = tcx.promoted_mir(did).clone();
            let mut first = true;
            for p in proms.iter() {
                if let Ok(pb) = inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, te, EarlyBinder::bind(tcx, p.clone())) {
                    if !first {
                        o.push(',');
                    }
                    first = false;
                    let s = self.body(te, &pb);
                    let _ = write!(o, "{{{}}}", s);
                }
            }
        }
        let pk = with_no_trimmed_paths!(format!("{}{:?}", self.path(did), inst.args));
        let _ = write!(o, "],\"pkey\":{}}}", esc(&pk));
        self.bodies.push(o);
    }
}

fn has_mir(tcx: TyCtxt<'_>, d: DefId) -> bool {
    match tcx.def_kind(d) {
        DefKind::Fn | DefKind::AssocFn | DefKind::Closure => tcx.is_mir_available(d),
        _ => false,
    }
}

fn fndef<'tcx>(t: Ty<'tcx>) -> Option<(DefId, GenericArgsRef<'tcx>)> {
    match t.kind() {
        TyKind::FnDef(d, a) => Some(((*d).into(), a.skip_binder())),
        _ => None,
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let out = match std::env::var("VP_MIR_OUT") {
            Ok(o) => o,
            Err(_) => return rustc_driver::Compilation::Continue,
        };
        if !["disc_riider", "disc_riider_py", "iso_tool"].contains(&name.as_str()) {
            return rustc_driver::Compilation::Continue;
        }
        let mut cx = Cx { tcx, types: Default::default(), type_json: vec![], adts: Default::default(), work: Default::default(), seen: Default::default(), bodies: vec![] };
        let mut roots = vec![];
        for ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) || !has_mir(tcx, d) {
                continue;
            }
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let inst = Instance { def: InstanceKind::Item(d), args };
            let te = TypingEnv::post_analysis(tcx, d);
            let inst_args = tcx.erase_and_anonymize_regions(args);
            let inst = Instance { args: inst_args, ..inst };
            roots.push((inst, te));
        }
        for (i, te) in &roots {
            let k = cx.key(i);
            if cx.seen.insert(k) {
                cx.instance(*i, *te, true);
            }
        }
        while let Some((i, te)) = cx.work.pop_front() {
            cx.instance(i, te, false);
        }
        let mut o = String::from("{\"crate\":");
        o.push_str(&esc(&name));
        let _ = write!(o, ",\"types\":[{}],\"adts\":{{", cx.type_json.join(",\n"));
        let ads: Vec<String> = cx.adts.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        let _ = write!(o, "{}}},\"bodies\":[\n{}\n]}}", ads.join(",\n"), cx.bodies.join(",\n"));
        let f = format!("{}/{}.json", out, name);
        std::fs::write(&f, o).expect("write mir dump");
        rustc_driver::Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    if args.iter().any(|a| a == "--crate-name") {
        args.push("-Zalways-encode-mir".into());
        args.push("-Zmir-opt-level=0".into());
        args.push("--cap-lints".into());
        args.push("allow".into());
    }
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb));
    code
}
