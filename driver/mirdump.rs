// rustc_private front end: dumps the type-checked, borrow-checked, monomorphised MIR of the
// crate under analysis (resolved callees, type table, spans) as JSON.  Nothing is executed.
#![feature(rustc_private)]
#![allow(unused)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_hir;
extern crate rustc_span;
#[macro_use]
extern crate rustc_public;
extern crate serde_json;

use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::mir::visit::{MirVisitor, Location};
use rustc_public::ty::*;
use rustc_public::abi::{FieldsShape, Scalar, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
extern crate rustc_public_bridge;
use rustc_public_bridge::IndexedVal;
use rustc_public::{CrateDef, CrateDefType};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet, HashMap, VecDeque};
use std::ops::ControlFlow;

struct Ctx {
    queue: VecDeque<Instance>,
    seen: HashSet<Instance>,
    fns: serde_json::Map<String, Value>,
    types: serde_json::Map<String, Value>,
    pending_ty: Vec<Ty>,
    seen_ty: HashSet<Ty>,
}

fn span_json(s: &Span) -> Value {
    let l = s.get_lines();
    json!({"f": s.get_filename().to_string(), "l": l.start_line, "c": l.start_col})
}

fn ty_id(t: &Ty) -> String { serde_json::to_value(t).unwrap().to_string() }

fn key(i: &Instance) -> String { i.mangled_name().to_string() }

impl Ctx {
    fn enqueue(&mut self, i: Instance) {
        if self.seen.insert(i) { self.queue.push_back(i); }
    }
    fn ty(&mut self, t: Ty) -> Value {
        if self.seen_ty.insert(t) { self.pending_ty.push(t); }
        serde_json::to_value(&t).unwrap()
    }
    fn inst(&mut self, i: Instance) -> Value {
        let krate = i.def_crate();
        let local = krate.1;
        let has = local && i.has_body() && i.kind == InstanceKind::Item;
        if has { self.enqueue(i); }
        let args: Vec<Value> = i.args().0.iter().map(|a| match a {
            GenericArgKind::Type(t) => json!({"ty": self.ty(*t), "s": format!("{}", t)}),
            GenericArgKind::Const(c) => json!({"const": format!("{:?}", c)}),
            GenericArgKind::Lifetime(_) => json!("'_"),
        }).collect();
        json!({"key": key(&i), "name": i.name().to_string(), "trimmed": i.trimmed_name().to_string(), "krate": krate.0, "local": local, "kind": format!("{:?}", i.kind), "body": has, "args": args})
    }
    fn flush_types(&mut self) {
        while let Some(t) = self.pending_ty.pop() {
            let s = format!("{}", t);
            let v = match t.kind() {
                TyKind::RigidTy(r) => match r {
                    RigidTy::Bool => json!({"k": "bool"}),
                    RigidTy::Char => json!({"k": "char"}),
                    RigidTy::Int(i) => json!({"k": "int", "n": format!("{:?}", i)}),
                    RigidTy::Uint(i) => json!({"k": "uint", "n": format!("{:?}", i)}),
                    RigidTy::Float(i) => json!({"k": "float", "n": format!("{:?}", i)}),
                    RigidTy::Adt(def, args) => {
                        let krate = def.krate();
                        let local = krate.is_local;
                        let name = def.name().to_string();
                        let targs: Vec<Value> = args.0.iter().filter_map(|a| match a { GenericArgKind::Type(t) => Some(self.ty(*t)), _ => None }).collect();
                        let full = local || name.ends_with("Option") || name.ends_with("Result") || name.ends_with("ControlFlow") || name.ends_with("Ordering");
                        let mut vs = vec![];
                        let kind = format!("{:?}", def.kind());
                        if full {
                            for (ix, v) in def.variants().iter().enumerate() {
                                let fs: Vec<Value> = v.fields().iter().map(|f| { let ft = f.ty_with_args(&args); json!({"name": f.name.to_string(), "ty": self.ty(ft)}) }).collect();
                                let d = if kind == "Enum" { format!("{}", def.discriminant_for_variant(v.idx()).val) } else { "0".to_string() };
                                vs.push(json!({"name": v.name().to_string(), "discr": d, "fields": fs}));
                            }
                        }
                        json!({"k": "adt", "name": name, "kind": kind, "local": local, "box": def.is_box(), "args": targs, "variants": vs})
                    }
                    RigidTy::Str => json!({"k": "str"}),
                    RigidTy::Array(t, c) => json!({"k": "array", "of": self.ty(t), "n": c.eval_target_usize().ok()}),
                    RigidTy::Slice(t) => json!({"k": "slice", "of": self.ty(t)}),
                    RigidTy::RawPtr(t, m) => json!({"k": "ptr", "of": self.ty(t), "mut": m == Mutability::Mut}),
                    RigidTy::Ref(_, t, m) => json!({"k": "ref", "of": self.ty(t), "mut": m == Mutability::Mut}),
                    RigidTy::FnDef(def, args) => match Instance::resolve(def, &args) {
                        Ok(i) => { let d = def.name().to_string(); let u = def.fn_sig().skip_binder().safety == Safety::Unsafe; let iv = self.inst(i); json!({"k": "fn", "def": d, "inst": iv, "unsafe": u}) }
                        Err(e) => json!({"k": "fn", "def": def.name().to_string(), "unresolved": true}),
                    },
                    RigidTy::FnPtr(_) => json!({"k": "fnptr"}),
                    RigidTy::Closure(def, args) => {
                        let mut out = json!({"k": "closure", "def": def.name().to_string()});
                        for kd in [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce] {
                            if let Ok(i) = Instance::resolve_closure(def, &args, kd.clone()) {
                                if i.kind == InstanceKind::Item {
                                    let iv = self.inst(i);
                                    out["inst"] = iv;
                                    out["ck"] = json!(format!("{:?}", kd));
                                    break;
                                }
                            }
                        }
                        out
                    }
                    RigidTy::Dynamic(..) => json!({"k": "dyn"}),
                    RigidTy::Never => json!({"k": "never"}),
                    RigidTy::Tuple(ts) => { let v: Vec<Value> = ts.iter().map(|t| self.ty(*t)).collect(); json!({"k": "tuple", "of": v}) }
                    _ => json!({"k": "other"}),
                },
                _ => json!({"k": "other"}),
            };
            let mut v = v;
            v["s"] = json!(s);
            self.types.insert(ty_id(&t), v);
        }
    }
    /// structured value of constant memory
    fn decode(&mut self, t: Ty, a: &Allocation, off: usize, depth: usize) -> Option<Value> {
        if depth > 8 { return None; }
        let shape = t.layout().ok()?.shape();
        let size = shape.size.bytes();
        let tid = self.ty(t);
        let ptr_at = |o: usize| a.provenance.ptrs.iter().find(|(s, _)| *s == o).map(|(_, p)| p.0);
        let raw = |o: usize, n: usize| -> Option<u128> {
            if o + n > a.bytes.len() { return None; }
            let mut v = 0u128;
            for (i, b) in a.bytes[o..o + n].iter().enumerate() { v |= ((*b)? as u128) << (8 * i); }
            Some(v)
        };
        let v = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool | RigidTy::Int(_) | RigidTy::Uint(_) | RigidTy::Float(_) | RigidTy::Char => {
                    raw(off, size)?;
                    json!({"bytes": a.bytes[off..off + size].to_vec()})
                }
                RigidTy::Ref(_, p, _) => {
                    let id = ptr_at(off)?;
                    match GlobalAlloc::from(id) {
                        GlobalAlloc::Memory(m) => {
                            let base = raw(off, 8)? as usize;
                            match p.kind() {
                                TyKind::RigidTy(RigidTy::Str) => { let n = raw(off + 8, 8)? as usize; let b: Option<Vec<u8>> = m.bytes[base..base + n].iter().copied().collect(); json!({"str": String::from_utf8(b?).ok()?}) }
                                TyKind::RigidTy(RigidTy::Slice(e)) => {
                                    let n = raw(off + 8, 8)? as usize;
                                    let es = e.layout().ok()?.shape().size.bytes();
                                    let mut fs = vec![];
                                    for i in 0..n { fs.push(self.decode(e, &m, base + i * es, depth + 1)?); }
                                    json!({"ref": {"ty": self.ty(p), "v": {"variant": 0, "fields": fs}}})
                                }
                                _ => { let d = self.decode(p, &m, base, depth + 1)?; json!({"ref": d}) }
                            }
                        }
                        _ => return None,
                    }
                }
                RigidTy::Tuple(ts) => {
                    let offs = match &shape.fields { FieldsShape::Arbitrary { offsets } => offsets.clone(), _ => vec![] };
                    let mut fs = vec![];
                    for (i, ft) in ts.iter().enumerate() { fs.push(self.decode(*ft, a, off + offs.get(i)?.bytes(), depth + 1)?); }
                    json!({"variant": 0, "fields": fs})
                }
                RigidTy::Array(e, c) => {
                    let n = c.eval_target_usize().ok()? as usize;
                    let es = e.layout().ok()?.shape().size.bytes();
                    let mut fs = vec![];
                    for i in 0..n { fs.push(self.decode(e, a, off + i * es, depth + 1)?); }
                    json!({"variant": 0, "fields": fs})
                }
                RigidTy::Adt(def, args) => {
                    let vars = def.variants();
                    let (vi, offs): (usize, Vec<usize>) = match &shape.variants {
                        VariantsShape::Single { index } => {
                            let offs = match &shape.fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(), _ => vec![] };
                            (index.to_index(), offs)
                        }
                        VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                            let toff = match &shape.fields { FieldsShape::Arbitrary { offsets } => offsets.get(*tag_field)?.bytes(), _ => 0 };
                            let ts = match tag { Scalar::Initialized { value, .. } | Scalar::Union { value } => value.size(&rustc_public::target::MachineInfo::target()).bytes() };
                            let vi = match tag_encoding {
                                TagEncoding::Direct => {
                                    let d = raw(off + toff, ts)?;
                                    let mask = if ts >= 16 { u128::MAX } else { (1u128 << (8 * ts)) - 1 };
                                    vars.iter().position(|v| def.discriminant_for_variant(v.idx()).val & mask == d)?
                                }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    if ptr_at(off + toff).is_some() { untagged_variant.to_index() } else {
                                        let d = raw(off + toff, ts)?;
                                        let rel = d.wrapping_sub(*niche_start);
                                        let (lo, hi) = (niche_variants.start().to_index(), niche_variants.end().to_index());
                                        if rel <= (hi - lo) as u128 { lo + rel as usize } else { untagged_variant.to_index() }
                                    }
                                }
                            };
                            (vi, variants.get(vi)?.offsets.iter().map(|o| o.bytes()).collect())
                        }
                        _ => return None,
                    };
                    let vd = vars.get(vi)?;
                    let mut fs = vec![];
                    for (i, f) in vd.fields().iter().enumerate() {
                        let ft = f.ty_with_args(&args);
                        fs.push(self.decode(ft, a, off + offs.get(i)?, depth + 1)?);
                    }
                    json!({"variant": vi, "fields": fs})
                }
                _ => return None,
            },
            _ => return None,
        };
        Some(json!({"ty": tid, "v": v}))
    }
    fn operand(&mut self, o: &Operand) -> Value {
        match o {
            Operand::Copy(p) => json!({"o": "copy", "p": self.place(p)}),
            Operand::Move(p) => json!({"o": "move", "p": self.place(p)}),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let tv = self.ty(t);
                let mut val = json!(null);
                match c.const_.kind() {
                    ConstantKind::Allocated(a) => {
                        let d = self.decode(t, a, 0, 0);
                        let plain = matches!(t.kind(), TyKind::RigidTy(RigidTy::Bool | RigidTy::Int(_) | RigidTy::Uint(_) | RigidTy::Float(_) | RigidTy::Char));
                        if let (Some(d), false) = (d, plain) { val = d["v"].clone(); }
                        else if a.provenance.ptrs.is_empty() {
                            if let Ok(b) = a.raw_bytes() { val = json!({"bytes": b}); }
                        } else {
                            val = json!({"sym": format!("{}", c.const_.ty())});
                        }
                    }
                    ConstantKind::ZeroSized => { val = json!("zst"); }
                    ConstantKind::Ty(tc) => { val = json!({"tyconst": format!("{:?}", tc)}); if let Ok(n) = tc.eval_target_usize() { val = json!({"usize": n}); } }
                    _ => {}
                }
                json!({"o": "const", "ty": tv, "v": val})
            }
            Operand::RuntimeChecks(r) => json!({"o": "rtc", "v": format!("{:?}", r)}),
        }
    }
    fn place(&mut self, p: &Place) -> Value {
        let pr: Vec<Value> = p.projection.iter().map(|e| match e {
            ProjectionElem::Deref => json!("*"),
            ProjectionElem::Field(i, t) => json!({"f": i, "ty": self.ty(*t)}),
            ProjectionElem::Index(l) => json!({"i": l}),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => json!({"ci": offset, "end": from_end}),
            ProjectionElem::Subslice { from, to, from_end } => json!({"sub": [from, to], "end": from_end}),
            ProjectionElem::Downcast(v) => json!({"d": serde_json::to_value(v).unwrap()}),
            _ => json!({"other": format!("{:?}", e)}),
        }).collect();
        json!({"l": p.local, "p": pr})
    }
    fn rvalue(&mut self, r: &Rvalue) -> Value {
        match r {
            Rvalue::Use(o, _) => json!({"r": "use", "a": self.operand(o)}),
            Rvalue::BinaryOp(b, x, y) => json!({"r": "bin", "op": format!("{:?}", b), "a": self.operand(x), "b": self.operand(y)}),
            Rvalue::CheckedBinaryOp(b, x, y) => json!({"r": "cbin", "op": format!("{:?}", b), "a": self.operand(x), "b": self.operand(y)}),
            Rvalue::UnaryOp(u, x) => json!({"r": "un", "op": format!("{:?}", u), "a": self.operand(x)}),
            Rvalue::Cast(k, o, t) => json!({"r": "cast", "ck": format!("{:?}", k), "a": self.operand(o), "ty": self.ty(*t)}),
            Rvalue::Ref(_, bk, p) => json!({"r": "ref", "mut": matches!(bk, BorrowKind::Mut { .. }), "p": self.place(p)}),
            Rvalue::AddressOf(k, p) => json!({"r": "addr", "p": self.place(p)}),
            Rvalue::CopyForDeref(p) => json!({"r": "use", "a": {"o": "copy", "p": self.place(p)}}),
            Rvalue::Discriminant(p) => json!({"r": "discr", "p": self.place(p)}),
            Rvalue::Len(p) => json!({"r": "len", "p": self.place(p)}),
            Rvalue::Repeat(o, c) => json!({"r": "repeat", "a": self.operand(o), "n": c.eval_target_usize().ok()}),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<Value> = ops.iter().map(|o| self.operand(o)).collect();
                let kk = match k {
                    AggregateKind::Array(_) => json!({"k": "array"}),
                    AggregateKind::Tuple => json!({"k": "tuple"}),
                    AggregateKind::Adt(d, vi, args, _, af) => { let t = self.ty(d.ty_with_args(args)); json!({"k": "adt", "v": serde_json::to_value(vi).unwrap(), "ty": t, "af": af.is_some()}) }
                    AggregateKind::Closure(d, args) => { let t = self.ty(Ty::new_closure(*d, args.clone())); json!({"k": "closure", "ty": t}) }
                    AggregateKind::RawPtr(..) => json!({"k": "rawptr"}),
                    _ => json!({"k": "other"}),
                };
                json!({"r": "agg", "k": kk, "a": v})
            }
            _ => json!({"r": "other", "s": format!("{:?}", r)}),
        }
    }
    fn body(&mut self, i: Instance) {
        let k = key(&i);
        let b = match i.body() { Some(b) => b, None => { self.fns.insert(k, json!({"name": i.name().to_string(), "nobody": true})); return; } };
        let locals: Vec<Value> = b.locals().iter().map(|l| self.ty(l.ty)).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                let sp = span_json(&s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(p, r) => st.push(json!({"s": "=", "p": self.place(p), "r": self.rvalue(r), "sp": sp})),
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(json!({"s": "setd", "p": self.place(place), "v": serde_json::to_value(variant_index).unwrap()})),
                    StatementKind::StorageDead(l) => st.push(json!({"s": "dead", "l": l})),
                    StatementKind::StorageLive(l) => st.push(json!({"s": "live", "l": l})),
                    StatementKind::Intrinsic(x) => st.push(json!({"s": "intrinsic", "x": format!("{:?}", x)})),
                    _ => {}
                }
            }
            let sp = span_json(&bb.terminator.source_info.span);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => json!({"t": "goto", "to": target}),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<Value> = targets.branches().map(|(v, t)| json!([format!("{}", v), t])).collect();
                    json!({"t": "switch", "d": self.operand(discr), "br": br, "else": targets.otherwise()})
                }
                TerminatorKind::Return => json!({"t": "ret"}),
                TerminatorKind::Unreachable => json!({"t": "unreachable"}),
                TerminatorKind::Resume => json!({"t": "resume"}),
                TerminatorKind::Abort => json!({"t": "abort"}),
                TerminatorKind::Drop { place, target, .. } => json!({"t": "drop", "p": self.place(place), "to": target}),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<Value> = args.iter().map(|o| self.operand(o)).collect();
                    json!({"t": "call", "f": self.operand(func), "a": a, "d": self.place(destination), "to": target})
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { len, index } => json!({"m": "bounds", "len": self.operand(len), "idx": self.operand(index)}),
                        AssertMessage::Overflow(op, x, y) => json!({"m": "overflow", "op": format!("{:?}", op), "a": self.operand(x), "b": self.operand(y)}),
                        AssertMessage::OverflowNeg(x) => json!({"m": "overflowneg", "a": self.operand(x)}),
                        AssertMessage::DivisionByZero(x) => json!({"m": "div0", "a": self.operand(x)}),
                        AssertMessage::RemainderByZero(x) => json!({"m": "rem0", "a": self.operand(x)}),
                        _ => json!({"m": "other"}),
                    };
                    json!({"t": "assert", "c": self.operand(cond), "e": expected, "msg": m, "to": target})
                }
                TerminatorKind::InlineAsm { .. } => json!({"t": "asm"}),
            };
            let mut t = t; t["sp"] = sp;
            blocks.push(json!({"s": st, "t": t}));
        }
        let dbg: Vec<Value> = b.var_debug_info.iter().filter_map(|v| v.local().map(|l| json!([v.name.to_string(), l]))).collect();
        let v = json!({"name": i.name().to_string(), "trimmed": i.trimmed_name().to_string(), "argc": b.arg_locals().len(), "locals": locals, "blocks": blocks, "dbg": dbg, "span": span_json(&b.span), "spread": b.spread_arg()});
        self.fns.insert(k, v);
    }
}

trait InstExt { fn def_crate(&self) -> (String, bool); }
impl InstExt for Instance {
    fn def_crate(&self) -> (String, bool) {
        let d = self.def.def_id_();
        d
    }
}
trait DefExt { fn def_id_(&self) -> (String, bool); }
impl DefExt for rustc_public::mir::mono::InstanceDef {
    fn def_id_(&self) -> (String, bool) {
        let c = self.krate();
        (c.name.to_string(), c.is_local)
    }
}

// unsafe blocks, functions and implementations written in the crate itself
struct UnsafeVisitor<'tcx> { tcx: rustc_middle::ty::TyCtxt<'tcx>, found: Vec<Value> }
impl<'tcx> UnsafeVisitor<'tcx> {
    fn push(&mut self, sp: rustc_span::Span, what: &str) {
        if sp.from_expansion() { return; }
        let l = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        self.found.push(json!({"what": what, "f": format!("{}", l.file.name.prefer_local_unconditionally()), "l": l.line}));
    }
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeVisitor<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> Self::MaybeTyCtxt { self.tcx }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(_) = b.rules { self.push(b.span, "unsafe block"); }
        rustc_hir::intravisit::walk_block(self, b)
    }
    fn visit_fn(&mut self, k: rustc_hir::intravisit::FnKind<'tcx>, d: &'tcx rustc_hir::FnDecl<'tcx>, b: rustc_hir::BodyId, sp: rustc_span::Span, id: rustc_hir::def_id::LocalDefId) {
        if let Some(h) = k.header() { if h.is_unsafe() { self.push(sp, "unsafe function"); } }
        rustc_hir::intravisit::walk_fn(self, k, d, b, id)
    }
    fn visit_item(&mut self, i: &'tcx rustc_hir::Item<'tcx>) {
        if let rustc_hir::ItemKind::Impl(im) = &i.kind {
            if let Some(t) = im.of_trait { if t.safety.is_unsafe() { self.push(i.span, "unsafe implementation"); } }
        }
        rustc_hir::intravisit::walk_item(self, i)
    }
}

fn analyze(out: String, tcx: rustc_middle::ty::TyCtxt<'_>) -> ControlFlow<()> {
    let mut c = Ctx { queue: VecDeque::new(), seen: HashSet::new(), fns: Default::default(), types: Default::default(), pending_ty: vec![], seen_ty: HashSet::new() };
    let mut items = vec![];
    let mut generic_items = vec![];
    for it in rustc_public::all_local_items() {
        if !matches!(it.kind(), rustc_public::ItemKind::Fn) { continue; }
        match Instance::try_from(it) {
            Ok(i) => {
                let k = key(&i);
                let did = rustc_public::rustc_internal::internal(tcx, it.def_id());
                let vis = tcx.effective_visibilities(()).is_reachable(did.expect_local());
                let unsafe_ = false;
                items.push(json!({"name": it.name().to_string(), "key": k, "reachable": vis, "span": span_json(&it.span())}));
                c.enqueue(i);
            }
            Err(_) => {
                generic_items.push(json!(it.name().to_string()));
                // default methods of local traits, once per local implementation without parameters of its own
                let did = rustc_public::rustc_internal::internal(tcx, it.def_id());
                if let Some(tr) = tcx.trait_of_assoc(did) {
                    if tcx.generics_of(did).own_params.iter().any(|p| !matches!(p.kind, rustc_middle::ty::GenericParamDefKind::Lifetime)) { continue; }
                    for im in tcx.all_impls(tr).filter(|d| d.is_local()) {
                        if tcx.generics_of(im).count() > 0 { continue; }
                        let tref = tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip();
                        let tref = rustc_public::rustc_internal::stable(tref);
                        if let TyKind::RigidTy(RigidTy::FnDef(fd, _)) = it.ty().kind() {
                            if let Ok(i) = Instance::resolve(fd, tref.args()) { c.enqueue(i); }
                        }
                    }
                }
            }
        }
    }
    loop {
        if let Some(i) = c.queue.pop_front() { c.body(i); c.flush_types(); continue; }
        c.flush_types();
        if c.queue.is_empty() { break; }
    }
    // static items and unsafe usage (effects)
    let mut statics = vec![];
    for it in rustc_public::all_local_items() {
        if matches!(it.kind(), rustc_public::ItemKind::Static) {
            let did = rustc_public::rustc_internal::internal(tcx, it.def_id());
            let ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
            let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
            statics.push(json!({"name": it.name().to_string(), "mut": tcx.is_mutable_static(did), "freeze": ty.is_freeze(tcx, env),
                "thread_local": tcx.is_thread_local_static(did), "span": span_json(&it.span())}));
        }
    }
    let mut uv = UnsafeVisitor { tcx, found: vec![] };
    tcx.hir_visit_all_item_likes_in_crate(&mut uv);
    let v = json!({"fns": c.fns, "types": c.types, "items": items, "generic_items": generic_items, "statics": statics, "unsafe": uv.found});
    std::fs::write(&out, serde_json::to_string(&v).unwrap()).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    // invoked by cargo as RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    let mut real = String::from("rustc");
    if args.len() > 1 && args[1].ends_with("rustc") { real = args.remove(1); }
    let out = std::env::var("MIRDUMP_OUT").ok();
    let krate = args.iter().position(|a| a == "--crate-name").map(|p| args[p + 1].clone());
    let want = std::env::var("MIRDUMP_CRATE").ok();
    if out.is_some() && krate.is_some() && krate == want {
        let o = out.unwrap();
        args.push("-Zmir-opt-level=0".into());
        let r = run_with_tcx!(&args, |tcx| analyze(o.clone(), tcx));
        if let Err(e) = r { if !matches!(e, rustc_public::CompilerError::Interrupted(_)) { std::process::exit(1); } }
    } else {
        // not the crate under analysis: pass through to the real compiler
        let st = std::process::Command::new(&real).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
}
