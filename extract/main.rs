// MIR extractor: a rustc driver that dumps the resolved program (monomorphised MIR of every local
// function and everything reachable from it, types, constants, unsafe constructs) as JSON.
// It never changes what is compiled.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TyKind, TypeVisitableExt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

#[derive(Clone)]
enum J { N, B(bool), I(i64), S(String), A(Vec<J>), O(Vec<(&'static str, J)>) }
fn s(x: impl Into<String>) -> J { J::S(x.into()) }
fn i(x: usize) -> J { J::I(x as i64) }
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(n) => { let _ = write!(o, "{n}"); }
            J::S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => { o.push('['); for (k, x) in v.iter().enumerate() { if k > 0 { o.push(',') } x.w(o) } o.push(']') }
            J::O(v) => { o.push('{'); for (k, (n, x)) in v.iter().enumerate() { if k > 0 { o.push(',') } let _ = write!(o, "\"{n}\":"); x.w(o) } o.push('}') }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    root: DefId,
    types: Vec<J>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    type_work: VecDeque<Ty<'tcx>>,
    inst_ids: HashMap<Instance<'tcx>, usize>,
    inst_work: VecDeque<(Instance<'tcx>, usize, DefId)>,
    n_inst: usize,
    bodies: Vec<J>,
    coroutine_mir: HashMap<DefId, Body<'tcx>>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String { with_resolve_crate_name!(with_no_trimmed_paths!(tcx.def_path_str(d))) }
fn tystr(t: Ty<'_>) -> String { with_resolve_crate_name!(with_no_trimmed_paths!(t.to_string())) }

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&n) = self.type_ids.get(&t) { return i(n) }
        let n = self.types.len();
        self.types.push(J::N);
        self.type_ids.insert(t, n);
        self.type_work.push_back(t);
        i(n)
    }
    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        let t = self.tcx.erase_and_anonymize_regions(t);
        self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t)).unwrap_or(t)
    }
    fn type_def(&mut self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("s", s(tystr(t)))];
        match *t.kind() {
            TyKind::Bool => o.push(("k", s("bool"))),
            TyKind::Char => o.push(("k", s("char"))),
            TyKind::Int(_) => o.push(("k", s("int"))),
            TyKind::Uint(_) => o.push(("k", s("uint"))),
            TyKind::Float(_) => o.push(("k", s("float"))),
            TyKind::Str => o.push(("k", s("str"))),
            TyKind::Never => o.push(("k", s("never"))),
            TyKind::Slice(e) => { o.push(("k", s("slice"))); let e = self.ty(e); o.push(("e", e)) }
            TyKind::Array(e, l) => {
                o.push(("k", s("array")));
                let e = self.ty(e);
                o.push(("e", e));
                o.push(("n", match l.try_to_target_usize(tcx) { Some(n) => i(n as usize), None => J::N }));
            }
            TyKind::Ref(_, e, m) => { o.push(("k", s("ref"))); let e = self.ty(e); o.push(("e", e)); o.push(("mut", J::B(m.is_mut()))) }
            TyKind::RawPtr(e, m) => { o.push(("k", s("ptr"))); let e = self.ty(e); o.push(("e", e)); o.push(("mut", J::B(m.is_mut()))) }
            TyKind::Tuple(ts) => { o.push(("k", s("tuple"))); let v = ts.iter().map(|x| self.ty(x)).collect(); o.push(("f", J::A(v))) }
            TyKind::Adt(d, args) => {
                o.push(("k", s(if d.is_enum() { "enum" } else if d.is_union() { "union" } else { "struct" })));
                o.push(("path", s(path(tcx, d.did()))));
                o.push(("crate", s(tcx.crate_name(d.did().krate).to_string())));
                let a = args.types().map(|x| self.ty(x)).collect();
                o.push(("args", J::A(a)));
                if let Some(dt) = tcx.adt_destructor(d.did()) {
                    o.push(("drop", s(path(tcx, dt.did))));
                    if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, dt.did, args) { let n = self.inst(inst); o.push(("dropi", n)); }
                }
                let mut vs = vec![];
                for (vi, v) in d.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in &v.fields {
                        let ft = f.ty(tcx, args).skip_norm_wip();
                        let ft = self.norm(ft);
                        let ft = self.ty(ft);
                        fs.push(J::O(vec![("n", s(f.name.to_string())), ("t", ft)]));
                    }
                    let discr = if d.is_enum() { s(d.discriminant_for_variant(tcx, vi).val.to_string()) } else { s("0") };
                    vs.push(J::O(vec![("n", s(v.name.to_string())), ("d", discr), ("f", J::A(fs))]));
                }
                o.push(("v", J::A(vs)));
                if d.is_enum() { let dt = t.discriminant_ty(tcx); let dt = self.ty(dt); o.push(("dt", dt)); }
            }
            TyKind::FnDef(d, args) => {
                let args = args.skip_binder();
                o.push(("k", s("fndef")));
                let c = self.callee(d, args);
                o.push(("fn", c));
                let sig = tcx.instantiate_bound_regions_with_erased(t.fn_sig(tcx));
                let ins = sig.inputs().iter().map(|x| { let x = self.norm(*x); self.ty(x) }).collect();
                o.push(("ins", J::A(ins)));
                let out = self.norm(sig.output());
                let out = self.ty(out);
                o.push(("out", out));
            }
            TyKind::FnPtr(..) => o.push(("k", s("fnptr"))),
            TyKind::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("path", s(path(tcx, d))));
                let f = args.as_closure().upvar_tys().iter().map(|x| self.ty(x)).collect();
                o.push(("f", J::A(f)));
                o.push(("ck", s(format!("{:?}", args.as_closure().kind()))));
                let inst = Instance::new_raw(d, args);
                let n = self.inst(inst);
                o.push(("i", n));
            }
            TyKind::Coroutine(d, args) => {
                o.push(("k", s("coroutine")));
                o.push(("path", s(path(tcx, d))));
                let f = args.as_coroutine().upvar_tys().iter().map(|x| self.ty(x)).collect();
                o.push(("f", J::A(f)));
                let inst = Instance::new_raw(d, args);
                let n = self.inst(inst);
                o.push(("i", n));
            }
            TyKind::Dynamic(..) => o.push(("k", s("dyn"))),
            TyKind::Param(_) => o.push(("k", s("param"))),
            _ => o.push(("k", s("other"))),
        }
        J::O(o)
    }

    fn skip_body(&self, d: DefId) -> bool {
        let tcx = self.tcx;
        if d.is_local() { return false }
        let c = tcx.crate_name(d.krate);
        match c.as_str() {
            "uwuhi" | "uwuhi_async" | "bitflags" | "bytemuck" | "futures_lite" => false,
            "core" => {
                let p = path(tcx, d);
                ["core::fmt::", "core::str::", "core::unicode", "core::slice::sort", "core::panicking", "core::char", "core::net", "core::hash", "core::task", "core::time", "core::sync", "core::intrinsics", "core::ptr", "core::alloc", "core::mem", "core::slice::memchr", "core::slice::iter", "core::slice::index", "core::slice::raw", "core::num::flt", "core::num::dec", "core::pin", "core::ub_checks", "core::any", "core::array::iter", "core::escape", "core::ffi", "core::range"].iter().any(|x| p.starts_with(x))
                    || p.contains("fmt::") || p.contains("str::traits") || p.contains("str::pattern") || p.contains("core::slice::iter")
            }
            "alloc" => { let p = path(tcx, d); !(p.starts_with("alloc::borrow::") || p.contains("borrow::Cow")) }
            _ => true,
        }
    }

    fn inst(&mut self, x: Instance<'tcx>) -> J {
        let x = self.tcx.erase_and_anonymize_regions(x);
        if let Some(&n) = self.inst_ids.get(&x) { return i(n) }
        let n = self.n_inst;
        self.n_inst += 1;
        self.inst_ids.insert(x, n);
        self.inst_work.push_back((x, n, self.root));
        i(n)
    }

    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("path", s(path(tcx, d))), ("crate", s(tcx.crate_name(d.krate).to_string()))];
        o.push(("local", J::B(d.is_local())));
        let a = args.types().map(|x| self.ty(x)).collect();
        o.push(("args", J::A(a)));
        let ca: Vec<J> = args.consts().map(|x| match x.try_to_target_usize(tcx) { Some(n) => i(n as usize), None => J::N }).collect();
        if !ca.is_empty() { o.push(("cargs", J::A(ca))) }
        if let Some(t) = tcx.trait_of_assoc(d) { o.push(("trait", s(path(tcx, t)))); }
        o.push(("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())));
        if let Some(im) = tcx.inherent_impl_of_assoc(d) { let st = tcx.type_of(im).instantiate(tcx, args.truncate_to(tcx, tcx.generics_of(im))).skip_norm_wip(); let st = self.norm(st); let st = self.ty(st); o.push(("self", st)); }
        let kind = tcx.def_kind(d);
        if matches!(kind, DefKind::Ctor(..)) { o.push(("ctor", J::B(true))); }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..) | DefKind::Closure) {
            let args = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, args) {
                let rd = inst.def_id();
                let rp = path(tcx, rd);
                o.push(("rpath", s(rp)));
                o.push(("rcrate", s(tcx.crate_name(rd.krate).to_string())));
                o.push(("rlocal", J::B(rd.is_local())));
                o.push(("rkind", s(match inst.def { InstanceKind::Item(_) => "item", InstanceKind::Intrinsic(_) => "intrinsic", InstanceKind::LlvmIntrinsic(_) => "llvm", InstanceKind::Virtual(..) => "virtual", InstanceKind::Shim(sk) => match sk { ShimKind::ClosureOnce{..} => "closureonce", ShimKind::DropGlue(..) => "dropglue", ShimKind::FnPtr(..) => "fnptrshim", ShimKind::Clone(..) => "clone", _ => "shim" } })));
                let n = self.inst(inst);
                o.push(("i", n));
                // what str::parse calls
                if path(tcx, d).ends_with("::<impl str>::parse") {
                    if let Some(tr) = tcx.traits(d.krate).iter().copied().find(|&x| path(tcx, x).ends_with("::FromStr")) {
                        if let Some(&m) = tcx.associated_item_def_ids(tr).iter().find(|&&m| matches!(tcx.def_kind(m), DefKind::AssocFn)) {
                            if let Some(t) = args.types().next() {
                                if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, m, tcx.mk_args(&[t.into()])) { let n = self.inst(inst); o.push(("fi", n)); }
                            }
                        }
                    }
                }
            }
        }
        J::O(o)
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let _ = body;
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                PlaceElem::Deref => J::A(vec![s("*")]),
                PlaceElem::Field(f, t) => { let t = self.ty(t); J::A(vec![s("f"), i(f.as_usize()), t]) }
                PlaceElem::Index(l) => J::A(vec![s("i"), i(l.as_usize())]),
                PlaceElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![s("c"), i(offset as usize), i(min_length as usize), J::B(from_end)]),
                PlaceElem::Subslice { from, to, from_end } => J::A(vec![s("s"), i(from as usize), i(to as usize), J::B(from_end)]),
                PlaceElem::Downcast(_, v) => J::A(vec![s("d"), i(v.as_usize())]),
                PlaceElem::OpaqueCast(t) => { let t = self.ty(t); J::A(vec![s("o"), t]) }
                _ => J::A(vec![s("?")]),
            });
        }
        J::A(vec![i(p.local.as_usize()), J::A(pr)])
    }

    fn scalar_int(&self, v: u128, t: Ty<'tcx>, size: u64) -> J {
        if let TyKind::Int(_) = t.kind() {
            let sh = 128 - size * 8;
            let sv = ((v << sh) as i128) >> sh;
            return J::O(vec![("int", s(sv.to_string()))]);
        }
        J::O(vec![("int", s(v.to_string()))])
    }

    fn alloc_bytes(&self, id: rustc_middle::mir::interpret::AllocId, off: u64, len: Option<u64>) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let total = a.len();
                let end = match len { Some(l) => off as usize + l as usize, None => total };
                if end > total { return None }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..end).to_vec())
            }
            _ => None,
        }
    }

    fn const_val(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 12 { return J::O(vec![("opaque", s("deep"))]) }
        match *t.kind() {
            TyKind::Bool | TyKind::Char | TyKind::Int(_) | TyKind::Uint(_) => {
                if let Some(si) = v.try_to_scalar_int() { return self.scalar_int(si.to_bits_unchecked(), t, si.size().bytes()) }
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    if let Ok(l) = tcx.layout_of(self.env.as_query_input(t)) {
                        let n = l.size.bytes();
                        if let Some(b) = self.alloc_bytes(alloc_id, offset.bytes(), Some(n)) {
                            let mut x: u128 = 0;
                            for (k, y) in b.iter().enumerate() { x |= (*y as u128) << (8 * k) }
                            return self.scalar_int(x, t, n);
                        }
                    }
                }
            }
            TyKind::Float(_) => {}
            TyKind::FnDef(..) | TyKind::Never => return J::O(vec![("zst", J::B(true))]),
            TyKind::Ref(_, e, _) | TyKind::RawPtr(e, _) => {
                match *e.kind() {
                    TyKind::Str => {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) { return J::O(vec![("str", J::A(b.iter().map(|x| i(*x as usize)).collect()))]) }
                        if let Some(b) = self.wide_ptr(v) { return J::O(vec![("str", J::A(b.iter().map(|x| i(*x as usize)).collect()))]) }
                    }
                    TyKind::Slice(el) => {
                        if let TyKind::Uint(ty::UintTy::U8) = el.kind() {
                            if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) { return J::O(vec![("bytes", J::A(b.iter().map(|x| i(*x as usize)).collect()))]) }
                            if let Some(b) = self.wide_ptr(v) { return J::O(vec![("bytes", J::A(b.iter().map(|x| i(*x as usize)).collect()))]) }
                        }
                        // slice of something else: find pointer and length
                        let pl = match v {
                            ConstValue::Slice { alloc_id, meta } => Some((alloc_id, 0u64, meta)),
                            ConstValue::Indirect { alloc_id, offset } => self.read_wide(alloc_id, offset.bytes()),
                            _ => None,
                        };
                        if let (Some((aid, off, n)), Ok(l)) = (pl, tcx.layout_of(self.env.as_query_input(el))) {
                            let st = l.size.bytes();
                            if n <= 512 {
                                let mut out = vec![];
                                for k in 0..n {
                                    let cv = ConstValue::Indirect { alloc_id: aid, offset: rustc_abi::Size::from_bytes(off + k * st) };
                                    out.push(self.const_val(cv, el, depth + 1));
                                }
                                let et = self.ty(el);
                                return J::O(vec![("slice", J::A(out)), ("et", et)]);
                            }
                        }
                    }
                    _ => {
                        let ptr = match v {
                            ConstValue::Scalar(Scalar::Ptr(p, _)) => Some(p),
                            ConstValue::Indirect { alloc_id, offset } => self.read_ptr(alloc_id, offset.bytes()),
                            _ => None,
                        };
                        if let Some(p) = ptr {
                            let (prov, off) = p.into_raw_parts();
                            let aid = prov.alloc_id();
                            match tcx.try_get_global_alloc(aid) {
                                Some(GlobalAlloc::Memory(_)) => {
                                    let cv = ConstValue::Indirect { alloc_id: aid, offset: off };
                                    let inner = self.const_val(cv, e, depth + 1);
                                    return J::O(vec![("ref", inner)]);
                                }
                                Some(GlobalAlloc::Static(d)) => return J::O(vec![("static", s(path(tcx, d)))]),
                                _ => {}
                            }
                        }
                    }
                }
            }
            TyKind::Adt(..) | TyKind::Tuple(_) | TyKind::Array(..) => {
                if let TyKind::Array(el, n) = *t.kind() {
                    if let (TyKind::Uint(ty::UintTy::U8), Some(n), ConstValue::Indirect { alloc_id, offset }) = (el.kind(), n.try_to_target_usize(tcx), v) {
                        if let Some(b) = self.alloc_bytes(alloc_id, offset.bytes(), Some(n)) { return J::O(vec![("barr", J::A(b.iter().map(|x| i(*x as usize)).collect()))]) }
                    }
                }
                if matches!(v, ConstValue::Scalar(Scalar::Ptr(..))) && t.is_adt() { return J::O(vec![("opaque", s("ptr-adt"))]) }
                if !t.has_param() {
                    if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                        let mut fs = vec![];
                        for (fv, ft) in dc.fields { fs.push(self.const_val(*fv, *ft, depth + 1)) }
                        return J::O(vec![("agg", match dc.variant { Some(x) => i(x.as_usize()), None => J::N }), ("f", J::A(fs))]);
                    }
                }
            }
            _ => {}
        }
        if let ConstValue::ZeroSized = v { return J::O(vec![("zst", J::B(true))]) }
        J::O(vec![("opaque", s(format!("{:?}", v)))])
    }
    fn read_ptr(&self, id: rustc_middle::mir::interpret::AllocId, off: u64) -> Option<rustc_middle::mir::interpret::Pointer> {
        match self.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Memory(a) => {
                let r = AllocRange { start: rustc_abi::Size::from_bytes(off), size: rustc_abi::Size::from_bytes(8) };
                match a.inner().read_scalar(&self.tcx, r, true) { Ok(Scalar::Ptr(p, _)) => Some(p), _ => None }
            }
            _ => None,
        }
    }
    fn read_wide(&self, id: rustc_middle::mir::interpret::AllocId, off: u64) -> Option<(rustc_middle::mir::interpret::AllocId, u64, u64)> {
        let p = self.read_ptr(id, off)?;
        let lb = self.alloc_bytes(id, off + 8, Some(8))?;
        let n = u64::from_le_bytes(lb.try_into().ok()?);
        let (prov, o) = p.into_raw_parts();
        Some((prov.alloc_id(), o.bytes(), n))
    }
    fn wide_ptr(&self, v: ConstValue) -> Option<Vec<u8>> {
        if let ConstValue::Indirect { alloc_id, offset } = v {
            let (a, o, n) = self.read_wide(alloc_id, offset.bytes())?;
            return self.alloc_bytes(a, o, Some(n));
        }
        None
    }

    fn operand(&mut self, body: &Body<'tcx>, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => { let p = self.place(body, p); J::A(vec![s("copy"), p]) }
            Operand::Move(p) => { let p = self.place(body, p); J::A(vec![s("move"), p]) }
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let ti = self.ty(t);
                let v = match c.const_ {
                    Const::Unevaluated(u, _) if u.promoted.is_none() && !c.const_.has_param() => {
                        match c.const_.eval(self.tcx, self.env, c.span) {
                            Ok(v) => { let j = self.const_val(v, t, 0); if let J::O(mut o) = j { o.push(("from", s(path(self.tcx, u.def)))); J::O(o) } else { j } }
                            Err(_) => J::O(vec![("opaque", s("noeval"))]),
                        }
                    }
                    _ => {
                        if c.const_.has_param() && !matches!(t.kind(), TyKind::FnDef(..)) && !matches!(c.const_, Const::Val(..)) && !matches!(c.const_, Const::Unevaluated(u, _) if u.promoted.is_some()) {
                            J::O(vec![("opaque", s("generic"))])
                        } else {
                            match c.const_.eval(self.tcx, self.env, c.span) {
                                Ok(v) => self.const_val(v, t, 0),
                                Err(_) => J::O(vec![("opaque", s("noeval"))]),
                            }
                        }
                    }
                };
                J::A(vec![s("const"), ti, v])
            }
            Operand::RuntimeChecks(rc) => J::A(vec![s("rt"), s(format!("{rc:?}"))]),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(op, _) => { let o = self.operand(body, op); J::A(vec![s("use"), o]) }
            Rvalue::Repeat(op, n) => {
                let o = self.operand(body, op);
                J::A(vec![s("repeat"), o, match n.try_to_target_usize(self.tcx) { Some(n) => i(n as usize), None => J::N }])
            }
            Rvalue::Ref(_, bk, p) => { let pp = self.place(body, p); J::A(vec![s("ref"), J::B(matches!(bk, BorrowKind::Mut { .. })), pp]) }
            Rvalue::RawPtr(k, p) => { let pp = self.place(body, p); J::A(vec![s("ref"), J::B(matches!(k, RawPtrKind::Mut)), pp, s("raw")]) }
            Rvalue::Reborrow(_, m, p) => { let pp = self.place(body, p); J::A(vec![s("reborrow"), J::B(m.is_mut()), pp]) }
            Rvalue::CopyForDeref(p) => { let pp = self.place(body, p); J::A(vec![s("use"), J::A(vec![s("copy"), pp])]) }
            Rvalue::Cast(k, op, t) => {
                let ft = op.ty(&body.local_decls, self.tcx);
                let ft = self.ty(ft);
                let o = self.operand(body, op);
                let t = self.ty(*t);
                let ks = match k { CastKind::PointerCoercion(pc, _) => format!("coerce:{pc:?}"), k => format!("{k:?}") };
                J::A(vec![s("cast"), s(ks), o, t, ft])
            }
            Rvalue::BinaryOp(op, b) => {
                let lt = b.0.ty(&body.local_decls, self.tcx);
                let lt = self.ty(lt);
                let x = self.operand(body, &b.0);
                let y = self.operand(body, &b.1);
                J::A(vec![s("bin"), s(format!("{op:?}")), x, y, lt])
            }
            Rvalue::UnaryOp(op, x) => { let lt = x.ty(&body.local_decls, self.tcx); let lt = self.ty(lt); let x = self.operand(body, x); J::A(vec![s("un"), s(format!("{op:?}")), x, lt]) }
            Rvalue::Discriminant(p) => { let t = p.ty(&body.local_decls, self.tcx).ty; let t = self.ty(t); let p = self.place(body, p); J::A(vec![s("discr"), p, t]) }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.operand(body, o)).collect();
                let kj = match &**k {
                    AggregateKind::Array(t) => { let t = self.ty(*t); J::A(vec![s("array"), t]) }
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, args, _, af) => {
                        let t = Ty::new_adt(self.tcx, self.tcx.adt_def(*d), args);
                        let t = self.ty(t);
                        J::A(vec![s("adt"), t, i(vi.as_usize()), match af { Some(f) => i(f.as_usize()), None => J::N }])
                    }
                    AggregateKind::Closure(d, args) => { let t = Ty::new_closure(self.tcx, *d, args); let t = self.ty(t); J::A(vec![s("closure"), t]) }
                    AggregateKind::Coroutine(d, args) => { let t = Ty::new_coroutine(self.tcx, *d, args); let t = self.ty(t); J::A(vec![s("coroutine"), t]) }
                    AggregateKind::RawPtr(t, m) => { let t = self.ty(*t); J::A(vec![s("rawptr"), t, J::B(m.is_mut())]) }
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), kj, J::A(v)])
            }
            _ => J::A(vec![s("other"), s(format!("{r:?}"))]),
        }
    }

    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        s(format!("{}:{}", lo.file.name.prefer_remapped_unconditionally(), lo.line))
    }

    fn dump_body(&mut self, inst: Instance<'tcx>, id: usize, root: DefId) {
        let tcx = self.tcx;
        let did = inst.def_id();
        let mut o: Vec<(&'static str, J)> = vec![("id", i(id)), ("path", s(path(tcx, did))), ("name", s(with_resolve_crate_name!(with_no_trimmed_paths!(inst.to_string()))))];
        o.push(("local", J::B(did.is_local())));
        o.push(("crate", s(tcx.crate_name(did.krate).to_string())));
        self.root = root;
        self.env = TypingEnv::post_analysis(tcx, root);
        let is_item = matches!(inst.def, InstanceKind::Item(_));
        let ok = match inst.def {
            InstanceKind::Item(d) => {
                if self.coroutine_mir.contains_key(&d) { true }
                else if self.skip_body(d) { false }
                else { tcx.is_mir_available(d) && !matches!(tcx.def_kind(d), DefKind::Const { .. } | DefKind::AssocConst { .. }) }
            }
            InstanceKind::Shim(ShimKind::ClosureOnce { closure, .. }) => closure.is_local() || !self.skip_body(closure),
            InstanceKind::Shim(ShimKind::FnPtr(..)) | InstanceKind::Shim(ShimKind::Reify(..)) => true,
            InstanceKind::Shim(ShimKind::Clone(..)) => true,
            _ => false,
        };
        if !ok { o.push(("body", J::N)); self.bodies.push(J::O(o)); return }
        // has to be resolvable
        let body: Body<'tcx> = match inst.def {
            InstanceKind::Item(d) if self.coroutine_mir.contains_key(&d) => self.coroutine_mir[&d].clone(),
            k => tcx.instance_mir(k).clone(),
        };
        let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, body.clone())) {
            Ok(b) => b,
            Err(_) => { o.push(("body", J::N)); o.push(("err", s("normalize"))); self.bodies.push(J::O(o)); return }
        };
        o.push(("kind", s(if is_item { "item" } else { "shim" })));
        o.push(("span", self.span(body.span)));
        o.push(("argc", i(body.arg_count)));
        if is_item {
            let dk = tcx.def_kind(did);
            o.push(("dk", s(format!("{dk:?}"))));
            if let Some(ld) = did.as_local() {
                if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
                    o.push(("pub", J::B(tcx.effective_visibilities(()).is_exported(ld))));
                    let m = tcx.parent_module_from_def_id(ld).to_def_id();
                    o.push(("mod", s(path(tcx, m))));
                    o.push(("vis", s(match tcx.visibility(did) { rustc_middle::ty::Visibility::Public => "pub".to_string(), rustc_middle::ty::Visibility::Restricted(d) => path(tcx, d.into()) })));
                }
            }
            if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
                if let Some(im) = tcx.trait_impl_of_assoc(did) {
                    o.push(("trait", s(path(tcx, tcx.impl_trait_id(im)))));
                    if let Some(ti) = tcx.associated_item(did).trait_item_def_id() { o.push(("titem", s(path(tcx, ti)))); }
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    o.push(("self", s(tystr(st))));
                } else if let Some(im) = tcx.inherent_impl_of_assoc(did) {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    o.push(("self", s(tystr(st))));
                }
                o.push(("item", s(tcx.item_name(did).to_string())));
            }
            if inst.args.types().next().is_some() { let a = inst.args.types().map(|x| self.ty(x)).collect(); o.push(("args", J::A(a))); }
        }
        if let Some(d) = body.spread_arg { o.push(("spread", i(d.as_usize()))); }
        let locals: Vec<J> = body.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        o.push(("locals", J::A(locals)));
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value { let pj = self.place(&body, &p); names.push(J::A(vec![s(v.name.to_string()), pj, match v.argument_index { Some(n) => i(n as usize), None => J::N }])); }
        }
        o.push(("vars", J::A(names)));
        let mut bbs = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&body, &b.0);
                        let r = self.rvalue(&body, &b.1);
                        let sp = self.span(x.source_info.span);
                        st.push(J::A(vec![s("="), p, r, sp]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(&body, place); st.push(J::A(vec![s("setd"), p, i(variant_index.as_usize())])) }
                    StatementKind::StorageLive(l) => st.push(J::A(vec![s("live"), i(l.as_usize())])),
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), i(l.as_usize())])),
                    StatementKind::Intrinsic(x) => match &**x {
                        NonDivergingIntrinsic::Assume(op) => { let op = self.operand(&body, op); st.push(J::A(vec![s("assume"), op])) }
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => { let a = self.operand(&body, &c.src); let b = self.operand(&body, &c.dst); let n = self.operand(&body, &c.count); st.push(J::A(vec![s("copynon"), a, b, n])) }
                    },
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), i(target.as_usize())]),
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), i(real_target.as_usize())]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), i(real_target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dt = self.ty(dt);
                    let d = self.operand(&body, discr);
                    let ts = targets.iter().map(|(v, b)| J::A(vec![s(v.to_string()), i(b.as_usize())])).collect();
                    J::A(vec![s("switch"), d, J::A(ts), i(targets.otherwise().as_usize()), dt])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("resume")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&body.local_decls, tcx).ty;
                    let t = self.ty(t);
                    let p = self.place(&body, place);
                    J::A(vec![s("drop"), p, i(target.as_usize()), t])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func.const_fn_def_ext(tcx, &body) {
                        Some((d, a)) => self.callee(d, a),
                        None => { let op = self.operand(&body, func); J::O(vec![("ptr", op)]) }
                    };
                    let a: Vec<J> = args.iter().map(|x| self.operand(&body, &x.node)).collect();
                    let at: Vec<J> = args.iter().map(|x| { let t = x.node.ty(&body.local_decls, tcx); self.ty(t) }).collect();
                    let d = self.place(&body, destination);
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    let dt = self.ty(dt);
                    J::A(vec![s("call"), f, J::A(a), d, match target { Some(t) => i(t.as_usize()), None => J::N }, J::A(at), dt])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(&body, cond);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => { let l = self.operand(&body, len); let x = self.operand(&body, index); J::A(vec![s("bounds"), l, x]) }
                        AssertKind::Overflow(op, a, b) => { let a = self.operand(&body, a); let b = self.operand(&body, b); J::A(vec![s("overflow"), s(format!("{op:?}")), a, b]) }
                        k => J::A(vec![s(match k { AssertKind::DivisionByZero(_) => "divzero", AssertKind::RemainderByZero(_) => "remzero", AssertKind::OverflowNeg(_) => "neg", AssertKind::MisalignedPointerDereference{..} | AssertKind::NullPointerDereference | AssertKind::NullReferenceConstructed | AssertKind::InvalidEnumConstruction(_) => "ub", _ => "resumed" })]),
                    };
                    J::A(vec![s("assert"), c, J::B(*expected), m, i(target.as_usize())])
                }
                TerminatorKind::Yield { resume, resume_arg, .. } => { let p = self.place(&body, resume_arg); J::A(vec![s("yield"), i(resume.as_usize()), p]) }
                _ => J::A(vec![s("other")]),
            };
            bbs.push(J::A(vec![J::A(st), tj, sp, J::B(bb.is_cleanup)]));
        }
        o.push(("body", J::A(bbs)));
        self.bodies.push(J::O(o));
    }
}

trait ConstFn<'tcx> { fn const_fn_def_ext(&self, tcx: TyCtxt<'tcx>, body: &Body<'tcx>) -> Option<(DefId, ty::GenericArgsRef<'tcx>)>; }
impl<'tcx> ConstFn<'tcx> for Operand<'tcx> {
    fn const_fn_def_ext(&self, tcx: TyCtxt<'tcx>, body: &Body<'tcx>) -> Option<(DefId, ty::GenericArgsRef<'tcx>)> {
        let t = self.ty(&body.local_decls, tcx);
        if let TyKind::FnDef(d, a) = *t.kind() { Some((d, a.skip_binder())) } else { None }
    }
}

mod uns {
    use super::*;
    use rustc_hir::intravisit::{self, Visitor};
    pub struct V<'tcx> { pub tcx: TyCtxt<'tcx>, pub out: Vec<J>, pub cur: Vec<String> }
    impl<'tcx> V<'tcx> {
        fn rep(&mut self, kind: &str, what: String, sp: Span) {
            let d = sp.ctxt().outer_expn_data();
            let sm = self.tcx.sess.source_map();
            let cs = sp.source_callsite();
            let lo = sm.lookup_char_pos(cs.lo());
            let exp = if sp.from_expansion() { format!("{:?}", d.kind) } else { String::new() };
            let mac = d.macro_def_id.map(|m| path(self.tcx, m)).unwrap_or_default();
            self.out.push(J::O(vec![("kind", s(kind)), ("what", s(what)), ("span", s(format!("{}:{}", lo.file.name.prefer_remapped_unconditionally(), lo.line))), ("expn", s(exp)), ("mac", s(mac))]));
        }
    }
    impl<'tcx> Visitor<'tcx> for V<'tcx> {
        type NestedFilter = rustc_middle::hir::nested_filter::All;
        fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
        fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
            if let rustc_hir::BlockCheckMode::UnsafeBlock(src) = b.rules {
                if matches!(src, rustc_hir::UnsafeSource::UserProvided) {
                    let owner = path(self.tcx, b.hir_id.owner.to_def_id());
                    self.rep("unsafe block", owner, b.span);
                }
            }
            intravisit::walk_block(self, b);
        }
        fn visit_item(&mut self, it: &'tcx rustc_hir::Item<'tcx>) {
            match &it.kind {
                rustc_hir::ItemKind::Impl(im) => {
                    if let Some(tr) = im.of_trait { if matches!(tr.safety, rustc_hir::Safety::Unsafe) {
                        let t = tr.trait_ref.path.res.opt_def_id().map(|d| path(self.tcx, d)).unwrap_or_default();
                        let st = tystr(self.tcx.type_of(it.owner_id).instantiate_identity().skip_norm_wip());
                        self.rep("unsafe impl", format!("{t} for {st}"), it.span);
                    } }
                }
                rustc_hir::ItemKind::Trait { safety, .. } => { if matches!(safety, rustc_hir::Safety::Unsafe) { self.rep("unsafe trait", path(self.tcx, it.owner_id.to_def_id()), it.span) } }
                rustc_hir::ItemKind::ForeignMod { .. } => self.rep("extern block", String::new(), it.span),
                rustc_hir::ItemKind::GlobalAsm { .. } => self.rep("global_asm", String::new(), it.span),
                rustc_hir::ItemKind::Static(m, ..) => {
                    if m.is_mut() { self.rep("static mut", path(self.tcx, it.owner_id.to_def_id()), it.span) }
                    let a = self.tcx.codegen_fn_attrs(it.owner_id.def_id);
                    if a.contains_extern_indicator() || a.link_section.is_some() { self.rep("exported symbol", path(self.tcx, it.owner_id.to_def_id()), it.span) }
                }
                _ => {}
            }
            intravisit::walk_item(self, it);
        }
        fn visit_fn(&mut self, fk: intravisit::FnKind<'tcx>, fd: &'tcx rustc_hir::FnDecl<'tcx>, b: rustc_hir::BodyId, sp: Span, id: LocalDefId) {
            if let Some(h) = fk.header() { if h.is_unsafe() { self.rep("unsafe fn", path(self.tcx, id.to_def_id()), sp) } }
            let attrs = self.tcx.codegen_fn_attrs(id);
            if attrs.contains_extern_indicator() || attrs.link_section.is_some() { self.rep("exported symbol", path(self.tcx, id.to_def_id()), sp) }
            intravisit::walk_fn(self, fk, fd, b, id);
        }
    }
}

struct Cb { out: String }

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let mut cm = HashMap::new();
        for d in tcx.mir_keys(()) {
            if matches!(tcx.def_kind(*d), DefKind::Closure) && tcx.is_coroutine(d.to_def_id()) {
                let st = tcx.mir_drops_elaborated_and_const_checked(*d);
                let b = if st.is_stolen() { None } else { Some(st.borrow().clone()) };
                if let Some(b) = b { cm.insert(d.to_def_id(), b); }
            }
        }
        let root0 = rustc_hir::def_id::CRATE_DEF_ID.to_def_id();
        let mut cx = Cx { tcx, env: TypingEnv::fully_monomorphized(), root: root0, types: vec![], type_ids: HashMap::new(), type_work: VecDeque::new(), inst_ids: HashMap::new(), inst_work: VecDeque::new(), n_inst: 0, bodies: vec![], coroutine_mir: cm };
        let mut keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|d| tcx.def_path_str(d.to_def_id()));
        let mut roots = vec![];
        for d in keys {
            if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) { continue }
            let did = d.to_def_id();
            let args = ty::GenericArgs::identity_for_item(tcx, did);
            let args = tcx.erase_and_anonymize_regions(args);
            cx.root = did;
            let inst = Instance::new_raw(did, args);
            let n = cx.inst(inst);
            roots.push(n);
        }
        // what the other crates of the workspace offer: methods of their types and iterators the standard library calls
        for c in tcx.crates(()) {
            if !tcx.crate_name(*c).as_str().starts_with("uwuhi") { continue }
            let mut fns: Vec<DefId> = vec![];
            for im in tcx.trait_impls_in_crate(*c) {
                let tr = path(tcx, tcx.impl_trait_id(*im));
                if tr.contains("iter::") { fns.extend(tcx.associated_item_def_ids(*im)); }
            }
            let mut mods = vec![c.as_def_id()];
            let mut seen = std::collections::HashSet::new();
            while let Some(m) = mods.pop() {
                if !seen.insert(m) { continue }
                for ch in tcx.module_children(m) {
                    let Some(d) = ch.res.opt_def_id() else { continue };
                    if d.krate != *c { continue }
                    match tcx.def_kind(d) {
                        DefKind::Mod => mods.push(d),
                        DefKind::Struct | DefKind::Enum => for im in tcx.inherent_impls(d) { fns.extend(tcx.associated_item_def_ids(*im)); },
                        _ => {}
                    }
                }
            }
            fns.retain(|d| matches!(tcx.def_kind(*d), DefKind::Fn | DefKind::AssocFn) && tcx.is_mir_available(*d));
            fns.sort_by_key(|d| tcx.def_path_str(*d));
            fns.dedup();
            for did in fns {
                let args = tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, did));
                cx.root = did;
                cx.inst(Instance::new_raw(did, args));
            }
        }
        // associated and free constants
        let mut consts = vec![];
        for d in tcx.hir_crate_items(()).definitions() {
            let k = tcx.def_kind(d);
            if !matches!(k, DefKind::Const { .. } | DefKind::AssocConst { .. }) { continue }
            let did = d.to_def_id();
            if tcx.generics_of(did).requires_monomorphization(tcx) { continue }
            if let Some(im) = tcx.opt_parent(did) { if matches!(tcx.def_kind(im), DefKind::Trait) { continue } }
            cx.root = did;
            cx.env = TypingEnv::post_analysis(tcx, did);
            let t = cx.norm(tcx.type_of(did).instantiate_identity().skip_norm_wip());
            let v = match tcx.const_eval_poly(did) { Ok(v) => cx.const_val(v, t, 0), Err(_) => J::O(vec![("opaque", s("noeval"))]) };
            let ti = cx.ty(t);
            let mut o = vec![("path", s(path(tcx, did))), ("name", s(tcx.item_name(did).to_string())), ("ty", ti), ("v", v)];
            if let Some(im) = tcx.impl_of_assoc(did) {
                o.push(("self", s(tystr(tcx.type_of(im).instantiate_identity().skip_norm_wip()))));
                if let Some(ti) = tcx.trait_impl_of_assoc(did) { o.push(("trait", s(path(tcx, tcx.impl_trait_id(ti))))); }
            }
            o.push(("pub", J::B(tcx.effective_visibilities(()).is_exported(d))));
            consts.push(J::O(o));
        }
        // local ADTs with layout-relevant facts
        let mut adts = vec![];
        for d in tcx.hir_crate_items(()).definitions() {
            if !matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) { continue }
            let did = d.to_def_id();
            cx.root = did;
            cx.env = TypingEnv::post_analysis(tcx, did);
            let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
            let ti = cx.ty(t);
            adts.push(J::O(vec![("path", s(path(tcx, did))), ("ty", ti), ("pub", J::B(tcx.effective_visibilities(()).is_exported(d))), ("span", cx.span(tcx.def_span(did)))]));
        }
        let mut v = uns::V { tcx, out: vec![], cur: vec![] };
        tcx.hir_walk_toplevel_module(&mut v);
        let unsafes = v.out;
        loop {
            if let Some((x, n, r)) = cx.inst_work.pop_front() { cx.dump_body(x, n, r); continue }
            if let Some(t) = cx.type_work.pop_front() {
                let n = cx.type_ids[&t];
                if t.has_param() { cx.env = TypingEnv::post_analysis(tcx, cx.root); } 
                let d = cx.type_def(t);
                cx.types[n] = d;
                continue;
            }
            break;
        }
        // all local traits' impls are covered because every local fn is a root
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        let j = J::O(vec![("crate", s(name.clone())), ("roots", J::A(roots)), ("types", J::A(cx.types)), ("bodies", J::A(cx.bodies)), ("consts", J::A(consts)), ("adts", J::A(adts)), ("unsafe", J::A(unsafes))]);
        let mut o = String::new();
        j.w(&mut o);
        let f = format!("{}/{}.json", self.out, name);
        std::fs::write(&f, o).expect("write extract");
        rustc_driver::Compilation::Continue
    }
}

struct Plain;
impl rustc_driver::Callbacks for Plain {}

fn main() {
    // invoked as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) { args.remove(1); }
    let out = std::env::var("MIREXTRACT_OUT").ok();
    let is_lib = args.iter().any(|a| a == "--crate-type") && args.iter().any(|a| a == "lib") && !args.iter().any(|a| a == "--test");
    let name_ok = args.iter().zip(args.iter().skip(1)).any(|(a, b)| a == "--crate-name" && (b == "uwuhi" || b == "uwuhi_async"));
    match out {
        Some(out) if is_lib && name_ok => rustc_driver::compiler_entrypoint(&args, &mut Cb { out }),
        _ => rustc_driver::compiler_entrypoint(&args, &mut Plain),
    }
}
