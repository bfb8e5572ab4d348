//! mirdump: a rustc driver that writes the compiler's own intermediate representation of the
//! workspace crates (callees resolved, constants evaluated) as JSON.  It analyses nothing and runs
//! nothing; the deciding steps are in /verif/engine/*.py.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, DefIndex, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TyKind, TypingEnv};
use rustc_span::Span;
use serde_json::{json, Value};
use std::collections::{HashMap, VecDeque};

macro_rules! nv { ($e:expr) => { ty::print::with_resolve_crate_name!(ty::print::with_no_visible_paths!(ty::print::with_no_trimmed_paths!($e))) } }

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WORKSPACE_WRAPPER: argv[1] is rustc
    if args.len() > 1 && (args[1].ends_with("rustc")) {
        args.remove(1);
    }
    let is_root = args.iter().any(|a| a == "vroots");
    if !is_root {
        struct N;
        impl rustc_driver::Callbacks for N {}
        let c = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut N));
        std::process::exit(if c == std::process::ExitCode::SUCCESS { 0 } else { 1 });
    }
    let mut cb = Cb;
    let c = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb));
    std::process::exit(if c == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        dump(tcx);
        rustc_driver::Compilation::Continue
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Key<'tcx> {
    Mono(Instance<'tcx>),
    Poly(DefId),
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    follow: Vec<String>,
    types: Vec<Value>,
    tmap: HashMap<Ty<'tcx>, usize>,
    tys: Vec<Ty<'tcx>>,
    ids: HashMap<Key<'tcx>, usize>,
    queue: VecDeque<Key<'tcx>>,
    fns: Vec<Value>,
    statics: HashMap<String, Value>,
    static_q: Vec<DefId>,
    depth: usize,
}

fn num(n: u128) -> Value {
    if n < (1u128 << 53) { json!(n as u64) } else { json!(n.to_string()) }
}
fn inum(n: i128) -> Value {
    if n.unsigned_abs() < (1u128 << 53) { json!(n as i64) } else { json!(n.to_string()) }
}

impl<'tcx> D<'tcx> {
    fn krate(&self, d: DefId) -> String { self.tcx.crate_name(d.krate).to_string() }
    fn path(&self, d: DefId) -> String {
        nv!(self.tcx.def_path_str(d))
    }
    fn followed(&self, d: DefId) -> bool { let k = self.krate(d); self.follow.iter().any(|f| *f == k) }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tmap.get(&t) { return *i; }
        let i = self.types.len();
        self.types.push(Value::Null);
        self.tys.push(t);
        self.tmap.insert(t, i);
        let tcx = self.tcx;
        let s = nv!(format!("{t}"));
        let v = match t.kind() {
            TyKind::Bool => json!({"k":"bool"}),
            TyKind::Char => json!({"k":"char"}),
            TyKind::Int(it) => json!({"k":"int","bits": it.bit_width().unwrap_or(64)}),
            TyKind::Uint(it) => json!({"k":"uint","bits": it.bit_width().unwrap_or(64)}),
            TyKind::Float(_) => json!({"k":"float"}),
            TyKind::Str => json!({"k":"str"}),
            TyKind::Never => json!({"k":"never"}),
            TyKind::Array(e, n) => { let n = n.try_to_target_usize(tcx); let e = self.ty(*e); json!({"k":"array","e":e,"n":n}) }
            TyKind::Slice(e) => { let e = self.ty(*e); json!({"k":"slice","e":e}) }
            TyKind::Ref(_, e, m) => { let e = self.ty(*e); json!({"k":"ref","e":e,"m":m.is_mut()}) }
            TyKind::RawPtr(e, m) => { let e = self.ty(*e); json!({"k":"ptr","e":e,"m":m.is_mut()}) }
            TyKind::Tuple(l) => { let l: Vec<usize> = l.iter().map(|x| self.ty(x)).collect(); json!({"k":"tuple","e":l}) }
            TyKind::Adt(def, args) => {
                let p = self.path(def.did());
                let a = self.args(args);
                let local = self.followed(def.did());
                let mut vs = vec![];
                let std_small = matches!(p.rsplit("::").next().unwrap(), "Option"|"Result"|"Range"|"RangeInclusive"|"ControlFlow"|"RangeTo"|"RangeFrom"|"RangeToInclusive"|"Ordering"|"Box"|"Reverse"|"Wrapping"|"Unique"|"NonNull") && matches!(self.krate(def.did()).as_str(), "core"|"alloc"|"std");
                if local || std_small || def.is_enum() {
                    let discrs: Vec<u128> = if def.is_enum() { def.discriminants(tcx).map(|(_, d)| d.val).collect() } else { vec![0] };
                    for (vi, v) in def.variants().iter_enumerated() {
                        let fs: Vec<Value> = v.fields.iter().map(|f| {
                            if local || std_small {
                                let ft = f.ty(tcx, args);
                                let ft = tcx.try_normalize_erasing_regions(TypingEnv::fully_monomorphized(), ft).unwrap_or(f.ty(tcx, args).skip_norm_wip());
                                json!([f.name.to_string(), self.ty(ft)])
                            } else { json!([f.name.to_string(), Value::Null]) }
                        }).collect();
                        vs.push(json!({"n": v.name.to_string(), "d": num(discrs.get(vi.as_usize()).copied().unwrap_or(0)), "f": fs}));
                    }
                }
                json!({"k":"adt","p":p,"a":a,"local":local,"enum":def.is_enum(),"v":vs})
            }
            TyKind::FnDef(d, args) => {
                let p = self.path(*d);
                let args = args.skip_binder();
                let a = self.args(args);
                let r = self.callee(*d, args, TypingEnv::fully_monomorphized());
                json!({"k":"fndef","p":p,"a":a,"c":r})
            }
            TyKind::Closure(d, args) => {
                let p = self.path(*d);
                let inst = Instance::new_raw(*d, args);
                let up: Vec<usize> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x)).collect();
                let has_param = ty::TypeVisitableExt::has_param(&t);
                let r = if has_param { let k = Key::Poly(*d); self.req(k) } else { let k = Key::Mono(inst); self.req(k) };
                json!({"k":"closure","p":p,"fn":r,"up":up,"ck": format!("{:?}", args.as_closure().kind())})
            }
            TyKind::FnPtr(..) => json!({"k":"fnptr"}),
            TyKind::Dynamic(..) => json!({"k":"dyn"}),
            TyKind::Param(p) => json!({"k":"param","n":p.name.to_string()}),
            TyKind::Alias(..) => json!({"k":"alias"}),
            _ => json!({"k":"other"}),
        };
        let mut v = v;
        v["s"] = json!(s);
        self.types[i] = v;
        i
    }

    fn args(&mut self, args: GenericArgsRef<'tcx>) -> Vec<Value> {
        args.iter().filter_map(|a| match a.kind() {
            ty::GenericArgKind::Type(t) => Some(json!(self.ty(t))),
            ty::GenericArgKind::Const(c) => Some(json!({"c": c.try_to_target_usize(self.tcx).or_else(|| c.try_to_leaf().and_then(|s| u64::try_from(s.to_bits(s.size())).ok()))})),
            _ => None,
        }).collect()
    }

    fn req(&mut self, k: Key<'tcx>) -> usize {
        if let Some(i) = self.ids.get(&k) { return *i; }
        let i = self.fns.len();
        self.fns.push(Value::Null);
        self.ids.insert(k, i);
        self.queue.push_back(k);
        i
    }

    /// declared path, generic arguments and, where it can be resolved, the implementing function
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> Value {
        let tcx = self.tcx;
        let p = self.path(d);
        let a = self.args(args);
        let mut out = json!({"p": p, "a": a, "k": self.krate(d)});
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            out["ctor"] = json!(true);
        }
        if let Some(tr) = tcx.trait_of_assoc(d) { out["trait"] = json!(self.path(tr)); }
        let has_param = ty::TypeVisitableExt::has_param(&args);
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..)) {
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args) {
                match inst.def {
                    InstanceKind::Item(did) => {
                        out["r"] = json!(self.path(did));
                        out["rk"] = json!(self.krate(did));
                        if did != d { out["ra"] = json!(self.args(inst.args)); }
                        if let Some(im) = tcx.impl_of_assoc(did) {
                            let _ = im;
                        }
                        if self.followed(did) && !matches!(tcx.def_kind(did), DefKind::Ctor(..)) {
                            let k = if has_param { Key::Poly(did) } else { Key::Mono(inst) };
                            out["id"] = json!(self.req(k));
                        }
                    }
                    InstanceKind::Virtual(..) => { out["virtual"] = json!(true); }
                    InstanceKind::Intrinsic(_) => { out["intrinsic"] = json!(true); }
                    k => { out["shim"] = json!(format!("{:?}", std::mem::discriminant(&k))); }
                }
            }
        }
        out
    }

    fn cval(&mut self, val: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> Value {
        self.depth += 1;
        if self.depth > 60 { self.depth -= 1; return Value::Null; }
        let r = self.cval_(val, t, env);
        self.depth -= 1;
        r
    }
    fn scalar_int(&self, val: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> Option<(u128, u64)> {
        let tcx = self.tcx;
        let size = tcx.layout_of(env.as_query_input(t)).ok()?.size;
        match val {
            ConstValue::Scalar(Scalar::Int(i)) => Some((i.to_bits(i.size()), size.bytes())),
            ConstValue::Indirect { alloc_id, offset } => {
                let a = match tcx.global_alloc(alloc_id) { GlobalAlloc::Memory(m) => m, GlobalAlloc::Static(s) => tcx.eval_static_initializer(s).ok()?, _ => return None };
                let a = a.inner();
                let o = offset.bytes() as usize;
                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(o..o + size.bytes() as usize);
                let mut v = 0u128;
                for (i, x) in b.iter().enumerate() { v |= (*x as u128) << (8 * i); }
                Some((v, size.bytes()))
            }
            _ => None,
        }
    }
    fn cval_(&mut self, val: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> Value {
        let tcx = self.tcx;
        match t.kind() {
            TyKind::Bool | TyKind::Uint(_) | TyKind::Char => match self.scalar_int(val, t, env) { Some((v, _)) => num(v), None => Value::Null },
            TyKind::Int(_) => match self.scalar_int(val, t, env) {
                Some((v, sz)) => { let sh = 128 - 8 * sz as u32; inum(((v << sh) as i128) >> sh) }
                None => Value::Null,
            },
            TyKind::FnDef(..) => json!({"fn": self.ty(t)}),
            TyKind::Float(_) => match self.scalar_int(val, t, env) { Some((v, _)) => json!({"float": num(v)}), None => Value::Null },
            TyKind::Tuple(l) if l.is_empty() => json!({"agg": []}),
            TyKind::Ref(_, e, _) | TyKind::RawPtr(e, _) => {
                if e.is_str() || matches!(e.kind(), TyKind::Slice(x) if *x == tcx.types.u8) {
                    if let Some(b) = self.slice_bytes(val) {
                        return match std::str::from_utf8(&b) { Ok(s) => json!({"s": s, "u8": !e.is_str()}), Err(_) => json!({"bytes": b}) };
                    }
                    return Value::Null;
                }
                if let TyKind::Slice(x) = e.kind() {
                    let (aid, off, n) = match self.fat(val) { Some(x) => x, None => return Value::Null };
                    let sz = match tcx.layout_of(env.as_query_input(*x)) { Ok(l) => l.size.bytes(), _ => return Value::Null };
                    if let GlobalAlloc::Static(s) = tcx.global_alloc(aid) { self.static_q.push(s); }
                    let v: Vec<Value> = (0..n).map(|i| self.cval(ConstValue::Indirect { alloc_id: aid, offset: rustc_abi::Size::from_bytes(off + i * sz) }, *x, env)).collect();
                    return json!({"ref": {"arr": v}});
                }
                if matches!(e.kind(), TyKind::Dynamic(..)) { return json!({"dyn": true}); }
                match self.thin(val) {
                    Some((aid, off)) => match tcx.global_alloc(aid) {
                        GlobalAlloc::Static(s) => { self.static_q.push(s); json!({"static": self.path(s)}) }
                        GlobalAlloc::Memory(_) => { let v = self.cval(ConstValue::Indirect { alloc_id: aid, offset: rustc_abi::Size::from_bytes(off) }, *e, env); json!({"ref": v}) }
                        _ => Value::Null,
                    },
                    None => Value::Null,
                }
            }
            TyKind::Array(e, n) => {
                let n = match n.try_to_target_usize(tcx) { Some(n) => n, None => return Value::Null };
                if n == 0 { return json!({"arr": []}); }
                if let ConstValue::Indirect { alloc_id, offset } = val {
                    let sz = match tcx.layout_of(env.as_query_input(*e)) { Ok(l) => l.size.bytes(), _ => return Value::Null };
                    let v: Vec<Value> = (0..n).map(|i| self.cval(ConstValue::Indirect { alloc_id, offset: offset + rustc_abi::Size::from_bytes(i * sz) }, *e, env)).collect();
                    return json!({"arr": v});
                }
                match tcx.try_destructure_mir_constant_for_user_output(val, t) {
                    Some(d) => { let v: Vec<Value> = d.fields.iter().map(|(v, t)| self.cval(*v, *t, env)).collect(); json!({"arr": v}) }
                    None => Value::Null,
                }
            }
            TyKind::Adt(..) | TyKind::Tuple(..) | TyKind::Closure(..) => {
                match tcx.try_destructure_mir_constant_for_user_output(val, t) {
                    Some(d) => {
                        let f: Vec<Value> = d.fields.iter().map(|(v, t)| self.cval(*v, *t, env)).collect();
                        json!({"agg": f, "var": d.variant.map(|v| v.as_usize())})
                    }
                    None => match val { ConstValue::ZeroSized => json!({"agg": []}), _ => Value::Null },
                }
            }
            _ => Value::Null,
        }
    }
    fn mem(&self, aid: rustc_middle::mir::interpret::AllocId) -> Option<rustc_middle::mir::interpret::ConstAllocation<'tcx>> {
        match self.tcx.global_alloc(aid) { GlobalAlloc::Memory(m) => Some(m), GlobalAlloc::Static(s) => self.tcx.eval_static_initializer(s).ok(), _ => None }
    }
    fn thin(&self, val: ConstValue) -> Option<(rustc_middle::mir::interpret::AllocId, u64)> {
        match val {
            ConstValue::Scalar(Scalar::Ptr(p, _)) => { let (prov, off) = p.into_raw_parts(); Some((prov.alloc_id(), off.bytes())) }
            ConstValue::Indirect { alloc_id, offset } => {
                let a = self.mem(alloc_id)?; let a = a.inner();
                let prov = a.provenance().get_ptr(offset)?;
                let o = offset.bytes() as usize;
                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(o..o + 8);
                Some((prov.alloc_id(), u64::from_le_bytes(b.try_into().unwrap())))
            }
            _ => None,
        }
    }
    fn fat(&self, val: ConstValue) -> Option<(rustc_middle::mir::interpret::AllocId, u64, u64)> {
        match val {
            ConstValue::Slice { alloc_id, meta } => Some((alloc_id, 0, meta)),
            ConstValue::Indirect { alloc_id, offset } => {
                let (a, o) = self.thin(val)?;
                let m = self.mem(alloc_id)?; let m = m.inner();
                let p = offset.bytes() as usize + 8;
                let b = m.inspect_with_uninit_and_ptr_outside_interpreter(p..p + 8);
                Some((a, o, u64::from_le_bytes(b.try_into().unwrap())))
            }
            _ => None,
        }
    }
    fn slice_bytes(&self, val: ConstValue) -> Option<Vec<u8>> {
        if let ConstValue::Indirect{..} | ConstValue::Slice{..} = val {
            let (a, o, n) = match self.fat(val) { Some(x) => x, None => return if let ConstValue::Indirect{..} = val { Some(vec![]) } else { None } };
            let m = self.mem(a)?; let m = m.inner();
            return Some(m.inspect_with_uninit_and_ptr_outside_interpreter(o as usize..(o + n) as usize).to_vec());
        }
        None
    }

    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!("{}:{}", f, lo.line)
    }

    fn body(&mut self, k: Key<'tcx>) -> Value {
        let tcx = self.tcx;
        let (did, body, env, args): (DefId, Body<'tcx>, TypingEnv<'tcx>, GenericArgsRef<'tcx>) = match k {
            Key::Mono(inst) => {
                let did = inst.def_id();
                if !tcx.is_mir_available(did) { return self.head(k, did, inst.args); }
                let b = tcx.instance_mir(inst.def).clone();
                let env = TypingEnv::fully_monomorphized();
                let b = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, b)) { Ok(b) => b, Err(_) => return self.head(k, did, inst.args) };
                (did, b, env, inst.args)
            }
            Key::Poly(did) => {
                let args = ty::GenericArgs::identity_for_item(tcx, did);
                if !tcx.is_mir_available(did) { return self.head(k, did, args); }
                (did, tcx.optimized_mir(did).clone(), TypingEnv::post_analysis(tcx, did), args)
            }
        };
        let mut out = self.head(k, did, args);
        let locals: Vec<Value> = body.local_decls.iter().map(|l| json!(self.ty(l.ty))).collect();
        let mut names = serde_json::Map::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                let pl = self.place(&p);
                names.insert(format!("{}", v.name), pl);
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let p2 = self.place(p);
                        let r2 = self.rvalue(r, &body, env);
                        st.push(json!(["=", p2, r2, self.span(s.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(place); st.push(json!(["sd", p, variant_index.as_usize()])) }
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                            let a = self.op(&c.src, &body, env); let b = self.op(&c.dst, &body, env); let n = self.op(&c.count, &body, env);
                            st.push(json!(["cno", a, b, n]));
                        }
                        _ => {}
                    },
                    StatementKind::StorageDead(l) => st.push(json!(["dead", l.as_usize()])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tv = match &t.kind {
                TerminatorKind::Goto { target, .. } => json!(["goto", target.as_usize()]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.op(discr, &body, env);
                    let dt = self.ty(discr.ty(&body.local_decls, tcx));
                    let l: Vec<Value> = targets.iter().map(|(v, b)| json!([num(v), b.as_usize()])).collect();
                    json!(["switch", d, l, targets.otherwise().as_usize(), dt])
                }
                TerminatorKind::Return => json!(["ret"]),
                TerminatorKind::Unreachable => json!(["unreach"]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => json!(["resume"]),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&body.local_decls, tcx).ty;
                    let p = self.place(place); let ti = self.ty(t);
                    json!(["drop", p, target.as_usize(), ti])
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let ft = func.ty(&body.local_decls, tcx);
                    let f = match ft.kind() {
                        TyKind::FnDef(d, a) => { let v = self.callee(*d, a.skip_binder(), env); v }
                        _ => { let o = self.op(func, &body, env); json!({"indirect": o, "ty": self.ty(ft)}) }
                    };
                    let a: Vec<Value> = args.iter().map(|x| self.op(&x.node, &body, env)).collect();
                    let at: Vec<Value> = args.iter().map(|x| { let t = x.node.ty(&body.local_decls, tcx); json!(self.ty(t)) }).collect();
                    let d = self.place(destination);
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    let dt = self.ty(dt);
                    let uw = match unwind { UnwindAction::Cleanup(b) => json!(b.as_usize()), _ => Value::Null };
                    json!(["call", f, a, d, target.map(|t| t.as_usize()), sp, at, dt, uw])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.op(cond, &body, env);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds", AssertKind::Overflow(..) => "overflow", AssertKind::OverflowNeg(..) => "overflow",
                        AssertKind::DivisionByZero(..) | AssertKind::RemainderByZero(..) => "div0", _ => "other",
                    };
                    json!(["assert", c, expected, m, target.as_usize(), sp])
                }
                TerminatorKind::FalseEdge { real_target, .. } => json!(["goto", real_target.as_usize()]),
                TerminatorKind::FalseUnwind { real_target, .. } => json!(["goto", real_target.as_usize()]),
                _ => json!(["other"]),
            };
            blocks.push(json!({"s": st, "t": tv, "c": bb.is_cleanup}));
        }
        out["argc"] = json!(body.arg_count);
        out["spread"] = json!(body.spread_arg.map(|l| l.as_usize()));
        out["locals"] = json!(locals);
        out["names"] = Value::Object(names);
        out["blocks"] = json!(blocks);
        out
    }

    fn head(&mut self, k: Key<'tcx>, did: DefId, args: GenericArgsRef<'tcx>) -> Value {
        let tcx = self.tcx;
        let a = self.args(args);
        let mut o = json!({"p": self.path(did), "k": self.krate(did), "a": a, "span": self.span(tcx.def_span(did)),
            "kind": format!("{:?}", tcx.def_kind(did)), "poly": matches!(k, Key::Poly(_)), "mono": matches!(k, Key::Mono(_))});
        if matches!(tcx.def_kind(did), DefKind::AssocFn) {
            o["name"] = json!(tcx.item_name(did).to_string());
            if let Some(im) = tcx.impl_of_assoc(did) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                o["self"] = json!(nv!(format!("{}", st)));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    o["trait"] = json!(self.path(tr.def_id));
                    o["traitref"] = json!(nv!(format!("{}", tr)));
                }
            }
            if let Some(tr) = tcx.trait_of_assoc(did) { o["intrait"] = json!(self.path(tr)); }
        } else if matches!(tcx.def_kind(did), DefKind::Fn) {
            o["name"] = json!(tcx.item_name(did).to_string());
        }
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            o["vis"] = json!(tcx.visibility(did).is_public());
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
            o["unsafe"] = json!(!sig.safety().is_safe());
        }
        o
    }

    fn place(&mut self, p: &Place<'tcx>) -> Value {
        let pr: Vec<Value> = p.projection.iter().map(|e| match e {
            ProjectionElem::Deref => json!("*"),
            ProjectionElem::Field(f, t) => { let t = self.ty(t); json!(["f", f.as_usize(), t]) }
            ProjectionElem::Index(l) => json!(["i", l.as_usize()]),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => json!(["c", offset, min_length, from_end]),
            ProjectionElem::Subslice { from, to, from_end } => json!(["s", from, to, from_end]),
            ProjectionElem::Downcast(_, v) => json!(["d", v.as_usize()]),
            _ => json!(["o"]),
        }).collect();
        json!([p.local.as_usize(), pr])
    }
    fn op(&mut self, o: &Operand<'tcx>, _b: &Body<'tcx>, env: TypingEnv<'tcx>) -> Value {
        match o {
            Operand::Copy(p) => { let p = self.place(p); json!(["cp", p]) }
            Operand::Move(p) => { let p = self.place(p); json!(["mv", p]) }
            Operand::Constant(c) => self.konst(&c.const_, env, c.span),
            Operand::RuntimeChecks(_) => json!(["k", Value::Null, 0]),
        }
    }
    fn konst(&mut self, c: &Const<'tcx>, env: TypingEnv<'tcx>, sp: Span) -> Value {
        let t = c.ty();
        let ti = self.ty(t);
        if let TyKind::FnDef(..) = t.kind() { return json!(["k", ti, {"fn": ti}]); }
        let mut extra = Value::Null;
        if let Const::Unevaluated(u, _) = c { if u.promoted.is_none() { extra = json!(self.path(u.def)); } }
        match c.eval(self.tcx, env, sp) {
            Ok(v) => { let v = self.cval(v, t, env); json!(["k", ti, v, extra]) }
            Err(_) => json!(["k", ti, {"uneval": nv!(format!("{c}"))}, extra]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> Value {
        match r {
            Rvalue::Use(o, _) => { let o = self.op(o, b, env); json!(["use", o]) }
            Rvalue::Repeat(o, n) => { let o = self.op(o, b, env); json!(["repeat", o, n.try_to_target_usize(self.tcx)]) }
            Rvalue::Ref(_, k, p) => { let p = self.place(p); json!(["ref", matches!(k, BorrowKind::Mut{..}), p]) }
            Rvalue::RawPtr(_, p) => { let p = self.place(p); json!(["ref", true, p]) }
            Rvalue::Reborrow(_, _, p) => { let p = self.place(p); json!(["ref", true, p]) }
            Rvalue::ThreadLocalRef(d) => json!(["tls", self.path(*d)]),
            Rvalue::Cast(k, o, t) => {
                let ft = o.ty(&b.local_decls, self.tcx);
                let o = self.op(o, b, env); let ft = self.ty(ft); let t = self.ty(*t);
                let ks = match k { CastKind::PointerCoercion(c, _) => format!("pc:{c:?}"), k => format!("{k:?}") };
                json!(["cast", ks, o, t, ft])
            }
            Rvalue::BinaryOp(op, ab) => {
                let t = ab.0.ty(&b.local_decls, self.tcx); let t = self.ty(t);
                let x = self.op(&ab.0, b, env); let y = self.op(&ab.1, b, env);
                json!(["bin", format!("{op:?}"), x, y, t])
            }
            Rvalue::UnaryOp(op, o) => { let t = o.ty(&b.local_decls, self.tcx); let t = self.ty(t); let o = self.op(o, b, env); json!(["un", format!("{op:?}"), o, t]) }
            Rvalue::Discriminant(p) => { let t = p.ty(&b.local_decls, self.tcx).ty; let t = self.ty(t); let p = self.place(p); json!(["discr", p, t]) }
            Rvalue::CopyForDeref(p) => { let p = self.place(p); json!(["use", ["cp", p]]) }
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<Value> = ops.iter().map(|o| self.op(o, b, env)).collect();
                let k = match &**k {
                    AggregateKind::Array(_) => json!("arr"),
                    AggregateKind::Tuple => json!("tup"),
                    AggregateKind::Adt(d, v, _, _, af) => json!(["adt", self.path(*d), v.as_usize(), af.map(|f| f.as_usize())]),
                    AggregateKind::Closure(d, a) => { let t = Ty::new_closure(self.tcx, *d, a); json!(["clo", self.ty(t)]) }
                    AggregateKind::RawPtr(..) => json!("rawptr"),
                    _ => json!("other"),
                };
                let rt = r.ty(&b.local_decls, self.tcx); let rt = self.ty(rt);
                json!(["agg", k, o, rt])
            }
            _ => json!(["other"]),
        }
    }
}

fn dump(tcx: TyCtxt<'_>) {
    let follow: Vec<String> = std::env::var("MIRDUMP_CRATES").unwrap().split(',').map(|s| s.to_string()).collect();
    let workspace: Vec<String> = std::env::var("MIRDUMP_WS").unwrap().split(',').map(|s| s.to_string()).collect();
    let mono = std::env::var("MIRDUMP_MONO").is_ok();
    let out = std::env::var("MIRDUMP_OUT").unwrap();
    let mut d = D { tcx, follow, types: vec![], tmap: HashMap::new(), tys: vec![], ids: HashMap::new(), queue: VecDeque::new(), fns: vec![], statics: HashMap::new(), static_q: vec![], depth: 0 };
    let mut cands: Vec<Ty<'_>> = vec![];
    for id in tcx.hir_crate_items(()).free_items() {
        let did = id.owner_id.to_def_id();
        if matches!(tcx.def_kind(did), DefKind::TyAlias) { cands.push(tcx.type_of(did).instantiate_identity().skip_norm_wip()); }
    }
    let cands: Vec<Ty<'_>> = cands.into_iter().map(|t| tcx.erase_and_anonymize_regions(t)).collect();
    // the analysis roots written out in this crate
    for id in tcx.hir_crate_items(()).free_items() {
        let did = id.owner_id.to_def_id();
        if mono && matches!(tcx.def_kind(did), DefKind::Fn) && tcx.generics_of(did).count() == 0 { d.req(Key::Mono(Instance::new_raw(did, ty::List::empty()))); }
    }
    let mut adts = vec![];
    let mut consts = serde_json::Map::new();
    for &cnum in tcx.crates(()).iter() {
        let name = tcx.crate_name(cnum).to_string();
        if cnum == LOCAL_CRATE || !workspace.contains(&name) { continue; }
        let is_ws = workspace.contains(&name);
        for i in 0..tcx.num_extern_def_ids(cnum) {
            let did = DefId { krate: cnum, index: DefIndex::from_usize(i) };
            let kind = tcx.def_kind(did);
            if matches!(kind, DefKind::Const{..} | DefKind::AssocConst{..}) && is_ws {
                if tcx.generics_of(did).count() == 0 {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    if let Ok(v) = tcx.const_eval_poly(did) { let v = d.cval(v, t, TypingEnv::fully_monomorphized()); let ti = d.ty(t); consts.insert(d.path(did), json!([ti, v])); }
                }
            }
            if matches!(kind, DefKind::Static{..}) { d.static_q.push(did); }
            if matches!(kind, DefKind::Struct | DefKind::Enum) && is_ws {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip(); let ti = d.ty(t); adts.push(ti);
            }
            if !matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) { continue; }
            if !tcx.is_mir_available(did) { continue; }
            if matches!(kind, DefKind::Closure) { d.req(Key::Poly(did)); continue; }
            let g = tcx.generics_of(did);
            let n = g.count();
            let nt = (0..n).filter(|i| !matches!(g.param_at(*i, tcx).kind, ty::GenericParamDefKind::Lifetime)).count();
            d.req(Key::Poly(did));
            if !mono { continue; }
            if nt == 0 {
                let args = ty::GenericArgs::for_item(tcx, did, |_, _| tcx.lifetimes.re_erased.into());
                d.req(Key::Mono(Instance::new_raw(did, args)));
            } else if nt <= 2 {
                let total = cands.len().pow(nt as u32);
                'c: for c in 0..total {
                    let mut c = c;
                    let mut bad = false;
                    let args = ty::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
                        ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                        ty::GenericParamDefKind::Type { .. } => { let t = cands[c % cands.len()]; c /= cands.len(); t.into() }
                        _ => { bad = true; tcx.lifetimes.re_erased.into() }
                    });
                    if bad { break 'c; }
                    if tcx.trait_of_assoc(did).is_some() { // default bodies: only where the trait holds
                    }
                    if tcx.instantiate_and_check_impossible_clauses((did, args)) { continue; }
                    d.req(Key::Mono(Instance::new_raw(did, args)));
                }
            }
        }
    }
    let mut count = 0;
    while let Some(k) = d.queue.pop_front() {
        let id = d.ids[&k];
        let v = d.body(k);
        d.fns[id] = v;
        count += 1;
    }
    let mut done = std::collections::HashSet::new();
    while let Some(s) = d.static_q.pop() {
        if !done.insert(s) { continue; }
        let p = d.path(s);
        let t = tcx.type_of(s).instantiate_identity().skip_norm_wip();
        let ti = d.ty(t);
        let v = if d.followed(s) {
            match tcx.eval_static_initializer(s) { Ok(a) => { let aid = tcx.reserve_and_set_memory_alloc(a); d.cval(ConstValue::Indirect { alloc_id: aid, offset: rustc_abi::Size::ZERO }, t, TypingEnv::fully_monomorphized()) } Err(_) => Value::Null }
        } else { Value::Null };
        d.statics.insert(p, json!([ti, v]));
    }
    // implementations of the std traits that library code calls back on workspace types
    let mut impls = serde_json::Map::new();
    if mono {
        let traits: Vec<(&str, DefId)> = {
            let mut v = vec![];
            for &tr in tcx.all_traits_including_private().collect::<Vec<_>>().iter() {
                let p = d.path(tr);
                if matches!(p.rsplit("::").next().unwrap(), "Clone"|"Default"|"PartialEq"|"PartialOrd"|"Ord"|"Display"|"Debug"|"Iterator"|"LowerHex"|"UpperHex"|"Hash"|"Deref"|"DerefMut"|"Add"|"Mul"|"Sub"|"AddAssign"|"MulAssign"|"SubAssign"|"FromStr"|"From"|"Sum"|"Product"|"Read"|"Write"|"Seek"|"Neg"|"FromIterator"|"Error") && matches!(d.krate(tr).as_str(), "core"|"alloc"|"std") {
                    v.push((Box::leak(p.into_boxed_str()) as &str, tr));
                }
            }
            v
        };
        let mut i = 0;
        while i < d.tys.len() {
            let t = d.tys[i];
            let local = match t.kind() { TyKind::Adt(def, _) => d.followed(def.did()), _ => false };
            if local && !ty::TypeVisitableExt::has_param(&t) {
                for (p, tr) in &traits {
                    let g = tcx.generics_of(*tr).count();
                    let args = match g { 1 => tcx.mk_args(&[t.into()]), 2 => tcx.mk_args(&[t.into(), t.into()]), _ => continue };
                    for it in tcx.associated_item_def_ids(*tr) {
                        if !matches!(tcx.def_kind(*it), DefKind::AssocFn) { continue; }
                        if tcx.generics_of(*it).own_params.iter().any(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)) { 
                            continue;
                        }
                        let full = ty::GenericArgs::for_item(tcx, *it, |p, _| if (p.index as usize) < args.len() { args[p.index as usize] } else { tcx.lifetimes.re_erased.into() });
                        if tcx.instantiate_and_check_impossible_clauses((*it, full)) { continue; }
                        if let Ok(Some(inst)) = Instance::try_resolve(tcx, TypingEnv::fully_monomorphized(), *it, full) {
                            if let InstanceKind::Item(x) = inst.def { if d.followed(x) {
                                let id = d.req(Key::Mono(inst));
                                impls.insert(format!("{}|{}::{}", i, p, tcx.item_name(*it)), json!(id));
                            } }
                        }
                    }
                }
            }
            while let Some(k) = d.queue.pop_front() { let id = d.ids[&k]; let v = d.body(k); d.fns[id] = v; }
            i += 1;
        }
    }
    while let Some(k) = d.queue.pop_front() { let id = d.ids[&k]; let v = d.body(k); d.fns[id] = v; }
    let statics: serde_json::Map<String, Value> = d.statics.into_iter().collect();
    let all = json!({"types": d.types, "fns": d.fns, "statics": statics, "consts": consts, "impls": impls, "adts": adts, "cands": cands.iter().map(|t| format!("{t}")).collect::<Vec<_>>()});
    let f = std::io::BufWriter::new(std::fs::File::create(&out).unwrap());
    serde_json::to_writer(f, &all).unwrap();
    eprintln!("mirdump: {} bodies", count);
}
