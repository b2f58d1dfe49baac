//! Dumps resolved, monomorphic MIR facts of the crate being compiled as JSON lines.
//! Used as RUSTC_WORKSPACE_WRAPPER. Environment: MIRFACTS_OUT (directory), MIRFACTS_CRATES (comma list).
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{
    self, EarlyBinder, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv,
};
use rustc_span::{Span, DUMMY_SP};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::io::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: std::io::BufWriter<std::fs::File>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_queue: VecDeque<Ty<'tcx>>,
    queue: VecDeque<Instance<'tcx>>,
    seen: HashSet<Instance<'tcx>>,
}

fn item_path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_trimmed_paths!(tcx.def_path_str(d))
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.tys.len();
        self.tys.insert(t, i);
        self.ty_queue.push_back(t);
        i
    }

    fn flush_tys(&mut self) {
        while let Some(t) = self.ty_queue.pop_front() {
            let id = self.tys[&t];
            let s = with_no_trimmed_paths!(format!("{}", t));
            let body = match *t.kind() {
                ty::Bool => "\"k\":\"bool\"".to_string(),
                ty::Char => "\"k\":\"char\"".to_string(),
                ty::Int(i) => format!("\"k\":\"int\",\"signed\":true,\"bits\":{}", i.bit_width().unwrap_or(64)),
                ty::Uint(i) => format!("\"k\":\"int\",\"signed\":false,\"bits\":{}", i.bit_width().unwrap_or(64)),
                ty::Float(_) => "\"k\":\"float\"".to_string(),
                ty::Str => "\"k\":\"str\"".to_string(),
                ty::Never => "\"k\":\"never\"".to_string(),
                ty::Ref(_, x, m) => {
                    let x = self.ty(x);
                    format!("\"k\":\"ref\",\"mut\":{},\"to\":{}", m.is_mut(), x)
                }
                ty::RawPtr(x, m) => {
                    let x = self.ty(x);
                    format!("\"k\":\"ptr\",\"mut\":{},\"to\":{}", m.is_mut(), x)
                }
                ty::Slice(x) => {
                    let x = self.ty(x);
                    format!("\"k\":\"slice\",\"of\":{}", x)
                }
                ty::Array(x, n) => {
                    let x = self.ty(x);
                    let n = n.try_to_target_usize(self.tcx);
                    format!("\"k\":\"array\",\"of\":{},\"len\":{}", x, n.map(|v| v.to_string()).unwrap_or("null".into()))
                }
                ty::Tuple(l) => {
                    let v: Vec<String> = l.iter().map(|x| self.ty(x).to_string()).collect();
                    format!("\"k\":\"tuple\",\"of\":[{}]", v.join(","))
                }
                ty::FnDef(d, _) => format!("\"k\":\"fndef\",\"path\":{}", esc(&item_path(self.tcx, d))),
                ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
                ty::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
                ty::Param(_) => "\"k\":\"param\"".to_string(),
                ty::Closure(d, args) => {
                    let up: Vec<String> = if args.has_param() { vec![] } else {
                        args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect()
                    };
                    format!("\"k\":\"closure\",\"path\":{},\"of\":[{}]", esc(&item_path(self.tcx, d)), up.join(","))
                }
                ty::Adt(def, args) => {
                    let p = item_path(self.tcx, def.did());
                    let krate = self.tcx.crate_name(def.did().krate).to_string();
                    let rec = def.did().is_local()
                        || p.contains("option::Option")
                        || p.contains("result::Result")
                        || p.contains("ops::ControlFlow")
                        || p.contains("ops::Range")
                        || p.contains("cmp::Ordering")
                        || krate.starts_with("astro_float");
                    let mut vs = vec![];
                    let discrs: Vec<String> = if def.is_enum() {
                        def.discriminants(self.tcx).map(|(_, d)| (d.val).to_string()).collect()
                    } else {
                        vec![]
                    };
                    for (i, v) in def.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = if rec && !args.has_param() {
                                let ft = f.ty(self.tcx, args).skip_norm_wip();
                                let ft = self.tcx.try_normalize_erasing_regions(TypingEnv::fully_monomorphized(), rustc_middle::ty::Unnormalized::new_wip(ft)).unwrap_or(ft);
                                self.ty(ft) as i64
                            } else {
                                -1
                            };
                            fs.push(format!("[{},{}]", esc(f.name.as_str()), ft));
                        }
                        vs.push(format!(
                            "{{\"n\":{},\"d\":{},\"f\":[{}]}}",
                            esc(v.name.as_str()),
                            discrs.get(i.as_usize()).cloned().unwrap_or("null".into()),
                            fs.join(",")
                        ));
                    }
                    let targs: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                    format!(
                        "\"k\":\"adt\",\"path\":{},\"crate\":{},\"enum\":{},\"args\":[{}],\"variants\":[{}]",
                        esc(&p), esc(&krate), def.is_enum(), targs.join(","), vs.join(",")
                    )
                }
                _ => "\"k\":\"other\"".to_string(),
            };
            let tenv = TypingEnv::fully_monomorphized();
            let freeze = if t.has_param() || t.has_escaping_bound_vars() { "null".to_string() } else { t.is_freeze(self.tcx, tenv).to_string() };
            let _ = writeln!(self.out, "{{\"t\":\"ty\",\"id\":{},\"s\":{},\"freeze\":{},{}}}", id, esc(&s), freeze, body);
        }
    }

    fn const_val(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        if depth > 6 || t.has_param() {
            return "{\"c\":\"?\"}".into();
        }
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                if let Some(Scalar::Int(i)) = v.try_to_scalar() {
                    let bits = i.to_bits(i.size());
                    let val = if let ty::Int(_) = t.kind() {
                        i.to_int(i.size()).to_string()
                    } else {
                        bits.to_string()
                    };
                    return format!("{{\"c\":\"int\",\"v\":{}}}", esc(&val));
                }
                // indirect scalar
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                        if let Ok(l) = tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(t)) {
                            let a = m.inner();
                            let start = offset.bytes() as usize;
                            let end = start + l.size.bytes() as usize;
                            if end <= a.len() {
                                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(start..end);
                                let mut x: u128 = 0;
                                for (i, y) in b.iter().enumerate() {
                                    x |= (*y as u128) << (8 * i);
                                }
                                let val = if let ty::Int(_) = t.kind() {
                                    l.size.sign_extend(x).to_string()
                                } else {
                                    x.to_string()
                                };
                                return format!("{{\"c\":\"int\",\"v\":{}}}", esc(&val));
                            }
                        }
                    }
                }
                "{\"c\":\"?\"}".into()
            }
            ty::Float(_) => {
                if let Some(Scalar::Int(i)) = v.try_to_scalar() {
                    return format!("{{\"c\":\"float\",\"bits\":{}}}", esc(&i.to_bits(i.size()).to_string()));
                }
                "{\"c\":\"?\"}".into()
            }
            ty::FnDef(d, args) => self.fnref(d, args.no_bound_vars().unwrap()),
            ty::Closure(d, args) => {
                let inst = Instance::resolve_closure(tcx, d, args, args.as_closure().kind());
                self.enqueue(inst);
                let id = inst_id(tcx, inst);
                format!("{{\"c\":\"closure\",\"id\":{}}}", esc(&id))
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                if inner.is_str() {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        return format!("{{\"c\":\"str\",\"v\":{}}}", esc(&String::from_utf8_lossy(b)));
                    }
                    return "{\"c\":\"?\"}".into();
                }
                if let Some(Scalar::Ptr(p, _)) = v.try_to_scalar() {
                    let (prov, off) = p.prov_and_relative_offset();
                    match tcx.global_alloc(prov.alloc_id()) {
                        GlobalAlloc::Static(d) => {
                            return format!("{{\"c\":\"static\",\"path\":{}}}", esc(&item_path(tcx, d)));
                        }
                        GlobalAlloc::Memory(_) => {
                            if inner.is_sized(tcx, TypingEnv::fully_monomorphized()) {
                                let x = self.const_val(
                                    ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off },
                                    inner,
                                    depth + 1,
                                );
                                let it = self.ty(inner);
                                return format!("{{\"c\":\"ref\",\"ty\":{},\"v\":{}}}", it, x);
                            }
                            return "{\"c\":\"?\"}".into();
                        }
                        _ => {}
                    }
                }
                if let ConstValue::Slice { meta, .. } = v {
                    return format!("{{\"c\":\"slice\",\"len\":{}}}", meta);
                }
                "{\"c\":\"?\"}".into()
            }
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => {
                if let ty::Adt(d, _) = t.kind() {
                    if d.is_union() || d.variants().is_empty() {
                        return "{\"c\":\"?\"}".into();
                    }
                }
                if let ty::Array(_, n) = t.kind() {
                    match n.try_to_target_usize(tcx) {
                        Some(n) if n <= 64 => {}
                        _ => return "{\"c\":\"?\"}".into(),
                    }
                }
                if let ConstValue::Slice { .. } = v {
                    return "{\"c\":\"?\"}".into();
                }
                match tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    Some(d) => {
                        let mut fs = vec![];
                        for (fv, ft) in d.fields.iter() {
                            fs.push(self.const_val(*fv, *ft, depth + 1));
                        }
                        let k = match t.kind() {
                            ty::Adt(..) => "adt",
                            ty::Tuple(_) => "tuple",
                            _ => "array",
                        };
                        let tid = self.ty(t);
                        format!(
                            "{{\"c\":\"{}\",\"ty\":{},\"var\":{},\"f\":[{}]}}",
                            k, tid,
                            d.variant.map(|x| x.as_usize()).unwrap_or(0),
                            fs.join(",")
                        )
                    }
                    None => "{\"c\":\"?\"}".into(),
                }
            }
            _ => "{\"c\":\"?\"}".into(),
        }
    }

    fn fnref(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let path = item_path(tcx, d);
        let krate = tcx.crate_name(d.krate).to_string();
        let full = with_no_trimmed_paths!(tcx.def_path_str_with_args(d, args));
        let tr = tcx.trait_of_assoc(d).map(|t| item_path(tcx, t));
        let tys: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
        let resolved = if args.has_param() || tcx.intrinsic(d).is_some() || matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            None
        } else {
            let args = tcx.erase_and_anonymize_regions(args);
            Instance::try_resolve(tcx, TypingEnv::fully_monomorphized(), d, args).ok().flatten()
        };
        let (rid, rpath, rcrate, shim) = match resolved {
            Some(i) => {
                self.enqueue(i);
                (
                    esc(&inst_id(tcx, i)),
                    esc(&item_path(tcx, i.def_id())),
                    esc(&tcx.crate_name(i.def_id().krate).to_string()),
                    format!("{}", !matches!(i.def, InstanceKind::Item(_))),
                )
            }
            None => ("null".into(), esc(&path), esc(&krate), "false".into()),
        };
        format!(
            "{{\"c\":\"fn\",\"path\":{},\"crate\":{},\"full\":{},\"trait\":{},\"targs\":[{}],\"id\":{},\"rpath\":{},\"rcrate\":{},\"shim\":{},\"intrinsic\":{},\"ctor\":{},\"unsafe\":{}}}",
            esc(&path), esc(&krate), esc(&full),
            tr.map(|x| esc(&x)).unwrap_or("null".into()),
            tys.join(","), rid, rpath, rcrate, shim, tcx.intrinsic(d).is_some(), matches!(tcx.def_kind(d), DefKind::Ctor(..)),
            tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder().safety().is_unsafe()
        )
    }

    fn enqueue(&mut self, i: Instance<'tcx>) {
        let tcx = self.tcx;
        if self.seen.contains(&i) {
            return;
        }
        let ok = match i.def {
            InstanceKind::Item(d) => {
                matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure)
                    && tcx.is_mir_available(d)
                    && tcx.intrinsic(d).is_none()
            }
            InstanceKind::Shim(ShimKind::ClosureOnce { .. }) | InstanceKind::Shim(ShimKind::FnPtr(..)) | InstanceKind::Shim(ShimKind::Clone(..)) => true,
            _ => false,
        };
        if !ok {
            return;
        }
        let did = i.def_id();
        if !did.is_local() {
            let p = item_path(tcx, did);
            // formatting, panicking, I/O and iterator-adapter internals are never looked into
            for bad in ["::fmt::", "panicking", "::io::", "::thread::", "core::str::", "alloc::str", "itertools", "::alloc::", "::raw_vec", "::simd", "::unicode", "rand", "serde"] {
                if p.contains(bad) && std::env::var("MIRFACTS_ALLSTD").is_err() {
                    return;
                }
            }
        }
        if self.seen.len() > 12000 {
            return;
        }
        self.seen.insert(i);
        self.queue.push_back(i);
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut s = format!("[{}", p.local.as_usize());
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => s.push_str(",\"*\""),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    let _ = write!(s, ",[\"f\",{},{}]", f.as_usize(), t);
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(s, ",[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(s, ",[\"ci\",{},{}]", offset, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(s, ",[\"sub\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(_, v) => {
                    let _ = write!(s, ",[\"v\",{}]", v.as_usize());
                }
                _ => s.push_str(",[\"o\"]"),
            }
        }
        s.push(']');
        s
    }

    fn operand(&mut self, o: &Operand<'tcx>, tenv: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"o\":\"cp\",\"p\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"o\":\"mv\",\"p\":{}}}", self.place(p)),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let tid = self.ty(t);
                let v = self.const_operand(c.const_, t, tenv, c.span);
                format!("{{\"o\":\"c\",\"ty\":{},\"v\":{}}}", tid, v)
            }
            _ => "{\"o\":\"rt\"}".to_string(),
        }
    }

    fn const_operand(&mut self, c: Const<'tcx>, t: Ty<'tcx>, tenv: TypingEnv<'tcx>, sp: Span) -> String {
        if let ty::FnDef(d, args) = *t.kind() {
            return self.fnref(d, args.no_bound_vars().unwrap_or_else(|| panic!("bound vars")));
        }
        let name = if let Const::Unevaluated(u, _) = c {
            if u.promoted.is_none() { Some(item_path(self.tcx, u.def)) } else { None }
        } else {
            None
        };
        if c.has_param() {
            return format!("{{\"c\":\"?\",\"name\":{}}}", name.map(|n| esc(&n)).unwrap_or("null".into()));
        }
        match c.eval(self.tcx, tenv, sp) {
            Ok(v) => {
                let s = self.const_val(v, t, 0);
                match name {
                    Some(n) => format!("{},\"name\":{}}}", &s[..s.len() - 1], esc(&n)),
                    None => s,
                }
            }
            Err(_) => "{\"c\":\"?\"}".into(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, tenv: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("{{\"r\":\"use\",\"a\":{}}}", self.operand(o, tenv)),
            Rvalue::Repeat(o, n) => format!(
                "{{\"r\":\"repeat\",\"a\":{},\"n\":{}}}",
                self.operand(o, tenv),
                n.try_to_target_usize(self.tcx).map(|v| v.to_string()).unwrap_or("null".into())
            ),
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("{{\"r\":\"ref\",\"mut\":{},\"p\":{}}}", m, self.place(p))
            }
            Rvalue::RawPtr(k, p) => {
                format!("{{\"r\":\"raw\",\"mut\":{},\"p\":{}}}", esc(&format!("{:?}", k)), self.place(p))
            }
            Rvalue::ThreadLocalRef(d) => format!("{{\"r\":\"tls\",\"path\":{}}}", esc(&item_path(self.tcx, *d))),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{:?}", k);
                let ks = ks.split('(').next().unwrap().to_string()
                    + &(if let CastKind::PointerCoercion(c, _) = k { format!("({:?})", c) } else { String::new() });
                let tid = self.ty(*t);
                // closures coerced to fn pointers: keep them reachable
                format!("{{\"r\":\"cast\",\"k\":{},\"a\":{},\"ty\":{}}}", esc(&ks), self.operand(o, tenv), tid)
            }
            Rvalue::BinaryOp(op, b) => format!(
                "{{\"r\":\"bin\",\"op\":{},\"a\":{},\"b\":{}}}",
                esc(&format!("{:?}", op)),
                self.operand(&b.0, tenv),
                self.operand(&b.1, tenv)
            ),
            Rvalue::UnaryOp(op, o) => {
                format!("{{\"r\":\"un\",\"op\":{},\"a\":{}}}", esc(&format!("{:?}", op)), self.operand(o, tenv))
            }
            Rvalue::Discriminant(p) => format!("{{\"r\":\"discr\",\"p\":{}}}", self.place(p)),
            Rvalue::Aggregate(k, fs) => {
                let f: Vec<String> = fs.iter().map(|o| self.operand(o, tenv)).collect();
                let kind = match **k {
                    AggregateKind::Array(_) => "\"k\":\"array\"".to_string(),
                    AggregateKind::Tuple => "\"k\":\"tuple\"".to_string(),
                    AggregateKind::Adt(d, v, args, _, af) => {
                        let t = self.tcx.type_of(d).instantiate(self.tcx, args).skip_norm_wip();
                        let tid = self.ty(t);
                        format!(
                            "\"k\":\"adt\",\"ty\":{},\"var\":{},\"uf\":{}",
                            tid, v.as_usize(),
                            af.map(|x| x.as_usize().to_string()).unwrap_or("null".into())
                        )
                    }
                    AggregateKind::Closure(d, args) => {
                        let tcx = self.tcx;
                        let id = if args.has_param() {
                            "null".to_string()
                        } else {
                            let args = tcx.erase_and_anonymize_regions(args);
                            let inst = Instance::resolve_closure(tcx, d, args, args.as_closure().kind());
                            self.enqueue(inst);
                            esc(&inst_id(tcx, inst))
                        };
                        format!("\"k\":\"closure\",\"id\":{},\"path\":{}", id, esc(&item_path(tcx, d)))
                    }
                    AggregateKind::RawPtr(..) => "\"k\":\"rawptr\"".to_string(),
                    _ => "\"k\":\"other\"".to_string(),
                };
                format!("{{\"r\":\"agg\",{},\"f\":[{}]}}", kind, f.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("{{\"r\":\"use\",\"a\":{{\"o\":\"cp\",\"p\":{}}}}}", self.place(p)),
            Rvalue::Reborrow(_, m, p) => format!("{{\"r\":\"ref\",\"mut\":{},\"p\":{}}}", m.is_mut(), self.place(p)),
            _ => "{\"r\":\"other\"}".to_string(),
        }
    }

    fn line(&self, sp: Span) -> usize {
        let sp = sp.source_callsite();
        if sp.is_dummy() {
            return 0;
        }
        self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line
    }

    fn file(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        if sp.is_dummy() {
            return String::new();
        }
        let f = self.tcx.sess.source_map().lookup_char_pos(sp.lo()).file.name.clone();
        format!("{}", f.prefer_local_unconditionally())
    }

    fn body(&mut self, b: &Body<'tcx>, tenv: TypingEnv<'tcx>) -> String {
        let mut s = String::new();
        let locals: Vec<String> = b.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names: Vec<String> = vec![];
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(format!("\"{}\":{}", p.local.as_usize(), esc(v.name.as_str())));
                }
            }
        }
        let _ = write!(
            s,
            "\"argc\":{},\"spread\":{},\"locals\":[{}],\"names\":{{{}}},\"blocks\":[",
            b.arg_count,
            b.spread_arg.map(|x| x.as_usize().to_string()).unwrap_or("null".into()),
            locals.join(","),
            names.join(",")
        );
        for (i, bb) in b.basic_blocks.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            s.push_str("{\"s\":[");
            let mut first = true;
            for st in bb.statements.iter() {
                let x = match &st.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&a.0);
                        let r = self.rvalue(&a.1, tenv);
                        Some(format!("{{\"p\":{},\"v\":{},\"l\":{}}}", p, r, self.line(st.source_info.span)))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        Some(format!("{{\"p\":{},\"setd\":{}}}", p, variant_index.as_usize()))
                    }
                    StatementKind::StorageDead(l) => Some(format!("{{\"dead\":{}}}", l.as_usize())),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => Some(format!(
                            "{{\"copy\":[{},{},{}]}}",
                            self.operand(&c.src, tenv),
                            self.operand(&c.dst, tenv),
                            self.operand(&c.count, tenv)
                        )),
                        _ => None,
                    },
                    _ => None,
                };
                if let Some(x) = x {
                    if !first {
                        s.push(',');
                    }
                    first = false;
                    s.push_str(&x);
                }
            }
            let t = bb.terminator();
            let l = self.line(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("\"k\":\"goto\",\"t\":{}", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let vs: Vec<String> = targets.iter().map(|(v, t)| format!("[{},{}]", esc(&v.to_string()), t.as_usize())).collect();
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    let dt = self.ty(dt);
                    format!(
                        "\"k\":\"switch\",\"d\":{},\"dty\":{},\"c\":[{}],\"else\":{}",
                        self.operand(discr, tenv), dt, vs.join(","), targets.otherwise().as_usize()
                    )
                }
                TerminatorKind::Return => "\"k\":\"ret\"".to_string(),
                TerminatorKind::Unreachable => "\"k\":\"unreach\"".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    format!("\"k\":\"drop\",\"p\":{},\"t\":{}", self.place(place), target.as_usize())
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let f = self.operand(func, tenv);
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node, tenv)).collect();
                    format!(
                        "\"k\":\"call\",\"f\":{},\"a\":[{}],\"p\":{},\"t\":{},\"cl\":{}",
                        f, a.join(","), self.place(destination),
                        target.map(|x| x.as_usize().to_string()).unwrap_or("null".into()),
                        self.line(*fn_span)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{:?}", msg);
                    let kind = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
                        AssertKind::OverflowNeg(_) => "overflow:Neg".to_string(),
                        AssertKind::DivisionByZero(_) => "div0".to_string(),
                        AssertKind::RemainderByZero(_) => "rem0".to_string(),
                        _ => m.chars().take(30).collect(),
                    };
                    format!(
                        "\"k\":\"assert\",\"c\":{},\"e\":{},\"t\":{},\"m\":{}",
                        self.operand(cond, tenv), expected, target.as_usize(), esc(&kind)
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("\"k\":\"goto\",\"t\":{}", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("\"k\":\"goto\",\"t\":{}", real_target.as_usize()),
                _ => "\"k\":\"other\"".to_string(),
            };
            let _ = write!(s, "],\"l\":{},\"cu\":{},\"t\":{{{}}}}}", l, bb.is_cleanup, ts);
        }
        s.push(']');
        s
    }
}

fn inst_id<'tcx>(tcx: TyCtxt<'tcx>, i: Instance<'tcx>) -> String {
    let base = with_no_trimmed_paths!(tcx.def_path_str_with_args(i.def_id(), i.args));
    match i.def {
        InstanceKind::Item(_) => base,
        InstanceKind::Shim(ShimKind::ClosureOnce { closure, .. }) => {
            format!("shim-once<{}>{}", with_no_trimmed_paths!(tcx.def_path_str_with_args(closure, ty::List::empty())), base)
        }
        InstanceKind::Shim(ShimKind::Clone(_, t)) => with_no_trimmed_paths!(format!("shim-clone<{}>", t)),
        InstanceKind::Shim(ShimKind::FnPtr(_, t)) => with_no_trimmed_paths!(format!("shim-fnptr<{}>", t)),
        InstanceKind::Virtual(..) => format!("virtual {}", base),
        _ => format!("shim {:?} {}", i.def, base),
    }
}

struct Cb;

impl Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::interface::Config) {
        c.opts.unstable_opts.mir_opt_level = Some(0);
        c.opts.unstable_opts.inline_mir = Some(false);
    }

    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let dir = std::env::var("MIRFACTS_OUT").expect("MIRFACTS_OUT");
        let f = std::fs::File::create(format!("{}/{}.jsonl.tmp", dir, krate)).expect("facts file");
        let mut cx = Cx {
            tcx,
            out: std::io::BufWriter::new(f),
            tys: HashMap::new(),
            ty_queue: VecDeque::new(),
            queue: VecDeque::new(),
            seen: HashSet::new(),
        };
        let eff = tcx.effective_visibilities(());
        // items
        let mut poly: Vec<DefId> = vec![];
        for ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            let dk = tcx.def_kind(d);
            match dk {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
                DefKind::Static { .. } | DefKind::Const { .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let tid = cx.ty(t);
                    let line = cx.line(tcx.def_span(d));
                    let file = cx.file(tcx.def_span(d));
                    let m = matches!(dk, DefKind::Static { mutability, .. } if mutability.is_mut());
                    let tls = tcx.is_thread_local_static(d);
                    let _ = writeln!(
                        cx.out,
                        "{{\"t\":\"static\",\"path\":{},\"kind\":{},\"ty\":{},\"mut\":{},\"tls\":{},\"file\":{},\"line\":{}}}",
                        esc(&item_path(tcx, d)), esc(if matches!(dk, DefKind::Static{..}) {"static"} else {"const"}), tid, m, tls, esc(&file), line
                    );
                    continue;
                }
                _ => continue,
            }
            if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                let ins: Vec<String> = sig.inputs().iter().map(|t| cx.ty(*t).to_string()).collect();
                let o = cx.ty(sig.output());
                let vis = tcx.visibility(d).is_public();
                let reach = eff.is_exported(*ld);
                let impl_of = tcx.impl_of_assoc(d);
                let (self_ty, tr) = match impl_of {
                    Some(i) => {
                        let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
                        let tr = if matches!(tcx.def_kind(i), DefKind::Impl { of_trait: true }) {
                            Some(with_no_trimmed_paths!(format!("{}", tcx.impl_trait_ref(i).instantiate_identity().skip_norm_wip())))
                        } else {
                            None
                        };
                        (Some(with_no_trimmed_paths!(format!("{}", st))), tr)
                    }
                    None => (None, None),
                };
                let generics = tcx.generics_of(d).requires_monomorphization(tcx);
                let line = cx.line(tcx.def_span(d));
                let file = cx.file(tcx.def_span(d));
                let mut pn = vec![];
                for id in tcx.fn_arg_idents(d).iter() {
                    pn.push(id.map(|x| esc(x.name.as_str())).unwrap_or("null".into()));
                }
                let _ = writeln!(
                    cx.out,
                    "{{\"t\":\"item\",\"path\":{},\"name\":{},\"in\":[{}],\"params\":[{}],\"out\":{},\"pub\":{},\"exported\":{},\"self\":{},\"trait\":{},\"generic\":{},\"unsafe\":{},\"file\":{},\"line\":{}}}",
                    esc(&item_path(tcx, d)), esc(tcx.item_name(d).as_str()), ins.join(","), pn.join(","), o, vis, reach,
                    self_ty.map(|x| esc(&x)).unwrap_or("null".into()),
                    tr.map(|x| esc(&x)).unwrap_or("null".into()),
                    generics, sig.safety().is_unsafe(), esc(&file), line
                );
            }
            if tcx.generics_of(d).requires_monomorphization(tcx) {
                poly.push(d);
            } else {
                let i = Instance::mono(tcx, d);
                if cx.seen.insert(i) {
                    cx.queue.push_back(i);
                }
            }
        }
        // poly bodies (identity)
        for d in poly {
            let b = tcx.optimized_mir(d);
            let tenv = TypingEnv::post_analysis(tcx, d);
            let body = cx.body(b, tenv);
            let line = cx.line(tcx.def_span(d));
            let file = cx.file(tcx.def_span(d));
            let _ = writeln!(
                cx.out,
                "{{\"t\":\"fn\",\"id\":{},\"path\":{},\"crate\":{},\"local\":true,\"poly\":true,\"file\":{},\"line\":{},{}}}",
                esc(&format!("poly {}", item_path(tcx, d))), esc(&item_path(tcx, d)), esc(&krate), esc(&file), line, body
            );
        }
        let tenv = TypingEnv::fully_monomorphized();
        while let Some(i) = cx.queue.pop_front() {
            let b = tcx.instance_mir(i.def);
            let b: Body<'tcx> = match i.try_instantiate_mir_and_normalize_erasing_regions(tcx, tenv, EarlyBinder::bind(tcx, b.clone())) {
                Ok(b) => b,
                Err(_) => continue,
            };
            let body = cx.body(&b, tenv);
            let d = i.def_id();
            let line = cx.line(tcx.def_span(d));
            let file = cx.file(tcx.def_span(d));
            let _ = writeln!(
                cx.out,
                "{{\"t\":\"fn\",\"id\":{},\"path\":{},\"crate\":{},\"local\":{},\"poly\":false,\"shim\":{},\"file\":{},\"line\":{},{}}}",
                esc(&inst_id(tcx, i)), esc(&item_path(tcx, d)), esc(&tcx.crate_name(d.krate).to_string()),
                d.is_local(), !matches!(i.def, InstanceKind::Item(_)), esc(&file), line, body
            );
        }
        cx.flush_tys();
        let _ = writeln!(cx.out, "{{\"t\":\"end\"}}");
        cx.out.flush().unwrap();
        drop(cx.out);
        std::fs::rename(format!("{}/{}.jsonl.tmp", dir, krate), format!("{}/{}.jsonl", dir, krate)).unwrap();
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let want = std::env::var("MIRFACTS_CRATES").unwrap_or_default();
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let go = want.split(',').any(|w| w == name) && !args.iter().any(|a| a == "--test");
    let _ = DUMMY_SP;
    let mut plain = Plain;
    let mut cb = Cb;
    let c: &mut (dyn Callbacks + Send) = if go { &mut cb } else { &mut plain };
    rustc_driver::install_ice_hook("none", |_| ());
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, c));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
