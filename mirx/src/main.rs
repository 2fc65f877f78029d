// MIR exporter: dumps the type-checked program (MIR + resolved callees + ADT tables + impls)
// of the analysed crate as JSON.  Used as RUSTC_WORKSPACE_WRAPPER; it only reads the program.
#![feature(rustc_private)]
#![allow(unused)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_driver_impl::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, ConstValue, Operand, Place, ProjectionElem, Rvalue, StatementKind, TerminatorKind};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TyKind, TypeVisitableExt, TypingEnv};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: &[String]) -> String { format!("[{}]", v.join(",")) }

struct X<'tcx> {
    tcx: TyCtxt<'tcx>,
    ty_ids: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<String>,
    adts: HashMap<DefId, Option<String>>,
    adt_q: VecDeque<DefId>,
    inst_ids: HashMap<(InstanceKind<'tcx>, GenericArgsRef<'tcx>, Option<DefId>), usize>,
    inst_q: VecDeque<(usize, Instance<'tcx>, Option<DefId>)>,
    inst_out: Vec<String>,
    root_insts: Vec<(DefId, usize)>,
}

impl<'tcx> X<'tcx> {
    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!(self.tcx.def_path_str(d)))
    }
    fn env(&self, root: Option<DefId>) -> TypingEnv<'tcx> {
        match root { Some(d) => TypingEnv::post_analysis(self.tcx, d), None => TypingEnv::fully_monomorphized() }
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.ty_ids.get(&t) { return *i; }
        let id = self.ty_out.len();
        self.ty_ids.insert(t, id);
        self.ty_out.push(String::new());
        let s = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t));
        let body = match *t.kind() {
            TyKind::Bool => format!("\"k\":\"bool\""),
            TyKind::Char => format!("\"k\":\"char\""),
            TyKind::Int(i) => format!("\"k\":\"int\",\"bits\":{},\"signed\":true,\"name\":{}", i.bit_width().unwrap_or(64), esc(i.name_str())),
            TyKind::Uint(i) => format!("\"k\":\"int\",\"bits\":{},\"signed\":false,\"name\":{}", i.bit_width().unwrap_or(64), esc(i.name_str())),
            TyKind::Float(f) => format!("\"k\":\"float\",\"bits\":{}", f.bit_width()),
            TyKind::Str => "\"k\":\"str\"".to_string(),
            TyKind::Never => "\"k\":\"never\"".to_string(),
            TyKind::Slice(e) => { let e = self.ty(e); format!("\"k\":\"slice\",\"elem\":{}", e) }
            TyKind::Array(e, n) => {
                let l = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                let e = self.ty(e);
                format!("\"k\":\"array\",\"elem\":{},\"len\":{}", e, l)
            }
            TyKind::Ref(_, e, m) => { let e = self.ty(e); format!("\"k\":\"ref\",\"to\":{},\"mut\":{}", e, m.is_mut()) }
            TyKind::RawPtr(e, m) => { let e = self.ty(e); format!("\"k\":\"ptr\",\"to\":{},\"mut\":{}", e, m.is_mut()) }
            TyKind::Tuple(ts) => { let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect(); format!("\"k\":\"tuple\",\"elems\":{}", arr(&v)) }
            TyKind::Adt(def, args) => {
                let did = def.did();
                self.want_adt(did);
                let v: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
                format!("\"k\":\"adt\",\"path\":{},\"args\":{},\"local\":{}", esc(&self.path(did)), arr(&v), did.is_local())
            }
            TyKind::Closure(d, args) => {
                let ups: Vec<String> = args.as_closure().upvar_tys().iter().map(|t| self.ty(t).to_string()).collect();
                let p = self.path(d.into());
                format!("\"k\":\"closure\",\"path\":{},\"upvars\":{}", esc(&p), arr(&ups))
            }
            TyKind::FnDef(d, args) => {
                let p = self.path(d.into());
                format!("\"k\":\"fndef\",\"path\":{}", esc(&p))
            }
            TyKind::Param(p) => format!("\"k\":\"param\",\"name\":{}", esc(p.name.as_str())),
            TyKind::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            TyKind::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
            TyKind::Alias(..) => "\"k\":\"alias\"".to_string(),
            _ => "\"k\":\"other\"".to_string(),
        };
        self.ty_out[id] = format!("{{\"s\":{},{}}}", esc(&s), body);
        id
    }
    fn want_adt(&mut self, d: DefId) {
        if !self.adts.contains_key(&d) {
            self.adts.insert(d, None);
            self.adt_q.push_back(d);
        }
    }
    fn emit_adt(&mut self, d: DefId) {
        let tcx = self.tcx;
        let def = tcx.adt_def(d);
        let mut vs = vec![];
        let discrs: Vec<u128> = if def.is_enum() { def.discriminants(tcx).map(|(_, d)| d.val).collect() } else { vec![0] };
        let deep = d.is_local();
        for (i, v) in def.variants().iter_enumerated() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let fty = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let ts = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", fty));
                let tid = if deep { let norm = tcx.try_normalize_erasing_regions(TypingEnv::post_analysis(tcx, d), tcx.type_of(f.did).instantiate_identity()).unwrap_or(fty); self.ty(norm).to_string() } else { "null".into() };
                fs.push(format!("{{\"name\":{},\"ty\":{},\"tid\":{},\"pub\":{}}}", esc(f.name.as_str()), esc(&ts), tid, f.vis.is_public()));
            }
            vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":{}}}", esc(v.name.as_str()), discrs.get(i.as_usize()).copied().unwrap_or(0), arr(&fs)));
        }
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let p = self.path(d);
        let repr = def.repr().int.map(|i| format!("{:?}", i)).unwrap_or_default();
        let s = format!("{{\"path\":{},\"kind\":\"{}\",\"local\":{},\"box\":{},\"repr\":{},\"variants\":{}}}", esc(&p), kind, d.is_local(), def.is_box(), esc(&repr), arr(&vs));
        self.adts.insert(d, Some(s));
    }
    fn inst(&mut self, i: Instance<'tcx>, root: Option<DefId>) -> usize {
        let root = if i.args.has_param() { root } else { None };
        let key = (i.def, i.args, root);
        if let Some(k) = self.inst_ids.get(&key) { return *k; }
        let id = self.inst_out.len();
        self.inst_out.push(String::new());
        self.inst_ids.insert(key, id);
        self.inst_q.push_back((id, i, root));
        id
    }
    fn span(&self, s: rustc_span::Span) -> (String, usize) {
        let s = s.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        (format!("{}", lo.file.name.prefer_local_unconditionally()), lo.line)
    }
    fn place(&mut self, body: &mir::Body<'tcx>, p: &Place<'tcx>, inst: &Instance<'tcx>, env: TypingEnv<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, t) => { let t = self.norm(t, inst, env); let t = self.ty(t); format!("[\"f\",{},{}]", f.as_usize(), t) }
                ProjectionElem::Index(l) => format!("[\"idx\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"cidx\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"sub\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"dc\",{}]", v.as_usize()),
                _ => "[\"?\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_usize(), arr(&v))
    }
    fn norm<T: rustc_middle::ty::TypeFoldable<TyCtxt<'tcx>> + Copy>(&self, t: T, inst: &Instance<'tcx>, env: TypingEnv<'tcx>) -> T {
        match inst.try_instantiate_mir_and_normalize_erasing_regions(self.tcx, env, ty::EarlyBinder::bind(self.tcx, t)) {
            Ok(x) => x,
            Err(_) => ty::EarlyBinder::bind(self.tcx, t).instantiate(self.tcx, inst.args).skip_norm_wip(),
        }
    }
    // std combinators whose bodies are followed like local code
    fn ext_ok(&self, d: DefId) -> bool {
        if self.tcx.crate_name(d.krate).as_str() != "core" { return false; }
        let p = self.path(d);
        ["core::option::Option", "core::result::Result", "core::bool::"].iter().any(|x| p.starts_with(x))
    }
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>, root: Option<DefId>) -> String {
        let tcx = self.tcx;
        let p = self.path(d);
        let tys: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
        let trait_ = tcx.trait_of_assoc(d).map(|t| esc(&self.path(t))).unwrap_or("null".into());
        let res = Instance::try_resolve(tcx, env, d, args);
        let mut extra = String::new();
        if let Ok(Some(i)) = res {
            let rd = i.def_id();
            extra.push_str(&format!(",\"rpath\":{},\"rlocal\":{}", esc(&self.path(rd)), rd.is_local()));
            let rtys: Vec<String> = i.args.types().map(|t| self.ty(t).to_string()).collect();
            extra.push_str(&format!(",\"rargs\":{}", arr(&rtys)));
            if let DefKind::Ctor(..) = tcx.def_kind(rd) {
                let par = tcx.parent(rd);
                let (adt, vi) = if matches!(tcx.def_kind(par), DefKind::Variant) { let a = tcx.adt_def(tcx.parent(par)); (a, a.variant_index_with_ctor_id(rd).as_usize()) } else { (tcx.adt_def(par), 0) };
                extra.push_str(&format!(",\"ctor\":{},\"ctoradt\":{}", vi, esc(&self.path(adt.did()))));
            }
            match i.def {
                InstanceKind::Item(_) => {
                    if (rd.is_local() || self.ext_ok(rd)) && tcx.is_mir_available(rd) {
                        let id = self.inst(i, root);
                        extra.push_str(&format!(",\"inst\":{}", id));
                    }
                    // a std blanket (ToString, Into...) is resolved further by the analyser
                    if let Some(imp) = tcx.impl_of_assoc(rd) {
                        let sty = tcx.type_of(imp).instantiate(tcx, i.args).skip_norm_wip();
                        let sty = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(sty)).unwrap_or(sty);
                        let sid = self.ty(sty);
                        extra.push_str(&format!(",\"rself\":{}", sid));
                    }
                }
                ref k => { 
                    if format!("{:?}", k).contains("ClosureOnce") {
                        if let TyKind::Closure(cd, cargs) = *args.type_at(0).kind() {
                            let ci = Instance::new_raw(cd, cargs);
                            let id = self.inst(ci, root);
                            extra.push_str(&format!(",\"cinst\":{}", id));
                        }
                    }
                    let kn = format!("{:?}", k); 
                    extra.push_str(&format!(",\"shim\":{}", esc(kn.split(|c: char| c=='(' || c==' ' || c=='{').next().unwrap_or("")))); }
            }
        } else { extra.push_str(",\"unresolved\":true"); }
        format!("{{\"path\":{},\"args\":{},\"trait\":{},\"local\":{},\"krate\":{}{}}}", esc(&p), arr(&tys), trait_, d.is_local(), esc(tcx.crate_name(d.krate).as_str()), extra)
    }
    fn bytes_of(&self, id: rustc_middle::mir::interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(m) => {
                let m = m.inner();
                let sz = m.size().bytes();
                if off + len > sz { return None; }
                Some(m.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize).to_vec())
            }
            _ => None,
        }
    }
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        match *t.kind() {
            TyKind::Int(_) | TyKind::Uint(_) | TyKind::Bool | TyKind::Char | TyKind::Float(_) => {
                if let Some(Scalar::Int(s)) = v.try_to_scalar() {
                    let size = s.size();
                    let bits = s.to_bits(size);
                    return match *t.kind() {
                        TyKind::Int(_) => format!("{{\"int\":{}}}", s.to_int(size)),
                        TyKind::Uint(_) => format!("{{\"int\":{}}}", bits),
                        TyKind::Bool => format!("{{\"bool\":{}}}", bits != 0),
                        TyKind::Char => format!("{{\"char\":{}}}", bits),
                        _ => format!("{{\"float\":{}}}", bits),
                    };
                }
            }
            TyKind::Ref(_, inner, _) if inner.is_str() || matches!(inner.kind(), TyKind::Slice(e) if *e == tcx.types.u8) => {
                if !matches!(v, ConstValue::Scalar(_) | ConstValue::ZeroSized) {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        let n: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                        return format!("{{\"{}\":{}}}", if inner.is_str() { "str" } else { "bytes" }, arr(&n));
                    }
                }
            }
            TyKind::Ref(_, inner, _) => {
                if let TyKind::Array(e, n) = *inner.kind() {
                    if e == tcx.types.u8 {
                        if let (Some(Scalar::Ptr(p, _)), Some(n)) = (v.try_to_scalar(), n.try_to_target_usize(tcx)) {
                            let (prov, off) = p.into_raw_parts();
                            if let Some(b) = self.bytes_of(prov.alloc_id(), off.bytes(), n) {
                                let n: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                                return format!("{{\"bytes\":{}}}", arr(&n));
                            }
                        }
                    }
                }
            }
            TyKind::Array(e, n) if e == tcx.types.u8 => {
                if let (ConstValue::Indirect { alloc_id, offset }, Some(n)) = (v, n.try_to_target_usize(tcx)) {
                    if let Some(b) = self.bytes_of(alloc_id, offset.bytes(), n) {
                        let n: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                        return format!("{{\"bytearray\":{}}}", arr(&n));
                    }
                }
            }
            TyKind::Adt(def, _) if def.is_enum() && def.variants().iter().all(|v| v.fields.is_empty()) => {
                if let Some(Scalar::Int(s)) = v.try_to_scalar() {
                    let bits = s.to_bits(s.size());
                    for (vi, d) in def.discriminants(tcx) {
                        if d.val == bits { return format!("{{\"unitvariant\":{}}}", vi.as_usize()); }
                    }
                }
            }
            TyKind::Adt(..) | TyKind::Tuple(_) if !t.has_param() && !matches!(v, ConstValue::ZeroSized) => {
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let fs: Vec<String> = d.fields.iter().map(|(fv, ft)| {
                        let id = self.ty(*ft);
                        let s = self.cval(*fv, *ft, env);
                        format!("{{\"ty\":{},\"v\":{}}}", id, s)
                    }).collect();
                    return format!("{{\"adt\":{},\"fields\":{}}}", d.variant.map(|x| x.as_usize()).unwrap_or(0), arr(&fs));
                }
            }
            TyKind::Adt(def, args) if tcx.is_diagnostic_item(rustc_span::sym::Option, def.did()) && matches!(args.type_at(0).kind(), TyKind::Ref(..)) => {
                if let Some(Scalar::Int(s)) = v.try_to_scalar() {
                    if s.is_null() { return "{\"adt\":0,\"fields\":[]}".into(); }
                }
            }
            _ => {}
        }
        if matches!(v, ConstValue::ZeroSized) { return "{\"zst\":true}".into(); }
        format!("{{\"opaque\":{}}}", esc(&format!("{:?}", v)))
    }
    fn cnst(&mut self, c: &mir::Const<'tcx>, inst: &Instance<'tcx>, env: TypingEnv<'tcx>, root: Option<DefId>, span: rustc_span::Span) -> String {
        let tcx = self.tcx;
        let c = self.norm(*c, inst, env);
        let t = c.ty();
        let tid = self.ty(t);
        if let TyKind::FnDef(d, args) = *t.kind() {
            let args = args.skip_binder();
            let cs = self.callee(d.into(), args, env, root);
            return format!("{{\"ty\":{},\"fn\":{}}}", tid, cs);
        }
        if let TyKind::Closure(..) = *t.kind() { return format!("{{\"ty\":{},\"zst\":true}}", tid); }
        let mut extra = String::new();
        if let mir::Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                return format!("{{\"ty\":{},\"promoted\":{}}}", tid, p.as_usize());
            }
            extra.push_str(&format!(",\"def\":{}", esc(&self.path(u.def))));
            let tys: Vec<String> = u.args.types().map(|t| self.ty(t).to_string()).collect();
            extra.push_str(&format!(",\"dargs\":{}", arr(&tys)));
            if u.def.is_local() || u.args.has_param() {
                if u.args.has_param() {
                    // associated constant of a type parameter: opaque
                    if let Ok(Some(i)) = Instance::try_resolve(tcx, env, u.def, u.args) {
                        if i.def_id() != u.def || tcx.trait_of_assoc(u.def).is_none() {
                            extra.push_str(",\"assoc_resolved\":true");
                        } else { return format!("{{\"ty\":{}{},\"assoc\":true}}", tid, extra); }
                    } else {
                        return format!("{{\"ty\":{}{},\"assoc\":true}}", tid, extra);
                    }
                }
                // also offer the const's own MIR
                if let Ok(Some(i)) = Instance::try_resolve(tcx, env, u.def, u.args) {
                    if i.def_id().is_local() && matches!(i.def, InstanceKind::Item(_)) {
                        let id = self.inst(i, root);
                        extra.push_str(&format!(",\"cinst\":{}", id));
                    }
                }
            }
        }
        let v = match c {
            mir::Const::Val(v, _) => Some(v),
            _ => c.eval(tcx, env, span).ok(),
        };
        match v {
            Some(v) => { let s = self.cval(v, t, env); format!("{{\"ty\":{}{},\"v\":{}}}", tid, extra, s) }
            None => format!("{{\"ty\":{}{}}}", tid, extra),
        }
    }
    fn operand(&mut self, body: &mir::Body<'tcx>, o: &Operand<'tcx>, inst: &Instance<'tcx>, env: TypingEnv<'tcx>, root: Option<DefId>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(body, p, inst, env)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(body, p, inst, env)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.cnst(&c.const_, inst, env, root, c.span)),
            _ => "[\"rt\"]".to_string(),
        }
    }
    fn body(&mut self, body: &mir::Body<'tcx>, inst: &Instance<'tcx>, env: TypingEnv<'tcx>, root: Option<DefId>) -> String {
        let tcx = self.tcx;
        let mut locals = vec![];
        for l in body.local_decls.iter() {
            let t = self.norm(l.ty, inst, env);
            locals.push(self.ty(t).to_string());
        }
        let mut names = vec![];
        for v in body.var_debug_info.iter() {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() { names.push(format!("[{},{}]", p.local.as_usize(), esc(v.name.as_str()))); }
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in bb.statements.iter() {
                let (_, line) = self.span(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let pl = self.place(body, p, inst, env);
                        let rv = match r {
                            Rvalue::Use(o, ..) => { let o = self.operand(body, o, inst, env, root); format!("[\"use\",{}]", o) }
                            Rvalue::Repeat(o, n) => { let o = self.operand(body, o, inst, env, root); let n = self.norm(*n, inst, env); format!("[\"repeat\",{},{}]", o, n.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into())) }
                            Rvalue::Ref(_, k, p) => { let m = matches!(k, mir::BorrowKind::Mut { .. }); let p = self.place(body, p, inst, env); format!("[\"ref\",{},{}]", m, p) }
                            Rvalue::RawPtr(_, p) => { let p = self.place(body, p, inst, env); format!("[\"rawptr\",{}]", p) }
                            Rvalue::Reborrow(_, m, p) => { let p2 = self.place(body, p, inst, env); format!("[\"use\",[\"c\",{}]]", p2) }
                            Rvalue::Cast(k, o, t) => {
                                let ks = match k {
                                    mir::CastKind::PointerCoercion(pc, _) => format!("coerce:{:?}", pc).split('(').next().unwrap().to_string(),
                                    k => format!("{:?}", k),
                                };
                                let from = o.ty(&body.local_decls, tcx);
                                let from = self.norm(from, inst, env);
                                let from = self.ty(from);
                                let o = self.operand(body, o, inst, env, root);
                                let t = self.norm(*t, inst, env);
                                let t = self.ty(t);
                                format!("[\"cast\",{},{},{},{}]", esc(&ks), o, from, t)
                            }
                            Rvalue::BinaryOp(op, b) => {
                                let t = b.0.ty(&body.local_decls, tcx);
                                let t = self.norm(t, inst, env);
                                let t = self.ty(t);
                                let a = self.operand(body, &b.0, inst, env, root);
                                let c = self.operand(body, &b.1, inst, env, root);
                                format!("[\"bin\",\"{:?}\",{},{},{}]", op, a, c, t)
                            }
                            Rvalue::UnaryOp(op, o) => {
                                let t = o.ty(&body.local_decls, tcx);
                                let t = self.norm(t, inst, env);
                                let t = self.ty(t);
                                let o = self.operand(body, o, inst, env, root);
                                format!("[\"un\",\"{:?}\",{},{}]", op, o, t)
                            }
                            Rvalue::Discriminant(p) => {
                                let t = p.ty(&body.local_decls, tcx).ty;
                                let t = self.norm(t, inst, env);
                                let t = self.ty(t);
                                let p = self.place(body, p, inst, env);
                                format!("[\"discr\",{},{}]", p, t)
                            }
                            Rvalue::Aggregate(k, ops) => {
                                let os: Vec<String> = ops.iter().map(|o| self.operand(body, o, inst, env, root)).collect();
                                let ks = match &**k {
                                    mir::AggregateKind::Array(t) => "[\"array\"]".to_string(),
                                    mir::AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                                    mir::AggregateKind::Adt(d, vi, args, _, _) => {
                                        self.want_adt(*d);
                                        let args = self.norm(*args, inst, env);
                                        let t = tcx.type_of(*d).instantiate(tcx, args).skip_norm_wip();
                                        let t = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(t)).unwrap_or(t);
                                        let t = self.ty(t);
                                        format!("[\"adt\",{},{},{}]", t, vi.as_usize(), esc(&self.path(*d)))
                                    }
                                    mir::AggregateKind::Closure(d, args) => {
                                        let args = self.norm(*args, inst, env);
                                        let i = Instance::new_raw((*d).into(), args);
                                        let id = self.inst(i, root);
                                        format!("[\"closure\",{}]", id)
                                    }
                                    _ => "[\"other\"]".to_string(),
                                };
                                format!("[\"agg\",{},{}]", ks, arr(&os))
                            }
                            Rvalue::CopyForDeref(p) => { let p = self.place(body, p, inst, env); format!("[\"use\",[\"c\",{}]]", p) }
                            other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
                        };
                        st.push(format!("[\"=\",{},{},{}]", pl, rv, line));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(body, place, inst, env);
                        st.push(format!("[\"sd\",{},{},{}]", p, variant_index.as_usize(), line));
                    }
                    StatementKind::Intrinsic(i) => {
                        st.push(format!("[\"intr\",{},{}]", esc(&format!("{:?}", i)), line));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let (_, line) = self.span(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dt = self.norm(dt, inst, env);
                    let dt = self.ty(dt);
                    let d = self.operand(body, discr, inst, env, root);
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_usize())).collect();
                    format!("[\"switch\",{},{},{},{}]", d, arr(&v), targets.otherwise().as_usize(), dt)
                }
                TerminatorKind::Return => "[\"return\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".to_string(),
                TerminatorKind::UnwindResume => "[\"resume\"]".to_string(),
                TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    let pt = self.norm(pt, inst, env);
                    let pt = self.ty(pt);
                    let p = self.place(body, place, inst, env);
                    format!("[\"drop\",{},{},{}]", p, target.as_usize(), pt)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|o| self.operand(body, &o.node, inst, env, root)).collect();
                    let ft = func.ty(&body.local_decls, tcx);
                    let ft = self.norm(ft, inst, env);
                    let f = if let TyKind::FnDef(d, fa) = *ft.kind() {
                        let fa = fa.skip_binder();
                        self.callee(d.into(), fa, env, root)
                    } else {
                        let o = self.operand(body, func, inst, env, root);
                        format!("{{\"indirect\":{}}}", o)
                    };
                    let d = self.place(body, destination, inst, env);
                    let tg = target.map(|b| b.as_usize().to_string()).unwrap_or("null".into());
                    format!("[\"call\",{},{},{},{}]", f, arr(&a), d, tg)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(body, cond, inst, env, root);
                    let m = match &**msg {
                        mir::AssertKind::BoundsCheck { len, index } => {
                            let l = self.operand(body, len, inst, env, root);
                            let i = self.operand(body, index, inst, env, root);
                            format!("[\"bounds\",{},{}]", l, i)
                        }
                        mir::AssertKind::Overflow(op, a, b) => {
                            let a = self.operand(body, a, inst, env, root);
                            let b = self.operand(body, b, inst, env, root);
                            format!("[\"overflow\",\"{:?}\",{},{}]", op, a, b)
                        }
                        mir::AssertKind::OverflowNeg(a) => { let a = self.operand(body, a, inst, env, root); format!("[\"overflowneg\",{}]", a) }
                        mir::AssertKind::DivisionByZero(a) => { let a = self.operand(body, a, inst, env, root); format!("[\"div0\",{}]", a) }
                        mir::AssertKind::RemainderByZero(a) => { let a = self.operand(body, a, inst, env, root); format!("[\"rem0\",{}]", a) }
                        m => format!("[\"other\",{}]", esc(&format!("{:?}", m))),
                    };
                    format!("[\"assert\",{},{},{},{}]", c, expected, m, target.as_usize())
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                k => format!("[\"other\",{}]", esc(&format!("{:?}", k))),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"line\":{},\"cleanup\":{}}}", arr(&st), ts, line, bb.is_cleanup));
        }
        format!("\"argc\":{},\"locals\":{},\"names\":{},\"blocks\":{}", body.arg_count, arr(&locals), arr(&names), arr(&blocks))
    }
    fn emit_inst(&mut self, id: usize, i: Instance<'tcx>, root: Option<DefId>) {
        let tcx = self.tcx;
        let d = i.def_id();
        let env = self.env(root);
        let kind = tcx.def_kind(d);
        let is_const = matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst);
        let (file, line) = self.span(tcx.def_span(d));
        let path = self.path(d);
        let tys: Vec<String> = i.args.types().map(|t| self.ty(t).to_string()).collect();
        let mut extra = String::new();
        let mut owner = d;
        while matches!(tcx.def_kind(owner), DefKind::Closure) { owner = tcx.parent(owner); }
        if owner != d { extra.push_str(&format!(",\"owner\":{}", esc(&self.path(owner)))); }
        if let Some(imp) = tcx.impl_of_assoc(owner) {
            let sty0 = tcx.type_of(imp);
            let sty = sty0.instantiate(tcx, i.args).skip_norm_wip();
            let sty = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(sty)).unwrap_or(sty);
            let s = self.ty(sty);
            let s0 = { let t = sty0.instantiate_identity().skip_norm_wip(); let t = tcx.try_normalize_erasing_regions(TypingEnv::post_analysis(tcx, imp), sty0.instantiate_identity()).unwrap_or(t); self.ty(t) };
            extra.push_str(&format!(",\"self\":{},\"self0\":{}", s, s0));
            if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                let targs: Vec<String> = tr.args.types().map(|t| self.ty(t).to_string()).collect();
                extra.push_str(&format!(",\"trait\":{},\"traitargs\":{}", esc(&self.path(tr.def_id)), arr(&targs)));
            }
        } else if let Some(tr) = tcx.trait_of_assoc(owner) {
            extra.push_str(&format!(",\"in_trait\":{}", esc(&self.path(tr))));
        }
        let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_else(|| "{closure}".into());
        let is_pub = matches!(kind, DefKind::Fn | DefKind::AssocFn) && tcx.visibility(d).is_public();
        let derived = tcx.impl_of_assoc(owner).map_or(false, |imp| tcx.is_automatically_derived(imp));
        let body: &mir::Body<'tcx> = if is_const { tcx.mir_for_ctfe(d) } else { tcx.instance_mir(i.def) };
        let bs = self.body(body, &i, env, root);
        let mut proms = vec![];
        for p in tcx.promoted_mir(d).iter() {
            let s = self.body(p, &i, env, root);
            proms.push(format!("{{{}}}", s));
        }
        let poly = i.args.has_param();
        self.inst_out[id] = format!(
            "{{\"id\":{},\"path\":{},\"name\":{},\"kind\":{},\"const\":{},\"file\":{},\"line\":{},\"args\":{},\"poly\":{},\"pub\":{},\"derived\":{}{},{},\"promoted\":{}}}",
            id, esc(&path), esc(&name), esc(&format!("{:?}", kind)), is_const, esc(&file), line, arr(&tys), poly, is_pub, derived, extra, bs, arr(&proms)
        );
    }
    fn drain(&mut self) {
        loop {
            if let Some((id, i, r)) = self.inst_q.pop_front() { self.emit_inst(id, i, r); continue; }
            if let Some(d) = self.adt_q.pop_front() { self.emit_adt(d); continue; }
            break;
        }
    }
}

/// every use of `unsafe` in the crate's source (blocks, functions, impls)
struct Unsafe<'tcx> { tcx: TyCtxt<'tcx>, out: Vec<(rustc_span::Span, String)> }
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for Unsafe<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules { let o = self.tcx.hir_enclosing_body_owner(b.hir_id).to_def_id(); let n = rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!(self.tcx.def_path_str(o))); self.out.push((b.span, n)); }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

struct Cb { out: String, crate_name: String }
impl rustc_driver_impl::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        if name != self.crate_name { return Compilation::Continue; }
        let mut x = X { tcx, ty_ids: Default::default(), ty_out: vec![], adts: Default::default(), adt_q: Default::default(), inst_ids: Default::default(), inst_q: Default::default(), inst_out: vec![], root_insts: vec![] };
        let mut owners: Vec<DefId> = tcx.hir_body_owners().map(|d| d.to_def_id()).collect();
        for d in owners {
            let k = tcx.def_kind(d);
            if matches!(k, DefKind::Fn | DefKind::AssocFn) {
                let args = ty::GenericArgs::identity_for_item(tcx, d);
                let args = tcx.erase_and_anonymize_regions(args);
                let i = Instance::new_raw(d, args);
                let id = x.inst(i, Some(d));
                x.root_insts.push((d, id));
            }
        }
        // all local ADTs
        for d in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) { x.want_adt(d.to_def_id()); }
        }
        x.drain();
        // local trait impls + resolution table
        let mut impls = vec![];
        let mut local_traits = vec![];
        let mut selfs: Vec<Ty<'tcx>> = vec![];
        for d in tcx.hir_crate_items(()).definitions() {
            let d = d.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Trait => local_traits.push(d),
                DefKind::Impl { of_trait } => {
                    let env = TypingEnv::post_analysis(tcx, d);
                    let st0 = tcx.type_of(d).instantiate_identity();
                    let st = tcx.try_normalize_erasing_regions(env, st0).unwrap_or(st0.skip_norm_wip());
                    let sid = x.ty(st);
                    if !st.has_param() { selfs.push(st); }
                    let tr = tcx.impl_opt_trait_ref(d).map(|t| t.instantiate_identity().skip_norm_wip());
                    let (tp, ta, tl) = match tr {
                        Some(t) => { let a: Vec<String> = t.args.types().map(|t| x.ty(t).to_string()).collect(); (esc(&x.path(t.def_id)), arr(&a), t.def_id.is_local()) }
                        None => ("null".into(), "[]".into(), false),
                    };
                    let mut items = vec![];
                    for it in tcx.associated_items(d).in_definition_order() {
                        let id = x.root_insts.iter().find(|r| r.0 == it.def_id).map(|r| r.1.to_string()).unwrap_or("null".into());
                        let ip = x.path(it.def_id);
                        items.push(format!("{{\"name\":{},\"inst\":{},\"path\":{}}}", esc(it.name().as_str()), id, esc(&ip)));
                    }
                    let derived = tcx.is_automatically_derived(d);
                    impls.push(format!("{{\"self\":{},\"trait\":{},\"traitargs\":{},\"derived\":{},\"items\":{}}}", sid, tp, ta, derived, arr(&items)));
                }
                _ => {}
            }
        }
        // every concrete type seen so far: resolve local-trait methods on it
        let mut tys: Vec<Ty<'tcx>> = x.ty_ids.keys().copied().filter(|t| !t.has_param() && !t.has_escaping_bound_vars() && matches!(t.kind(), TyKind::Adt(..) | TyKind::Int(_) | TyKind::Uint(_) | TyKind::Float(_) | TyKind::Bool | TyKind::Char | TyKind::Str)).collect();
        for s in selfs { if !tys.contains(&s) { tys.push(s); } }
        let env = TypingEnv::fully_monomorphized();
        let mut res = vec![];
        for t in tys {
            for tr in local_traits.clone() {
                if tcx.generics_of(tr).own_params.len() != 1 { continue; }
                let sized = t.is_sized(tcx, env);
                for it in tcx.associated_items(tr).in_definition_order() {
                    if !matches!(it.kind, ty::AssocKind::Fn { .. }) { continue; }
                    let args = tcx.mk_args(&[t.into()]);
                    if let Ok(Some(i)) = Instance::try_resolve(tcx, env, it.def_id, args) {
                        if i.def_id().is_local() && matches!(i.def, InstanceKind::Item(_)) {
                            let id = x.inst(i, None);
                            let tid = x.ty(t);
                            let trp = x.path(tr);
                            res.push(format!("[{},{},{},{}]", esc(&trp), esc(it.name().as_str()), tid, id));
                        }
                    }
                }
                // associated constants
                {
                    for it in tcx.associated_items(tr).in_definition_order() {
                        if matches!(it.kind, ty::AssocKind::Const { .. }) {
                            let args = tcx.mk_args(&[t.into()]);
                            if let Ok(Some(i)) = Instance::try_resolve(tcx, env, it.def_id, args) {
                                let c = mir::Const::from_unevaluated(tcx, i.def_id()).instantiate(tcx, i.args).skip_norm_wip();
                                if let Some(b) = c.try_eval_bits(tcx, env) {
                                    let tid = x.ty(t);
                                    let trp = x.path(tr);
                                    res.push(format!("[{},{},{},{{\"const\":{}}}]", esc(&trp), esc(it.name().as_str()), tid, b));
                                }
                            }
                        }
                    }
                }
            }
        }
        x.drain();
        // consts (named)
        let mut consts = vec![];
        for d in tcx.hir_crate_items(()).definitions() {
            let d = d.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Const { .. }) && tcx.generics_of(d).is_empty() {
                let c = mir::Const::from_unevaluated(tcx, d).instantiate_identity().skip_norm_wip();
                if let Some(b) = c.try_eval_bits(tcx, env) { let p = x.path(d); consts.push(format!("{}:{}", esc(&p), b)); }
            }
        }
        // statics and unsafe blocks
        let mut statics = vec![];
        for d in tcx.hir_crate_items(()).definitions() {
            let d = d.to_def_id();
            if let DefKind::Static { mutability, .. } = tcx.def_kind(d) {
                let p = x.path(d);
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let fz = t.is_freeze(tcx, env);
                statics.push(format!("{{\"path\":{},\"mut\":{},\"freeze\":{}}}", esc(&p), mutability.is_mut(), fz));
            }
        }

        // type aliases, `unsafe`, auto traits of the crate's types
        let mut aliases = vec![];
        let mut unsafes = vec![];
        let mut traits = vec![];
        for d in tcx.hir_crate_items(()).definitions() {
            let ld = d;
            let d = d.to_def_id();
            let k = tcx.def_kind(d);
            if matches!(k, DefKind::TyAlias) && tcx.generics_of(d).is_empty() {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let t = tcx.erase_and_anonymize_regions(t);
                let t = tcx.try_normalize_erasing_regions(TypingEnv::post_analysis(tcx, d), ty::Unnormalized::new_wip(t)).unwrap_or(t);
                let id = x.ty(t);
                aliases.push(format!("{}:{}", esc(&x.path(d)), id));
            }
            if matches!(k, DefKind::Fn | DefKind::AssocFn) && tcx.fn_sig(d).skip_binder().safety().is_unsafe() {
                let (f, l) = x.span(tcx.def_span(d));
                unsafes.push(format!("[{},{},{}]", esc("unsafe fn"), esc(&x.path(d)), esc(&format!("{}:{}", f, l))));
            }
            if matches!(k, DefKind::Impl { of_trait: true }) {
                let h = tcx.impl_trait_header(d);
                if h.safety.is_unsafe() {
                    let (f, l) = x.span(tcx.def_span(d));
                    unsafes.push(format!("[{},{},{}]", esc("unsafe impl"), esc(&x.path(d)), esc(&format!("{}:{}", f, l))));
                }
            }
            if matches!(k, DefKind::Struct | DefKind::Enum | DefKind::Union) {
                use rustc_trait_selection::infer::InferCtxtExt;
                use rustc_infer::infer::TyCtxtInferExt;
                let penv = tcx.param_env(d);
                let cargs = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind { ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_static.into(), _ => tcx.types.u8.into() });
                let t = tcx.type_of(d).instantiate(tcx, cargs).skip_norm_wip();
                let penv = ty::ParamEnv::empty();
                let g = tcx.generics_of(d);
                let lts: Vec<String> = (0..g.count()).map(|i| g.param_at(i, tcx)).filter(|p| matches!(p.kind, ty::GenericParamDefKind::Lifetime)).map(|p| esc(p.name.as_str())).collect();
                let tps: Vec<String> = (0..g.count()).map(|i| g.param_at(i, tcx)).filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. })).map(|p| esc(p.name.as_str())).collect();
                let infcx = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
                let imp = |tr: Option<DefId>| -> bool { tr.map_or(false, |tr| infcx.type_implements_trait(tr, [t], penv).must_apply_modulo_regions()) };
                let send = imp(tcx.get_diagnostic_item(rustc_span::Symbol::intern("Send")));
                // when generic: Send of the fields given Send parameters is judged on the fields
                let mut fields = vec![];
                for v in tcx.adt_def(d).variants() {
                    for f in v.fields.iter() {
                        let ft = tcx.type_of(f.did).instantiate(tcx, cargs).skip_norm_wip();
                        let fs = tcx.get_diagnostic_item(rustc_span::Symbol::intern("Send")).map_or(false, |tr| infcx.type_implements_trait(tr, [ft], penv).must_apply_modulo_regions());
                        fields.push(format!("[{},{},{},{}]", esc(v.name.as_str()), esc(f.name.as_str()), esc(&format!("{}", ft)), fs));
                    }
                }
                let vis = tcx.effective_visibilities(()).is_reachable(ld);
                traits.push(format!("{{\"path\":{},\"pub\":{},\"lifetimes\":{},\"params\":{},\"send\":{},\"fields\":{}}}", esc(&x.path(d)), vis, arr(&lts), arr(&tps), send, arr(&fields)));
            }
        }
        {
            let mut v = Unsafe { tcx, out: vec![] };
            tcx.hir_visit_all_item_likes_in_crate(&mut v);
            for (sp, w) in v.out {
                let (f, l) = x.span(sp);
                unsafes.push(format!("[{},{},{}]", esc("unsafe block"), esc(&w), esc(&format!("{}:{}", f, l))));
            }
        }
        x.drain();
        let roots: Vec<String> = x.root_insts.iter().map(|r| r.1.to_string()).collect();
        x.drain();
        let adts: Vec<String> = x.adts.values().filter_map(|v| v.clone()).collect();
        let s = format!("{{\"crate\":{},\"types\":{},\"adts\":{},\"instances\":{},\"roots\":{},\"impls\":{},\"resolve\":{},\"consts\":{{{}}},\"statics\":{},\"aliases\":{{{}}},\"unsafe\":{},\"traits\":{}}}\n",
            esc(&name), arr(&x.ty_out), arr(&adts), arr(&x.inst_out), arr(&roots), arr(&impls), arr(&res), consts.join(","), arr(&statics), aliases.join(","), arr(&unsafes), arr(&traits));
        std::fs::write(&self.out, s).expect("write");
        Compilation::Continue
    }
}
fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0);
    let out = std::env::var("MIRX_OUT").unwrap_or_default();
    let crate_name = std::env::var("MIRX_CRATE").unwrap_or_default();
    rustc_driver_impl::install_ice_hook("", |_| ());
    let code = rustc_driver_impl::catch_with_exit_code(|| {
        if out.is_empty() { rustc_driver_impl::compiler_entrypoint(&args, &mut rustc_driver_impl::TimePassesCallbacks::default()) }
        else { rustc_driver_impl::compiler_entrypoint(&args, &mut Cb { out, crate_name }) }
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
