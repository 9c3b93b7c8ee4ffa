#![feature(rustc_private)]
//! mirdump: a rustc wrapper that type-checks a crate as usual and then writes its
//! MIR (resolved callees, closures, promoteds, ADT layouts) as JSON lines into
//! $MIRDUMP_OUT/<crate>.jsonl.  Used through RUSTC_WORKSPACE_WRAPPER.
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::io::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn jlist<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: BTreeSet<DefIdKey>,
    adt_ids: Vec<DefId>,
    ext_seen: BTreeSet<DefIdKey>,
    ext_ids: Vec<DefId>,
}
type DefIdKey = String;

impl<'tcx> Cx<'tcx> {
    fn key(&self, d: DefId) -> String {
        let c = self.tcx.crate_name(d.krate);
        format!("{}{}", c, self.tcx.def_path(d).to_string_no_crate_verbose())
    }

    fn note_adt(&mut self, d: DefId) {
        let k = self.key(d);
        if self.adts.insert(k) {
            self.adt_ids.push(d);
        }
    }

    // structured type
    fn ty(&mut self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Bool => "[\"bool\"]".into(),
            ty::Char => "[\"char\"]".into(),
            ty::Int(i) => format!("[\"int\",{}]", js(i.name_str())),
            ty::Uint(i) => format!("[\"int\",{}]", js(i.name_str())),
            ty::Float(i) => format!("[\"float\",{}]", js(i.name_str())),
            ty::Str => "[\"str\"]".into(),
            ty::Never => "[\"never\"]".into(),
            ty::Adt(def, args) => {
                self.note_adt(def.did());
                let k = self.key(def.did());
                let a: Vec<Ty<'tcx>> = args.types().collect();
                let a = jlist(a.into_iter().map(|x| self.ty(x)).collect::<Vec<_>>());
                format!("[\"adt\",{},{}]", js(&k), a)
            }
            ty::Array(e, n) => {
                let es = self.ty(*e);
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"array\",{},{}]", es, n)
            }
            ty::Slice(e) => { let es = self.ty(*e); format!("[\"slice\",{}]", es) }
            ty::Ref(_, e, m) => { let es = self.ty(*e); format!("[\"ref\",{},{}]", es, m.is_mut()) }
            ty::RawPtr(e, m) => { let es = self.ty(*e); format!("[\"ptr\",{},{}]", es, m.is_mut()) }
            ty::Tuple(ts) => {
                let v: Vec<Ty<'tcx>> = ts.iter().collect();
                let a = jlist(v.into_iter().map(|x| self.ty(x)).collect::<Vec<_>>());
                format!("[\"tuple\",{}]", a)
            }
            ty::Closure(d, _) => format!("[\"closure\",{}]", js(&self.key(*d))),
            ty::FnDef(d, _) => format!("[\"fndef\",{}]", js(&self.key(*d))),
            ty::Param(p) => format!("[\"param\",{}]", js(p.name.as_str())),
            ty::Dynamic(..) => format!("[\"dyn\",{}]", js(&t.to_string())),
            _ => format!("[\"other\",{}]", js(&t.to_string())),
        }
    }

    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> String {
        let mut projs = Vec::new();
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "[\"deref\"]".to_string(),
                ProjectionElem::Field(f, _) => format!("[\"field\",{}]", f.as_usize()),
                ProjectionElem::Index(l) => format!("[\"index\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length: _, from_end } =>
                    format!("[\"cindex\",{},{}]", offset, from_end),
                ProjectionElem::Subslice { from, to, from_end } =>
                    format!("[\"subslice\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"downcast\",{}]", v.as_usize()),
                _ => format!("[\"unk\",{}]", js(&format!("{:?}", e))),
            };
            pty = pty.projection_ty(self.tcx, e);
            projs.push(s);
        }
        format!("[{},{}]", p.local.as_usize(), jlist(projs))
    }

    fn scalar(&mut self, s: Scalar, t: Ty<'tcx>) -> String {
        match s {
            Scalar::Int(i) => {
                let size = i.size();
                let bits = i.to_bits(size);
                match t.kind() {
                    ty::Int(_) => {
                        let v = size.sign_extend(bits) as i128;
                        format!("[\"int\",{},{}]", js(&v.to_string()), js(&t.to_string()))
                    }
                    ty::Bool => format!("[\"bool\",{}]", bits != 0),
                    ty::Char => format!("[\"char\",{}]", bits),
                    ty::Float(_) => {
                        let v = if size.bytes() == 8 { f64::from_bits(bits as u64) } else { f32::from_bits(bits as u32) as f64 };
                        format!("[\"float\",{}]", js(&format!("{:?}", v)))
                    }
                    _ => format!("[\"int\",{},{}]", js(&bits.to_string()), js(&t.to_string())),
                }
            }
            Scalar::Ptr(p, _) => {
                let aid = p.provenance.alloc_id();
                match self.tcx.global_alloc(aid) {
                    GlobalAlloc::Static(d) => format!("[\"static\",{}]", js(&self.key(d))),
                    GlobalAlloc::Memory(a) => {
                        // try &[u8;N] / &str-like byte contents
                        let al = a.inner();
                        let n = al.len();
                        let bytes = al.inspect_with_uninit_and_ptr_outside_interpreter(0..n);
                        format!("[\"mem\",{}]", jlist(bytes.iter().map(|b| b.to_string())))
                    }
                    _ => "[\"opaque\",\"ptr\"]".into(),
                }
            }
        }
    }

    fn fnref(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let path = self.key(d);
        let pretty = tcx.def_path_str(d);
        let mut rpath = "null".to_string();
        let mut rlocal = false;
        let erased = tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, erased) {
            let rd = inst.def_id();
            rpath = js(&self.key(rd));
            rlocal = rd.is_local();
        }
        let tys: Vec<Ty<'tcx>> = args.types().collect();
        let a = jlist(tys.into_iter().map(|x| self.ty(x)).collect::<Vec<_>>());
        let ctor = match tcx.def_kind(d) {
            DefKind::Ctor(of, _) => {
                let par = tcx.parent(d);
                let adt = if matches!(of, rustc_hir::def::CtorOf::Variant) { tcx.parent(par) } else { par };
                self.note_adt(adt);
                let vi = tcx.adt_def(adt).variant_index_with_ctor_id(d);
                format!("[{},{}]", js(&self.key(adt)), vi.as_usize())
            }
            _ => "null".to_string(),
        };
        self.want_ext(d);
        let tr = match tcx.trait_of_assoc(d) {
            Some(t) => js(&tcx.def_path_str(t)),
            None => "null".into(),
        };
        format!("{{\"fn\":{},\"pretty\":{},\"resolved\":{},\"local\":{},\"args\":{},\"trait\":{},\"name\":{},\"ctor\":{}}}",
            js(&path), js(&pretty), rpath, rlocal, a, tr, js(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str()), ctor)
    }

    /// Generic standard-library glue (Option/Result/Iterator combinators, comparisons) whose
    /// MIR is worth having so that the analyser can look through it.
    fn want_ext(&mut self, d: DefId) {
        let tcx = self.tcx;
        if d.is_local() || !tcx.is_mir_available(d) { return; }
        let k = self.key(d);
        const OK: [&str; 9] = ["core::option::", "core::result::", "core::iter::traits::iterator::", "core::bool::", "core::cmp::", "core::ops::try_trait::", "core::ops::control_flow::", "core::iter::traits::double_ended::", "core::iter::traits::exact_size::"];
        if !OK.iter().any(|p| k.starts_with(p)) { return; }
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) { return; }
        if self.ext_seen.insert(k) { self.ext_ids.push(d); }
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>, owner: DefId) -> String {
        let t = c.const_.ty();
        match t.kind() {
            ty::FnDef(d, args) => {
                let f = self.fnref(*d, args.skip_binder(), env);
                return format!("[\"fnitem\",{}]", f);
            }
            ty::Tuple(l) if l.is_empty() => return "[\"unit\"]".into(),
            ty::Closure(d, _) => return format!("[\"closure\",{}]", js(&self.key(*d))),
            _ => {}
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                return format!("[\"promoted\",{},{}]", js(&self.key(u.def)), p.as_usize());
            }
        }
        let r = c.const_.eval(self.tcx, env, c.span);
        match r {
            Ok(ConstValue::Scalar(s)) => self.scalar(s, t),
            Ok(ConstValue::ZeroSized) => { let ts = self.ty(t); format!("[\"zst\",{}]", ts) }
            Ok(cv @ ConstValue::Slice { .. }) => {
                if let Some(bytes) = cv.try_get_slice_bytes_for_diagnostics(self.tcx) {
                    match std::str::from_utf8(bytes) {
                        Ok(s) => format!("[\"str\",{}]", js(s)),
                        Err(_) => format!("[\"mem\",{}]", jlist(bytes.iter().map(|b| b.to_string()))),
                    }
                } else {
                    "[\"opaque\",\"slice\"]".into()
                }
            }
            Ok(ConstValue::Indirect { .. }) => {
                let ts = self.ty(t);
                let d = self.indirect(r.unwrap(), t);
                match d {
                    Some(s) => s,
                    None => format!("[\"opaque\",{},{}]", js(&format!("{}", c.const_)), ts),
                }
            }
            Err(_) => {
                let ts = self.ty(t);
                let _ = owner;
                if let Const::Unevaluated(u, _) = c.const_ {
                    format!("[\"unevaluated\",{},{}]", js(&self.key(u.def)), ts)
                } else {
                    format!("[\"opaque\",{},{}]", js(&format!("{}", c.const_)), ts)
                }
            }
        }
    }

    fn indirect(&mut self, cv: ConstValue, t: Ty<'tcx>) -> Option<String> {
        let d = self.tcx.try_destructure_mir_constant_for_user_output(cv, t)?;
        let fs: Vec<(ConstValue, Ty<'tcx>)> = d.fields.iter().copied().collect();
        let mut out = Vec::new();
        for (v, ft) in fs {
            let s = match v {
                ConstValue::Scalar(s) => self.scalar(s, ft),
                ConstValue::ZeroSized => { let ts = self.ty(ft); format!("[\"zst\",{}]", ts) }
                ConstValue::Slice { .. } => {
                    let b = v.try_get_slice_bytes_for_diagnostics(self.tcx)?;
                    format!("[\"str\",{}]", js(std::str::from_utf8(b).ok()?))
                }
                ConstValue::Indirect { .. } => self.indirect(v, ft)?,
            };
            out.push(s);
        }
        let ts = self.ty(t);
        let var = d.variant.map(|v| v.as_usize().to_string()).unwrap_or("null".into());
        Some(format!("[\"agg\",{},{},{}]", ts, var, jlist(out)))
    }

    fn operand(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>, owner: DefId) -> String {
        match o {
            Operand::Copy(p) => format!("[\"copy\",{}]", self.place(p, body)),
            Operand::Move(p) => format!("[\"move\",{}]", self.place(p, body)),
            Operand::Constant(c) => format!("[\"const\",{}]", self.constant(c, env, owner)),
            #[allow(unreachable_patterns)]
            other => format!("[\"unkop\",{}]", js(&format!("{:?}", other))),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>, owner: DefId) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, body, env, owner)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.operand(o, body, env, owner), n)
            }
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(p, body)),
            Rvalue::RawPtr(_, p) => format!("[\"rawptr\",{}]", self.place(p, body)),
            Rvalue::Cast(k, o, t) => {
                let ft = o.ty(body, self.tcx);
                let fts = self.ty(ft);
                let ts = self.ty(*t);
                format!("[\"cast\",{},{},{},{}]", js(&format!("{:?}", k)), self.operand(o, body, env, owner), fts, ts)
            }
            Rvalue::BinaryOp(op, ab) => {
                let t = ab.0.ty(body, self.tcx);
                let ts = self.ty(t);
                format!("[\"bin\",{},{},{},{}]", js(&format!("{:?}", op)),
                    self.operand(&ab.0, body, env, owner), self.operand(&ab.1, body, env, owner), ts)
            }
            Rvalue::UnaryOp(op, a) => {
                let t = a.ty(body, self.tcx);
                let ts = self.ty(t);
                format!("[\"un\",{},{},{}]", js(&format!("{:?}", op)), self.operand(a, body, env, owner), ts)
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p, body)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"copy\",{}]]", self.place(p, body)),
            Rvalue::Aggregate(k, ops) => {
                let os = jlist(ops.iter().map(|o| self.operand(o, body, env, owner)).collect::<Vec<_>>());
                let ks = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, _, _, af) => {
                        self.note_adt(*d);
                        format!("[\"adt\",{},{},{}]", js(&self.key(*d)), v.as_usize(),
                            af.map(|x| x.as_usize().to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, _) => format!("[\"closure\",{}]", js(&self.key(*d))),
                    other => format!("[\"unk\",{}]", js(&format!("{:?}", other))),
                };
                format!("[\"agg\",{},{}]", ks, os)
            }
            other => format!("[\"unk\",{}]", js(&format!("{:?}", other))),
        }
    }

    fn line(&self, sp: rustc_span::Span) -> usize {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        sm.lookup_char_pos(sp.lo()).line
    }

    fn file(&self, sp: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let loc = sm.lookup_char_pos(sp.lo());
        loc.file.name.prefer_local_unconditionally().to_string()
    }

    fn body(&mut self, b: &Body<'tcx>, env: TypingEnv<'tcx>, owner: DefId) -> String {
        let mut locals = Vec::new();
        for l in b.local_decls.iter() {
            locals.push(self.ty(l.ty));
        }
        let mut names = Vec::new();
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.push(format!("[{},{}]", p.local.as_usize(), js(v.name.as_str())));
                }
            }
        }
        let mut blocks = Vec::new();
        for bb in b.basic_blocks.iter() {
            let mut st = Vec::new();
            for s in &bb.statements {
                let ln = self.line(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(pr) => {
                        let p = self.place(&pr.0, b);
                        let pt = pr.0.ty(b, self.tcx).ty;
                        let pts = self.ty(pt);
                        let r = self.rvalue(&pr.1, b, env, owner);
                        st.push(format!("[\"=\",{},{},{},{}]", p, r, ln, pts));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place, b);
                        st.push(format!("[\"setdiscr\",{},{},{}]", p, variant_index.as_usize(), ln));
                    }
                    StatementKind::Intrinsic(i) => {
                        st.push(format!("[\"intrinsic\",{},{}]", js(&format!("{:?}", i)), ln));
                    }
                    _ => {}
                }
            }
            let term = bb.terminator();
            let ln = self.line(term.source_info.span);
            let tgt = |t: &Option<BasicBlock>| t.map(|x| x.as_usize().to_string()).unwrap_or("null".into());
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dty = discr.ty(b, self.tcx);
                    let d = self.operand(discr, b, env, owner);
                    let vs = jlist(targets.iter().map(|(v, t)| format!("[{},{}]", js(&v.to_string()), t.as_usize())));
                    let dts = self.ty(dty);
                    format!("[\"switch\",{},{},{},{}]", d, vs, targets.otherwise().as_usize(), dts)
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(b, self.tcx).ty;
                    let pts = self.ty(pt);
                    format!("[\"drop\",{},{},{}]", self.place(place, b), target.as_usize(), pts)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, b, env, owner);
                    let a = jlist(args.iter().map(|x| self.operand(&x.node, b, env, owner)).collect::<Vec<_>>());
                    let dt = destination.ty(b, self.tcx).ty;
                    let dts = self.ty(dt);
                    let ats: Vec<Ty<'tcx>> = args.iter().map(|x| x.node.ty(b, self.tcx)).collect();
                    let atss = jlist(ats.into_iter().map(|x| self.ty(x)).collect::<Vec<_>>());
                    format!("[\"call\",{},{},{},{},{},{}]", f, a, self.place(destination, b), tgt(target), dts, atss)
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let c = self.operand(cond, b, env, owner);
                    let m = format!("{:?}", msg);
                    let kind = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) => "overflow",
                        AssertKind::OverflowNeg(..) => "overflow",
                        AssertKind::DivisionByZero(..) | AssertKind::RemainderByZero(..) => "divzero",
                        _ => "other",
                    };
                    format!("[\"assert\",{},{},{},{},{}]", c, expected, target.as_usize(), js(kind), js(&m))
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                other => format!("[\"unk\",{}]", js(&format!("{:?}", other))),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"l\":{},\"cleanup\":{}}}", jlist(st), t, ln, bb.is_cleanup));
        }
        format!("\"argc\":{},\"locals\":{},\"names\":{},\"blocks\":{}", b.arg_count, jlist(locals), jlist(names), jlist(blocks))
    }

    fn dump(&mut self, out: &mut dyn std::io::Write) {
        let tcx = self.tcx;
        let cname = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let _ = writeln!(out, "{{\"kind\":\"crate\",\"name\":{}}}", js(&cname));
        let mut ids: Vec<rustc_hir::def_id::LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        ids.sort_by_key(|d| self.key(d.to_def_id()));
        for ld in ids {
            let d = ld.to_def_id();
            let dk = tcx.def_kind(d);
            let isfn = matches!(dk, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
            let isconst = matches!(dk, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst);
            if !isfn && !isconst {
                continue;
            }
            if isconst && !matches!(dk, DefKind::Static { .. } | DefKind::Const { .. } | DefKind::AssocConst { .. }) {
                continue;
            }
            if isfn && !tcx.is_mir_available(d) {
                continue;
            }
            let env = TypingEnv::post_analysis(tcx, d);
            let b: &Body<'tcx> = if isfn { tcx.optimized_mir(d) } else { tcx.mir_for_ctfe(d) };
            let sp = tcx.def_span(d);
            let mut selfty = "null".to_string();
            let mut tr = "null".to_string();
            let mut parent = tcx.parent(d);
            if matches!(dk, DefKind::Closure) {
                parent = tcx.parent(tcx.typeck_root_def_id(d));
            }
            if matches!(tcx.def_kind(parent), DefKind::Impl { .. }) {
                let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                selfty = self.ty(st);
                if let Some(t) = tcx.impl_opt_trait_ref(parent) {
                    let t = t.instantiate_identity().skip_norm_wip();
                    tr = js(&tcx.def_path_str(t.def_id));
                }
            } else if matches!(tcx.def_kind(parent), DefKind::Trait) {
                tr = js(&tcx.def_path_str(parent));
            }
            let vis = if isfn && !matches!(dk, DefKind::Closure) { tcx.visibility(d).is_public() } else { false };
            let name = if matches!(dk, DefKind::Closure) { "{closure}".to_string() } else { tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default() };
            let root = self.key(tcx.typeck_root_def_id(d));
            let params: Vec<String> = tcx.generics_of(d).own_params.iter().map(|p| js(p.name.as_str())).collect();
            let hdr = format!(
                "\"key\":{},\"name\":{},\"dk\":{},\"self\":{},\"trait\":{},\"pub\":{},\"file\":{},\"line\":{},\"crate\":{},\"root\":{},\"params\":{}",
                js(&self.key(d)), js(&name), js(&format!("{:?}", dk)), selfty, tr, vis, js(&self.file(sp)), self.line(sp), js(&cname), js(&root), jlist(params));
            let bs = self.body(b, env, d);
            let mut proms = Vec::new();
            if isfn {
                for p in tcx.promoted_mir(d).iter() {
                    proms.push(format!("{{{}}}", self.body(p, env, d)));
                }
            }
            let _ = writeln!(out, "{{\"kind\":\"body\",{},{},\"promoted\":{}}}", hdr, bs, jlist(proms));
        }
        let mut i = 0;
        while i < self.ext_ids.len() {
            let d = self.ext_ids[i];
            i += 1;
            let env = TypingEnv::post_analysis(tcx, d);
            let b: &Body<'tcx> = tcx.optimized_mir(d);
            let bs = self.body(b, env, d);
            let _ = writeln!(out, "{{\"kind\":\"ext\",\"key\":{},\"name\":{},\"crate\":\"std\",\"file\":\"std\",\"line\":0,\"self\":null,\"trait\":null,\"pub\":true,\"dk\":\"ext\",\"root\":\"\",\"params\":[],{},\"promoted\":[]}}",
                js(&self.key(d)), js(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str()), bs);
        }
        // adts
        let mut i = 0;
        while i < self.adt_ids.len() {
            let d = self.adt_ids[i];
            i += 1;
            let def = tcx.adt_def(d);
            let local = ["common", "bddcore", "mddcore", "bss", "mss"].contains(&tcx.crate_name(d.krate).as_str());
            let mut vars = Vec::new();
            for (vi, v) in def.variants().iter_enumerated() {
                let discr = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val.to_string() } else { "0".into() };
                let mut fs = Vec::new();
                if local {
                    for f in v.fields.iter() {
                        let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        let fts = self.ty(ft);
                        fs.push(format!("[{},{},{}]", js(f.name.as_str()), fts, f.vis.is_public()));
                    }
                } else {
                    for f in v.fields.iter() {
                        fs.push(format!("[{},null,false]", js(f.name.as_str())));
                    }
                }
                vars.push(format!("{{\"name\":{},\"discr\":{},\"fields\":{}}}", js(v.name.as_str()), js(&discr), jlist(fs)));
            }
            let dropk = match tcx.adt_destructor(d) {
                Some(x) => js(&self.key(x.did)),
                None => "null".into(),
            };
            let gparams: Vec<String> = tcx.generics_of(d).own_params.iter()
                .filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. }))
                .map(|p| js(p.name.as_str())).collect();
            let _ = writeln!(out, "{{\"kind\":\"adt\",\"key\":{},\"pretty\":{},\"what\":{},\"drop\":{},\"local\":{},\"params\":{},\"variants\":{}}}",
                js(&self.key(d)), js(&tcx.def_path_str(d)), js(def.descr()), dropk, local, jlist(gparams), jlist(vars));
        }
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        if let Ok(dir) = std::env::var("MIRDUMP_OUT") {
            let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
            let mut buf: Vec<u8> = Vec::new();
            ty::print::with_no_trimmed_paths!({
                let mut cx = Cx { tcx, adts: BTreeSet::new(), adt_ids: Vec::new(), ext_seen: BTreeSet::new(), ext_ids: Vec::new() };
                cx.dump(&mut buf);
            });
            let p = format!("{}/{}.jsonl", dir, name);
            let mut f = std::fs::File::create(&p).expect("mirdump output");
            f.write_all(&buf).expect("mirdump write");
        }
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zinline-mir=no".into());
    args.push("-Awarnings".into());
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
