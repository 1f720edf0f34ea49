// Fact extractor: dumps the type-checked program (MIR, types, ADTs, visibility, resolved callees)
// of the workspace crates as JSON. Run as RUSTC_WORKSPACE_WRAPPER; facts go to $LJ_FACTS_DIR.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver_impl::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{
    AggregateKind, AssertKind, Body, Const, ConstValue, Operand, Place, ProjectionElem, Rvalue,
    StatementKind, TerminatorKind,
};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;

// ---------------------------------------------------------------- JSON
fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}
fn opt(v: Option<String>) -> String {
    v.unwrap_or_else(|| "null".to_string())
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, String>,
    adt_seen: HashSet<DefId>,
    statics: BTreeMap<String, String>,
}

impl<'tcx> Cx<'tcx> {
    fn key(&self, id: DefId) -> String {
        let tcx = self.tcx;
        format!(
            "{}{}",
            tcx.crate_name(id.krate),
            tcx.def_path(id).to_string_no_crate_verbose()
        )
    }
    fn pretty(&self, id: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!(
            self.tcx.def_path_str(id)
        ))
    }
    fn loc(&self, sp: Span) -> (String, usize) {
        let sm = self.tcx.sess.source_map();
        // walk out of macro expansions to the outermost call site
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        (f, lo.line)
    }
    fn line(&self, sp: Span) -> usize {
        self.loc(sp).1
    }

    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        if !self.adt_seen.insert(def.did()) {
            return;
        }
        let tcx = self.tcx;
        let mut vs = Vec::new();
        for (vi, v) in def.variants().iter_enumerated() {
            let discr = if def.is_enum() {
                format!("\"{}\"", def.discriminant_for_variant(tcx, vi).val)
            } else {
                "null".into()
            };
            let mut fs = Vec::new();
            for f in v.fields.iter() {
                let fty = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let t = if def.did().is_local() || is_ws(&tcx.crate_name(def.did().krate).to_string()) {
                    format!("{}", self.ty(fty))
                } else {
                    "null".into()
                };
                let vis = tcx.visibility(f.did);
                fs.push(format!(
                    "{{\"n\":{},\"ty\":{},\"pub\":{}}}",
                    esc(f.name.as_str()),
                    t,
                    vis.is_public()
                ));
            }
            vs.push(format!(
                "{{\"n\":{},\"d\":{},\"f\":{}}}",
                esc(v.name.as_str()),
                discr,
                arr(fs)
            ));
        }
        let k = self.key(def.did());
        let local = def.did().is_local();
        let vis = tcx.visibility(def.did()).is_public();
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let (file, line) = self.loc(tcx.def_span(def.did()));
        let (ev, reach) = if let Some(l) = def.did().as_local() {
            let e = tcx.effective_visibilities(());
            (e.is_exported(l), e.is_reachable(l))
        } else {
            (true, true)
        };
        let s = format!(
            "{{\"path\":{},\"kind\":\"{}\",\"local\":{},\"pub\":{},\"exported\":{},\"reachable\":{},\"file\":{},\"line\":{},\"variants\":{}}}",
            esc(&self.pretty(def.did())),
            kind,
            local,
            vis,
            ev,
            reach,
            esc(&file),
            line,
            arr(vs)
        );
        self.adts.insert(k, s);
    }

    fn gargs(&mut self, args: ty::GenericArgsRef<'tcx>) -> String {
        let v: Vec<Ty<'tcx>> = args.types().collect();
        arr(v.into_iter().map(|t| self.ty(t).to_string()).collect())
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let idx = self.types.len();
        self.tymap.insert(t, idx);
        self.types.push("null".into());
        let tcx = self.tcx;
        let shown = rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!(format!("{}", t)));
        let body = match t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(i) => format!("\"k\":\"int\",\"n\":{}", esc(i.name_str())),
            ty::Uint(i) => format!("\"k\":\"uint\",\"n\":{}", esc(i.name_str())),
            ty::Float(_) => "\"k\":\"float\"".to_string(),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            ty::Adt(def, args) => {
                self.adt(*def);
                let p = self.pretty(def.did());
                let k = self.key(def.did());
                let a = self.gargs(args);
                format!(
                    "\"k\":\"adt\",\"path\":{},\"key\":{},\"args\":{},\"enum\":{}",
                    esc(&p),
                    esc(&k),
                    a,
                    def.is_enum()
                )
            }
            ty::Ref(_, inner, m) => {
                let i = self.ty(*inner);
                format!("\"k\":\"ref\",\"to\":{},\"mut\":{}", i, m.is_mut())
            }
            ty::RawPtr(inner, m) => {
                let i = self.ty(*inner);
                format!("\"k\":\"ptr\",\"to\":{},\"mut\":{}", i, m.is_mut())
            }
            ty::Slice(inner) => {
                let i = self.ty(*inner);
                format!("\"k\":\"slice\",\"to\":{}", i)
            }
            ty::Array(inner, n) => {
                let i = self.ty(*inner);
                format!("\"k\":\"array\",\"to\":{},\"len\":{}", i, esc(&format!("{}", n)))
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"tuple\",\"args\":{}", arr(v))
            }
            ty::Closure(did, args) => {
                let up: Vec<Ty<'tcx>> = args.as_closure().upvar_tys().iter().collect();
                let v: Vec<String> = up.into_iter().map(|x| self.ty(x).to_string()).collect();
                format!(
                    "\"k\":\"closure\",\"key\":{},\"upvars\":{}",
                    esc(&self.key(*did)),
                    arr(v)
                )
            }
            ty::FnDef(did, _) => {
                format!("\"k\":\"fndef\",\"key\":{},\"path\":{}", esc(&self.key(*did)), esc(&self.pretty(*did)))
            }
            ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            ty::Param(p) => format!("\"k\":\"param\",\"n\":{}", esc(p.name.as_str())),
            ty::Alias(..) => "\"k\":\"alias\"".to_string(),
            ty::Dynamic(preds, ..) => {
                let p = preds.principal_def_id().map(|d| esc(&self.pretty(d)));
                format!("\"k\":\"dyn\",\"trait\":{}", opt(p))
            }
            _ => "\"k\":\"other\"".to_string(),
        };
        let _ = tcx;
        self.types[idx] = format!("{{{},\"s\":{}}}", body, esc(&shown));
        idx
    }

    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> String {
        let mut pr = Vec::new();
        let mut pty = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, t) => {
                    let tyi = self.ty(t);
                    // field owner
                    let (owner, name) = match pty.ty.kind() {
                        ty::Adt(def, _) => {
                            self.adt(*def);
                            let vi = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            let v = if def.is_enum() { def.variant(vi) } else { def.non_enum_variant() };
                            (esc(&self.key(def.did())), esc(v.fields[f].name.as_str()))
                        }
                        ty::Closure(..) => ("\"closure\"".into(), "null".into()),
                        ty::Tuple(..) => ("\"tuple\"".into(), "null".into()),
                        _ => ("null".into(), "null".into()),
                    };
                    format!("[\"f\",{},{},{},{}]", f.as_usize(), tyi, owner, name)
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"sub\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(n, v) => format!(
                    "[\"d\",{},{}]",
                    v.as_usize(),
                    opt(n.map(|n| esc(n.as_str())))
                ),
                _ => "[\"o\"]".to_string(),
            };
            pr.push(s);
            pty = pty.projection_ty(self.tcx, e);
        }
        format!("[{},{}]", p.local.as_usize(), arr(pr))
    }

    fn alloc_static(&self, id: mir::interpret::AllocId) -> Option<DefId> {
        match self.tcx.try_get_global_alloc(id) {
            Some(GlobalAlloc::Static(d)) => Some(d),
            _ => None,
        }
    }

    fn const_val(&mut self, v: ConstValue, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        match v {
            ConstValue::ZeroSized => "[\"zst\"]".into(),
            ConstValue::Scalar(Scalar::Int(i)) => {
                let size = i.size();
                match t.kind() {
                    ty::Bool => format!("[\"bool\",{}]", i.to_bits(size) != 0),
                    ty::Char => format!(
                        "[\"char\",{}]",
                        esc(&char::from_u32(i.to_bits(size) as u32).map(|c| c.to_string()).unwrap_or_default())
                    ),
                    ty::Int(_) => format!("[\"int\",\"{}\"]", i.to_int(size)),
                    _ => format!("[\"int\",\"{}\"]", i.to_bits(size)),
                }
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                let id = prov.alloc_id();
                if let Some(d) = self.alloc_static(id) {
                    return format!("[\"static\",{}]", esc(&self.key(d)));
                }
                // byte arrays behind a reference
                if let Some(inner) = t.builtin_deref(true) {
                    if let Some(s) = self.mem_bytes(id, off.bytes_usize(), inner) {
                        return s;
                    }
                }
                if let Some(GlobalAlloc::Function { instance, .. }) = tcx.try_get_global_alloc(id) {
                    return format!("[\"fnptr\",{}]", esc(&self.key(instance.def_id())));
                }
                "[\"ptr\"]".into()
            }
            ConstValue::Slice { alloc_id, meta } => {
                if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                    let a = m.inner();
                    let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..(meta as usize).min(a.len()));
                    if let Ok(s) = std::str::from_utf8(b) {
                        if let ty::Ref(_, i, _) = t.kind() {
                            if i.is_str() {
                                return format!("[\"str\",{}]", esc(s));
                            }
                        }
                    }
                    return bytes(b);
                }
                "[\"slice\"]".into()
            }
            ConstValue::Indirect { alloc_id, offset } => {
                if let Some(s) = self.mem_bytes(alloc_id, offset.bytes_usize(), t) {
                    return s;
                }
                "[\"indirect\"]".into()
            }
        }
    }

    fn mem_bytes(&mut self, id: mir::interpret::AllocId, off: usize, t: Ty<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        if let Some(GlobalAlloc::Memory(m)) = tcx.try_get_global_alloc(id) {
            let a = m.inner();
            match t.kind() {
                ty::Array(e, _) if *e == tcx.types.u8 => {
                    if a.provenance().ptrs().is_empty() {
                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off..a.len());
                        return Some(bytes(b));
                    }
                }
                // &str stored in memory (pointer + length)
                ty::Ref(_, i, _) if i.is_str() => {
                    return self.read_str(id, off).map(|s| format!("[\"str\",{}]", esc(&s)));
                }
                ty::Array(e, _) => {
                    if let ty::Ref(_, i, _) = e.kind() {
                        if i.is_str() {
                            let n = (a.len() - off) / 16;
                            let mut v = Vec::new();
                            for k in 0..n {
                                v.push(format!("[\"str\",{}]", esc(&self.read_str(id, off + 16 * k)?)));
                            }
                            return Some(format!("[\"array\",{}]", arr(v)));
                        }
                    }
                }
                _ => {}
            }
        }
        None
    }

    fn read_str(&self, id: mir::interpret::AllocId, off: usize) -> Option<String> {
        let tcx = self.tcx;
        if let Some(GlobalAlloc::Memory(m)) = tcx.try_get_global_alloc(id) {
            let a = m.inner();
            let prov = a.provenance().ptrs().iter().find(|(o, _)| o.bytes_usize() == off)?.1;
            let raw = a.inspect_with_uninit_and_ptr_outside_interpreter(off..off + 16);
            let start = u64::from_le_bytes(raw[0..8].try_into().ok()?) as usize;
            let len = u64::from_le_bytes(raw[8..16].try_into().ok()?) as usize;
            if let Some(GlobalAlloc::Memory(m2)) = tcx.try_get_global_alloc(prov.alloc_id()) {
                let b = m2.inner().inspect_with_uninit_and_ptr_outside_interpreter(start..start + len);
                return std::str::from_utf8(b).ok().map(|s| s.to_string());
            }
        }
        None
    }

    fn fnref(&mut self, did: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut parts = vec![
            format!("\"key\":{}", esc(&self.key(did))),
            format!("\"path\":{}", esc(&self.pretty(did))),
            format!("\"args\":{}", self.gargs(args)),
        ];
        if let Some(tr) = tcx.trait_of_assoc(did) {
            parts.push(format!("\"trait\":{}", esc(&self.pretty(tr))));
            parts.push(format!("\"name\":{}", esc(tcx.item_name(did).as_str())));
        } else {
            if let Some(n) = tcx.opt_item_name(did) {
                parts.push(format!("\"name\":{}", esc(n.as_str())));
            }
            if let Some(im) = tcx.impl_of_assoc(did) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let i = self.ty(st);
                parts.push(format!("\"impl_self\":{}", i));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    parts.push(format!("\"impl_trait\":{}", esc(&self.pretty(tr.def_id))));
                }
            }
        }
        let resolvable = matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn);
        if resolvable {
            let eargs = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, did, eargs) {
                let rk = self.key(inst.def_id());
                let kind = match inst.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    ty::InstanceKind::Intrinsic(_) => "intrinsic",
                    _ => "shim",
                };
                parts.push(format!("\"r\":{}", esc(&rk)));
                parts.push(format!("\"rpath\":{}", esc(&self.pretty(inst.def_id()))));
                parts.push(format!("\"rkind\":\"{}\"", kind));
                parts.push(format!("\"rargs\":{}", self.gargs(inst.args)));
            }
        }
        format!("[\"fn\",{{{}}}]", parts.join(","))
    }

    fn constant(&mut self, c: &mir::ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(did, args) = t.kind() {
            return self.fnref(*did, args.no_bound_vars().expect("late-bound fn args"), env);
        }
        let tyi = self.ty(t);
        let inner = match c.const_ {
            Const::Val(v, t) => self.const_val(v, t),
            Const::Unevaluated(u, t) => {
                if let Some(p) = u.promoted {
                    format!("[\"promoted\",{}]", p.as_usize())
                } else if let Ok(v) = tcx.const_eval_resolve(env, u, c.span) {
                    let s = self.const_val(v, t);
                    format!("[\"named\",{},{}]", esc(&self.key(u.def)), s)
                } else {
                    format!("[\"named\",{},null]", esc(&self.key(u.def)))
                }
            }
            Const::Ty(_, ct) => {
                if let Some(v) = ct.try_to_value() {
                    if let Some(i) = v.try_to_leaf() {
                        let bits = i.to_bits(i.size());
                        format!("[\"int\",\"{}\"]", bits)
                    } else {
                        let cv = tcx.valtree_to_const_val(v);
                        self.const_val(cv, t)
                    }
                } else {
                    "[\"tyconst\"]".into()
                }
            }
        };
        format!("[\"c\",{},{}]", inner, tyi)
    }

    fn operand(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p, body)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p, body)),
            Operand::Constant(c) => self.constant(c, env),
            _ => "[\"rt\"]".into(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o, body, env)),
            Rvalue::Repeat(o, n) => format!(
                "[\"repeat\",{},{}]",
                self.operand(o, body, env),
                esc(&format!("{}", n))
            ),
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, mir::BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(p, body))
            }
            Rvalue::Reborrow(_, m, p) => {
                format!("[\"ref\",{},{}]", m.is_mut(), self.place(p, body))
            }
            Rvalue::RawPtr(_, p) => format!("[\"ref\",true,{}]", self.place(p, body)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p, body)),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                format!(
                    "[\"cast\",{},{},{}]",
                    esc(&format!("{:?}", k)),
                    self.operand(o, body, env),
                    ti
                )
            }
            Rvalue::BinaryOp(op, ab) => format!(
                "[\"bin\",{},{},{}]",
                esc(&format!("{:?}", op)),
                self.operand(&ab.0, body, env),
                self.operand(&ab.1, body, env)
            ),
            Rvalue::UnaryOp(op, a) => format!(
                "[\"un\",{},{}]",
                esc(&format!("{:?}", op)),
                self.operand(a, body, env)
            ),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p, body)),
            Rvalue::Aggregate(k, ops) => {
                let kk = match &**k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, args, _, active) => {
                        let def = self.tcx.adt_def(*d);
                        self.adt(def);
                        let a = self.gargs(args);
                        format!(
                            "[\"adt\",{},{},{},{},{}]",
                            esc(&self.key(*d)),
                            v.as_usize(),
                            esc(def.variant(*v).name.as_str()),
                            a,
                            opt(active.map(|f| f.as_usize().to_string()))
                        )
                    }
                    AggregateKind::Closure(d, _) => format!("[\"closure\",{}]", esc(&self.key(*d))),
                    _ => "[\"other\"]".to_string(),
                };
                let v: Vec<String> = ops.iter().map(|o| self.operand(o, body, env)).collect();
                format!("[\"agg\",{},{}]", kk, arr(v))
            }
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(o, body, env)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.key(*d))),
        }
    }

    fn body(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let mut locals = Vec::new();
        for d in body.local_decls.iter() {
            locals.push(format!("{}", self.ty(d.ty)));
        }
        let mut names = Vec::new();
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                names.push(format!("[{},{}]", esc(v.name.as_str()), self.place(p, body)));
            }
        }
        let mut blocks = Vec::new();
        for bb in body.basic_blocks.iter() {
            let mut st = Vec::new();
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&b.0, body);
                        let r = self.rvalue(&b.1, body, env);
                        st.push(format!("[\"=\",{},{},{}]", p, r, self.line(s.source_info.span)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place, body);
                        st.push(format!(
                            "[\"sd\",{},{},{}]",
                            p,
                            variant_index.as_usize(),
                            self.line(s.source_info.span)
                        ));
                    }
                    _ => {}
                }
            }
            let term = bb.terminator();
            let line = self.line(term.source_info.span);
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(discr, body, env);
                    let ti = self.ty(discr.ty(&body.local_decls, self.tcx));
                    let v: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| format!("[\"{}\",{}]", v, b.as_usize()))
                        .collect();
                    format!("[\"switch\",{},{},{},{}]", o, arr(v), targets.otherwise().as_usize(), ti)
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    format!("[\"drop\",{},{}]", self.place(place, body), target.as_usize())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, body, env);
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node, body, env)).collect();
                    let d = self.place(destination, body);
                    format!(
                        "[\"call\",{},{},{},{}]",
                        f,
                        arr(a),
                        d,
                        opt(target.map(|t| t.as_usize().to_string()))
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, body, env);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, _, _) => format!("overflow:{:?}", op),
                        AssertKind::OverflowNeg(_) => "overflow:Neg".into(),
                        AssertKind::DivisionByZero(_) => "div0".into(),
                        AssertKind::RemainderByZero(_) => "rem0".into(),
                        _ => "other".into(),
                    };
                    format!("[\"assert\",{},{},\"{}\",{}]", c, expected, m, target.as_usize())
                }
                _ => "[\"other\"]".into(),
            };
            blocks.push(format!(
                "{{\"s\":{},\"t\":{},\"l\":{},\"c\":{}}}",
                arr(st),
                t,
                line,
                bb.is_cleanup
            ));
        }
        format!(
            "\"argc\":{},\"locals\":{},\"names\":{},\"blocks\":{}",
            body.arg_count,
            arr(locals),
            arr(names),
            arr(blocks)
        )
    }
}

fn bytes(b: &[u8]) -> String {
    format!("[\"bytes\",[{}]]", b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}
fn is_ws(c: &str) -> bool {
    c == "lumberjack" || c.starts_with("lumberjack_")
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let dir = match std::env::var("LJ_FACTS_DIR") {
            Ok(d) => d,
            Err(_) => return Compilation::Continue,
        };
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let mut cx = Cx {
            tcx,
            types: Vec::new(),
            tymap: HashMap::new(),
            adts: BTreeMap::new(),
            adt_seen: HashSet::new(),
            statics: BTreeMap::new(),
        };
        let ev = tcx.effective_visibilities(());
        let mut bodies = Vec::new();
        for ld in tcx.mir_keys(()).iter() {
            let did = ld.to_def_id();
            let kind = tcx.def_kind(did);
            let env = TypingEnv::post_analysis(tcx, did);
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
                DefKind::Static { .. } | DefKind::Const { .. } => {
                    let k = cx.key(did);
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let v = if matches!(kind, DefKind::Static { .. }) {
                        match tcx.eval_static_initializer(did) {
                            Ok(a) => {
                                let id = tcx.reserve_and_set_memory_alloc(a);
                                cx.mem_bytes(id, 0, t).unwrap_or_else(|| "null".into())
                            }
                            Err(_) => "null".into(),
                        }
                    } else {
                        "null".into()
                    };
                    let ti = cx.ty(t);
                    let muta = matches!(kind, DefKind::Static { mutability: rustc_hir::Mutability::Mut, .. });
                    cx.statics.insert(k, format!("{{\"v\":{},\"ty\":{},\"mut\":{}}}", v, ti, muta));
                    continue;
                }
                _ => continue,
            }
            if tcx.is_constructor(did) {
                continue;
            }
            let body = tcx.optimized_mir(did);
            let b = cx.body(body, env);
            let mut proms = Vec::new();
            for p in tcx.promoted_mir(did).iter() {
                proms.push(format!("{{{}}}", cx.body(p, env)));
            }
            let (file, line) = cx.loc(tcx.def_span(did));
            let parent = tcx.opt_parent(did).map(|p| cx.key(p));
            let mut extra = String::new();
            if matches!(kind, DefKind::AssocFn) {
                if let Some(im) = tcx.impl_of_assoc(did) {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    let i = cx.ty(st);
                    let _ = write!(extra, ",\"impl_self\":{}", i);
                    if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        let _ = write!(extra, ",\"impl_trait\":{}", esc(&cx.pretty(tr.def_id)));
                        let _ = write!(extra, ",\"trait_args\":{}", cx.gargs(tr.args));
                    }
                    let derived = tcx.is_automatically_derived(im);
                    let _ = write!(extra, ",\"derived\":{}", derived);
                }
            }
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
                let ins: Vec<String> = sig.inputs().iter().map(|t| cx.ty(*t).to_string()).collect();
                let o = cx.ty(sig.output());
                let _ = write!(extra, ",\"inputs\":{},\"output\":{}", arr(ins), o);
                let _ = write!(
                    extra,
                    ",\"exported\":{},\"reachable\":{},\"pub\":{}",
                    ev.is_exported(*ld),
                    ev.is_reachable(*ld),
                    tcx.visibility(did).is_public()
                );
                let g = tcx.generics_of(did);
                let mut names = Vec::new();
                for i in 0..g.count() {
                    let p = g.param_at(i, tcx);
                    if let ty::GenericParamDefKind::Type { .. } = p.kind {
                        names.push(esc(p.name.as_str()));
                    }
                }
                let _ = write!(extra, ",\"gparams\":{}", arr(names));
            } else {
                extra.push_str(",\"closure\":true");
            }
            let name = tcx.opt_item_name(did).map(|n| n.to_string()).unwrap_or_else(|| "{closure}".into());
            bodies.push(format!(
                "{}:{{\"name\":{},\"path\":{},\"file\":{},\"line\":{},\"parent\":{},{},\"promoted\":{}{}}}",
                esc(&cx.key(did)),
                esc(&name),
                esc(&cx.pretty(did)),
                esc(&file),
                line,
                opt(parent.map(|p| esc(&p))),
                b,
                arr(proms),
                extra
            ));
        }
        // every local ADT, even if unused in bodies
        for id in tcx.hir_crate_items(()).definitions() {
            match tcx.def_kind(id) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let d = tcx.adt_def(id.to_def_id());
                    cx.adt(d);
                }
                _ => {}
            }
        }
        // impls: trait impls of local types
        let mut impls = Vec::new();
        for id in tcx.hir_crate_items(()).definitions() {
            if let DefKind::Impl { of_trait } = tcx.def_kind(id) {
                let did = id.to_def_id();
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let i = cx.ty(st);
                let tr = if of_trait {
                    tcx.impl_opt_trait_ref(did).map(|t| {
                        let t = t.instantiate_identity().skip_norm_wip();
                        esc(&cx.pretty(t.def_id))
                    })
                } else {
                    None
                };
                let items: Vec<String> = tcx
                    .associated_item_def_ids(did)
                    .iter()
                    .map(|d| esc(&cx.key(*d)))
                    .collect();
                let (file, line) = cx.loc(tcx.def_span(did));
                impls.push(format!(
                    "{{\"self\":{},\"trait\":{},\"derived\":{},\"items\":{},\"file\":{},\"line\":{}}}",
                    i,
                    opt(tr),
                    of_trait && tcx.is_automatically_derived(did),
                    arr(items),
                    esc(&file),
                    line
                ));
            }
        }
        let adts: Vec<String> = cx.adts.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        let stats: Vec<String> = cx.statics.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        let kinds: Vec<String> = tcx.crate_types().iter().map(|t| format!("\"{:?}\"", t)).collect();
        let out = format!(
            "{{\"crate\":{},\"kinds\":{},\"types\":{},\"adts\":{{{}}},\"statics\":{{{}}},\"impls\":{},\"bodies\":{{{}}}}}",
            esc(&krate),
            arr(kinds),
            arr(cx.types.clone()),
            adts.join(","),
            stats.join(","),
            arr(impls),
            bodies.join(",\n")
        );
        let path = format!("{}/{}.json", dir, krate);
        let tmp = format!("{}.tmp{}", path, std::process::id());
        std::fs::write(&tmp, out).expect("write facts");
        std::fs::rename(&tmp, &path).expect("rename facts");
        Compilation::Continue
    }
}

fn go(args: &[String], cb: &mut (dyn Callbacks + Send)) -> std::process::ExitCode {
    rustc_driver_impl::catch_with_exit_code(|| rustc_driver_impl::compiler_entrypoint(args, cb))
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let probe = args.iter().any(|a| a == "-vV" || a == "--version" || a.starts_with("--print"));
    if probe {
        struct N;
        impl Callbacks for N {}
        return go(&args, &mut N);
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zmir-enable-passes=-ElaborateBoxDerefs,-CheckAlignment,-CheckNull,-CheckEnums".into());
    args.push("-Zub-checks=no".into());
    args.push("-Coverflow-checks=on".into());
    go(&args, &mut Cb)
}
