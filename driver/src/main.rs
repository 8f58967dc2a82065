//! rustc driver that writes, for every workspace library crate, the monomorphic MIR reachable from
//! the crate's own functions, with resolved callees and a type table, as one JSON file.
//! It never runs code of the crate; it only reads what the compiler computed.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::mir::{
    self, AggregateKind, AssertKind, BorrowKind, ConstValue, NonDivergingIntrinsic, Operand,
    ProjectionElem, Rvalue, StatementKind, TerminatorKind,
};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

/// minimal JSON string quoting
fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

const WALK_CRATES: &[&str] = &[
    "core", "cosmwasm_std", "cw20", "cw_utils", "cw_storage_plus", "cw2",
];
/// paths (prefixes of the canonical definition path) whose bodies are never followed: they are
/// modelled by the analysis or irrelevant to it.
const STOP: &[&str] = &[
    "core::fmt", "core::str", "core::num", "core::hash", "core::ptr", "core::alloc", "core::char",
    "core::mem", "core::panicking", "core::slice", "core::intrinsics", "core::hint", "core::ub_checks",
    "core::any", "core::error", "core::panic", "core::unicode", "core::array", "core::ascii", "core::cell",
    "core::iter::range",
];
const ITER_CONSTRUCT: &[&str] = &[
    "map", "filter", "filter_map", "enumerate", "zip", "chain", "take", "skip", "rev", "cloned", "copied",
    "peekable", "inspect", "flat_map", "take_while", "skip_while", "map_while", "step_by", "by_ref",
    "into_iter", "next", "next_back", "fuse", "scan", "flatten", "new", "and_then_or_clear", "spec_next",
    "spec_next_back", "do_inspect", "peek", "peek_mut", "setup", "successors", "repeat_with", "cycle",
];

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<String>,
    ty_ids: HashMap<Ty<'tcx>, usize>,
    queue: VecDeque<(String, Work<'tcx>)>,
    seen: HashSet<String>,
    bodies: Vec<String>,
    local_names: HashSet<String>,
    env: ty::TypingEnv<'tcx>,
}
enum Work<'tcx> {
    Inst(Instance<'tcx>, bool),
    Promoted(DefId, GenericArgsRef<'tcx>, mir::Promoted, ty::TypingEnv<'tcx>),
    Ctfe(DefId, GenericArgsRef<'tcx>),
    Static(DefId),
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(with_no_visible_paths!(with_resolve_crate_name!(self.tcx.def_path_str(d))))
    }
    fn path_args(&self, d: DefId, a: GenericArgsRef<'tcx>) -> String {
        with_no_trimmed_paths!(with_no_visible_paths!(with_resolve_crate_name!(
            self.tcx.def_path_str_with_args(d, a)
        )))
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(with_no_visible_paths!(with_resolve_crate_name!(t.to_string())))
    }
    fn krate(&self, d: DefId) -> String {
        self.tcx.crate_name(d.krate).to_string()
    }
    fn loc(&self, s: Span) -> (String, usize) {
        let s = s.source_callsite();
        let p = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        (p.file.name.prefer_local_unconditionally().to_string(), p.line)
    }
    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if t.has_escaping_bound_vars() {
            return t;
        }
        match self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t)) {
            Ok(t) => t,
            Err(_) => t,
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.ty_ids.get(&t) {
            return *i;
        }
        let id = self.tys.len();
        self.ty_ids.insert(t, id);
        self.tys.push(String::new());
        let s = q(&self.tystr(t));
        let tcx = self.tcx;
        let body = match t.kind() {
            ty::Bool => r#""k":"bool""#.to_string(),
            ty::Char => r#""k":"char""#.to_string(),
            ty::Int(i) => format!(r#""k":"int","bits":{},"signed":true"#, i.bit_width().unwrap_or(64)),
            ty::Uint(i) => format!(r#""k":"int","bits":{},"signed":false"#, i.bit_width().unwrap_or(64)),
            ty::Float(_) => r#""k":"float""#.to_string(),
            ty::Str => r#""k":"str""#.to_string(),
            ty::Never => r#""k":"never""#.to_string(),
            ty::Array(e, n) => {
                let e = self.ty(*e);
                let n = n.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!(r#""k":"array","elem":{e},"len":{n}"#)
            }
            ty::Slice(e) => {
                let e = self.ty(*e);
                format!(r#""k":"slice","elem":{e}"#)
            }
            ty::RawPtr(e, m) => {
                let e = self.ty(*e);
                format!(r#""k":"ptr","to":{e},"mut":{}"#, m.is_mut())
            }
            ty::Ref(_, e, m) => {
                let e = self.ty(*e);
                format!(r#""k":"ref","to":{e},"mut":{}"#, m.is_mut())
            }
            ty::Tuple(es) => {
                let v: Vec<String> = es.iter().map(|e| self.ty(e).to_string()).collect();
                format!(r#""k":"tuple","elems":{}"#, arr(v))
            }
            ty::FnDef(d, a) => {
                let rec = match a.no_bound_vars() {
                    Some(a) => self.callee((*d).into(), a, self.env),
                    None => "null".into(),
                };
                format!(r#""k":"fndef","fn":{rec}"#)
            }
            ty::FnPtr(..) => r#""k":"fnptr""#.to_string(),
            ty::Closure(d, a) => {
                let d: DefId = (*d).into();
                let kind = format!("{:?}", a.as_closure().kind_ty().to_opt_closure_kind());
                let up: Vec<String> =
                    a.as_closure().upvar_tys().iter().map(|e| self.ty(e).to_string()).collect();
                let key = if t.has_param() {
                    "null".to_string()
                } else {
                    let i = Instance::new_raw(d, a);
                    q(&self.enqueue_instance(i))
                };
                format!(r#""k":"closure","kind":{},"upvars":{},"body":{}"#, q(&kind), arr(up), key)
            }
            ty::Dynamic(..) => r#""k":"dyn""#.to_string(),
            ty::Param(_) => r#""k":"param""#.to_string(),
            ty::Adt(def, args) => {
                let did = def.did();
                let p = self.path(did);
                let targs: Vec<String> = args.types().map(|e| self.ty(e).to_string()).collect();
                let cr = self.krate(did);
                let mut out = format!(
                    r#""k":"adt","path":{},"args":{},"adt":"{}""#,
                    q(&p),
                    arr(targs),
                    if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" }
                );
                let expand = !matches!(cr.as_str(), "alloc" | "std" | "hashbrown")
                    && !p.starts_with("core::fmt")
                    && !def.is_union();
                if expand {
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let disc = if def.is_enum() {
                            def.discriminant_for_variant(tcx, vi).val.to_string()
                        } else {
                            "0".into()
                        };
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, args);
                            let ft = ft.skip_norm_wip();
                            let ft = self.norm(ft);
                            fs.push(format!("[{},{}]", q(f.name.as_str()), self.ty(ft)));
                        }
                        vs.push(format!("[{},\"{}\",{}]", q(v.name.as_str()), disc, arr(fs)));
                    }
                    let _ = write!(out, r#","variants":{}"#, arr(vs));
                }
                out
            }
            _ => r#""k":"other""#.to_string(),
        };
        let mut extra = String::new();
        let interesting = matches!(t.kind(), ty::Adt(..) | ty::Closure(..) | ty::Dynamic(..));
        if interesting && !t.has_param() && !t.has_escaping_bound_vars() && !t.has_aliases() {
            for (nm, item) in [("next", "Iterator"), ("next_back", "DoubleEndedIterator")] {
                if let Some(tr) = tcx.get_diagnostic_item(rustc_span::Symbol::intern(item)) {
                    let infcx = tcx.infer_ctxt().build(ty::TypingMode::PostAnalysis);
                    let ok = infcx
                        .type_implements_trait(tr, [t], ty::ParamEnv::empty())
                        .must_apply_modulo_regions();
                    if ok {
                        if let Some(m) = tcx
                            .associated_items(tr)
                            .in_definition_order()
                            .find(|m| m.is_fn() && m.name().as_str() == nm)
                        {
                            let a = tcx.mk_args(&[t.into()]);
                            let r = self.callee(m.def_id, a, self.env);
                            let _ = write!(extra, r#","{nm}":{r}"#);
                        }
                    }
                }
            }
            if matches!(t.kind(), ty::Adt(d, _) if { let k = self.krate(d.did()); self.local_names.contains(&k) || matches!(k.as_str(), "cosmwasm_std" | "cw20" | "bigint") }) {
                for (nm, item) in [("display", "Display"), ("cmp", "Ord")] {
                  if nm == "cmp" && !matches!(t.kind(), ty::Adt(d, _) if self.local_names.contains(&self.krate(d.did()))) {
                      continue;
                  }
                  if let Some(tr) = tcx.get_diagnostic_item(rustc_span::Symbol::intern(item)) {
                    let infcx = tcx.infer_ctxt().build(ty::TypingMode::PostAnalysis);
                    let ok = infcx
                        .type_implements_trait(tr, [t], ty::ParamEnv::empty())
                        .must_apply_modulo_regions();
                    if ok {
                        if let Some(m) =
                            tcx.associated_items(tr).in_definition_order().find(|m| m.is_fn())
                        {
                            let a = tcx.mk_args(&[t.into()]);
                            let r = self.callee(m.def_id, a, self.env);
                            let _ = write!(extra, r#","{nm}":{r}"#);
                        }
                    }
                  }
                }
            }
        }
        self.tys[id] = format!("{{\"s\":{s},{body}{extra}}}");
        id
    }

    fn walkable(&self, d: DefId) -> bool {
        let cr = self.krate(d);
        if self.local_names.contains(&cr) {
            return true;
        }
        if !WALK_CRATES.contains(&cr.as_str()) {
            return false;
        }
        let p = self.path(d);
        let bare = p.trim_start_matches('<');
        if STOP.iter().any(|s| bare.starts_with(s)) && !p.contains("core::cmp::impls") {
            return false;
        }
        if cr == "core" {
            // iterator methods: only constructors of adaptors and their stepping functions
            let in_iter = p.contains("core::iter::");
            if in_iter {
                let last = p.rsplit("::").next().unwrap_or("");
                // closures inside adaptors (`{closure#0}`) are followed
                if !last.starts_with('{') && !ITER_CONSTRUCT.contains(&last) {
                    return false;
                }
            }
        }
        true
    }

    fn inst_key(&self, i: &Instance<'tcx>) -> String {
        let base = self.path_args(i.def_id(), i.args);
        match i.def {
            InstanceKind::Item(_) => base,
            InstanceKind::Shim(s) => match s {
                ShimKind::ClosureOnce { .. } => format!("{base}#once"),
                ShimKind::Reify(..) => format!("{base}#reify"),
                ShimKind::FnPtr(_, t) => format!("{base}#fnptr:{}", self.tystr(t)),
                ShimKind::Clone(_, t) => format!("{base}#clone:{}", self.tystr(t)),
                _ => format!("{base}#shim"),
            },
            _ => format!("{base}#intr"),
        }
    }

    fn enqueue_instance(&mut self, i: Instance<'tcx>) -> String {
        let key = self.inst_key(&i);
        if self.seen.insert(key.clone()) {
            self.queue.push_back((key.clone(), Work::Inst(i, false)));
        }
        key
    }

    /// JSON record for a callee: declared path, resolved path, key of the body when followed
    fn callee(&mut self, d: DefId, a: GenericArgsRef<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let path = self.path(d);
        let targs: Vec<String> = a.types().map(|t| { let t = self.norm(t); self.ty(t).to_string() }).collect();
        let mut rpath = path.clone();
        let mut key = "null".to_string();
        let mut kind = "item";
        let res = if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let a = tcx.erase_and_anonymize_regions(a);
            Instance::try_resolve(tcx, env, d, a).ok().flatten()
        } else {
            None
        };
        let mut rargs: Vec<String> = vec![];
        let mut impls: Vec<String> = vec![];
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            kind = "ctor";
        } else if let Some(i) = res {
            rpath = self.path(i.def_id());
            rargs = i.args.types().map(|t| { let t = self.norm(t); self.ty(t).to_string() }).collect();
            match i.def {
                InstanceKind::Virtual(..) => {
                    kind = "virtual";
                    // the implementations of the workspace's own traits, by implementing type
                    if let Some(tr) = tcx.trait_of_assoc(d) {
                        if self.local_names.contains(&self.krate(tr)) && a.types().count() == 1 && a.consts().next().is_none() {
                            for im in tcx.all_impls(tr).collect::<Vec<_>>() {
                                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                                let st = self.norm(st);
                                let ty::Adt(ad, _) = st.kind() else { continue };
                                if st.has_param() {
                                    continue;
                                }
                                let ra = tcx.mk_args_from_iter(std::iter::once(ty::GenericArg::from(st)).chain(a.iter().skip(1)));
                                if let Ok(Some(i)) = Instance::try_resolve(tcx, env, d, ra) {
                                    if matches!(i.def, InstanceKind::Item(_)) && tcx.is_mir_available(i.def_id()) {
                                        let k = self.enqueue_instance(i);
                                        impls.push(format!("[{},{}]", q(&self.path(ad.did())), q(&k)));
                                    }
                                }
                            }
                        }
                    }
                }
                InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => kind = "intrinsic",
                InstanceKind::Shim(s) => {
                    kind = "shim";
                    if let ShimKind::ClosureOnce { .. } = s {
                        kind = "closure_once";
                    }
                }
                InstanceKind::Item(_) => {
                    if tcx.is_closure_like(i.def_id()) {
                        kind = "closure";
                        key = q(&self.enqueue_instance(i));
                    } else if self.walkable(i.def_id()) && tcx.is_mir_available(i.def_id()) && !i.args.has_param() {
                        key = q(&self.enqueue_instance(i));
                    }
                }
            }
        } else {
            kind = "unresolved";
        }
        let tr = tcx
            .opt_associated_item(d)
            .and_then(|_| tcx.trait_of_assoc(d))
            .map(|t| q(&self.path(t)))
            .unwrap_or("null".into());
        format!(
            r#"{{"path":{},"rpath":{},"key":{},"kind":"{}","targs":{},"rargs":{},"trait":{},"krate":{}{}}}"#,
            q(&path), q(&rpath), key, kind, arr(targs), arr(rargs), tr, q(&self.krate(d)),
            if impls.is_empty() { String::new() } else { format!(r#","impls":{}"#, arr(impls)) }
        )
    }

    fn place(&mut self, p: &mir::Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => r#"["*"]"#.to_string(),
                ProjectionElem::Field(f, t) => {
                    let t = self.norm(t);
                    format!(r#"["f",{},{}]"#, f.as_usize(), self.ty(t))
                }
                ProjectionElem::Index(l) => format!(r#"["i",{}]"#, l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!(r#"["c",{offset},{min_length},{from_end}]"#)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!(r#"["s",{from},{to},{from_end}]"#),
                ProjectionElem::Downcast(_, vi) => format!(r#"["v",{}]"#, vi.as_usize()),
                _ => r#"["o"]"#.to_string(),
            });
        }
        format!("[{},{}]", p.local.as_usize(), arr(v))
    }

    fn alloc_bytes(&self, id: mir::interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(id)? {
            mir::interpret::GlobalAlloc::Memory(m) => {
                let m = m.inner();
                let end = off.checked_add(len)?;
                if end > m.len() as u64 {
                    return None;
                }
                Some(m.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..end as usize).to_vec())
            }
            _ => None,
        }
    }
    fn hexb(b: &[u8]) -> String {
        let mut s = String::new();
        for x in b {
            let _ = write!(s, "{x:02x}");
        }
        s
    }

    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>) -> String {
        let ti = self.ty(t);
        if matches!(t.kind(), ty::Adt(..) | ty::Tuple(..)) && !t.has_param() && !matches!(v, ConstValue::ZeroSized) {
            let et = self.tcx.erase_and_anonymize_regions(t);
            if let Some(d) = self.tcx.try_destructure_mir_constant_for_user_output(v, et) {
                let fs: Vec<String> = d.fields.iter().map(|(x, ft)| self.constval(*x, *ft)).collect();
                let vi = d.variant.map(|x| x.as_usize()).unwrap_or(0);
                return format!(r#"{{"k":"adt","variant":{vi},"fields":[{}],"t":{ti}}}"#, fs.join(","));
            }
        }
        match v {
            ConstValue::ZeroSized => {
                format!(r#"{{"k":"zst","t":{ti}}}"#)
            }
            ConstValue::Scalar(mir::interpret::Scalar::Int(i)) => {
                let bits = i.to_bits(i.size());
                let sv = if matches!(t.kind(), ty::Int(_)) {
                    let sz = i.size().bits();
                    let sh = 128 - sz;
                    (((bits << sh) as i128) >> sh).to_string()
                } else {
                    bits.to_string()
                };
                format!(r#"{{"k":"int","v":"{sv}","t":{ti}}}"#)
            }
            ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                let id = prov.alloc_id();
                if let Some(mir::interpret::GlobalAlloc::Static(d)) = self.tcx.try_get_global_alloc(id) {
                    let free = matches!(t.kind(), ty::Ref(_, i, m) if m.is_not() && i.is_freeze(self.tcx, ty::TypingEnv::fully_monomorphized()));
                    if free && off.bytes() == 0 && !self.tcx.is_mutable_static(d) && d.is_local() {
                        let key = format!("static:{}", self.path(d));
                        if self.seen.insert(key.clone()) {
                            self.queue.push_back((key.clone(), Work::Static(d)));
                        }
                        return format!(r#"{{"k":"body","key":{},"t":{ti}}}"#, q(&key));
                    }
                }
                if let ty::Ref(_, inner, _) = t.kind() {
                    if let ty::Array(e, n) = inner.kind() {
                        if *e == self.tcx.types.u8 {
                            if let Some(n) = n.try_to_target_usize(self.tcx) {
                                if let Some(b) = self.alloc_bytes(id, off.bytes(), n) {
                                    return format!(r#"{{"k":"bytes","v":"{}","t":{ti}}}"#, Self::hexb(&b));
                                }
                            }
                        }
                    }
                    if let ty::Int(_) | ty::Uint(_) = inner.kind() {
                        let sz = self.tcx.layout_of(self.env.as_query_input(*inner)).map(|l| l.size.bytes()).unwrap_or(0);
                        if let Some(b) = self.alloc_bytes(id, off.bytes(), sz) {
                            let mut v: u128 = 0;
                            for (i, x) in b.iter().enumerate() {
                                v |= (*x as u128) << (8 * i);
                            }
                            return format!(r#"{{"k":"refint","v":"{v}","t":{ti}}}"#);
                        }
                    }
                }
                format!(r#"{{"k":"ptr","t":{ti}}}"#)
            }
            ConstValue::Slice { alloc_id, meta } => {
                let is_str = matches!(t.kind(), ty::Ref(_, i, _) if i.is_str());
                match self.alloc_bytes(alloc_id, 0, meta) {
                    Some(b) => {
                        if is_str {
                            format!(r#"{{"k":"str","v":{},"t":{ti}}}"#, q(&String::from_utf8_lossy(&b)))
                        } else {
                            format!(r#"{{"k":"bytes","v":"{}","t":{ti}}}"#, Self::hexb(&b))
                        }
                    }
                    None => format!(r#"{{"k":"ptr","t":{ti}}}"#),
                }
            }
            ConstValue::Indirect { .. } => format!(r#"{{"k":"indirect","t":{ti}}}"#),
        }
    }

    fn constant(&mut self, c: &mir::Const<'tcx>, env: ty::TypingEnv<'tcx>, span: Span) -> String {
        let t = self.norm(c.ty());
        let ti = self.ty(t);
        if let ty::FnDef(d, a) = t.kind() {
            if let Some(a) = a.no_bound_vars() {
                let r = self.callee((*d).into(), a, env);
                return format!(r#"{{"k":"fn","fn":{r},"t":{ti}}}"#);
            }
        }
        match c {
            mir::Const::Val(v, _) => self.constval(*v, t),
            mir::Const::Ty(_, ct) => {
                if let Some(v) = ct.try_to_target_usize(self.tcx) {
                    format!(r#"{{"k":"int","v":"{v}","t":{ti}}}"#)
                } else if let Ok(v) = c.eval(self.tcx, env, span) {
                    self.constval(v, t)
                } else {
                    format!(r#"{{"k":"param","s":{},"t":{ti}}}"#, q(&format!("{ct:?}")))
                }
            }
            mir::Const::Unevaluated(u, _) => {
                let scalar = matches!(t.kind(), ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char)
                    || matches!(t.kind(), ty::Ref(_, i, _) if i.is_str());
                if scalar && !u.args.has_param() {
                    if let Ok(v) = c.eval(self.tcx, env, span) {
                        return self.constval(v, t);
                    }
                }
                let name = self.path(u.def);
                if let Some(p) = u.promoted {
                    let key = format!("{}#promoted{}", self.path_args(u.def, u.args), p.as_usize());
                    if self.seen.insert(key.clone()) {
                        self.queue.push_back((key.clone(), Work::Promoted(u.def, u.args, p, env)));
                    }
                    return format!(r#"{{"k":"body","key":{},"t":{ti}}}"#, q(&key));
                }
                // named constant: resolve (associated consts of traits) and interpret its body
                if u.args.has_param() {
                    return format!(r#"{{"k":"named","name":{},"t":{ti}}}"#, q(&name));
                }
                match Instance::try_resolve(self.tcx, env, u.def, self.tcx.erase_and_anonymize_regions(u.args)) {
                    Ok(Some(i)) => {
                        let key = format!("const:{}", self.path_args(i.def_id(), i.args));
                        if self.seen.insert(key.clone()) {
                            self.queue.push_back((key.clone(), Work::Ctfe(i.def_id(), i.args)));
                        }
                        format!(r#"{{"k":"body","key":{},"name":{},"t":{ti}}}"#, q(&key), q(&name))
                    }
                    _ => format!(r#"{{"k":"named","name":{},"t":{ti}}}"#, q(&name)),
                }
            }
        }
    }

    /// calls of a derived serde function: callee with its type arguments, and the texts and numbers among the arguments
    fn wire(&mut self, did: DefId, tr: &str) -> String {
        let tcx = self.tcx;
        let path = self.path(did);
        let mut calls = vec![];
        if tcx.is_mir_available(did) {
            let env = ty::TypingEnv::post_analysis(tcx, did);
            let m = tcx.instance_mir(InstanceKind::Item(did)).clone();
            for b in m.basic_blocks.iter() {
                let Some(t) = &b.terminator else { continue };
                let mir::TerminatorKind::Call { func, args, .. } = &t.kind else { continue };
                let ft = func.ty(&m.local_decls, tcx);
                let ty::FnDef(cd, ca) = ft.kind() else { continue };
                let Some(ca) = ca.no_bound_vars() else { continue };
                let tas: Vec<String> = ca.types().map(|x| q(&self.tystr(x))).collect();
                let mut ks = vec![];
                for a in args.iter() {
                    if let Operand::Constant(c) = &a.node {
                        if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                            let t = c.const_.ty();
                            ks.push(self.constval(v, t));
                        }
                    }
                }
                calls.push(format!("[{},[{}],[{}]]", q(&self.path((*cd).into())), tas.join(","), ks.join(",")));
            }
        }
        let (file, line) = self.loc(tcx.def_span(did));
        format!(r#"{{"path":{},"trait":{},"file":{},"line":{line},"calls":[{}]}}"#, q(&path), q(tr), q(&file), calls.join(","))
    }

    fn operand(&mut self, o: &Operand<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!(r#"["c",{}]"#, self.place(p)),
            Operand::Move(p) => format!(r#"["m",{}]"#, self.place(p)),
            Operand::Constant(c) => {
                let s = self.constant(&c.const_, env, c.span);
                format!(r#"["k",{s}]"#)
            }
            Operand::RuntimeChecks(k) => format!(r#"["r",{}]"#, q(&format!("{k:?}"))),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!(r#"["use",{}]"#, self.operand(o, env)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!(r#"["repeat",{},{}]"#, self.operand(o, env), n)
            }
            Rvalue::Ref(_, k, p) => {
                let m = match k {
                    BorrowKind::Mut { .. } => "mut",
                    _ => "shared",
                };
                format!(r#"["ref","{m}",{}]"#, self.place(p))
            }
            Rvalue::Reborrow(_, m, p) => {
                format!(r#"["reborrow","{}",{}]"#, if m.is_mut() { "mut" } else { "shared" }, self.place(p))
            }
            Rvalue::RawPtr(_, p) => format!(r#"["rawptr",{}]"#, self.place(p)),
            Rvalue::ThreadLocalRef(_) => r#"["opaque","tls"]"#.into(),
            Rvalue::Cast(k, o, t) => {
                let t = self.norm(*t);
                let ti = self.ty(t);
                // a reified fn item keeps its callee record through the operand's constant
                format!(r#"["cast",{},{},{}]"#, q(&format!("{k:?}")), self.operand(o, env), ti)
            }
            Rvalue::BinaryOp(op, ab) => {
                let a = self.operand(&ab.0, env);
                let b = self.operand(&ab.1, env);
                format!(r#"["bin","{op:?}",{a},{b}]"#)
            }
            Rvalue::UnaryOp(op, o) => format!(r#"["un","{op:?}",{}]"#, self.operand(o, env)),
            Rvalue::Discriminant(p) => format!(r#"["discr",{}]"#, self.place(p)),
            Rvalue::CopyForDeref(p) => format!(r#"["use",["c",{}]]"#, self.place(p)),
            Rvalue::Aggregate(k, os) => {
                let ops: Vec<String> = os.iter().map(|o| self.operand(o, env)).collect();
                let kind = match &**k {
                    AggregateKind::Array(_) => r#"["array"]"#.to_string(),
                    AggregateKind::Tuple => r#"["tuple"]"#.to_string(),
                    AggregateKind::Adt(d, vi, a, _, active) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, a).skip_norm_wip();
                        let t = self.norm(t);
                        let ti = self.ty(t);
                        format!(
                            r#"["adt",{},{},{}]"#,
                            ti,
                            vi.as_usize(),
                            active.map(|f| f.as_usize().to_string()).unwrap_or("null".into())
                        )
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(self.tcx, *d, a);
                        let t = self.norm(t);
                        format!(r#"["closure",{}]"#, self.ty(t))
                    }
                    AggregateKind::RawPtr(..) => r#"["rawptr"]"#.to_string(),
                    _ => r#"["other"]"#.to_string(),
                };
                format!(r#"["agg",{},{}]"#, kind, arr(ops))
            }
            _ => r#"["opaque","rvalue"]"#.into(),
        }
    }

    fn body(&mut self, key: &str, path: &str, krate: &str, b: &mir::Body<'tcx>, env: ty::TypingEnv<'tcx>, generic: bool) {
        let saved = self.env;
        self.env = env;
        let locals: Vec<String> = b.local_decls.iter().map(|d| { let t = self.norm(d.ty); self.ty(t).to_string() }).collect();
        let mut names: Vec<String> = vec![];
        for v in &b.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.push(format!("[{},{}]", p.local.as_usize(), q(v.name.as_str())));
                }
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            if bb.is_cleanup {
                blocks.push("null".to_string());
                continue;
            }
            let mut st = vec![];
            for s in &bb.statements {
                let (_, line) = self.loc(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&a.0);
                        let r = self.rvalue(&a.1, env);
                        st.push(format!(r#"["=",{p},{r},{line}]"#));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(format!(r#"["setd",{p},{},{line}]"#, variant_index.as_usize()));
                    }
                    StatementKind::Intrinsic(i) => {
                        if let NonDivergingIntrinsic::CopyNonOverlapping(_) = **i {
                            st.push(format!(r#"["copynonoverlapping",{line}]"#));
                        }
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let (file, line) = self.loc(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!(r#"["goto",{}]"#, target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    let dt = self.norm(dt);
                    let dti = self.ty(dt);
                    let d = self.operand(discr, env);
                    let ts: Vec<String> =
                        targets.iter().map(|(v, t)| format!(r#"["{v}",{}]"#, t.as_usize())).collect();
                    format!(r#"["switch",{d},{},{},{dti}]"#, arr(ts), targets.otherwise().as_usize())
                }
                TerminatorKind::Return => r#"["return"]"#.into(),
                TerminatorKind::Unreachable => r#"["unreachable"]"#.into(),
                TerminatorKind::Drop { target, .. } => format!(r#"["goto",{}]"#, target.as_usize()),
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let f = self.operand(func, env);
                    let ats: Vec<String> = args.iter().map(|a| { let t = a.node.ty(&b.local_decls, self.tcx); let t = self.norm(t); self.ty(t).to_string() }).collect();
                    let a: Vec<String> = args.iter().map(|a| self.operand(&a.node, env)).collect();
                    let d = self.place(destination);
                    let dt = destination.ty(&b.local_decls, self.tcx).ty;
                    let dt = self.norm(dt);
                    let dti = self.ty(dt);
                    let (cf, cl) = self.loc(*fn_span);
                    format!(
                        r#"["call",{f},{},{d},{},{},{cl},{},{dti}]"#,
                        arr(a),
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()),
                        q(&cf),
                        arr(ats)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let k = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{op:?}"),
                        AssertKind::OverflowNeg(_) => "overflow:Neg".into(),
                        AssertKind::DivisionByZero(_) => "divzero".into(),
                        AssertKind::RemainderByZero(_) => "remzero".into(),
                        _ => "other".into(),
                    };
                    let c = self.operand(cond, env);
                    format!(r#"["assert",{c},{expected},{},{}]"#, q(&k), target.as_usize())
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!(r#"["goto",{}]"#, real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!(r#"["goto",{}]"#, real_target.as_usize()),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => r#"["unwind"]"#.into(),
                _ => r#"["opaque"]"#.into(),
            };
            blocks.push(format!(r#"{{"s":{},"t":{tj},"l":{line},"f":{}}}"#, arr(st), q(&file)));
        }
        let (file, line) = self.loc(b.span);
        self.bodies.push(format!(
            r#"{}:{{"path":{},"krate":{},"generic":{},"argc":{},"file":{},"line":{line},"spread":{},"locals":{},"names":{},"blocks":{}}}"#,
            q(key),
            q(path),
            q(krate),
            generic,
            b.arg_count,
            q(&file),
            b.spread_arg.map(|l| l.as_usize().to_string()).unwrap_or("null".into()),
            arr(locals),
            arr(names),
            arr(blocks)
        ));
        self.env = saved;
    }

    fn run(&mut self) {
        while let Some((key, w)) = self.queue.pop_front() {
            let tcx = self.tcx;
            match w {
                Work::Inst(i, generic) => {
                    let d = i.def_id();
                    let env = if generic {
                        ty::TypingEnv::post_analysis(tcx, d)
                    } else {
                        ty::TypingEnv::fully_monomorphized()
                    };
                    if !tcx.is_mir_available(d) {
                        continue;
                    }
                    let m = tcx.instance_mir(i.def);
                    let body = if generic {
                        m.clone()
                    } else {
                        i.instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, m.clone()))
                    };
                    let p = self.path(d);
                    let k = self.krate(d);
                    self.body(&key, &p, &k, &body, env, generic);
                }
                Work::Promoted(d, a, p, env) => {
                    let ms = tcx.promoted_mir(d);
                    let m = ms[p].clone();
                    let body = if a.has_param() {
                        m
                    } else {
                        tcx.instantiate_and_normalize_erasing_regions(a, env, ty::EarlyBinder::bind(tcx, m))
                    };
                    let pt = self.path(d);
                    let k = self.krate(d);
                    self.body(&key, &pt, &k, &body, env, a.has_param());
                }
                Work::Static(d) => {
                    let env = ty::TypingEnv::fully_monomorphized();
                    let body = tcx.mir_for_ctfe(d).clone();
                    let pt = self.path(d);
                    let k = self.krate(d);
                    self.body(&key, &pt, &k, &body, env, false);
                }
                Work::Ctfe(d, a) => {
                    use rustc_hir::def::DefKind;
                    if !tcx.is_mir_available(d) && (d.is_local() || !matches!(tcx.def_kind(d), DefKind::Const { .. } | DefKind::AssocConst { .. })) {
                        continue;
                    }
                    let m = tcx.mir_for_ctfe(d).clone();
                    let env = ty::TypingEnv::fully_monomorphized();
                    let body = tcx.instantiate_and_normalize_erasing_regions(a, env, ty::EarlyBinder::bind(tcx, m));
                    let pt = self.path(d);
                    let k = self.krate(d);
                    self.body(&key, &pt, &k, &body, env, false);
                }
            }
        }
    }
}

struct Cb {
    dir: String,
    names: HashSet<String>,
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.opts.trimmed_def_paths = false;
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        let mut d = Dump {
            tcx,
            tys: vec![],
            ty_ids: HashMap::new(),
            queue: VecDeque::new(),
            seen: HashSet::new(),
            bodies: vec![],
            local_names: self.names.clone(),
            env: ty::TypingEnv::fully_monomorphized(),
        };
        let mut fns = vec![];
        let mut wires = vec![];
        let mut consts = vec![];
        for ld in tcx.hir_body_owners() {
            let did = ld.to_def_id();
            let path = d.path(did);
            match tcx.def_kind(did) {
                DefKind::Fn | DefKind::AssocFn => {}
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    consts.push(did);
                    continue;
                }
                _ => continue,
            }
            let mut auto = "null".to_string();
            let mut trait_path = "null".to_string();
            let mut skip = path.contains("mock_querier") || path.contains("::testing::") || path.contains("env_setup") || path.contains("::tests::");
            if let Some(imp) = tcx.impl_of_assoc(did) {
                if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                    let tp = d.path(tr.skip_binder().def_id);
                    if tp.starts_with("serde") || tp.starts_with("schemars") || tp.ends_with("::Debug") || tp.starts_with("cosmwasm_schema") {
                        let derived = tcx.is_automatically_derived(imp)
                            || tcx.def_span(imp).from_expansion();
                        if derived && tp.starts_with("serde") {
                            let w = d.wire(did, &tp);
                            wires.push(w);
                        }
                        if derived || !tp.starts_with("serde") {
                            skip = true;
                        }
                    }
                    trait_path = q(&tp);
                    auto = tcx.is_automatically_derived(imp).to_string();
                }
            }
            if skip {
                continue;
            }
            let generics = tcx.generics_of(did);
            let generic = generics.requires_monomorphization(tcx);
            let args = if generic {
                ty::GenericArgs::identity_for_item(tcx, did)
            } else {
                ty::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
                    ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                    _ => unreachable!(),
                })
            };
            let inst = Instance::new_raw(did, args);
            let key = d.inst_key(&inst);
            let (file, line) = d.loc(tcx.def_span(did));
            let sig = tcx.fn_sig(did).instantiate(tcx, args).skip_norm_wip();
            let sig = tcx.instantiate_bound_regions_with_erased(sig);
            if generic {
                d.env = ty::TypingEnv::post_analysis(tcx, did);
            }
            let ins: Vec<String> = sig.inputs().iter().map(|t| { let t = d.norm(*t); d.ty(t).to_string() }).collect();
            let o = d.norm(sig.output());
            let out = d.ty(o);
            d.env = ty::TypingEnv::fully_monomorphized();
            let vis = tcx.visibility(did).is_public();
            fns.push(format!(
                r#"{{"key":{},"path":{},"generic":{generic},"auto":{auto},"trait":{trait_path},"pub":{vis},"file":{},"line":{line},"inputs":{},"output":{out}}}"#,
                q(&key), q(&path), q(&file), arr(ins)
            ));
            if d.seen.insert(key.clone()) {
                d.queue.push_back((key, Work::Inst(inst, generic)));
            }
        }
        let mut cs = vec![];
        for did in consts {
            if tcx.generics_of(did).requires_monomorphization(tcx) {
                continue;
            }
            let args = ty::GenericArgs::for_item(tcx, did, |_, _| tcx.lifetimes.re_erased.into());
            let key = format!("const:{}", d.path_args(did, args));
            if d.seen.insert(key.clone()) {
                d.queue.push_back((key.clone(), Work::Ctfe(did, args)));
            }
            let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
            let t = d.norm(t);
            let ti = d.ty(t);
            let (file, line) = d.loc(tcx.def_span(did));
            cs.push(format!(r#"{{"key":{},"path":{},"t":{ti},"file":{},"line":{line}}}"#, q(&key), q(&d.path(did)), q(&file)));
        }
        d.run();
        // functions exported to the chain: `entry_point` puts their export into a module that only wasm builds contain
        let mut exports = vec![];
        for it in tcx.stripped_cfg_items(rustc_span::def_id::LOCAL_CRATE) {
            if let Some(n) = it.ident.as_str().strip_prefix("__wasm_export_") {
                exports.push(q(&format!("{}::{}", d.path(it.parent_scope), n)));
            }
        }
        let mut enabled = vec![];
        enabled.push(format!(r#""overflow_checks":{}"#, tcx.sess.overflow_checks()));
        let out = format!(
            "{{\"crate\":{},{},\"exports\":{},\"wire\":{},\"fns\":{},\"consts\":{},\"types\":[\n{}\n],\"bodies\":{{\n{}\n}}}}\n",
            q(&name),
            enabled.join(","),
            arr(exports),
            arr(wires),
            arr(fns),
            arr(cs),
            d.tys.join(",\n"),
            d.bodies.join(",\n")
        );
        std::fs::write(format!("{}/{}.json", self.dir, name), out).expect("cannot write MIR dump");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    args.remove(0);
    let crate_name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1).cloned());
    let dir = std::env::var("MIRDUMP_DIR").unwrap_or_default();
    let names: HashSet<String> =
        std::env::var("MIRDUMP_CRATES").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
    let want = match &crate_name {
        Some(n) => !dir.is_empty() && names.contains(n) && n != "___",
        None => false,
    };
    if !want {
        // version queries, build scripts and foreign crates go to the plain compiler
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().expect("cannot run rustc");
        return std::process::ExitCode::from(st.code().unwrap_or(1) as u8);
    }
    let mut cb = Cb { dir, names };
    rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut cb))
}
