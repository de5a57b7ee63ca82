// MIR exporter: a rustc_public driver injected with RUSTC_WORKSPACE_WRAPPER.
//
// For the crates named in LV_CRATES it writes, to LV_OUT/<crate>.json, the monomorphic MIR of
// every function reachable from the crate's own non-generic functions (std's generic code
// included), with callees resolved, types and constants decoded. It decides nothing.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_trait_selection;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

use rustc_middle::ty::TyCtxt;
use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::rustc_internal::{internal, stable};
use rustc_public::ty::*;
use rustc_public::{CrateItem, ItemKind};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list<T, F: FnMut(T) -> String>(it: impl IntoIterator<Item = T>, f: F) -> String {
    let v: Vec<String> = it.into_iter().map(f).collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty, usize>,
    ty_json: Vec<String>,
    fns: HashMap<Instance, usize>,
    fn_meta: Vec<String>,
    fn_body: BTreeMap<usize, String>,
    queue: VecDeque<(usize, Instance)>,
    stop: Vec<String>,
    statics: HashMap<String, String>,
    iters: HashMap<usize, String>,
    iter_traits: Vec<(&'static str, Option<rustc_span::def_id::DefId>)>,
    seen_tables: HashSet<Ty>,
    depth: usize,
    pending_tables: Vec<Ty>,
}

fn def_path(tcx: TyCtxt<'_>, d: rustc_span::def_id::DefId) -> String {
    rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!(
        tcx.def_path_str(d)
    ))
}

impl<'tcx> Cx<'tcx> {
    fn did(&self, d: rustc_public::DefId) -> rustc_span::def_id::DefId {
        internal(self.tcx, d)
    }

    fn args(&mut self, a: &GenericArgs) -> String {
        let v: Vec<String> = a
            .0
            .iter()
            .filter_map(|k| match k {
                GenericArgKind::Type(t) => Some(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => Some(match c.eval_target_usize() {
                    Ok(n) => format!("{{\"const\":{}}}", n),
                    Err(_) => "null".into(),
                }),
                _ => None,
            })
            .collect();
        format!("[{}]", v.join(","))
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let id = self.ty_json.len();
        self.tys.insert(t, id);
        self.ty_json.push("null".into());
        let s = esc(&format!("{}", t));
        let j = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".to_string(),
                RigidTy::Char => "\"k\":\"char\"".into(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"bits\":{}", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("\"k\":\"uint\",\"bits\":{}", i.num_bytes() * 8),
                RigidTy::Float(_) => "\"k\":\"float\"".into(),
                RigidTy::Str => "\"k\":\"str\"".into(),
                RigidTy::Never => "\"k\":\"never\"".into(),
                RigidTy::Array(e, n) => {
                    let e = self.ty(e);
                    format!("\"k\":\"array\",\"e\":{},\"n\":{}", e, n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into()))
                }
                RigidTy::Slice(e) => format!("\"k\":\"slice\",\"e\":{}", self.ty(e)),
                RigidTy::RawPtr(e, m) => format!("\"k\":\"ptr\",\"e\":{},\"mut\":{}", self.ty(e), m == Mutability::Mut),
                RigidTy::Ref(_, e, m) => format!("\"k\":\"ref\",\"e\":{},\"mut\":{}", self.ty(e), m == Mutability::Mut),
                RigidTy::Tuple(ts) => {
                    let l = list(ts, |t| self.ty(t).to_string());
                    format!("\"k\":\"tuple\",\"a\":{}", l)
                }
                RigidTy::FnDef(d, a) => {
                    let p = def_path(self.tcx, self.did(d.def_id()));
                    let args = self.args(&a);
                    let inst = Instance::resolve(d, &a).ok();
                    let i = match inst {
                        Some(i) => self.inst(i).to_string(),
                        None => "null".into(),
                    };
                    format!("\"k\":\"fndef\",\"path\":{},\"args\":{},\"inst\":{}", esc(&p), args, i)
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".into(),
                RigidTy::Closure(d, a) => {
                    let p = def_path(self.tcx, self.did(d.def_id()));
                    let inst = Instance::resolve_closure(d, &a, ClosureKind::FnOnce).ok();
                    let i = match inst {
                        Some(i) => self.inst(i).to_string(),
                        None => "null".into(),
                    };
                    // the closure body itself, for calls through a reference
                    let raw = Instance::resolve_closure(d, &a, ClosureKind::Fn)
                        .or_else(|_| Instance::resolve_closure(d, &a, ClosureKind::FnMut))
                        .ok();
                    let r = match raw {
                        Some(i) => self.inst(i).to_string(),
                        None => "null".into(),
                    };
                    let caps: Vec<String> = match internal(self.tcx, t).kind() {
                        rustc_middle::ty::TyKind::Closure(_, ca) => ca.as_closure().upvar_tys().iter().map(|u| u.to_string()).collect(),
                        _ => vec![],
                    };
                    format!("\"k\":\"closure\",\"path\":{},\"once\":{},\"inst\":{},\"caps\":{}", esc(&p), i, r, list(&caps, |x| esc(x)))
                }
                RigidTy::Dynamic(p, _) => {
                    let tr = p.iter().find_map(|b| match &b.value {
                        ExistentialPredicate::Trait(t) => Some(def_path(self.tcx, self.did(t.def_id.def_id()))),
                        _ => None,
                    });
                    format!("\"k\":\"dyn\",\"trait\":{}", esc(&tr.unwrap_or_default()))
                }
                RigidTy::Adt(d, a) => {
                    let p = def_path(self.tcx, self.did(d.def_id()));
                    let args = self.args(&a);
                    let krate = d.krate().name.to_string();
                    let kind = match d.kind() {
                        AdtKind::Enum => "enum",
                        AdtKind::Struct => "struct",
                        AdtKind::Union => "union",
                    };
                    let local = d.krate().is_local || self.is_target_crate(&krate);
                    let expand = local || kind == "enum" || (krate != "std" || !p.contains("sys::")) ;
                    let mut vs = vec![];
                    if expand {
                        for (i, v) in d.variants().iter().enumerate() {
                            let disc = if kind == "enum" { d.discriminant_for_variant(v.idx()).val as i128 } else { i as i128 };
                            let mut fs = vec![];
                            for f in v.fields() {
                                let ft = f.ty_with_args(&a);
                                fs.push(format!("[{},{}]", esc(&f.name), self.ty(ft)));
                            }
                            vs.push(format!("{{\"name\":{},\"disc\":{},\"f\":[{}]}}", esc(&v.name()), disc, fs.join(",")));
                        }
                    }
                    format!(
                        "\"k\":\"adt\",\"path\":{},\"crate\":{},\"args\":{},\"kind\":\"{}\",\"local\":{},\"v\":[{}]",
                        esc(&p), esc(&krate), args, kind, local, vs.join(",")
                    )
                }
                _ => "\"k\":\"other\"".into(),
            },
            _ => "\"k\":\"other\"".into(),
        };
        self.ty_json[id] = format!("{{\"s\":{},{}}}", s, j);
        id
    }

    fn is_target_crate(&self, k: &str) -> bool {
        k == "ronda" || k == "_ronda"
    }

    // tables of trait methods for types (used by the models of collection functions)
    fn table(&mut self, t: Ty) {
        if !self.seen_tables.insert(t) {
            return;
        }
        let id = self.ty(t);
        let mut out = vec![];
        let it = internal(self.tcx, t);
        if rustc_middle::ty::TypeVisitableExt::has_escaping_bound_vars(&it)
            || rustc_middle::ty::TypeVisitableExt::has_param(&it)
        {
            return;
        }
        // sized only
        let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
        let traits = self.iter_traits.clone();
        for (key, d) in traits {
            let Some(method) = d else { continue };
            let tr = self.tcx.parent(method);
            let needs_rhs = self.tcx.generics_of(tr).count() == 2;
            if !it.is_sized(self.tcx, env) && key != "eq" {
                continue;
            }
            let args: Vec<rustc_middle::ty::GenericArg> = if needs_rhs {
                vec![it.into(), it.into()]
            } else {
                vec![it.into()]
            };
            let iargs = self.tcx.mk_args(&args);
            if !self.implements(tr, iargs) {
                continue;
            }
            let r = rustc_middle::ty::Instance::try_resolve(self.tcx, env, method, iargs);
            if let Ok(Some(i)) = r {
                let si: Instance = stable(i);
                let n = self.inst(si);
                out.push(format!("\"{}\":{}", key, n));
            }
        }
        if !out.is_empty() {
            self.iters.insert(id, format!("{{{}}}", out.join(",")));
        }
    }

    fn implements(&self, tr: rustc_span::def_id::DefId, args: rustc_middle::ty::GenericArgsRef<'tcx>) -> bool {
        implements(self.tcx, tr, args)
    }

    fn inst(&mut self, i: Instance) -> usize {
        if let Some(n) = self.fns.get(&i) {
            return *n;
        }
        let n = self.fn_meta.len();
        self.fns.insert(i, n);
        self.fn_meta.push(String::new());
        let d = self.did(i.def.def_id());
        let tcx = self.tcx;
        let path = def_path(tcx, d);
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let vidx = match i.kind {
            InstanceKind::Virtual { idx } => idx as i64,
            _ => -1,
        };
        let krate = tcx.crate_name(d.krate).to_string();
        // the trait method this implements, if any
        let mut tm = String::new();
        if let Some(ai) = tcx.opt_associated_item(d) {
            match ai.container {
                rustc_middle::ty::AssocContainer::Trait => tm = def_path(tcx, d),
                _ => {
                    if let Some(t) = ai.trait_item_def_id() {
                        tm = def_path(tcx, t);
                    }
                }
            }
        }
        let mut selfty = "null".to_string();
        let mut self_path = String::new();
        let mut self_ty: Option<rustc_middle::ty::Ty<'tcx>> = None;
        if let Some(imp) = tcx.opt_parent(d) {
            if matches!(tcx.def_kind(imp), rustc_hir::def::DefKind::Impl { .. }) {
                let iargs = internal(tcx, i.args());
                let n = tcx.generics_of(imp).count();
                if iargs.len() >= n {
                    let sub = tcx.mk_args(&iargs[..n]);
                    let st = tcx.type_of(imp).instantiate(tcx, sub).skip_norm_wip();
                    let st = tcx.try_normalize_erasing_regions(
                        rustc_middle::ty::TypingEnv::fully_monomorphized(),
                        rustc_middle::ty::Unnormalized::new_wip(st),
                    );
                    if let Ok(st) = st {
                        self_ty = Some(st);
                        self_path = match st.kind() {
                            rustc_middle::ty::TyKind::Adt(a, _) => def_path(tcx, a.did()),
                            rustc_middle::ty::TyKind::Str => "str".into(),
                            rustc_middle::ty::TyKind::Slice(_) => "slice".into(),
                            rustc_middle::ty::TyKind::Array(..) => "array".into(),
                            _ => String::new(),
                        };
                        let s: Ty = stable(st);
                        selfty = self.ty(s).to_string();
                    }
                }
            } else if matches!(tcx.def_kind(imp), rustc_hir::def::DefKind::Trait) {
                if let Some(GenericArgKind::Type(t)) = i.args().0.iter().find(|k| matches!(k, GenericArgKind::Type(_))) {
                    selfty = self.ty(*t).to_string();
                }
            }
        }
        let span = tcx.def_span(d);
        let sm = tcx.sess.source_map();
        let lo = sm.lookup_char_pos(span.lo());
        let file = format!("{}", lo.file.name.prefer_remapped_unconditionally());
        let args = self.args(&i.args());
        let closure = matches!(tcx.def_kind(d), rustc_hir::def::DefKind::Closure);
        let vis = if d.is_local() && !closure && matches!(tcx.def_kind(d), rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn) {
            tcx.visibility(d).is_public()
        } else {
            false
        };
        let foreign = i.is_foreign_item();
        let ctor = if let rustc_hir::def::DefKind::Ctor(..) = tcx.def_kind(d) {
            let mut a = tcx.parent(d);
            if matches!(tcx.def_kind(a), rustc_hir::def::DefKind::Variant) {
                a = tcx.parent(a);
            }
            tcx.adt_def(a).variant_index_with_ctor_id(d).as_usize() as i64
        } else {
            -1
        };
        let unsafe_fn = matches!(tcx.def_kind(d), rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn)
            && tcx.fn_sig(d).skip_binder().safety() == rustc_hir::Safety::Unsafe;
        let m = format!(
            "\"name\":{},\"path\":{},\"tm\":{},\"self\":{},\"crate\":{},\"local\":{},\"kind\":\"{}\",\"vidx\":{},\"file\":{},\"line\":{},\"args\":{},\"closure\":{},\"pub\":{},\"foreign\":{},\"unsafe\":{},\"ctor\":{}",
            esc(&i.name()), esc(&path), esc(&tm), selfty, esc(&krate), d.is_local(), kind, vidx, esc(&file), lo.line, args, closure, vis, foreign, unsafe_fn, ctor
        );
        self.fn_meta[n] = m;
        let stopped = {
            let nm = i.name();
            self.stop.iter().any(|s| {
                if let Some(k) = s.strip_prefix("crate:") {
                    k == krate
                } else if let Some(k) = s.strip_prefix("trait:") {
                    tm.starts_with(k)
                } else if let Some(k) = s.strip_prefix("self:") {
                    self_path == k
                } else {
                    path.starts_with(s.as_str()) || nm.starts_with(s.as_str())
                }
            }) && !d.is_local() && !self.is_target_crate(&krate)
        };
        // consuming Iterator methods are modelled on next(), whatever the type's own version does
        let stopped = stopped || {
            let nm = tm.rsplit("::").next().unwrap_or("");
            (tm.contains("::Iterator::") || tm.contains("::DoubleEndedIterator::"))
                && !self.is_target_crate(&krate)
                && ["all", "any", "find", "find_map", "position", "rposition", "fold", "rfold", "try_fold", "try_rfold", "try_for_each",
                    "for_each", "count", "last", "nth", "nth_back", "eq", "ne", "lt", "le", "gt", "ge", "cmp", "partial_cmp", "sum", "product", "max",
                    "min", "max_by", "min_by", "max_by_key", "min_by_key", "reduce", "is_sorted", "advance_by", "size_hint", "rfind",
                    "partition", "unzip", "cmp_by", "partial_cmp_by", "eq_by", "collect_into"].contains(&nm)
        };
        if !stopped {
            self.queue.push_back((n, i));
        } else {
            // models of stopped functions may need trait methods of their type arguments
            for a in i.args().0.iter() {
                if let GenericArgKind::Type(t) = a {
                    self.want_tables(*t, 0);
                }
            }
            if let Some(st) = self_ty {
                let s: Ty = stable(st);
                self.want_tables(s, 0);
            }
        }
        n
    }

    fn want_tables(&mut self, t: Ty, depth: usize) {
        if depth > 3 {
            return;
        }
        self.pending_tables.push(t);
        let k = t.kind();
        match k.rigid() {
            Some(RigidTy::Ref(_, i, _)) | Some(RigidTy::Slice(i)) | Some(RigidTy::Array(i, _)) => self.want_tables(*i, depth + 1),
            Some(RigidTy::Adt(d, a)) if !d.krate().is_local => {
                let n = d.krate().name.to_string();
                if n == "core" || n == "alloc" || n == "std" {
                    for g in a.0.iter() {
                        if let GenericArgKind::Type(i) = g {
                            self.want_tables(*i, depth + 1);
                        }
                    }
                }
            }
            Some(RigidTy::Tuple(ts)) => {
                for i in ts {
                    self.want_tables(*i, depth + 1);
                }
            }
            _ => {}
        }
    }

    fn place(&mut self, p: &Place) -> String {
        if p.projection.is_empty() {
            return format!("[{}]", p.local);
        }
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(v) => {
                    let vi: usize = to_index(v);
                    format!("[\"d\",{}]", vi)
                }
                ProjectionElem::OpaqueCast(t) => format!("[\"oc\",{}]", self.ty(*t)),
            });
        }
        format!("[{},[{}]]", p.local, v.join(","))
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => {
                let t = self.ty(c.const_.ty());
                let v = self.konst(&c.const_);
                format!("[\"k\",{},{}]", t, v)
            }
            Operand::RuntimeChecks(_) => {
                let t = self.ty(Ty::bool_ty());
                format!("[\"k\",{},{{\"int\":0}}]", t)
            }
        }
    }

    fn konst(&mut self, c: &MirConst) -> String {
        match c.kind() {
            ConstantKind::ZeroSized => "{\"zst\":1}".into(),
            ConstantKind::Allocated(a) => self.alloc_val(a, 0, c.ty(), 0),
            ConstantKind::Ty(t) => match t.eval_target_usize() {
                Ok(n) => format!("{{\"int\":{}}}", n),
                Err(_) => match t.kind() {
                    TyConstKind::Value(ty, a) => self.alloc_val(a, 0, *ty, 0),
                    TyConstKind::ZSTValue(_) => "{\"zst\":1}".into(),
                    _ => "{\"opaque\":1}".into(),
                },
            },
            _ => "{\"opaque\":1}".into(),
        }
    }

    fn read(&self, a: &Allocation, off: usize, n: usize) -> Option<u128> {
        a.read_partial_uint(off..off + n).ok()
    }

    fn alloc_val(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> String {
        if depth > 8 {
            return "{\"opaque\":2}".into();
        }
        let size = match t.layout() {
            Ok(l) => l.shape().size.bytes(),
            Err(_) => return "{\"opaque\":3}".into(),
        };
        let kind = t.kind();
        let Some(r) = kind.rigid() else { return "{\"opaque\":4}".into() };
        match r {
            RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) => match self.read(a, off, size) {
                Some(v) => format!("{{\"int\":{}}}", v),
                None => "{\"opaque\":5}".into(),
            },
            RigidTy::Int(_) => match self.read(a, off, size) {
                Some(v) => {
                    let bits = size * 8;
                    let s = if bits < 128 && (v >> (bits - 1)) & 1 == 1 { v as i128 - (1i128 << bits) } else { v as i128 };
                    format!("{{\"int\":{}}}", s)
                }
                None => "{\"opaque\":5}".into(),
            },
            RigidTy::FnDef(..) => "{\"zst\":1}".into(),
            RigidTy::FnPtr(_) => {
                for (o, p) in &a.provenance.ptrs {
                    if *o == off {
                        if let GlobalAlloc::Function(i) = GlobalAlloc::from(p.0) {
                            return format!("{{\"fn\":{}}}", self.inst(i));
                        }
                    }
                }
                "{\"opaque\":6}".into()
            }
            RigidTy::Ref(_, inner, _) | RigidTy::RawPtr(inner, _) => {
                let mut target = None;
                for (o, p) in &a.provenance.ptrs {
                    if *o == off {
                        target = Some(p.0);
                    }
                }
                let Some(al) = target else {
                    return match self.read(a, off, 8) {
                        Some(v) => format!("{{\"dangling\":{}}}", v),
                        None => "{\"opaque\":7}".into(),
                    };
                };
                let toff = self.read(a, off, 8).unwrap_or(0) as usize;
                match GlobalAlloc::from(al) {
                    GlobalAlloc::Memory(m) => match inner.kind().rigid() {
                        Some(RigidTy::Str) => {
                            let len = self.read(a, off + 8, 8).unwrap_or(0) as usize;
                            let b: Vec<u8> = m.bytes[toff..toff + len].iter().map(|x| x.unwrap_or(0)).collect();
                            match String::from_utf8(b) {
                                Ok(s) => format!("{{\"str\":{}}}", esc(&s)),
                                Err(_) => "{\"opaque\":8}".into(),
                            }
                        }
                        Some(RigidTy::Slice(e)) => {
                            let len = self.read(a, off + 8, 8).unwrap_or(0) as usize;
                            let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                            if len > 4096 {
                                return "{\"opaque\":9}".into();
                            }
                            if matches!(e.kind().rigid(), Some(RigidTy::Uint(UintTy::U8))) {
                                let b: Vec<String> = m.bytes[toff..toff + len].iter().map(|x| x.unwrap_or(0).to_string()).collect();
                                return format!("{{\"bytes\":[{}]}}", b.join(","));
                            }
                            let v: Vec<String> = (0..len).map(|k| self.alloc_val(&m, toff + k * es, *e, depth + 1)).collect();
                            format!("{{\"slice\":[{}]}}", v.join(","))
                        }
                        Some(RigidTy::Dynamic(..)) => "{\"opaque\":10}".into(),
                        Some(RigidTy::Array(e, _)) if matches!(e.kind().rigid(), Some(RigidTy::Uint(UintTy::U8))) => {
                            let b: Vec<String> = m.bytes[toff..].iter().map(|x| x.unwrap_or(0).to_string()).collect();
                            format!("{{\"bytes\":[{}]}}", b.join(","))
                        }
                        _ => {
                            let v = self.alloc_val(&m, toff, *inner, depth + 1);
                            format!("{{\"ref\":{}}}", v)
                        }
                    },
                    GlobalAlloc::Static(s) => {
                        let id = self.stat(s);
                        format!("{{\"static\":{}}}", esc(&id))
                    }
                    GlobalAlloc::Function(i) => format!("{{\"fn\":{}}}", self.inst(i)),
                    _ => "{\"opaque\":11}".into(),
                }
            }
            RigidTy::Tuple(ts) => {
                let Ok(l) = t.layout() else { return "{\"opaque\":12}".into() };
                let offs = field_offsets(&l.shape().fields);
                let v: Vec<String> = ts
                    .iter()
                    .enumerate()
                    .map(|(k, ft)| self.alloc_val(a, off + offs.get(k).copied().unwrap_or(0), *ft, depth + 1))
                    .collect();
                format!("{{\"tuple\":[{}]}}", v.join(","))
            }
            RigidTy::Array(e, n) => {
                let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                if n > 4096 {
                    return "{\"opaque\":13}".into();
                }
                let v: Vec<String> = (0..n).map(|k| self.alloc_val(a, off + k * es, *e, depth + 1)).collect();
                format!("{{\"array\":[{}]}}", v.join(","))
            }
            RigidTy::Adt(d, args) => {
                let it = internal(self.tcx, t);
                let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
                let Ok(l) = self.tcx.layout_of(env.as_query_input(it)) else { return "{\"opaque\":14}".into() };
                use rustc_middle::ty::layout::LayoutCx;
                let lcx = LayoutCx::new(self.tcx, env);
                let vidx: usize = match d.kind() {
                    AdtKind::Enum => {
                        use rustc_public::abi::VariantsShape as V;
                        let Ok(sl) = t.layout() else { return "{\"opaque\":15}".into() };
                        match &sl.shape().variants {
                            V::Single { index } => to_index(index),
                            V::Empty => return "{\"opaque\":16}".into(),
                            V::Multiple { tag, tag_encoding, tag_field, .. } => {
                                let offs = field_offsets(&sl.shape().fields);
                                let toff = offs.get(*tag_field).copied().unwrap_or(0);
                                let sz = scalar_size(tag);
                                // a niche holding a pointer: reading fails when it has provenance
                                let has_ptr = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                                let raw = if has_ptr { None } else { self.read(a, off + toff, sz) };
                                match tag_encoding {
                                    rustc_public::abi::TagEncoding::Direct => {
                                        let Some(raw) = raw else { return "{\"opaque\":17}".into() };
                                        let mask = if sz >= 16 { u128::MAX } else { (1u128 << (sz * 8)) - 1 };
                                        let mut found = None;
                                        for (k, v) in d.variants().iter().enumerate() {
                                            if d.discriminant_for_variant(v.idx()).val & mask == raw {
                                                found = Some(k);
                                            }
                                        }
                                        match found {
                                            Some(k) => k,
                                            None => return "{\"opaque\":18}".into(),
                                        }
                                    }
                                    rustc_public::abi::TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                        let u: usize = to_index(untagged_variant);
                                        let lo: usize = to_index(niche_variants.start());
                                        let hi: usize = to_index(niche_variants.end());
                                        match raw {
                                            None => u,
                                            Some(raw) => {
                                                let mask = if sz >= 16 { u128::MAX } else { (1u128 << (sz * 8)) - 1 };
                                                let rel = raw.wrapping_sub(*niche_start) & mask;
                                                if rel <= (hi - lo) as u128 { lo + rel as usize } else { u }
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                    _ => 0,
                };
                let ly = rustc_middle::ty::layout::TyAndLayout { ty: it, layout: l.layout };
                let vl = if d.kind() == AdtKind::Enum {
                    ly.for_variant(&lcx, vidx.into())
                } else {
                    ly
                };
                let vs = d.variants();
                let mut out = vec![];
                for (k, f) in vs[vidx].fields().iter().enumerate() {
                    let fo = vl.fields.offset(k).bytes() as usize;
                    let ft = f.ty_with_args(args);
                    out.push(self.alloc_val(a, off + fo, ft, depth + 1));
                }
                format!("{{\"adt\":{},\"f\":[{}]}}", vidx, out.join(","))
            }
            RigidTy::Closure(..) if size == 0 => "{\"zst\":1}".into(),
            _ => "{\"opaque\":19}".into(),
        }
    }

    fn stat(&mut self, s: StaticDef) -> String {
        let p = def_path(self.tcx, self.did(s.def_id()));
        if !self.statics.contains_key(&p) {
            self.statics.insert(p.clone(), "null".into());
            let t = s.ty();
            let tid = self.ty(t);
            let d = self.did(s.def_id());
            let v = if self.tcx.is_foreign_item(d) || self.tcx.is_thread_local_static(d) || !(d.is_local() || self.tcx.crate_name(d.krate).as_str() == "ronda") {
                "{\"opaque\":20}".into()
            } else {
                match s.eval_initializer() {
                    Ok(a) => self.alloc_val(&a, 0, t, 0),
                    Err(_) => "{\"opaque\":20}".into(),
                }
            };
            let mu = self.tcx.is_mutable_static(d);
            let tl = self.tcx.is_thread_local_static(d);
            let frz = {
                let it = internal(self.tcx, t);
                it.is_freeze(self.tcx, rustc_middle::ty::TypingEnv::fully_monomorphized())
            };
            self.statics.insert(p.clone(), format!(
                "{{\"ty\":{},\"v\":{},\"mut\":{},\"tls\":{},\"freeze\":{},\"local\":{}}}",
                tid, v, mu, tl, frz, d.is_local()));
        }
        p
    }

    fn rvalue(&mut self, r: &Rvalue, body: &Body) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::Reborrow(_, m, p) => format!("[\"reb\",{},{}]", *m == Mutability::Mut, self.place(p)),
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::BinaryOp(op, a, b) => format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b)),
            Rvalue::CheckedBinaryOp(op, a, b) => format!("[\"chk\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b)),
            Rvalue::UnaryOp(op, a) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(a)),
            Rvalue::Discriminant(p) => format!("[\"disc\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => format!("[\"rep\",{},{}]", self.operand(o), n.eval_target_usize().unwrap_or(0)),
            Rvalue::ThreadLocalRef(c) => format!("[\"tls\",{}]", esc(&c.name())),
            Rvalue::Aggregate(k, ops) => {
                let ks = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, a, _, _) => {
                        let t = d.ty_with_args(a);
                        format!("[\"adt\",{},{}]", self.ty(t), to_index(v))
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(*d, a.clone());
                        format!("[\"closure\",{}]", self.ty(t))
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},{}]", ks, list(ops, |o| self.operand(o)))
            }
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(body.locals()).ok();
                let mut extra = String::new();
                if let (CastKind::PointerCoercion(PointerCoercion::Unsize), Some(ft)) = (k, from) {
                    if let Some(vt) = self.vtable(ft, *t) {
                        extra = format!(",{}", vt);
                    }
                }
                if let (CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)), Some(ft)) = (k, from) {
                    if let Some(RigidTy::FnDef(d, a)) = ft.kind().rigid() {
                        if let Ok(i) = Instance::resolve_for_fn_ptr(*d, a) {
                            extra = format!(",{{\"fn\":{}}}", self.inst(i));
                        }
                    }
                }
                if let (CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)), Some(ft)) = (k, from) {
                    if let Some(RigidTy::Closure(d, a)) = ft.kind().rigid() {
                        if let Ok(i) = Instance::resolve_closure(*d, a, ClosureKind::FnOnce) {
                            extra = format!(",{{\"fn\":{}}}", self.inst(i));
                        }
                    }
                }
                let ks = match k {
                    CastKind::PointerCoercion(p) => format!("{:?}", p),
                    k => format!("{:?}", k),
                };
                let fty = match from { Some(f) => self.ty(f).to_string(), None => "null".into() };
                format!("[\"cast\",{},{},{},{}{}]", esc(&ks), self.operand(o), self.ty(*t), fty, extra)
            }
        }
    }

    fn vtable(&mut self, from: Ty, to: Ty) -> Option<String> {
        fn pointee(t: Ty) -> Option<Ty> {
            match t.kind().rigid()? {
                RigidTy::Ref(_, t, _) | RigidTy::RawPtr(t, _) => Some(*t),
                RigidTy::Adt(_, a) => a.0.iter().find_map(|k| if let GenericArgKind::Type(t) = k { Some(*t) } else { None }),
                _ => None,
            }
        }
        let (f, t) = (pointee(from)?, pointee(to)?);
        let k = t.kind();
        let RigidTy::Dynamic(..) = k.rigid()? else { return None };
        let principal = k.trait_principal()?;
        let tr = principal.with_self_ty(f);
        if !tr.bound_vars.is_empty() {
            // higher-ranked (Fn(&str)): instantiate by erasing
        }
        let itr = internal(self.tcx, tr);
        let itr = self.tcx.instantiate_bound_regions_with_erased(itr);
        let entries = self.tcx.vtable_entries(itr);
        let mut v = vec![];
        for e in entries {
            v.push(match e {
                rustc_middle::ty::vtable::VtblEntry::Method(i) => {
                    let si: Instance = stable(*i);
                    self.inst(si).to_string()
                }
                _ => "null".to_string(),
            });
        }
        Some(format!("{{\"vt\":[{}],\"for\":{}}}", v.join(","), self.ty(f)))
    }

    fn line(&self, s: Span) -> usize {
        s.get_lines().start_line
    }

    fn body(&mut self, _i: Instance, b: &Body) -> String {
        let mut out = String::new();
        let locals = list(b.locals(), |l| self.ty(l.ty).to_string());
        let _ = write!(out, "\"argc\":{},\"spread\":{},\"locals\":{},", b.arg_locals().len(),
            b.spread_arg().map(|x| x as i64).unwrap_or(-1), locals);
        let vars: Vec<String> = b.var_debug_info.iter().filter_map(|v| v.local().map(|l| format!("[{},{}]", l, esc(&v.name)))).collect();
        let _ = write!(out, "\"vars\":[{}],\"blocks\":[", vars.join(","));
        for (k, bb) in b.blocks.iter().enumerate() {
            if k > 0 {
                out.push(',');
            }
            out.push_str("[[");
            let mut first = true;
            for s in &bb.statements {
                let j = match &s.kind {
                    StatementKind::Assign(p, r) => {
                        format!("[\"=\",{},{},{}]", self.place(p), self.rvalue(r, b), self.line(s.source_info.span))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("[\"sd\",{},{}]", self.place(place), to_index(variant_index))
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        format!("[\"cno\",{},{},{}]", self.operand(&c.src), self.operand(&c.dst), self.operand(&c.count))
                    }
                    _ => continue,
                };
                if !first {
                    out.push(',');
                }
                first = false;
                out.push_str(&j);
            }
            out.push_str("],");
            let t = &bb.terminator;
            let ln = self.line(t.source_info.span);
            let u = |a: &UnwindAction| match a {
                UnwindAction::Cleanup(b) => b.to_string(),
                _ => "null".to_string(),
            };
            let j = match &t.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br = list(targets.branches(), |(v, t)| format!("[{},{}]", v, t));
                    let ty = discr.ty(b.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    format!("[\"switch\",{},{},{},{}]", self.operand(discr), br, targets.otherwise(), ty)
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let ty = place.ty(b.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    format!("[\"drop\",{},{},{}]", self.place(place), target, ty)
                }
                TerminatorKind::Call { func, args, destination, target, unwind } => {
                    let callee = match func.ty(b.locals()).map(|t| t.kind()) {
                        Ok(TyKind::RigidTy(RigidTy::FnDef(d, a))) => match Instance::resolve(d, &a) {
                            Ok(i) => self.inst(i).to_string(),
                            Err(_) => "null".into(),
                        },
                        _ => "null".into(),
                    };
                    let f = if callee == "null" { self.operand(func) } else { "null".into() };
                    let a = list(args, |o| self.operand(o));
                    format!("[\"call\",{},{},{},{},{},{},{}]", callee, f, a, self.place(destination),
                        target.map(|t| t.to_string()).unwrap_or("null".into()), ln, u(unwind))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { len, index } => format!("[\"bounds\",{},{}]", self.operand(len), self.operand(index)),
                        m => format!("[\"other\",{}]", esc(m.description().unwrap_or("assert"))),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", self.operand(cond), expected, m, target, ln)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            out.push_str(&j);
            out.push(']');
        }
        out.push(']');
        out
    }

    fn drain_tables(&mut self) {
        while let Some(t) = self.pending_tables.pop() {
            self.table(t);
        }
    }

    fn drain(&mut self) {
        loop {
            self.drain_tables();
            let Some((n, i)) = self.queue.pop_front() else { break };
            self.depth += 1;
            if self.depth > 60000 {
                eprintln!("lv: too many instances");
                break;
            }
            if matches!(i.kind, InstanceKind::Virtual { .. }) || matches!(i.kind, InstanceKind::LlvmIntrinsic) {
                continue;
            }
            if i.kind == InstanceKind::Intrinsic && !i.has_body() {
                continue;
            }
            if i.kind == InstanceKind::Item && !i.has_body() {
                continue;
            }
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| i.body())) {
                Ok(Some(b)) => {
                    let s = self.body(i, &b);
                    self.fn_body.insert(n, s);
                }
                Ok(None) => {}
                Err(_) => eprintln!("lv: no body for {}", i.name()),
            }
        }
    }
}

fn implements<'tcx>(tcx: TyCtxt<'tcx>, tr: rustc_span::def_id::DefId, args: rustc_middle::ty::GenericArgsRef<'tcx>) -> bool {
    use rustc_infer::infer::TyCtxtInferExt;
    use rustc_trait_selection::infer::InferCtxtExt;
    let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
    let (infcx, param_env) = tcx.infer_ctxt().build_with_typing_env(env);
    infcx.type_implements_trait(tr, args.iter(), param_env).must_apply_modulo_regions()
}

fn to_index<T: Clone + IdxLike>(v: &T) -> usize {
    v.idx()
}
trait IdxLike {
    fn idx(&self) -> usize;
}
impl IdxLike for VariantIdx {
    fn idx(&self) -> usize {
        use rustc_public_bridge::IndexedVal;
        self.to_index()
    }
}

fn field_offsets(f: &rustc_public::abi::FieldsShape) -> Vec<usize> {
    match f {
        rustc_public::abi::FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
        _ => vec![],
    }
}

fn scalar_size(s: &rustc_public::abi::Scalar) -> usize {
    use rustc_public::abi::{Primitive, Scalar};
    let p = match s {
        Scalar::Initialized { value, .. } => value,
        Scalar::Union { value } => value,
    };
    match p {
        Primitive::Int { length, .. } => match length {
            rustc_public::abi::IntegerLength::I8 => 1,
            rustc_public::abi::IntegerLength::I16 => 2,
            rustc_public::abi::IntegerLength::I32 => 4,
            rustc_public::abi::IntegerLength::I64 => 8,
            rustc_public::abi::IntegerLength::I128 => 16,
        },
        _ => 8,
    }
}

fn find_trait_method(tcx: TyCtxt<'_>, krate: &str, path: &[&str], method: &str) -> Option<rustc_span::def_id::DefId> {
    // resolve crate::a::b::Trait::method through module children
    let cnum = tcx.crates(()).iter().copied().find(|c| tcx.crate_name(*c).as_str() == krate)?;
    let mut cur = cnum.as_def_id();
    for seg in path {
        let mut next = None;
        for ch in tcx.module_children(cur) {
            if ch.ident.as_str() == *seg {
                if let Some(d) = ch.res.opt_def_id() {
                    let k = tcx.def_kind(d);
                    if matches!(k, rustc_hir::def::DefKind::Mod | rustc_hir::def::DefKind::Trait) {
                        next = Some(d);
                    }
                }
            }
        }
        cur = next?;
    }
    tcx.associated_item_def_ids(cur).iter().copied().find(|d| tcx.item_name(*d).as_str() == method)
}

fn export(tcx: TyCtxt<'_>) -> ControlFlow<(), ()> {
    let name = rustc_public::local_crate().name.to_string();
    let pkg = std::env::var("CARGO_PKG_NAME").unwrap_or_default();
    let out_dir = std::env::var("LV_OUT").unwrap();
    let stop: Vec<String> = std::env::var("LV_STOP")
        .ok()
        .and_then(|p| std::fs::read_to_string(p).ok())
        .map(|s| s.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty() && !l.starts_with('#')).collect())
        .unwrap_or_default();
    let iter_traits = vec![
        ("next", find_trait_method(tcx, "core", &["iter", "Iterator"], "next")),
        ("next_back", find_trait_method(tcx, "core", &["iter", "DoubleEndedIterator"], "next_back")),
        ("into_iter", find_trait_method(tcx, "core", &["iter", "IntoIterator"], "into_iter")),
        ("eq", find_trait_method(tcx, "core", &["cmp", "PartialEq"], "eq")),
        ("pcmp", find_trait_method(tcx, "core", &["cmp", "PartialOrd"], "partial_cmp")),
        ("cmp", find_trait_method(tcx, "core", &["cmp", "Ord"], "cmp")),
        ("clone", find_trait_method(tcx, "core", &["clone", "Clone"], "clone")),
        ("display", find_trait_method(tcx, "core", &["fmt", "Display"], "fmt")),
        ("debug", find_trait_method(tcx, "core", &["fmt", "Debug"], "fmt")),
        ("from_str", find_trait_method(tcx, "core", &["str", "FromStr"], "from_str")),
        ("default", find_trait_method(tcx, "core", &["default", "Default"], "default")),
    ];
    let mut cx = Cx {
        tcx,
        tys: HashMap::new(),
        ty_json: vec![],
        fns: HashMap::new(),
        fn_meta: vec![],
        fn_body: BTreeMap::new(),
        queue: VecDeque::new(),
        stop,
        statics: HashMap::new(),
        iters: HashMap::new(),
        iter_traits,
        seen_tables: HashSet::new(),
        depth: 0,
        pending_tables: vec![],
    };
    // roots: every local function without generic parameters
    let mut roots = vec![];
    let mut generic = vec![];
    let mut items: Vec<CrateItem> = rustc_public::all_local_items();
    items.sort_by_key(|i| i.name());
    for it in items {
        match it.kind() {
            ItemKind::Fn => {
                let d = internal(tcx, it.def_id());
                if tcx.is_closure_like(d) || matches!(tcx.def_kind(d), rustc_hir::def::DefKind::Closure) {
                    continue;
                }
                if it.requires_monomorphization() {
                    let g = tcx.generics_of(d);
                    generic.push(esc(&def_path(tcx, d)));
                    // known generic entry points are instantiated with &str for every type parameter
                    let ar = rustc_middle::ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
                        rustc_middle::ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                        _ => rustc_middle::ty::Ty::new_static_str(tcx).into(),
                    });
                    let _ = g;
                    // only if the bounds hold
                    let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
                    let preds = tcx.clauses_of(d).instantiate(tcx, ar);
                    let ok = preds.clauses.iter().all(|c| {
                        let c = c.clone().skip_norm_wip();
                        match c.as_trait_clause() {
                            Some(t) => {
                                let tr = tcx.instantiate_bound_regions_with_erased(t).trait_ref;
                                let tr = tcx.erase_and_anonymize_regions(tr);
                                if rustc_middle::ty::TypeVisitableExt::has_param(&tr) { return false; }
                                implements(tcx, tr.def_id, tr.args)
                                    || Some(tr.def_id) == tcx.lang_items().sized_trait()
                            }
                            None => true,
                        }
                    });
                    if ok {
                        if let Ok(Some(i)) = rustc_middle::ty::Instance::try_resolve(tcx, env, d, ar) {
                            let n = cx.inst(stable(i));
                            roots.push(n);
                        }
                    }
                    continue;
                }
                if let Ok(i) = Instance::try_from(it) {
                    let n = cx.inst(i);
                    roots.push(n);
                }
            }
            ItemKind::Static => {
                if let Ok(s) = StaticDef::try_from(it) {
                    cx.stat(s);
                }
            }
            _ => {}
        }
    }
    cx.drain();
    // local ADTs and trait impls
    let mut adts = vec![];
    for d in tcx.hir_crate_items(()).definitions() {
        let k = tcx.def_kind(d);
        if matches!(k, rustc_hir::def::DefKind::Struct | rustc_hir::def::DefKind::Enum) {
            let did = d.to_def_id();
            let generics = tcx.generics_of(did).requires_monomorphization(tcx);
            let vis = tcx.visibility(did).is_public();
            let adt = tcx.adt_def(did);
            let mut fields = vec![];
            for v in adt.variants() {
                for f in &v.fields {
                    fields.push(format!("[{},{},{}]", esc(v.name.as_str()), esc(f.name.as_str()), f.vis.is_public()));
                }
            }
            let ty = if generics { "null".into() } else {
                let t: Ty = stable(tcx.type_of(did).instantiate_identity().skip_norm_wip());
                cx.ty(t).to_string()
            };
            let auto = |tr: Option<rustc_span::def_id::DefId>| -> String {
                if generics { return "null".into(); }
                let t = tcx.erase_and_anonymize_regions(tcx.type_of(did).instantiate_identity().skip_norm_wip());
                match tr {
                    Some(tr) => implements(tcx, tr, tcx.mk_args(&[t.into()])).to_string(),
                    None => "null".into(),
                }
            };
            adts.push(format!("{{\"path\":{},\"pub\":{},\"generic\":{},\"ty\":{},\"send\":{},\"sync\":{},\"clone\":{},\"fields\":[{}]}}",
                esc(&def_path(tcx, did)), vis, generics, ty,
                auto(tcx.get_diagnostic_item(rustc_span::sym::Send)), auto(tcx.lang_items().sync_trait()), auto(tcx.lang_items().clone_trait()),
                fields.join(",")));
        }
    }
    let mut impls = vec![];
    for (tr, imps) in tcx.all_local_trait_impls(()) {
        for im in imps {
            let st = tcx.type_of(*im).instantiate_identity().skip_norm_wip();
            impls.push(format!("[{},{},{}]", esc(&def_path(tcx, *tr)), esc(&format!("{}", st)),
                tcx.is_automatically_derived(im.to_def_id())));
        }
    }
    impls.sort();
    cx.drain();
    let mut s = String::new();
    let _ = write!(s, "{{\"crate\":{},\"roots\":{},\"generic\":[{}],", esc(&name), list(roots, |n| n.to_string()), generic.join(","));
    let _ = write!(s, "\"adts\":[{}],\n\"impls\":[{}],\n", adts.join(",\n"), impls.join(",\n"));
    let mut st: Vec<_> = cx.statics.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    st.sort();
    let _ = write!(s, "\"statics\":{{{}}},\n", st.join(",\n"));
    let _ = write!(s, "\"types\":[\n{}\n],\n", cx.ty_json.join(",\n"));
    let mut ts: Vec<_> = cx.iters.iter().collect();
    ts.sort();
    let ts: Vec<String> = ts.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    let _ = write!(s, "\"tables\":{{{}}},\n\"fns\":[\n", ts.join(",\n"));
    for (n, m) in cx.fn_meta.iter().enumerate() {
        if n > 0 {
            s.push_str(",\n");
        }
        match cx.fn_body.get(&n) {
            Some(b) => {
                let _ = write!(s, "{{{},{}}}", m, b);
            }
            None => {
                let _ = write!(s, "{{{}}}", m);
            }
        }
    }
    s.push_str("\n]}\n");
    std::fs::create_dir_all(&out_dir).ok();
    let tmp = format!("{}/{}.json.tmp{}", out_dir, pkg, std::process::id());
    std::fs::write(&tmp, s).unwrap();
    std::fs::rename(&tmp, format!("{}/{}.json", out_dir, pkg)).unwrap();
    // nothing else of this process is wanted: the real rustc has already run
    std::process::exit(0)
}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc, which does the actual compilation
    let mut args: Vec<String> = std::env::args().collect();
    let real = args.remove(1);
    let st = std::process::Command::new(&real).args(&args[1..]).status().expect("rustc");
    if !st.success() {
        std::process::exit(st.code().unwrap_or(1));
    }
    let probing = args.iter().any(|a| a == "-vV" || a == "--print" || a.starts_with("--print=") || a == "___");
    let pkg = std::env::var("CARGO_PKG_NAME").unwrap_or_default();
    let wanted = std::env::var("LV_CRATES").unwrap_or_default().split(',').any(|t| t == pkg)
        && std::env::var("LV_OUT").is_ok()
        && args.windows(2).any(|w| w[0] == "--crate-name" && w[1] != "build_script_build");
    if probing || !wanted {
        return;
    }
    let _ = rustc_public::run_with_tcx!(&args, export);
    std::process::exit(1);
}
