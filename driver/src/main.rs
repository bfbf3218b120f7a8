//! vxfacts: a rustc driver that type-checks a crate exactly as cargo asked and writes the
//! compiler's own view of it (MIR as built from the source, resolved callees, impls, ADTs,
//! evaluated constants) as JSON facts.  It knows nothing about any property.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::io;
use std::path::{Path, PathBuf};
use std::sync::Arc;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::source_map::{FileLoader, RealFileLoader};
use rustc_span::Span;

thread_local! {
    static BODIES: RefCell<Vec<(LocalDefId, Body<'static>)>> = RefCell::new(Vec::new());
}
static mut ORIG: Option<for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>>> = None;

fn my_mir_built<'tcx>(tcx: TyCtxt<'tcx>, def: LocalDefId) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>> {
    let orig = unsafe { ORIG.unwrap() };
    let r = orig(tcx, def);
    let b: Body<'tcx> = r.borrow().clone();
    // SAFETY: only used while the same TyCtxt is alive (in after_analysis).
    let b: Body<'static> = unsafe { std::mem::transmute(b) };
    BODIES.with(|v| v.borrow_mut().push((def, b)));
    r
}

/// The repository is pinned to a 2024 nightly; the one API change that stops it type-checking on
/// the installed rustc-dev nightly (array_chunks' into_remainder now returns the iterator itself)
/// is bridged in memory, nothing else is rewritten.
struct Loader;
impl Loader {
    fn patch(&self, path: &Path, s: String) -> String {
        if s.contains(".into_remainder()") && path.components().any(|c| c.as_os_str() == "fastlanes") {
            let mut s = s.replace(".into_remainder()", ".into_remainder().__vx_opt()");
            s.push_str(" trait __VxOpt: Sized { fn __vx_opt(self) -> Option<Self> { Some(self) } } impl<T> __VxOpt for T {}\n");
            return s;
        }
        s
    }
}
impl FileLoader for Loader {
    fn file_exists(&self, path: &Path) -> bool { RealFileLoader.file_exists(path) }
    fn read_file(&self, path: &Path) -> io::Result<String> {
        RealFileLoader.read_file(path).map(|s| self.patch(path, s))
    }
    fn read_binary_file(&self, path: &Path) -> io::Result<Arc<[u8]>> { RealFileLoader.read_binary_file(path) }
    fn current_directory(&self) -> io::Result<PathBuf> { RealFileLoader.current_directory() }
}

// ---------------------------------------------------------------- json helpers
fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl<I: IntoIterator<Item = String>>(it: I) -> String {
    let mut o = String::from("[");
    let mut first = true;
    for s in it {
        if !first { o.push(','); }
        first = false;
        o.push_str(&s);
    }
    o.push(']');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: RefCell<BTreeSet<DefIdKey>>,
}
#[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Copy)]
struct DefIdKey(u32, u32);

impl<'tcx> Cx<'tcx> {
    fn crate_of(&self, d: DefId) -> String { self.tcx.crate_name(d.krate).to_string() }

    /// canonical path: crate::mod::item, impls printed as <Self as Trait>, stable across crates
    fn path(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let key = tcx.def_key(d);
        use rustc_hir::definitions::DefPathData as D;
        match key.disambiguated_data.data {
            D::CrateRoot => self.crate_of(d),
            D::Impl => {
                let self_ty = self.ty(tcx.type_of(d).instantiate_identity().skip_norm_wip());
                if tcx.impl_opt_trait_id(d).is_some() {
                    let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                    format!("<{} as {}>", self_ty, self.trait_ref(tr))
                } else {
                    format!("<{}>", self_ty)
                }
            }
            data => {
                let parent = tcx.opt_parent(d).map(|p| self.path(p)).unwrap_or_default();
                let name = match data {
                    D::TypeNs(n) | D::ValueNs(n) | D::MacroNs(n) | D::LifetimeNs(n) => n.to_string(),
                    D::Closure => format!("{{closure#{}}}", key.disambiguated_data.disambiguator),
                    D::Ctor => "{ctor}".to_string(),
                    D::ForeignMod => "{extern}".to_string(),
                    other => format!("{{{:?}#{}}}", other, key.disambiguated_data.disambiguator),
                };
                if key.disambiguated_data.disambiguator != 0 && !matches!(data, D::Closure) && matches!(data, D::TypeNs(_) | D::ValueNs(_)) {
                    format!("{}::{}#{}", parent, name, key.disambiguated_data.disambiguator)
                } else {
                    format!("{}::{}", parent, name)
                }
            }
        }
    }
    fn trait_ref(&self, tr: ty::TraitRef<'tcx>) -> String {
        let args: Vec<String> = tr.args.iter().skip(1).filter_map(|a| self.garg(a)).collect();
        if args.is_empty() { self.path(tr.def_id) } else { format!("{}<{}>", self.path(tr.def_id), args.join(", ")) }
    }
    fn garg(&self, a: ty::GenericArg<'tcx>) -> Option<String> {
        if let Some(t) = a.as_type() { return Some(self.ty(t)); }
        if let Some(c) = a.as_const() { return Some(format!("{}", c)); }
        None
    }
    fn gargs(&self, args: GenericArgsRef<'tcx>) -> Vec<String> { args.iter().filter_map(|a| self.garg(a)).collect() }

    fn ty(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(d, args) => {
                if d.did().is_local() { /* always exported */ } else {
                    self.adts.borrow_mut().insert(DefIdKey(d.did().krate.as_u32(), d.did().index.as_u32()));
                }
                let a = self.gargs(args);
                if a.is_empty() { self.path(d.did()) } else { format!("{}<{}>", self.path(d.did()), a.join(", ")) }
            }
            ty::Ref(_, t, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, self.ty(*t)),
            ty::RawPtr(t, m) => format!("*{} {}", if m.is_mut() { "mut" } else { "const" }, self.ty(*t)),
            ty::Slice(t) => format!("[{}]", self.ty(*t)),
            ty::Array(t, n) => format!("[{}; {}]", self.ty(*t), n.try_to_target_usize(self.tcx).map(|v| v.to_string()).unwrap_or_else(|| format!("{}", n))),
            ty::Tuple(ts) => format!("({})", ts.iter().map(|t| self.ty(t)).collect::<Vec<_>>().join(", ")),
            ty::FnDef(d, args) => { let a = self.gargs(args.no_bound_vars().unwrap_or_default()); format!("fn:{}<{}>", self.path(*d), a.join(", ")) }
            ty::Closure(d, _) | ty::Coroutine(d, _) | ty::CoroutineClosure(d, _) => format!("closure:{}", self.path(*d)),
            ty::Dynamic(preds, ..) => {
                let mut v = vec![];
                for p in preds.iter() {
                    match p.skip_binder() {
                        ty::ExistentialPredicate::Trait(t) => {
                            let args: Vec<String> = t.args.iter().filter_map(|a| self.garg(a)).collect();
                            v.push(if args.is_empty() { self.path(t.def_id) } else { format!("{}<{}>", self.path(t.def_id), args.join(", ")) });
                        }
                        ty::ExistentialPredicate::AutoTrait(d) => v.push(self.path(d)),
                        _ => {}
                    }
                }
                format!("dyn {}", v.join(" + "))
            }
            ty::Alias(_, a) => {
                let args = self.gargs(a.args);
                let d: DefId = match a.kind {
                    ty::AliasTyKind::Projection { def_id } => def_id.into(),
                    ty::AliasTyKind::Inherent { def_id } => def_id.into(),
                    ty::AliasTyKind::Opaque { def_id } => def_id.into(),
                    ty::AliasTyKind::Free { def_id } => def_id.into(),
                };
                format!("alias:{}<{}>", self.path(d), args.join(", "))
            }
            ty::Param(p) => p.name.to_string(),
            ty::FnPtr(..) => "fnptr".to_string(),
            ty::Never => "!".to_string(),
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str => format!("{}", t),
            other => format!("{:?}", other),
        }
    }

    // ------------------------------------------------------------ constants
    fn const_value(&self, c: ConstValue, t: Ty<'tcx>, depth: usize) -> Option<String> {
        let tcx = self.tcx;
        if depth > 5 { return None; }
        match t.kind() {
            ty::Bool | ty::Int(_) | ty::Uint(_) | ty::Char => {
                let si = c.try_to_scalar_int()?;
                let bits = si.to_bits(si.size());
                let v: String = match t.kind() {
                    ty::Int(_) => si.to_int(si.size()).to_string(),
                    ty::Bool => (bits != 0).to_string(),
                    _ => bits.to_string(),
                };
                // keep big ints as strings to survive JSON readers
                if v.len() > 15 { Some(format!("{{\"big\":{}}}", js(&v))) } else { Some(v) }
            }
            ty::Float(_) => {
                let si = c.try_to_scalar_int()?;
                let bits = si.to_bits(si.size());
                Some(format!("{{\"fbits\":{}}}", js(&format!("{:x}", bits))))
            }
            ty::Ref(_, inner, _) => {
                if let ty::Str = inner.kind() {
                    let b = c.try_get_slice_bytes_for_diagnostics(tcx)?;
                    return Some(js(&String::from_utf8_lossy(b)));
                }
                if let ty::Slice(e) = inner.kind() {
                    if *e == tcx.types.u8 {
                        let b = c.try_get_slice_bytes_for_diagnostics(tcx)?;
                        return Some(format!("{{\"bytes\":{}}}", jl(b.iter().map(|x| x.to_string()))));
                    }
                }
                if let Some(Scalar::Ptr(p, _)) = c.try_to_scalar() {
                    let (prov, off) = p.prov_and_relative_offset();
                    match tcx.global_alloc(prov.alloc_id()) {
                        GlobalAlloc::Static(d) => return Some(format!("{{\"static\":{}}}", js(&self.path(d)))),
                        GlobalAlloc::Memory(a) => {
                            if let ty::Array(e, _) = inner.kind() {
                                if *e == tcx.types.u8 && off.bytes() == 0 {
                                    let al = a.inner();
                                    let b = al.inspect_with_uninit_and_ptr_outside_interpreter(0..al.len());
                                    return Some(format!("{{\"bytes\":{}}}", jl(b.iter().map(|x| x.to_string()))));
                                }
                            }
                            let cv = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                            return self.const_value(cv, *inner, depth + 1).map(|v| format!("{{\"ref\":{}}}", v));
                        }
                        GlobalAlloc::Function { instance, .. } => return Some(format!("{{\"fn\":{}}}", js(&self.path(instance.def_id())))),
                        _ => return None,
                    }
                }
                None
            }
            ty::RawPtr(..) => {
                if let Some(Scalar::Ptr(p, _)) = c.try_to_scalar() {
                    if let GlobalAlloc::Static(d) = tcx.global_alloc(p.provenance.alloc_id()) {
                        return Some(format!("{{\"static\":{}}}", js(&self.path(d))));
                    }
                }
                None
            }
            ty::Adt(def, _) => {
                if def.is_union() { return None; }
                let d = tcx.try_destructure_mir_constant_for_user_output(c, t)?;
                let variant = d.variant.map(|v| def.variant(v).name.to_string());
                let fields: Vec<String> = d.fields.iter().map(|(v, t)| self.const_value(*v, *t, depth + 1).unwrap_or_else(|| "null".into())).collect();
                Some(format!("{{\"adt\":{},\"var\":{},\"fields\":{}}}", js(&self.path(def.did())), variant.map(|v| js(&v)).unwrap_or("null".into()), jl(fields)))
            }
            ty::Array(..) | ty::Tuple(_) => {
                let d = tcx.try_destructure_mir_constant_for_user_output(c, t)?;
                if d.fields.len() > 512 { return None; }
                let fields: Vec<String> = d.fields.iter().map(|(v, t)| self.const_value(*v, *t, depth + 1).unwrap_or_else(|| "null".into())).collect();
                Some(format!("{{\"tup\":{}}}", jl(fields)))
            }
            _ => None,
        }
    }

    fn konst(&self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut o = String::from("{");
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.no_bound_vars().unwrap_or_default();
            let _ = write!(o, "\"fn\":{}", self.callee(*d, args, env));
            o.push('}');
            return o;
        }
        let _ = write!(o, "\"t\":{}", js(&self.ty(t)));
        let mut val: Option<String> = None;
        match c.const_ {
            mir::Const::Unevaluated(u, ty) => {
                let p = self.path(u.def);
                let _ = write!(o, ",\"d\":{}", js(&p));
                let ga = self.gargs(u.args);
                if !ga.is_empty() { let _ = write!(o, ",\"g\":{}", jl(ga.iter().map(|s| js(s)))); }
                if !u.args.has_param() {
                    if matches!(tcx.def_kind(u.def), DefKind::Const{..} | DefKind::AssocConst{..}) {
                        if let Ok(Some(i)) = Instance::try_resolve(tcx, env, u.def, u.args) {
                            let rp = self.path(i.def_id());
                            if rp != p { let _ = write!(o, ",\"r\":{}", js(&rp)); }
                        }
                    }
                    if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                        val = self.const_value(v, ty, 0);
                    }
                } else if matches!(tcx.def_kind(u.def), DefKind::AssocConst{..}) {
                    if let Ok(Some(i)) = Instance::try_resolve(tcx, env, u.def, u.args) {
                        let rp = self.path(i.def_id());
                        if rp != p { let _ = write!(o, ",\"r\":{}", js(&rp)); }
                    }
                }
            }
            mir::Const::Val(v, ty) => { val = self.const_value(v, ty, 0); }
            mir::Const::Ty(ty, cc) => {
                if let Ok(v) = c.const_.eval(tcx, env, c.span) { val = self.const_value(v, ty, 0); }
                if val.is_none() { let _ = write!(o, ",\"d\":{}", js(&format!("param:{}", cc))); }
            }
        }
        if let Some(v) = val { let _ = write!(o, ",\"v\":{}", v); }
        o.push('}');
        o
    }

    fn callee(&self, d: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let p = self.path(d);
        let mut o = format!("{{\"p\":{}", js(&p));
        let ga = self.gargs(args);
        if !ga.is_empty() { let _ = write!(o, ",\"g\":{}", jl(ga.iter().map(|s| js(s)))); }
        if tcx.trait_of_assoc(d).is_some() { o.push_str(",\"tr\":1"); }
        let mut resolved: Option<(DefId, GenericArgsRef<'tcx>)> = None;
        if matches!(tcx.def_kind(d), DefKind::AssocFn | DefKind::Fn) {
            let args2 = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(i)) = Instance::try_resolve(tcx, env, d, args2) {
                match i.def {
                    ty::InstanceKind::Item(x) => resolved = Some((x, i.args)),
                    ty::InstanceKind::Virtual(..) => o.push_str(",\"dyn\":1"),
                    _ => {}
                }
            }
        }
        if let Some((x, a)) = resolved {
            if x != d {
                let _ = write!(o, ",\"r\":{}", js(&self.path(x)));
                let rg = self.gargs(a);
                if !rg.is_empty() { let _ = write!(o, ",\"rg\":{}", jl(rg.iter().map(|s| js(s)))); }
            }
            // blanket Into / TryInto: say which From / TryFrom impl is really run
            let rp = self.path(x);
            let via = if rp.ends_with(" as core::convert::Into<U>>::into") { Some("from") }
                else if rp.ends_with(" as core::convert::TryInto<U>>::try_into") { Some("try_from") } else { None };
            if let Some(m) = via {
                let tys: Vec<Ty<'tcx>> = a.types().collect();
                if tys.len() >= 2 {
                    let trait_path = if m == "from" { "core::convert::From" } else { "core::convert::TryFrom" };
                    for tr in tcx.all_traits_including_private() {
                        if self.path(tr) == trait_path {
                            for it in tcx.associated_items(tr).in_definition_order() {
                                if it.name().as_str() == m {
                                    let ga = tcx.mk_args(&[tys[1].into(), tys[0].into()]);
                                    if let Ok(Some(i)) = Instance::try_resolve(tcx, env, it.def_id, ga) {
                                        if let ty::InstanceKind::Item(y) = i.def {
                                            let _ = write!(o, ",\"via\":{}", js(&self.path(y)));
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        o.push('}');
        o
    }

    // ------------------------------------------------------------ MIR
    fn place(&self, p: &Place<'tcx>, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let mut v = vec![p.local.as_u32().to_string()];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                PlaceElem::Deref => v.push("\"*\"".into()),
                PlaceElem::Field(i, _) => {
                    let mut nm = String::new();
                    match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if def.variants().len() > vi.as_usize() {
                                if let Some(f) = def.variant(vi).fields.get(i) { nm = f.name.to_string(); }
                            }
                        }
                        _ => {}
                    }
                    v.push(format!("[\"f\",{},{}]", i.as_u32(), js(&nm)));
                }
                PlaceElem::Index(l) => v.push(format!("[\"i\",{}]", l.as_u32())),
                PlaceElem::ConstantIndex { offset, from_end, .. } => v.push(format!("[\"ci\",{},{}]", offset, from_end)),
                PlaceElem::Subslice { from, to, from_end } => v.push(format!("[\"sub\",{},{},{}]", from, to, from_end)),
                PlaceElem::Downcast(s, i) => {
                    let nm = match pt.ty.kind() { ty::Adt(def, _) => def.variant(i).name.to_string(), _ => s.map(|s| s.to_string()).unwrap_or_default() };
                    v.push(format!("[\"v\",{},{}]", i.as_u32(), js(&nm)))
                }
                PlaceElem::OpaqueCast(_) => {}
                _ => {}
            }
            pt = pt.projection_ty(tcx, e);
        }
        jl(v)
    }
    fn op(&self, o: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p, body)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p, body)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(c, env)),
            _ => "[\"k\",{}]".to_string(),
        }
    }
    fn rv(&self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.op(o, body, env)),
            Rvalue::Repeat(o, n) => format!("[\"rep\",{},{}]", self.op(o, body, env), n.try_to_target_usize(self.tcx).map(|v| v.to_string()).unwrap_or("null".into())),
            Rvalue::Ref(_, bk, p) => {
                let k = match bk { BorrowKind::Shared => "s", BorrowKind::Fake(_) => "f", BorrowKind::Mut { .. } => "m" };
                format!("[\"ref\",\"{}\",{}]", k, self.place(p, body))
            }
            Rvalue::RawPtr(_, p) => format!("[\"ref\",\"r\",{}]", self.place(p, body)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p, body)),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{:?}", k);
                let ks = ks.split('(').next().unwrap_or("").to_string();
                format!("[\"cast\",{},{},{},{}]", js(&ks), self.op(o, body, env), js(&self.ty(o.ty(&body.local_decls, self.tcx))), js(&self.ty(*t)))
            }
            Rvalue::BinaryOp(b, ops) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(&ops.0, body, env), self.op(&ops.1, body, env)),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.op(o, body, env)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{},{}]", self.place(p, body), js(&self.ty(p.ty(&body.local_decls, self.tcx).ty))),
            Rvalue::Aggregate(k, ops) => {
                let os = jl(ops.iter().map(|o| self.op(o, body, env)));
                match &**k {
                    AggregateKind::Array(t) => format!("[\"agg\",\"array\",{},{}]", js(&self.ty(*t)), os),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",null,{}]", os),
                    AggregateKind::Adt(d, v, args, ..) => {
                        let def = self.tcx.adt_def(*d);
                        let ga = self.gargs(args);
                        format!("[\"agg\",\"adt\",{},{},{},{}]", js(&self.path(*d)), os, js(def.variant(*v).name.as_str()), jl(ga.iter().map(|s| js(s))))
                    }
                    AggregateKind::Closure(d, _) | AggregateKind::Coroutine(d, _) | AggregateKind::CoroutineClosure(d, _) =>
                        format!("[\"agg\",\"closure\",{},{}]", js(&self.path(*d)), os),
                    AggregateKind::RawPtr(..) => format!("[\"agg\",\"rawptr\",null,{}]", os),
                }
            }
            Rvalue::ThreadLocalRef(d) => format!("[\"static\",{}]", js(&self.path(*d))),
            other => format!("[\"other\",{}]", js(&format!("{:?}", other))),
        }
    }
    fn line(&self, sp: Span) -> usize {
        let sp = sp.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line
    }

    fn body(&self, def: LocalDefId, b: &Body<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        let did = def.to_def_id();
        let kind = tcx.def_kind(did);
        let env = TypingEnv::post_analysis(tcx, did);
        let root = tcx.typeck_root_def_id(did);
        // automatically derived impls: recorded as impls, bodies skipped
        if let Some(p) = tcx.opt_parent(root) {
            if matches!(tcx.def_kind(p), DefKind::Impl { .. }) && tcx.is_automatically_derived(p) { return None; }
        }
        let mut o = String::from("{");
        let _ = write!(o, "\"n\":{},\"k\":{}", js(&self.path(did)), js(&format!("{:?}", kind)));
        let sp = tcx.def_span(did).source_callsite();
        let loc = tcx.sess.source_map().lookup_char_pos(sp.lo());
        let fname = format!("{}", loc.file.name.prefer_local_unconditionally());
        let _ = write!(o, ",\"file\":{},\"line\":{}", js(&fname), loc.line);
        if tcx.def_span(did).from_expansion() { o.push_str(",\"exp\":1"); }
        if let Some(ck) = tcx.coroutine_kind(did) { let _ = write!(o, ",\"cor\":{}", js(&format!("{:?}", ck))); }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let _ = write!(o, ",\"vis\":{}", tcx.visibility(did).is_public() as u8);
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
            let _ = write!(o, ",\"unsafe\":{}", (!sig.safety().is_safe()) as u8);
            let gens = tcx.generics_of(did);
            let mut names: Vec<String> = vec![];
            let mut g = Some(gens);
            while let Some(gg) = g {
                let mut v: Vec<String> = gg.own_params.iter().filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)).map(|p| js(p.name.as_str())).collect();
                v.extend(names);
                names = v;
                g = gg.parent.map(|p| tcx.generics_of(p));
            }
            if !names.is_empty() { let _ = write!(o, ",\"gp\":{}", jl(names)); }
        }
        if let Some(p) = tcx.opt_parent(did) {
            if matches!(tcx.def_kind(p), DefKind::Impl { .. }) {
                let _ = write!(o, ",\"self\":{}", js(&self.ty(tcx.type_of(p).instantiate_identity().skip_norm_wip())));
                if tcx.impl_opt_trait_id(p).is_some() {
                    let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                    let _ = write!(o, ",\"trait\":{},\"traitref\":{}", js(&self.path(tr.def_id)), js(&self.trait_ref(tr)));
                }
            }
        }
        if matches!(kind, DefKind::Closure) {
            let ups = tcx.closure_captures(def);
            let _ = write!(o, ",\"up\":{}", jl(ups.iter().map(|c| js(&c.to_symbol().to_string()))));
        }
        let mut names: BTreeMap<u32, String> = BTreeMap::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() { names.insert(p.local.as_u32(), v.name.to_string()); }
            }
        }
        let _ = write!(o, ",\"args\":{}", b.arg_count);
        let _ = write!(o, ",\"locals\":{}", jl(b.local_decls.iter_enumerated().map(|(l, d)| {
            match names.get(&l.as_u32()) { Some(n) => format!("[{},{}]", js(&self.ty(d.ty)), js(n)), None => format!("[{}]", js(&self.ty(d.ty))) }
        })));
        let blocks = b.basic_blocks.iter().map(|bb| {
            let st = bb.statements.iter().filter_map(|s| match &s.kind {
                StatementKind::Assign(x) => {
                    if let Rvalue::Ref(_, BorrowKind::Fake(_), _) = x.1 { return None; }
                    Some(format!("[{},{},{}]", self.place(&x.0, b), self.rv(&x.1, b, env), self.line(s.source_info.span)))
                }
                _ => None,
            });
            let st = jl(st);
            let t = bb.terminator();
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ts = jl(targets.iter().map(|(v, t)| { let s = v.to_string(); format!("[{},{}]", if s.len() > 15 { js(&s) } else { s }, t.as_u32()) }));
                    format!("[\"switch\",{},{},{},{}]", self.op(discr, b, env), ts, targets.otherwise().as_u32(), js(&self.ty(discr.ty(&b.local_decls, tcx))))
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
                TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{}]", self.place(place, b), target.as_u32()),
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    format!("[\"call\",{},{},{},{},{}]", self.op(func, b, env), jl(args.iter().map(|a| self.op(&a.node, b, env))), self.place(destination, b),
                        target.map(|t| t.as_u32().to_string()).unwrap_or("null".into()), self.line(*fn_span))
                }
                TerminatorKind::Assert { cond, expected, target, .. } => format!("[\"assert\",{},{},{}]", self.op(cond, b, env), expected, target.as_u32()),
                TerminatorKind::Yield { value, resume, resume_arg, .. } => format!("[\"yield\",{},{},{}]", self.op(value, b, env), resume.as_u32(), self.place(resume_arg, b)),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::InlineAsm { .. } => "[\"unreach\"]".into(),
                _ => "[\"unreach\"]".into(),
            };
            if bb.is_cleanup { "[[],[\"resume\"]]".to_string() } else { format!("[{},{}]", st, ts) }
        });
        let _ = write!(o, ",\"b\":{}", jl(blocks));
        o.push('}');
        Some(o)
    }

    fn adt(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let def = tcx.adt_def(d);
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let discrs: BTreeMap<usize, String> = if def.is_enum() {
            def.discriminants(tcx).map(|(i, dd)| {
                let v = dd.val;
                let s = if dd.ty.is_signed() {
                    let sz = tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(dd.ty)).map(|l| l.size).ok();
                    match sz { Some(sz) => sz.sign_extend(v).to_string(), None => v.to_string() }
                } else { v.to_string() };
                (i.as_usize(), s)
            }).collect()
        } else { BTreeMap::new() };
        let vars = jl(def.variants().iter_enumerated().map(|(i, v)| {
            format!("[{},{},{}]", js(v.name.as_str()), discrs.get(&i.as_usize()).map(|s| js(s)).unwrap_or("null".into()),
                jl(v.fields.iter().map(|f| format!("[{},{},{}]", js(f.name.as_str()), js(&self.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())), f.vis.is_public() as u8))))
        }));
        let mut extra = String::new();
        if let Some(l) = d.as_local() {
            let sp = tcx.def_span(l.to_def_id()).source_callsite();
            let loc = tcx.sess.source_map().lookup_char_pos(sp.lo());
            extra = format!(",\"file\":{},\"line\":{}", js(&format!("{}", loc.file.name.prefer_local_unconditionally())), loc.line);
        }
        format!("{{\"n\":{},\"k\":\"{}\",\"repr\":{},\"v\":{}{}}}", js(&self.path(d)), kind, js(&format!("{:?}", def.repr().int)), vars, extra)
    }
}

struct Cb;
impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.file_loader = Some(Box::new(Loader));
        config.override_queries = Some(|_s, p| {
            unsafe { ORIG = Some(p.queries.mir_built); }
            p.queries.mir_built = my_mir_built;
        });
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("VX_FACTS_DIR") { Ok(v) => v, Err(_) => return Compilation::Continue };
        let cx = Cx { tcx, adts: RefCell::new(BTreeSet::new()) };
        for d in tcx.hir_body_owners() {
            if matches!(tcx.def_kind(d), DefKind::AnonConst) { continue; }
            let _ = tcx.mir_promoted(d); // forces mir_built if borrowck has not
        }
        let bodies = BODIES.with(|v| std::mem::take(&mut *v.borrow_mut()));
        let mut s = String::with_capacity(1 << 24);
        let cname = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let _ = write!(s, "{{\"crate\":{},\"bodies\":[\n", js(&cname));
        let mut seen = BTreeSet::new();
        let mut first = true;
        for (d, b) in &bodies {
            if !seen.insert(d.local_def_index.as_u32()) { continue; }
            let b: &Body<'tcx> = unsafe { std::mem::transmute(b) };
            if let Some(x) = cx.body(*d, b) {
                if !first { s.push_str(",\n"); }
                first = false;
                s.push_str(&x);
            }
        }
        s.push_str("],\n\"adts\":[\n");
        let mut items = vec![];
        let mut impls = vec![];
        let mut consts = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => items.push(cx.adt(did)),
                DefKind::Impl { of_trait } => {
                    let st = cx.ty(tcx.type_of(did).instantiate_identity().skip_norm_wip());
                    let (tr, trr) = if of_trait {
                        let t = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                        (cx.path(t.def_id), cx.trait_ref(t))
                    } else { (String::new(), String::new()) };
                    let it = jl(tcx.associated_items(did).in_definition_order().map(|i| js(&cx.path(i.def_id))));
                    let tys = jl(tcx.associated_items(did).in_definition_order().filter(|i| matches!(tcx.def_kind(i.def_id), DefKind::AssocTy)).map(|i| format!("[{},{}]", js(&i.opt_name().map(|n| n.to_string()).unwrap_or_default()), js(&cx.ty(tcx.type_of(i.def_id).instantiate_identity().skip_norm_wip())))));
                    impls.push(format!("{{\"self\":{},\"trait\":{},\"traitref\":{},\"derived\":{},\"items\":{},\"types\":{}}}", js(&st), js(&tr), js(&trr), tcx.is_automatically_derived(did) as u8, it, tys));
                }
                DefKind::Const{..} | DefKind::AssocConst{..} | DefKind::Static { .. } => {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let has_body = tcx.hir_maybe_body_owned_by(id).is_some();
                    let mut v = None;
                    let gens = tcx.generics_of(did);
                    let generic = gens.requires_monomorphization(tcx) || (gens.parent.is_some() && gens.has_self);
                    if has_body && !generic && !matches!(tcx.def_kind(did), DefKind::Static { .. }) {
                        if let Ok(cv) = tcx.const_eval_poly(did) { v = cx.const_value(cv, t, 0); }
                    }
                    consts.push(format!("{{\"n\":{},\"t\":{},\"v\":{}}}", js(&cx.path(did)), js(&cx.ty(t)), v.unwrap_or("null".into())));
                }
                _ => {}
            }
        }
        let ext: Vec<DefIdKey> = cx.adts.borrow().iter().cloned().collect();
        for k in ext {
            let d = DefId { krate: rustc_hir::def_id::CrateNum::from_u32(k.0), index: rustc_hir::def_id::DefIndex::from_u32(k.1) };
            items.push(cx.adt(d));
        }
        s.push_str(&items.join(",\n"));
        s.push_str("],\n\"impls\":[\n");
        s.push_str(&impls.join(",\n"));
        s.push_str("],\n\"consts\":[\n");
        s.push_str(&consts.join(",\n"));
        s.push_str("]}\n");
        let p = format!("{}/{}.json", out, cname);
        let tmp = format!("{}.tmp{}", p, std::process::id());
        std::fs::write(&tmp, s).expect("write facts");
        std::fs::rename(&tmp, &p).expect("rename facts");
        Compilation::Continue
    }
}

struct NoCb;
impl Callbacks for NoCb {}

fn main() -> std::process::ExitCode {
    // invoked as: vxfacts <rustc> <args...>  (RUSTC_WORKSPACE_WRAPPER)
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0);
    let is_build_script = args.windows(2).any(|w| w[0] == "--crate-name" && w[1].starts_with("build_script"));
    let is_query = args.iter().any(|a| a == "-vV" || a.starts_with("--print"));
    rustc_driver::catch_with_exit_code(move || if is_build_script || is_query || !args.iter().any(|a| a == "--crate-name") {
        rustc_driver::compiler_entrypoint(&args, &mut NoCb);
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    })
}
