//! rustc driver used as RUSTC_WORKSPACE_WRAPPER: compiles as usual and, for the
//! crates of the workspace, writes the type-checked MIR (as built: no
//! optimisation, no drop elaboration) with resolved callees as JSON to
//! $OPTSA_OUT/<crate>.json.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt};
use std::fmt::Write as _;

mod j {
    pub fn s(v: &str) -> String {
        let mut o = String::from("\"");
        for c in v.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                '\n' => o.push_str("\\n"),
                c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                    let mut b = [0u16; 2];
                    for u in c.encode_utf16(&mut b) {
                        o.push_str(&format!("\\u{:04x}", u));
                    }
                }
                c => o.push(c),
            }
        }
        o.push('"');
        o
    }
    pub fn a(v: &[String]) -> String {
        format!("[{}]", v.join(","))
    }
    pub fn o(v: &[(&str, String)]) -> String {
        let p: Vec<String> = v.iter().map(|(k, x)| format!("{}:{}", s(k), x)).collect();
        format!("{{{}}}", p.join(","))
    }
}

struct Dump;

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(tcx.def_path_str(d)))
}

fn id(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}

/// Small foreign functions (option, result and ordering combinators) whose MIR
/// is dumped too, so that the analyses can look through them.
const LOOK_THROUGH: [&str; 4] =
    ["core::option::Option", "core::result::Result", "core::cmp::Ordering", "core::bool::"];

struct Cx<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    env: ty::TypingEnv<'tcx>,
    decls: Option<&'a Body<'tcx>>,
    ext: &'a std::cell::RefCell<Vec<DefId>>,
}

impl<'a, 'tcx> Cx<'a, 'tcx> {
    fn ty(&self, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        if depth > 6 {
            return j::o(&[("k", j::s("deep"))]);
        }
        let args = |a: ty::GenericArgsRef<'tcx>| {
            j::a(&a.types().map(|t| self.ty(t, depth + 1)).collect::<Vec<_>>())
        };
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                j::o(&[("k", j::s("prim")), ("n", j::s(&t.to_string()))])
            }
            ty::Adt(d, a) => j::o(&[
                ("k", j::s("adt")),
                ("p", j::s(&path(tcx, d.did()))),
                ("a", args(a)),
            ]),
            ty::Ref(_, t, m) => j::o(&[
                ("k", j::s("ref")),
                ("m", (m.is_mut()).to_string()),
                ("t", self.ty(*t, depth + 1)),
            ]),
            ty::RawPtr(t, _) => j::o(&[("k", j::s("ptr")), ("t", self.ty(*t, depth + 1))]),
            ty::Tuple(ts) => j::o(&[
                ("k", j::s("tuple")),
                ("a", j::a(&ts.iter().map(|t| self.ty(t, depth + 1)).collect::<Vec<_>>())),
            ]),
            ty::Param(p) => j::o(&[("k", j::s("param")), ("n", j::s(p.name.as_str()))]),
            ty::Slice(t) => j::o(&[("k", j::s("slice")), ("t", self.ty(*t, depth + 1))]),
            ty::Array(t, n) => j::o(&[
                ("k", j::s("array")),
                ("t", self.ty(*t, depth + 1)),
                ("n", j::s(&format!("{:?}", n))),
            ]),
            ty::Closure(d, _) => j::o(&[("k", j::s("closure")), ("id", j::s(&id(tcx, *d)))]),
            ty::FnDef(d, a) => j::o(&[
                ("k", j::s("fndef")),
                ("fn", self.callee((*d).into(), a.skip_binder(), depth + 1)),
            ]),
            ty::FnPtr(..) => j::o(&[("k", j::s("fnptr"))]),
            ty::Dynamic(preds, _) => {
                let (p, a) = match preds.principal() {
                    Some(p) => {
                        let p = p.skip_binder();
                        (path(tcx, p.def_id), args(p.args))
                    }
                    None => (String::from("?"), String::from("[]")),
                };
                j::o(&[("k", j::s("dyn")), ("p", j::s(&p)), ("a", a)])
            }
            _ => j::o(&[("k", j::s("other")), ("s", j::s(&t.to_string()))]),
        }
    }

    fn callee(&self, d: DefId, a: ty::GenericArgsRef<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let mut f = vec![
            ("path", j::s(&path(tcx, d))),
            ("id", j::s(&id(tcx, d))),
            ("local", d.is_local().to_string()),
            (
                "targs",
                j::a(&a.types().map(|t| self.ty(t, depth + 1)).collect::<Vec<_>>()),
            ),
        ];
        if let Some(n) = tcx.opt_item_name(d) {
            f.push(("name", j::s(n.as_str())));
        }
        if let DefKind::Ctor(of, _) = tcx.def_kind(d) {
            let is_variant = matches!(of, rustc_hir::def::CtorOf::Variant);
            let parent = tcx.parent(d);
            let (adt, vidx) = if is_variant {
                let adt = tcx.parent(parent);
                (adt, tcx.adt_def(adt).variant_index_with_id(parent).as_usize())
            } else {
                (parent, 0)
            };
            f.push(("ctor", j::s(&path(tcx, adt))));
            f.push(("variant", vidx.to_string()));
        }
        if let Some(t) = tcx.trait_of_assoc(d) {
            f.push(("trait", j::s(&path(tcx, t))));
            if tcx.opt_item_name(d).map(|n| n.as_str() == "flatten").unwrap_or(false) {
                // what the flattened iterator yields
                let item = tcx
                    .associated_items(t)
                    .in_definition_order()
                    .find(|x| x.opt_name().map(|n| n.as_str() == "Item").unwrap_or(false));
                if let (Some(item), Some(st)) = (item, a.types().next()) {
                    let p = Ty::new_projection(tcx, ty::IsRigid::No, item.def_id, [st]);
                    let p = tcx.erase_and_anonymize_regions(p);
                    if let Ok(x) =
                        tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new(p))
                    {
                        f.push(("item", self.ty(x, depth + 1)));
                    }
                }
            }
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if tcx.fn_sig(d).skip_binder().safety().is_unsafe() {
                f.push(("unsafe", "true".into()));
            }
            let ea = tcx.erase_and_anonymize_regions(a);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                ty::Instance::try_resolve(tcx, self.env, d, ea)
            }));
            if let Ok(Ok(Some(inst))) = r {
                let k = match inst.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    _ => "other",
                };
                f.push(("rkind", j::s(k)));
                if k == "item" {
                    f.push(("rid", j::s(&id(tcx, inst.def_id()))));
                    let rp = path(tcx, inst.def_id());
                    if LOOK_THROUGH.iter().any(|p| rp.starts_with(p)) {
                        let mut e = self.ext.borrow_mut();
                        if !e.contains(&inst.def_id()) {
                            e.push(inst.def_id());
                        }
                    }
                    f.push(("rpath", j::s(&rp)));
                    f.push(("rlocal", inst.def_id().is_local().to_string()));
                }
            }
        }
        j::o(&f)
    }

    fn place(&self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => j::s("*"),
                ProjectionElem::Field(i, _) => j::o(&[("f", i.as_usize().to_string())]),
                ProjectionElem::Index(l) => j::o(&[("i", l.as_usize().to_string())]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    j::o(&[("c", offset.to_string()), ("e", from_end.to_string())])
                }
                ProjectionElem::Subslice { from, to, from_end } => j::o(&[
                    ("s", from.to_string()),
                    ("t", to.to_string()),
                    ("e", from_end.to_string()),
                ]),
                ProjectionElem::Downcast(_, v) => j::o(&[("d", v.as_usize().to_string())]),
                ProjectionElem::OpaqueCast(_) => j::s("oc"),
                _ => j::s("?"),
            });
        }
        let mut f = vec![("l", p.local.as_usize().to_string()), ("p", j::a(&v))];
        if let Some(b) = self.decls {
            f.push(("t", j::s(&self.short_ty(p.ty(b, self.tcx).ty))));
        }
        j::o(&f)
    }

    /// Short type name of a place: a primitive, `T:` parameter, or kind.
    fn short_ty(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => t.to_string(),
            ty::Param(p) => format!("T:{}", p.name),
            ty::Ref(_, t, m) => format!("{}{}", if m.is_mut() { "&mut " } else { "&" }, self.short_ty(*t)),
            ty::Adt(d, _) => path(self.tcx, d.did()),
            ty::Dynamic(..) => "dyn".into(),
            _ => "?".into(),
        }
    }

    /// structured value of a constant: null where it has none this dump can express
    fn tree(&self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> Option<String> {
        let tcx = self.tcx;
        if depth > 6 {
            return None;
        }
        if let Some(sc) = v.try_to_scalar_int() {
            if t.is_numeric() || t.is_bool() {
                return Some(j::o(&[
                    ("ty", self.ty(t, 0)),
                    ("bits", j::s(&sc.to_bits_unchecked().to_string())),
                    ("size", sc.size().bytes().to_string()),
                    ("s", j::s("")),
                ]));
            }
        }
        match t.kind() {
            ty::Ref(_, u, m) if !m.is_mut() => {
                let (ptr, len) = match v {
                    ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) => (p, None),
                    ConstValue::Slice { alloc_id, meta } => {
                        (interpret::Pointer::new(alloc_id.into(), rustc_abi::Size::ZERO), Some(meta))
                    }
                    ConstValue::Indirect { alloc_id, offset } => {
                        let a = tcx.global_alloc(alloc_id).unwrap_memory();
                        let w = tcx.data_layout.pointer_size();
                        let p = a.inner().read_scalar(&tcx, interpret::alloc_range(offset, w), true).ok()?;
                        let p = match p {
                            interpret::Scalar::Ptr(p, _) => p,
                            _ => return None,
                        };
                        let n = if matches!(u.kind(), ty::Slice(_)) {
                            let n = a.inner().read_scalar(&tcx, interpret::alloc_range(offset + w, w), false).ok()?;
                            Some(n.to_target_usize(&tcx).discard_err()?)
                        } else {
                            None
                        };
                        (p, n)
                    }
                    _ => return None,
                };
                let (prov, off) = ptr.prov_and_relative_offset();
                let id = prov.alloc_id();
                let of = match (u.kind(), len) {
                    (ty::Slice(e), Some(n)) => Ty::new_array(tcx, *e, n),
                    (ty::Slice(_), None) | (ty::Str, _) => return None,
                    _ => *u,
                };
                let id = match tcx.try_get_global_alloc(id)? {
                    interpret::GlobalAlloc::Memory(_) => id,
                    interpret::GlobalAlloc::Static(d) => {
                        if tcx.is_mutable_static(d) || !of.is_freeze(tcx, self.env) || tcx.is_thread_local_static(d) {
                            return None;
                        }
                        let a = tcx.eval_static_initializer(d).ok()?;
                        tcx.reserve_and_set_memory_alloc(a)
                    }
                    _ => return None,
                };
                self.tree(ConstValue::Indirect { alloc_id: id, offset: off }, of, depth + 1)
            }
            ty::Tuple(_) | ty::Array(..) | ty::Adt(..) => {
                if let ty::Adt(d, _) = t.kind() {
                    if d.is_union() || !t.is_freeze(tcx, self.env) {
                        return None;
                    }
                }
                let d = tcx.try_destructure_mir_constant_for_user_output(v, t)?;
                if d.fields.len() > 256 {
                    return None;
                }
                let mut fs = vec![];
                for (x, u) in d.fields {
                    fs.push(self.tree(*x, *u, depth + 1)?);
                }
                Some(j::o(&[
                    ("ty", self.ty(t, 0)),
                    ("v", d.variant.map_or(0, |v| v.as_usize()).to_string()),
                    ("f", j::a(&fs)),
                ]))
            }
            ty::Uint(_) | ty::Int(_) | ty::Float(_) | ty::Bool => {
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    let a = tcx.global_alloc(alloc_id).unwrap_memory();
                    let n = match t.kind() {
                        ty::Uint(u) => u.bit_width().unwrap_or(64) / 8,
                        ty::Int(u) => u.bit_width().unwrap_or(64) / 8,
                        ty::Float(u) => u.bit_width() / 8,
                        _ => 1,
                    };
                    let n = rustc_abi::Size::from_bytes(n);
                    let x = a.inner().read_scalar(&tcx, interpret::alloc_range(offset, n), false).ok()?;
                    return self.tree(ConstValue::Scalar(x), t, depth + 1);
                }
                None
            }
            _ => None,
        }
    }

    fn constant(&self, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut f = vec![("ty", self.ty(t, 0)), ("s", j::s(&format!("{}", c.const_)))];
        if let ty::FnDef(..) = t.kind() {
            return j::o(&[("c", j::o(&f))]);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            f.push(("def", j::s(&path(tcx, u.def))));
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            c.const_.eval(tcx, self.env, c.span)
        }));
        if let Ok(Ok(v)) = r {
            let w = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.tree(v, t, 0)));
            if let Ok(Some(x)) = w {
                f.push(("tree", x));
            }
            if let Some(sc) = v.try_to_scalar_int() {
                f.push(("bits", j::s(&sc.to_bits_unchecked().to_string())));
                f.push(("size", sc.size().bytes().to_string()));
            } else if let ConstValue::Slice { .. } = v {
                if let Some(bytes) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    let mut h = String::new();
                    for b in bytes {
                        write!(h, "{:02x}", b).unwrap();
                    }
                    f.push(("bytes", j::s(&h)));
                }
            } else if let ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) = v {
                // A pointer constant: to a static, or to promoted byte data.
                match tcx.try_get_global_alloc(p.provenance.alloc_id()) {
                    Some(interpret::GlobalAlloc::Static(d)) => {
                        f.push(("static", j::s(&path(tcx, d))))
                    }
                    Some(interpret::GlobalAlloc::Memory(m)) => {
                        let m = m.inner();
                        if m.provenance().ptrs().is_empty() {
                            let b = m.inspect_with_uninit_and_ptr_outside_interpreter(0..m.len());
                            let mut h = String::new();
                            for b in b {
                                write!(h, "{:02x}", b).unwrap();
                            }
                            f.push(("membytes", j::s(&h)));
                        }
                    }
                    _ => {}
                }
            } else if matches!(v, ConstValue::ZeroSized) {
                f.push(("zst", "true".into()));
            }
        }
        j::o(&[("c", j::o(&f))])
    }

    fn op(&self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => j::o(&[("p", self.place(p))]),
            Operand::Move(p) => j::o(&[("p", self.place(p)), ("mv", "true".into())]),
            Operand::Constant(c) => self.constant(c),
            _ => j::o(&[("rt", "true".into())]),
        }
    }

    fn rvalue(&self, r: &Rvalue<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => j::o(&[("k", j::s("use")), ("o", self.op(o))]),
            Rvalue::Repeat(o, n) => j::o(&[
                ("k", j::s("repeat")),
                ("o", self.op(o)),
                ("n", j::s(&format!("{:?}", n))),
            ]),
            Rvalue::Ref(_, bk, p) => j::o(&[
                ("k", j::s("ref")),
                (
                    "b",
                    j::s(match bk {
                        BorrowKind::Shared => "shared",
                        BorrowKind::Fake(_) => "fake",
                        BorrowKind::Mut { .. } => "mut",
                    }),
                ),
                ("p", self.place(p)),
            ]),
            Rvalue::RawPtr(_, p) => j::o(&[("k", j::s("rawptr")), ("p", self.place(p))]),
            Rvalue::Cast(k, o, t) => j::o(&[
                ("k", j::s("cast")),
                ("ck", j::s(&format!("{:?}", k))),
                ("o", self.op(o)),
                ("ty", self.ty(*t, 0)),
            ]),
            Rvalue::BinaryOp(b, ops) => j::o(&[
                ("k", j::s("bin")),
                ("op", j::s(&format!("{:?}", b))),
                ("a", self.op(&ops.0)),
                ("b", self.op(&ops.1)),
            ]),
            Rvalue::UnaryOp(u, o) => j::o(&[
                ("k", j::s("un")),
                ("op", j::s(&format!("{:?}", u))),
                ("a", self.op(o)),
            ]),
            Rvalue::Discriminant(p) => j::o(&[("k", j::s("discr")), ("p", self.place(p))]),
            Rvalue::Aggregate(k, ops) => {
                let ops = j::a(&ops.iter().map(|o| self.op(o)).collect::<Vec<_>>());
                let mut f = vec![("k", j::s("agg")), ("ops", ops)];
                match &**k {
                    AggregateKind::Array(_) => f.push(("ak", j::s("array"))),
                    AggregateKind::Tuple => f.push(("ak", j::s("tuple"))),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        f.push(("ak", j::s("adt")));
                        f.push(("p", j::s(&path(tcx, *d))));
                        f.push(("v", v.as_usize().to_string()));
                    }
                    AggregateKind::Closure(d, _) => {
                        f.push(("ak", j::s("closure")));
                        f.push(("id", j::s(&id(tcx, *d))));
                    }
                    _ => f.push(("ak", j::s("other"))),
                }
                j::o(&f)
            }
            Rvalue::CopyForDeref(p) => j::o(&[
                ("k", j::s("use")),
                ("o", j::o(&[("p", self.place(p))])),
            ]),
            Rvalue::ThreadLocalRef(d) => {
                j::o(&[("k", j::s("tlref")), ("static", j::s(&path(tcx, *d)))])
            }
            _ => j::o(&[("k", j::s("other")), ("s", j::s(&format!("{:?}", r)))]),
        }
    }

    fn line(&self, sp: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let l = sm.lookup_char_pos(sp.lo());
        j::s(&format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line))
    }

    /// can code of another crate name it
    fn exported(&self, did: DefId) -> String {
        match did.as_local() {
            Some(l) => self.tcx.effective_visibilities(()).is_exported(l).to_string(),
            None => "true".into(),
        }
    }

    fn body(&self, did: DefId, b: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let kind = tcx.def_kind(did);
        let mut f = vec![
            ("id", j::s(&id(tcx, did))),
            ("path", j::s(&path(tcx, did))),
            ("kind", j::s(&format!("{:?}", kind))),
            ("argc", b.arg_count.to_string()),
            ("span", self.line(b.span)),
        ];
        if let Some(n) = tcx.opt_item_name(did) {
            f.push(("name", j::s(n.as_str())));
        }
        let mut names = vec![];
        let mut g = Some(tcx.generics_of(tcx.typeck_root_def_id(did)));
        while let Some(x) = g {
            let mut own: Vec<String> = x
                .own_params
                .iter()
                .filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. }))
                .map(|p| j::s(p.name.as_str()))
                .collect();
            own.append(&mut names);
            names = own;
            g = x.parent.map(|p| tcx.generics_of(p));
        }
        f.push(("gen", j::a(&names)));
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            f.push(("vis", j::s(&format!("{:?}", tcx.visibility(did)))));
            f.push(("exp", self.exported(did)));
        }
        if matches!(kind, DefKind::AssocFn) {
            let par = tcx.parent(did);
            match tcx.def_kind(par) {
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(par).instantiate_identity().skip_norm_wip();
                    f.push(("self", self.ty(st, 0)));
                    if of_trait {
                        let tr = tcx.impl_trait_ref(par).instantiate_identity().skip_norm_wip();
                        f.push(("trait", j::s(&path(tcx, tr.def_id))));
                        f.push((
                            "targs",
                            j::a(&tr.args.types().map(|t| self.ty(t, 0)).collect::<Vec<_>>()),
                        ));
                    }
                }
                DefKind::Trait => f.push(("intrait", j::s(&path(tcx, par)))),
                _ => {}
            }
        }
        let mut names = vec![String::from("null"); b.local_decls.len()];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names[p.local.as_usize()] = j::s(v.name.as_str());
                }
            }
        }
        let locals: Vec<String> = b
            .local_decls
            .iter_enumerated()
            .map(|(l, decl)| {
                j::o(&[("ty", self.ty(decl.ty, 0)), ("n", names[l.as_usize()].clone())])
            })
            .collect();
        f.push(("locals", j::a(&locals)));
        // what only unsafe code can do, besides calling unsafe functions
        let mut raw = Raw { tcx, body: b, found: vec![] };
        rustc_middle::mir::visit::Visitor::visit_body(&mut raw, b);
        let mut us: Vec<String> =
            raw.found.iter().map(|(w, sp)| j::o(&[("w", j::s(w)), ("at", self.line(*sp))])).collect();
        us.dedup();
        f.push(("raw", j::a(&us)));
        if matches!(kind, DefKind::Fn | DefKind::AssocFn)
            && tcx.fn_sig(did).skip_binder().safety().is_unsafe()
        {
            f.push(("unsafe", "true".into()));
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(x) => st.push(j::o(&[
                        ("d", self.place(&x.0)),
                        ("r", self.rvalue(&x.1)),
                        ("at", self.line(s.source_info.span)),
                    ])),
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(j::o(&[
                        ("setd", self.place(place)),
                        ("v", variant_index.as_usize().to_string()),
                    ])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let bbn = |x: &BasicBlock| x.as_usize().to_string();
            let mut tf = vec![("at", self.line(t.source_info.span))];
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    tf.push(("k", j::s("goto")));
                    tf.push(("t", bbn(target)));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    tf.push(("k", j::s("switch")));
                    tf.push(("o", self.op(discr)));
                    tf.push(("ty", self.ty(discr.ty(b, tcx), 0)));
                    let v: Vec<String> = targets
                        .iter()
                        .map(|(v, t)| j::a(&[j::s(&v.to_string()), bbn(&t)]))
                        .collect();
                    tf.push(("ts", j::a(&v)));
                    tf.push(("ow", bbn(&targets.otherwise())));
                }
                TerminatorKind::Return => tf.push(("k", j::s("return"))),
                TerminatorKind::Drop { target, place, .. } => {
                    tf.push(("k", j::s("goto")));
                    tf.push(("drop", self.place(place)));
                    tf.push(("t", bbn(target)));
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    tf.push(("k", j::s("call")));
                    tf.push(("f", self.op(func)));
                    tf.push((
                        "args",
                        j::a(&args.iter().map(|a| self.op(&a.node)).collect::<Vec<_>>()),
                    ));
                    tf.push(("d", self.place(destination)));
                    tf.push(("t", target.as_ref().map_or("null".into(), bbn)));
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    tf.push(("k", j::s("assert")));
                    tf.push(("o", self.op(cond)));
                    tf.push(("e", expected.to_string()));
                    let m = format!("{:?}", msg);
                    tf.push(("m", j::s(m.split('(').next().unwrap_or(""))));
                    tf.push(("t", bbn(target)));
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    tf.push(("k", j::s("goto")));
                    tf.push(("t", bbn(real_target)));
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    tf.push(("k", j::s("goto")));
                    tf.push(("t", bbn(real_target)));
                }
                TerminatorKind::Unreachable => tf.push(("k", j::s("unreachable"))),
                _ => tf.push(("k", j::s("dead"))),
            }
            blocks.push(j::o(&[
                ("s", j::a(&st)),
                ("t", j::o(&tf)),
                ("cleanup", bb.is_cleanup.to_string()),
            ]));
        }
        f.push(("blocks", j::a(&blocks)));
        j::o(&f)
    }
}

struct Raw<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    body: &'a Body<'tcx>,
    found: Vec<(&'static str, rustc_span::Span)>,
}

impl<'a, 'tcx> rustc_middle::mir::visit::Visitor<'tcx> for Raw<'a, 'tcx> {
    fn visit_projection_elem(
        &mut self,
        place: PlaceRef<'tcx>,
        elem: PlaceElem<'tcx>,
        _: rustc_middle::mir::visit::PlaceContext,
        at: Location,
    ) {
        let t = place.ty(self.body, self.tcx).ty;
        let span = self.body.source_info(at).span;
        match elem {
            ProjectionElem::Deref if t.is_raw_ptr() => {
                // statics are reached through pointers, too
                let st = place.as_local().is_some_and(|l| {
                    matches!(self.body.local_decls[l].local_info(), LocalInfo::StaticRef { .. })
                });
                self.found.push((if st { "static" } else { "pointer" }, span));
            }
            ProjectionElem::Field(..) if t.ty_adt_def().is_some_and(|a| a.is_union() && a.did().is_local()) => self.found.push(("union", span)),
            _ => {}
        }
    }
}

impl Callbacks for Dump {
    fn after_expansion<'tcx>(
        &mut self,
        _: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let Ok(out) = std::env::var("OPTSA_OUT") else { return Compilation::Continue };
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        // First clone every body (later queries steal them), then serialise.
        let mut bodies = vec![];
        for d in tcx.hir_body_owners() {
            let st = tcx.mir_built(d);
            if st.is_stolen() {
                continue;
            }
            bodies.push((d, st.borrow().clone()));
        }
        std::panic::set_hook(Box::new(|_| {}));
        let mut items = vec![];
        let ext = std::cell::RefCell::new(vec![]);
        for (d, b) in &bodies {
            let k = tcx.def_kind(d.to_def_id());
            if !matches!(k, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                continue;
            }
            let cx = Cx {
                tcx,
                env: ty::TypingEnv::non_body_analysis(tcx, tcx.typeck_root_def_id(d.to_def_id())),
                decls: Some(b),
                ext: &ext,
            };
            items.push(cx.body(d.to_def_id(), b));
        }
        let mut exts = vec![];
        let mut n = 0;
        while n < ext.borrow().len() {
            let d = ext.borrow()[n];
            n += 1;
            if !tcx.is_mir_available(d) {
                continue;
            }
            let b = tcx.optimized_mir(d);
            let cx = Cx {
                tcx,
                env: ty::TypingEnv::non_body_analysis(tcx, tcx.typeck_root_def_id(d)),
                decls: Some(b),
                ext: &ext,
            };
            exts.push(cx.body(d, b));
        }
        let _ = std::panic::take_hook();
        let mut adts = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
                continue;
            }
            let cx = Cx { tcx, env: ty::TypingEnv::non_body_analysis(tcx, d), decls: None, ext: &ext };
            let adt = tcx.adt_def(d);
            let vs: Vec<String> = adt
                .variants()
                .iter()
                .map(|v| {
                    let fs: Vec<String> = v
                        .fields
                        .iter()
                        .map(|f| {
                            let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            j::o(&[
                                ("n", j::s(f.name.as_str())),
                                ("ty", cx.ty(t, 0)),
                                ("vis", j::s(&format!("{:?}", f.vis))),
                                ("exp", cx.exported(f.did)),
                            ])
                        })
                        .collect();
                    j::o(&[("n", j::s(v.name.as_str())), ("f", j::a(&fs))])
                })
                .collect();
            adts.push(j::o(&[
                ("p", j::s(&path(tcx, d))),
                ("enum", adt.is_enum().to_string()),
                ("vis", j::s(&format!("{:?}", tcx.visibility(d)))),
                ("exp", cx.exported(d)),
                ("v", j::a(&vs)),
            ]));
        }
        let mut statics = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            let (mutable, local) = match tcx.def_kind(d) {
                DefKind::Static { mutability, .. } => (mutability.is_mut(), tcx.is_thread_local_static(d)),
                DefKind::Const { .. } => (false, false),
                _ => continue,
            };
            let env = ty::TypingEnv::non_body_analysis(tcx, d);
            let cx = Cx { tcx, env, decls: None, ext: &ext };
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            statics.push(j::o(&[
                ("p", j::s(&path(tcx, d))),
                ("static", matches!(tcx.def_kind(d), DefKind::Static { .. }).to_string()),
                ("mut", mutable.to_string()),
                ("local", local.to_string()),
                ("freeze", t.is_freeze(tcx, env).to_string()),
                ("ty", cx.ty(t, 0)),
                ("at", cx.line(tcx.def_span(d))),
            ]));
        }
        let mut impls = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Impl { of_trait: true }) {
                continue;
            }
            if !tcx.impl_trait_header(d).safety.is_unsafe() {
                continue;
            }
            let cx = Cx { tcx, env: ty::TypingEnv::non_body_analysis(tcx, d), decls: None, ext: &ext };
            let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
            impls.push(j::o(&[
                ("trait", j::s(&path(tcx, tr.def_id))),
                ("self", cx.ty(tr.self_ty(), 0)),
                ("at", cx.line(tcx.def_span(d))),
            ]));
        }
        let mut traits = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Trait) {
                continue;
            }
            let cx = Cx { tcx, env: ty::TypingEnv::non_body_analysis(tcx, d), decls: None, ext: &ext };
            let ms: Vec<String> = tcx
                .associated_items(d)
                .in_definition_order()
                .filter(|i| matches!(tcx.def_kind(i.def_id), DefKind::AssocFn))
                .map(|i| {
                    let sig = tcx.fn_sig(i.def_id).instantiate_identity().skip_norm_wip().skip_binder();
                    j::o(&[
                        ("n", j::s(i.name().as_str())),
                        ("at", cx.line(tcx.def_span(i.def_id))),
                        ("in", j::a(&sig.inputs().iter().map(|t| cx.ty(*t, 0)).collect::<Vec<_>>())),
                        ("out", cx.ty(sig.output(), 0)),
                    ])
                })
                .collect();
            traits.push(j::o(&[
                ("p", j::s(&path(tcx, d))),
                ("exp", cx.exported(d)),
                ("m", j::a(&ms)),
            ]));
        }
        let text = j::o(&[
            ("traits", j::a(&traits)),
            ("crate", j::s(&krate)),
            ("fns", j::a(&items)),
            ("ext", j::a(&exts)),
            ("adts", j::a(&adts)),
            ("statics", j::a(&statics)),
            ("unsafe", j::a(&impls)),
        ]);
        std::fs::create_dir_all(&out).unwrap();
        std::fs::write(format!("{}/{}.json", out, krate), text).unwrap();
        Compilation::Continue
    }
}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0);
    std::process::exit(
        match rustc_driver::catch_fatal_errors(|| rustc_driver::compiler_entrypoint(&args, &mut Dump)) {
            Ok(()) => 0,
            Err(_) => 1,
        },
    );
}
