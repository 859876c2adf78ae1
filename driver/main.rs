// rustc_private driver: exports the type-checked program of the crate `cfg_noodle` as JSON, for the
// analyses in /verif/analysis. Local bodies are exported as they are built (`mir_built`: before
// coroutine lowering and drop elaboration, so that every await point still has its cancellation
// edge); library bodies are exported as encoded in their crate's metadata. All callees are resolved
// with full type information. Nothing is executed.
#![feature(rustc_private)]
#![allow(rustc::potential_query_instability)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use std::cell::RefCell;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

thread_local! {
    static BODIES: RefCell<HashMap<LocalDefId, Body<'static>>> = RefCell::new(HashMap::new());
}

fn my_mir_built<'tcx>(
    tcx: TyCtxt<'tcx>,
    def: LocalDefId,
) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>> {
    let orig = ORIG.with(|o| o.get().unwrap());
    let steal = orig(tcx, def);
    let body: Body<'tcx> = steal.borrow().clone();
    // SAFETY: only used while the same TyCtxt is alive (in `after_analysis`)
    let body: Body<'static> = unsafe { std::mem::transmute(body) };
    BODIES.with(|b| b.borrow_mut().insert(def, body));
    steal
}
type MirBuilt = for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>>;
thread_local! { static ORIG: std::cell::Cell<Option<MirBuilt>> = const { std::cell::Cell::new(None) }; }

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.override_queries = Some(|_s, providers| {
            ORIG.with(|o| o.set(Some(providers.queries.mir_built)));
            providers.queries.mir_built = my_mir_built;
        });
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        with_no_visible_paths!(with_no_trimmed_paths!({
            let mut ex = Ex::new(tcx);
            ex.run();
            std::fs::write(&self.out, ex.finish()).expect("write dump");
        }));
        Compilation::Continue
    }
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}
fn s_(s: &str) -> String {
    esc(s)
}

struct Ex<'tcx> {
    tcx: TyCtxt<'tcx>,
    ty_ids: HashMap<(Ty<'tcx>, Option<DefId>), usize>,
    ty_out: Vec<String>,
    ty_queue: VecDeque<(usize, Ty<'tcx>, TypingEnv<'tcx>, DefId)>,
    inst_ids: HashMap<(Instance<'tcx>, Option<DefId>), usize>,
    inst_out: Vec<String>,
    inst_queue: VecDeque<(usize, Instance<'tcx>, TypingEnv<'tcx>, DefId)>,
    prom_ids: HashMap<(Instance<'tcx>, Option<DefId>, u32), usize>,
    prom_queue: VecDeque<(usize, Instance<'tcx>, TypingEnv<'tcx>, DefId, u32)>,
    roots: Vec<String>,
    consts: Vec<String>,
}

/// Crates/modules whose bodies are never needed: calls into them stay abstract.
const OPAQUE: &[&str] = &[
    "core::fmt", "core::panicking", "core::slice", "core::str", "core::intrinsics", "core::unicode",
    "core::char", "core::ascii", "core::ffi", "core::time", "core::alloc", "core::any", "core::hash",
    "core::num::fmt", "core::num::dec2flt", "core::num::flt2dec", "core::num::bignum", "core::task", "core::net",
    "core::core_arch", "core::core_simd", "core::iter::traits::exact_size", "core::ub_checks", "core::iter::adapters::zip",
];

impl<'tcx> Ex<'tcx> {
    fn new(tcx: TyCtxt<'tcx>) -> Self {
        Ex {
            tcx,
            ty_ids: HashMap::new(),
            ty_out: vec![],
            ty_queue: VecDeque::new(),
            inst_ids: HashMap::new(),
            inst_out: vec![],
            inst_queue: VecDeque::new(),
            prom_ids: HashMap::new(),
            prom_queue: VecDeque::new(),
            roots: vec![],
            consts: vec![],
        }
    }

    fn path(&self, d: DefId) -> String {
        let p = self.tcx.def_path_str(d);
        if d.is_local() { format!("cfg_noodle::{p}") } else { p }
    }
    fn krate(&self, d: DefId) -> String {
        if d.is_local() { "cfg_noodle".into() } else { self.tcx.crate_name(d.krate).to_string() }
    }
    fn span(&self, sp: rustc_span::Span) -> (String, usize) {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r.local_path().map(|p| p.display().to_string()).unwrap_or_else(|| "?".into()),
            _ => "?".into(),
        };
        (f, lo.line)
    }

    fn tid(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>, root: DefId) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        let key = (t, if t.has_param() || t.has_aliases() { Some(root) } else { None });
        if let Some(i) = self.ty_ids.get(&key) {
            return *i;
        }
        let i = self.ty_out.len();
        self.ty_ids.insert(key, i);
        self.ty_out.push(String::new());
        self.ty_queue.push_back((i, t, env, root));
        i
    }

    fn iid(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>, root: DefId) -> usize {
        let key = (inst, if inst.args.has_param() || inst.args.has_aliases() { Some(root) } else { None });
        if let Some(i) = self.inst_ids.get(&key) {
            return *i;
        }
        let i = self.inst_out.len();
        self.inst_ids.insert(key, i);
        self.inst_out.push(String::new());
        self.inst_queue.push_back((i, inst, env, root));
        i
    }

    fn args_json(&mut self, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>, root: DefId) -> String {
        let mut v = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                v.push(self.tid(t, env, root).to_string());
            } else if let Some(c) = a.as_const() {
                v.push(s_(&format!("{c}")));
            }
        }
        arr(&v)
    }

    fn norm(&self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> Ty<'tcx> {
        self.tcx
            .try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(t))
            .unwrap_or_else(|_| self.tcx.erase_and_anonymize_regions(t))
    }

    fn emit_type(&mut self, i: usize, t: Ty<'tcx>, env: TypingEnv<'tcx>, root: DefId) {
        let tcx = self.tcx;
        let str_ = s_(&format!("{t}"));
        let nd = t.needs_drop(tcx, env);
        let mut o = format!("{{\"id\":{i},\"s\":{str_},\"nd\":{nd}");
        macro_rules! put { ($($a:tt)*) => { write!(o, $($a)*).unwrap() } }
        match *t.kind() {
            ty::Bool => put!(",\"k\":\"bool\""),
            ty::Char => put!(",\"k\":\"char\""),
            ty::Int(it) => put!(",\"k\":\"int\",\"bits\":{}", it.bit_width().unwrap_or(64)),
            ty::Uint(it) => put!(",\"k\":\"uint\",\"bits\":{}", it.bit_width().unwrap_or(64)),
            ty::Float(_) => put!(",\"k\":\"float\""),
            ty::Str => put!(",\"k\":\"str\""),
            ty::Never => put!(",\"k\":\"never\""),
            ty::Adt(adt, args) => {
                let path = self.path(adt.did());
                put!(",\"k\":\"adt\",\"path\":{},\"krate\":{}", s_(&path), s_(&self.krate(adt.did())));
                put!(",\"enum\":{},\"union\":{},\"box\":{}", adt.is_enum(), adt.is_union(), adt.is_box());
                put!(",\"reprc\":{},\"transparent\":{}", adt.repr().c(), adt.repr().transparent());
                let aj = self.args_json(args, env, root);
                put!(",\"args\":{aj}");
                let mut vs = vec![];
                for (vi, v) in adt.variants().iter_enumerated() {
                    let d = if adt.is_enum() { adt.discriminant_for_variant(tcx, vi).val.to_string() } else { "0".into() };
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = f.ty(tcx, args);
                        let ft = self.norm(ft.skip_norm_wip(), env);
                        let fti = self.tid(ft, env, root);
                        fs.push(format!("[{},{},{}]", s_(f.name.as_str()), fti, f.vis.is_public()));
                    }
                    vs.push(format!("[{},{},{}]", s_(v.name.as_str()), d, arr(&fs)));
                }
                put!(",\"variants\":{}", arr(&vs));
                // user Drop impl?
                if let Some(d) = tcx.adt_destructor(adt.did()) {
                    let dp = self.path(d.did);
                    put!(",\"dropfn\":{}", s_(&dp));
                    if adt.did().is_local() {
                        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d.did, args) {
                            let id = self.iid(inst, env, root);
                            put!(",\"drop\":{id}");
                        }
                    }
                }
            }
            ty::Ref(_, to, m) => {
                let x = self.tid(to, env, root);
                put!(",\"k\":\"ref\",\"to\":{x},\"mut\":{}", m.is_mut());
            }
            ty::RawPtr(to, m) => {
                let x = self.tid(to, env, root);
                put!(",\"k\":\"ptr\",\"to\":{x},\"mut\":{}", m.is_mut());
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.tid(x, env, root).to_string()).collect();
                put!(",\"k\":\"tuple\",\"elems\":{}", arr(&v));
            }
            ty::Array(e, n) => {
                let x = self.tid(e, env, root);
                let n = n.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into());
                put!(",\"k\":\"array\",\"elem\":{x},\"len\":{n}");
            }
            ty::Slice(e) => {
                let x = self.tid(e, env, root);
                put!(",\"k\":\"slice\",\"elem\":{x}");
            }
            ty::FnDef(d, args) => {
                put!(",\"k\":\"fndef\",\"path\":{}", s_(&self.path(d)));
                let args = args.no_bound_vars().unwrap();
                let aj = self.args_json(args, env, root);
                put!(",\"args\":{aj}");
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args) {
                    let id = self.iid(inst, env, root);
                    put!(",\"inst\":{id}");
                }
            }
            ty::FnPtr(..) => put!(",\"k\":\"fnptr\""),
            ty::Closure(d, args) => {
                put!(",\"k\":\"closure\",\"path\":{}", s_(&self.path(d)));
                let inst = Instance::new_raw(d, args);
                let id = self.iid(inst, env, root);
                put!(",\"inst\":{id}");
                let ups: Vec<String> =
                    args.as_closure().upvar_tys().iter().map(|x| { let x = self.norm(x, env); self.tid(x, env, root).to_string() }).collect();
                put!(",\"upvars\":{}", arr(&ups));
            }
            ty::Coroutine(d, args) => {
                put!(",\"k\":\"coroutine\",\"path\":{}", s_(&self.path(d)));
                if d.is_local() {
                    let inst = Instance::new_raw(d, args);
                    let id = self.iid(inst, env, root);
                    put!(",\"inst\":{id}");
                }
                let ups: Vec<String> =
                    args.as_coroutine().upvar_tys().iter().map(|x| { let x = self.norm(x, env); self.tid(x, env, root).to_string() }).collect();
                put!(",\"upvars\":{}", arr(&ups));
            }
            ty::Param(p) => put!(",\"k\":\"param\",\"name\":{}", s_(p.name.as_str())),
            ty::Alias(..) => put!(",\"k\":\"alias\""),
            ty::Dynamic(..) => put!(",\"k\":\"dyn\""),
            ty::Pat(b, _) => {
                let x = self.tid(b, env, root);
                put!(",\"k\":\"pat\",\"base\":{x}");
            }
            _ => put!(",\"k\":\"other\""),
        }
        o.push('}');
        self.ty_out[i] = o;
    }

    fn place(&mut self, cx: &Cx<'_, 'tcx>, p: &Place<'tcx>) -> String {
        let mut v = vec![p.local.as_usize().to_string()];
        let mut pty = PlaceTy::from_ty(cx.body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let nt = pty.projection_ty(self.tcx, e);
            let t = self.mono(cx, nt.ty);
            let tid = self.tid(t, cx.env, cx.root);
            match e {
                ProjectionElem::Deref | ProjectionElem::PhantomDeref => v.push(format!("[\"*\",{tid}]")),
                ProjectionElem::Field(f, _) => v.push(format!("[\"f\",{},{tid}]", f.as_usize())),
                ProjectionElem::Index(l) => v.push(format!("[\"i\",{},{tid}]", l.as_usize())),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    v.push(format!("[\"c\",{offset},{from_end},{tid}]"))
                }
                ProjectionElem::Subslice { from, to, from_end } => v.push(format!("[\"s\",{from},{to},{from_end},{tid}]")),
                ProjectionElem::Downcast(_, vi) => v.push(format!("[\"v\",{},{tid}]", vi.as_usize())),
                ProjectionElem::OpaqueCast(_) | ProjectionElem::UnwrapUnsafeBinder(_) => {}
            }
            pty = nt;
        }
        arr(&v)
    }

    fn mono(&self, cx: &Cx<'_, 'tcx>, t: Ty<'tcx>) -> Ty<'tcx> {
        let t = self.tcx.erase_and_anonymize_regions(t);
        match cx.inst.try_instantiate_mir_and_normalize_erasing_regions(
            self.tcx,
            cx.env,
            ty::EarlyBinder::bind(self.tcx, t),
        ) {
            Ok(t) => t,
            Err(_) => t,
        }
    }

    fn constant(&mut self, cx: &Cx<'_, 'tcx>, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let k = cx
            .inst
            .try_instantiate_mir_and_normalize_erasing_regions(tcx, cx.env, ty::EarlyBinder::bind(tcx, c.const_))
            .unwrap_or(c.const_);
        let t = k.ty();
        let tid = self.tid(t, cx.env, cx.root);
        let val = self.const_val(cx, k, 0);
        let name = match c.const_ {
            Const::Unevaluated(u, _) => {
                let mut n = format!(",\"n\":{}", s_(&self.path(u.def)));
                // generic constants are analysed from their bodies
                if val == "null" && u.promoted.is_none() && u.def.is_local() && self.tcx.is_mir_available(u.def)
                    || val == "null" && u.promoted.is_none() && u.def.is_local() && matches!(self.tcx.def_kind(u.def), DefKind::AnonConst)
                {
                    let args = match k {
                        Const::Unevaluated(u2, _) => u2.args,
                        _ => u.args,
                    };
                    let args = self.tcx.erase_and_anonymize_regions(args);
                    let ci = self.iid(Instance::new_raw(u.def, args), cx.env, cx.root);
                    let _ = write!(n, ",\"ci\":{ci}");
                }
                // promoted constants that depend on generic parameters, too
                if let (Some(p), "null", Const::Unevaluated(u2, _)) = (u.promoted, val.as_str(), k) {
                    if tcx.is_mir_available(u.def) {
                        let args = self.tcx.erase_and_anonymize_regions(u2.args);
                        let inst = Instance::new_raw(u.def, args);
                        let key = (inst, if args.has_param() || args.has_aliases() { Some(cx.root) } else { None }, p.as_u32());
                        let ci = match self.prom_ids.get(&key) {
                            Some(i) => *i,
                            None => {
                                let i = self.inst_out.len();
                                self.prom_ids.insert(key, i);
                                self.inst_out.push(String::new());
                                self.prom_queue.push_back((i, inst, cx.env, cx.root, p.as_u32()));
                                i
                            }
                        };
                        let _ = write!(n, ",\"pi\":{ci}");
                    }
                }
                n
            }
            _ => match k {
                Const::Ty(_, c) => format!(",\"n\":{}", s_(&format!("{c}"))),
                _ => String::new(),
            },
        };
        format!("[\"k\",{{\"t\":{tid}{name},\"v\":{val}}}]")
    }

    fn const_val(&mut self, cx: &Cx<'_, 'tcx>, k: Const<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let t = k.ty();
        match t.kind() {
            ty::FnDef(..) => return "\"zst\"".into(),
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                if let Some(b) = k.try_eval_bits(tcx, cx.env) {
                    return format!("{{\"i\":\"{b}\"}}");
                }
                return "null".into();
            }
            _ => {}
        }
        if depth > 4 || k.has_param() {
            // generic constants can only be evaluated if they do not depend on parameters
            if !matches!(k, Const::Val(..)) {
                return "null".into();
            }
        }
        let Ok(v) = k.eval(tcx, cx.env, rustc_span::DUMMY_SP) else { return "null".into() };
        self.cval(cx, v, t, depth)
    }

    fn cval(&mut self, cx: &Cx<'_, 'tcx>, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                if let Some(s) = v.try_to_scalar_int() {
                    return format!("{{\"i\":\"{}\"}}", s.to_bits_unchecked());
                }
                "null".into()
            }
            ty::Ref(_, inner, _) if inner.is_str() => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    return format!("{{\"s\":{}}}", s_(&String::from_utf8_lossy(b)));
                }
                "null".into()
            }
            // parameters of the checksum algorithm
            ty::Ref(_, inner, _) if matches!(inner.kind(), ty::Adt(a, _) if self.krate(a.did()).starts_with("crc")) => {
                let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v else { return "null".into() };
                let (prov, offset) = p.prov_and_relative_offset();
                let alloc_id = prov.alloc_id();
                if !matches!(tcx.try_get_global_alloc(alloc_id), Some(rustc_middle::mir::interpret::GlobalAlloc::Memory(_))) {
                    return "null".into();
                }
                let x = self.cval(cx, ConstValue::Indirect { alloc_id, offset }, *inner, depth + 1);
                let it = self.tid(*inner, cx.env, cx.root);
                format!("{{\"r\":{x},\"t\":{it}}}")
            }
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => {
                if depth > 4 || t.has_param() || t.has_aliases() {
                    return "null".into();
                }
                if let ty::Adt(a, _) = t.kind() {
                    if a.is_union() { return "null".into(); }
                }
                match tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    Some(d) => {
                        let mut fs = vec![];
                        for (fv, ft) in d.fields.iter() {
                            let x = self.cval(cx, *fv, *ft, depth + 1);
                            let ft = self.tid(*ft, cx.env, cx.root);
                            fs.push(format!("{{\"t\":{ft},\"v\":{x}}}"));
                        }
                        format!("{{\"var\":{},\"fields\":{}}}", d.variant.map(|v| v.as_usize()).unwrap_or(0), arr(&fs))
                    }
                    None => "null".into(),
                }
            }
            ty::Pat(b, _) => self.cval(cx, v, *b, depth + 1),
            _ => match v {
                ConstValue::ZeroSized => "\"zst\"".into(),
                _ => "null".into(),
            },
        }
    }

    fn op(&mut self, cx: &Cx<'_, 'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(cx, p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(cx, p)),
            Operand::Constant(c) => self.constant(cx, c),
            Operand::RuntimeChecks(_) => "[\"rc\"]".into(),
        }
    }

    fn rvalue(&mut self, cx: &Cx<'_, 'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(cx, o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.op(cx, o), n)
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                format!("[\"ref\",{m},{}]", self.place(cx, p))
            }
            Rvalue::RawPtr(k, p) => format!("[\"raw\",{},{}]", k.to_mutbl_lossy().is_mut(), self.place(cx, p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", s_(&self.path(*d))),
            Rvalue::Cast(k, o, t) => {
                let t = self.mono(cx, *t);
                let ti = self.tid(t, cx.env, cx.root);
                format!("[\"cast\",{},{},{ti}]", s_(&format!("{k:?}")), self.op(cx, o))
            }
            Rvalue::BinaryOp(b, ops) => {
                format!("[\"bin\",{},{},{}]", s_(&format!("{b:?}")), self.op(cx, &ops.0), self.op(cx, &ops.1))
            }
            Rvalue::UnaryOp(u, o) => format!("[\"un\",{},{}]", s_(&format!("{u:?}")), self.op(cx, o)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(cx, p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(cx, p)),
            Rvalue::Reborrow(_, m, p) => {
                format!("[\"ref\",{},{}]", m.is_mut(), self.place(cx, p))
            }
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.op(cx, o)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.op(cx, o)).collect();
                let t = r.ty(&cx.body.local_decls, self.tcx);
                let t = self.mono(cx, t);
                let ti = self.tid(t, cx.env, cx.root);
                let (kk, vi, af) = match **k {
                    AggregateKind::Array(_) => ("array", 0, None),
                    AggregateKind::Tuple => ("tuple", 0, None),
                    AggregateKind::Adt(_, vi, _, _, af) => ("adt", vi.as_usize(), af.map(|f| f.as_usize())),
                    AggregateKind::Closure(..) => ("closure", 0, None),
                    AggregateKind::Coroutine(..) => ("coroutine", 0, None),
                    AggregateKind::CoroutineClosure(..) => ("coroclosure", 0, None),
                    AggregateKind::RawPtr(..) => ("rawptr", 0, None),
                };
                let af = af.map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"agg\",\"{kk}\",{ti},{vi},{},{af}]", arr(&v))
            }
        }
    }

    fn callee(&mut self, cx: &Cx<'_, 'tcx>, func: &Operand<'tcx>) -> String {
        let tcx = self.tcx;
        if let Operand::Constant(c) = func {
            let k = cx
                .inst
                .try_instantiate_mir_and_normalize_erasing_regions(tcx, cx.env, ty::EarlyBinder::bind(tcx, c.const_))
                .unwrap_or(c.const_);
            if let ty::FnDef(d, args) = *k.ty().kind() {
                let args = args.no_bound_vars().unwrap();
                let mut o = format!("{{\"path\":{}", s_(&self.path(d)));
                let aj = self.args_json(args, cx.env, cx.root);
                let _ = write!(o, ",\"args\":{aj}");
                if let Some(tr) = tcx.trait_of_assoc(d) {
                    let _ = write!(o, ",\"trait\":{}", s_(&self.path(tr)));
                }
                match Instance::try_resolve(tcx, cx.env, d, args) {
                    Ok(Some(inst)) => {
                        let id = self.iid(inst, cx.env, cx.root);
                        let _ = write!(o, ",\"inst\":{id}");
                    }
                    _ => {}
                }
                o.push('}');
                return o;
            }
        }
        let f = self.op(cx, func);
        format!("{{\"ptr\":{f}}}")
    }

    fn body(&mut self, cx: &Cx<'_, 'tcx>) -> String {
        let body = cx.body;
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if let Some(l) = p.as_local() {
                    names.entry(l.as_usize()).or_insert(v.name.to_string());
                }
            }
        }
        let mut locals = vec![];
        for (l, d) in body.local_decls.iter_enumerated() {
            let t = self.mono(cx, d.ty);
            let ti = self.tid(t, cx.env, cx.root);
            let n = names.get(&l.as_usize()).map(|n| s_(n)).unwrap_or("null".into());
            locals.push(format!("[{ti},{n}]"));
        }
        let (file, line0) = self.span(body.span);
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &bb.statements {
                let line = self.span(s.source_info.span).1;
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(cx, &b.0);
                        let r = self.rvalue(cx, &b.1);
                        st.push(format!("[\"=\",{p},{r},{line}]"));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(cx, place);
                        st.push(format!("[\"sd\",{p},{},{line}]", variant_index.as_usize()));
                    }
                    StatementKind::StorageLive(l) => st.push(format!("[\"sl\",{}]", l.as_usize())),
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.as_usize())),
                    StatementKind::Intrinsic(b) => {
                        if let NonDivergingIntrinsic::Assume(o) = &**b {
                            let o = self.op(cx, o);
                            st.push(format!("[\"assume\",{o},{line}]"));
                        } else {
                            st.push(format!("[\"memcpy\",{line}]"));
                        }
                    }
                    _ => {}
                }
            }
            let term = bb.terminator();
            let (tf, tl) = self.span(term.source_info.span);
            let _ = tf;
            let uw = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => b.as_usize().to_string(),
                _ => "null".into(),
            };
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}", target.as_usize()),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}", real_target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.op(cx, discr);
                    let dt = self.mono(cx, discr.ty(&body.local_decls, self.tcx));
                    let dti = self.tid(dt, cx.env, cx.root);
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[\"{v}\",{}]", b.as_usize())).collect();
                    format!("[\"switch\",{o},{},{},{dti}", arr(&v), targets.otherwise().as_usize())
                }
                TerminatorKind::UnwindResume => "[\"resume\"".into(),
                TerminatorKind::UnwindTerminate(_) => "[\"abort\"".into(),
                TerminatorKind::Return => "[\"ret\"".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"".into(),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let p = self.place(cx, place);
                    let pt = self.mono(cx, place.ty(&body.local_decls, self.tcx).ty);
                    let pti = self.tid(pt, cx.env, cx.root);
                    format!("[\"drop\",{p},{pti},{},{}", target.as_usize(), uw(unwind))
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let c = self.callee(cx, func);
                    let a: Vec<String> = args.iter().map(|o| self.op(cx, &o.node)).collect();
                    let at: Vec<String> = args
                        .iter()
                        .map(|o| {
                            let t = self.mono(cx, o.node.ty(&body.local_decls, self.tcx));
                            self.tid(t, cx.env, cx.root).to_string()
                        })
                        .collect();
                    let d = self.place(cx, destination);
                    let dt = self.mono(cx, destination.ty(&body.local_decls, self.tcx).ty);
                    let dti = self.tid(dt, cx.env, cx.root);
                    let tg = target.map(|b| b.as_usize().to_string()).unwrap_or("null".into());
                    format!("[\"call\",{c},{},{},{d},{dti},{tg},{}", arr(&a), arr(&at), uw(unwind))
                }
                TerminatorKind::TailCall { .. } => "[\"unsupported\",\"tailcall\"".into(),
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let o = self.op(cx, cond);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) | AssertKind::OverflowNeg(..) => "overflow",
                        AssertKind::DivisionByZero(..) | AssertKind::RemainderByZero(..) => "div",
                        AssertKind::ResumedAfterReturn(..) | AssertKind::ResumedAfterPanic(..) => "resumed",
                        _ => "other",
                    };
                    format!("[\"assert\",{o},{expected},{},\"{m}\"", target.as_usize())
                }
                TerminatorKind::Yield { resume, drop, resume_arg, .. } => {
                    let p = self.place(cx, resume_arg);
                    let d = drop.map(|b| b.as_usize().to_string()).unwrap_or("null".into());
                    format!("[\"yield\",{},{d},{p}", resume.as_usize())
                }
                TerminatorKind::CoroutineDrop => "[\"corodrop\"".into(),
                TerminatorKind::InlineAsm { .. } => "[\"unsupported\",\"asm\"".into(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{t},{tl}],\"cl\":{}}}", arr(&st), bb.is_cleanup));
        }
        format!(
            "{{\"argc\":{},\"file\":{},\"line\":{line0},\"locals\":{},\"blocks\":{},\"spread\":{}}}",
            body.arg_count,
            s_(&file),
            arr(&locals),
            arr(&blocks),
            body.spread_arg.map(|l| l.as_usize().to_string()).unwrap_or("null".into())
        )
    }

    fn emit_inst(&mut self, i: usize, inst: Instance<'tcx>, env: TypingEnv<'tcx>, root: DefId) {
        let tcx = self.tcx;
        let d = inst.def_id();
        let path = self.path(d);
        let krate = self.krate(d);
        let kind = match inst.def {
            InstanceKind::Item(_) => match tcx.def_kind(d) {
                DefKind::Closure => {
                    if tcx.is_coroutine(d) { "coroutine" } else { "closure" }
                }
                DefKind::Ctor(..) => "ctor",
                _ => "fn",
            },
            InstanceKind::Intrinsic(_) => "intrinsic",
            InstanceKind::LlvmIntrinsic(_) => "intrinsic",
            InstanceKind::Virtual(..) => "virtual",
            InstanceKind::Shim(_) => "shim",
        };
        let aj = self.args_json(inst.args, env, root);
        let mut o = format!(
            "{{\"id\":{i},\"path\":{},\"krate\":{},\"kind\":\"{kind}\",\"args\":{aj},\"def\":{}",
            s_(&path),
            s_(&krate),
            s_(&format!("{:?}", inst.def).chars().take(60).collect::<String>())
        );
        if matches!(inst.def, InstanceKind::Item(_)) {
            if let Some(imp) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                let _ = write!(o, ",\"impl_self\":{}", s_(&format!("{st}")));
                if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    let _ = write!(o, ",\"impl_trait\":{}", s_(&self.path(tr.def_id)));
                }
            }
            if let Some(tr) = tcx.trait_of_assoc(d) {
                let _ = write!(o, ",\"in_trait\":{}", s_(&self.path(tr)));
            }
        }
        let cname = krate.as_str();
        let mut body_json = "null".to_string();
        let mut skip = OPAQUE.iter().any(|p| path.starts_with(p) || path.starts_with(&format!("<{p}")));
        // searches over slices are plain loops over `next`
        if path.starts_with("<core::slice::iter::")
            && ["any", "all", "find", "find_map", "position", "for_each"].iter().any(|m| path.ends_with(&format!(">::{m}")))
        {
            skip = false;
        }
        match inst.def {
            InstanceKind::Item(def) => {
                if let Some(ld) = def.as_local() {
                    let b = BODIES.with(|b| b.borrow().get(&ld).cloned());
                    if let Some(b) = b {
                        // SAFETY: same TyCtxt
                        let b: Body<'tcx> = unsafe { std::mem::transmute(b) };
                        body_json = self.body(&Cx { inst, env, root, body: &b });
                    } else if matches!(tcx.def_kind(d), DefKind::AnonConst | DefKind::AssocConst { .. }) {
                        let b = tcx.mir_for_ctfe(d);
                        body_json = self.body(&Cx { inst, env, root, body: b });
                    }
                } else if (cname == "core") && !skip && tcx.is_mir_available(def) {
                    let b = tcx.instance_mir(inst.def);
                    body_json = self.body(&Cx { inst, env, root, body: b });
                }
            }
            InstanceKind::Shim(sk) => {
                let txt = format!("{sk:?}");
                if !txt.starts_with("DropGlue") && !txt.contains("AsyncDrop") && !skip {
                    let b = tcx.instance_mir(inst.def);
                    body_json = self.body(&Cx { inst, env, root, body: b });
                }
            }
            _ => {}
        }
        let _ = write!(o, ",\"body\":{body_json}}}");
        self.inst_out[i] = o;
    }

    fn run(&mut self) {
        let tcx = self.tcx;
        for ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            let k = tcx.def_kind(d);
            if matches!(k, DefKind::AssocConst { .. }) {
                let args = tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, d));
                let id = self.iid(Instance::new_raw(d, args), TypingEnv::post_analysis(tcx, d), d);
                self.consts.push(format!("{{\"path\":{},\"inst\":{id}}}", s_(&self.path(d))));
                continue;
            }
            if !matches!(k, DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            let env = TypingEnv::post_analysis(tcx, d);
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let inst = Instance::new_raw(d, args);
            let inst = Instance { args: tcx.erase_and_anonymize_regions(inst.args), ..inst };
            let id = self.iid(inst, env, d);
            let (f, l) = self.span(tcx.def_span(d));
            let vis = tcx.effective_visibilities(()).is_exported(*ld);
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
            let unsf = sig.safety().is_unsafe();
            let isasync = tcx.asyncness(d).is_async();
            let isconst = tcx.is_const_fn(d);
            self.roots.push(format!(
                "{{\"path\":{},\"inst\":{id},\"file\":{},\"line\":{l},\"pub\":{vis},\"unsafe\":{unsf},\"async\":{isasync},\"const\":{isconst},\"sig\":{}}}",
                s_(&self.path(d)),
                s_(&f),
                s_(&format!("{sig}"))
            ));
        }
        loop {
            if let Some((i, inst, env, root, p)) = self.prom_queue.pop_front() {
                let b = &tcx.promoted_mir(inst.def_id())[rustc_middle::mir::Promoted::from_u32(p)];
                let body = self.body(&Cx { inst, env, root, body: b });
                let path = format!("{}::promoted", self.path(inst.def_id()));
                self.inst_out[i] = format!(
                    "{{\"id\":{i},\"path\":{},\"krate\":{},\"kind\":\"promoted\",\"args\":[],\"def\":\"promoted\",\"body\":{body}}}",
                    s_(&path), s_(&self.krate(inst.def_id()))
                );
            } else if let Some((i, inst, env, root)) = self.inst_queue.pop_front() {
                self.emit_inst(i, inst, env, root);
            } else if let Some((i, t, env, root)) = self.ty_queue.pop_front() {
                self.emit_type(i, t, env, root);
            } else {
                break;
            }
            if self.inst_out.len() > 60000 {
                panic!("too many instances");
            }
        }
    }

    /// items that are judged by declaration: impls (auto-trait and unsafe), fields' visibility, consts
    fn decls(&mut self) -> String {
        let tcx = self.tcx;
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let (f, l) = self.span(tcx.def_span(d));
                    let tr = tcx.impl_opt_trait_ref(d).map(|t| self.path(t.instantiate_identity().skip_norm_wip().def_id));
                    let preds: Vec<String> = tcx
                        .clauses_of(d)
                        .instantiate_identity(tcx)
                        .clauses
                        .iter()
                        .map(|p| s_(&format!("{}", p.skip_norm_wip())))
                        .collect();
                    impls.push(format!(
                        "{{\"self\":{},\"trait\":{},\"preds\":{},\"file\":{},\"line\":{l}}}",
                        s_(&format!("{st}")),
                        tr.map(|t| s_(&t)).unwrap_or("null".into()),
                        arr(&preds),
                        s_(&f)
                    ));
                }
                _ => {}
            }
        }
        arr(&impls)
    }

    fn finish(&mut self) -> String {
        let decls = self.decls();
        format!(
            "{{\"types\":{},\n\"insts\":[{}],\n\"roots\":{},\n\"consts\":{},\n\"impls\":{}}}",
            arr(&self.ty_out),
            self.inst_out.join(",\n"),
            arr(&self.roots),
            arr(&self.consts),
            decls
        )
    }
}

struct Cx<'a, 'tcx> {
    inst: Instance<'tcx>,
    env: TypingEnv<'tcx>,
    root: DefId,
    body: &'a Body<'tcx>,
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    args.remove(1);
    let krate = args.windows(2).find(|w| w[0] == "--crate-name").map(|w| w[1].clone());
    let out = std::env::var("VERIF_DUMP").ok();
    let is_test = args.iter().any(|a| a == "--test");
    match (krate.as_deref(), out) {
        (Some("cfg_noodle"), Some(out)) if !is_test => {
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
        }
        _ => {
            struct Nop;
            impl Callbacks for Nop {}
            rustc_driver::compiler_entrypoint(&args, &mut Nop);
        }
    }
    let _ = LOCAL_CRATE;
}
