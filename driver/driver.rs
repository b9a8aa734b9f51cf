// Fact extractor: runs as RUSTC_WRAPPER under `cargo +nightly check` and writes, for the crates
// named in VP_CRATES, the type-checked program (instance-level MIR with resolved callees, types,
// impl tables) as JSON into VP_OUT/<crate>.json. It analyses nothing itself and runs nothing.
#![feature(rustc_private)]
#![allow(rustc::internal)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}
fn strs<S: AsRef<str>>(it: &[S]) -> String { list(it.iter().map(|s| esc(s.as_ref()))) }

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct IKey<'tcx> { inst: Instance<'tcx>, scope: usize, promoted: Option<u32> }

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    types_json: Vec<String>,
    insts: HashMap<IKey<'tcx>, usize>,
    inst_list: Vec<IKey<'tcx>>,
    bodies: BTreeMap<usize, String>,
    queue: VecDeque<usize>,
    scopes: HashMap<ty::ParamEnv<'tcx>, usize>,
    scope_envs: Vec<TypingEnv<'tcx>>,
    adts: BTreeMap<String, String>,
    allow: Vec<String>,
    deny: Vec<String>,
    local_crates: Vec<String>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String { rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d)) }
    fn tystr(&self, t: Ty<'tcx>) -> String { rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t)) }
    fn krate(&self, d: DefId) -> String { self.tcx.crate_name(d.krate).to_string() }
    fn scope(&mut self, env: TypingEnv<'tcx>) -> usize {
        let pe = env.param_env;
        if let Some(i) = self.scopes.get(&pe) { return *i; }
        let i = self.scope_envs.len();
        self.scope_envs.push(env);
        self.scopes.insert(pe, i);
        i
    }
    fn span(&self, s: rustc_span::Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
    }
    fn span_in(&self, s: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
    }
    fn descend(&self, d: DefId) -> bool {
        let k = self.krate(d);
        if self.local_crates.iter().any(|c| *c == k) { return true; }
        let p = self.path(d);
        if self.deny.iter().any(|a| p.contains(a.as_str())) { return false; }
        if self.allow.iter().any(|a| p.contains(a.as_str())) { return true; }
        false
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.types.get(&t) { return *i; }
        let i = self.types_json.len();
        self.types.insert(t, i);
        self.types_json.push(String::new());
        let s = esc(&self.tystr(t));
        let j = match *t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(it) => format!("\"k\":\"int\",\"signed\":true,\"name\":{}", esc(it.name_str())),
            ty::Uint(it) => format!("\"k\":\"int\",\"signed\":false,\"name\":{}", esc(it.name_str())),
            ty::Str => "\"k\":\"str\"".into(),
            ty::Never => "\"k\":\"never\"".into(),
            ty::Array(e, n) => { let e = self.ty(e); format!("\"k\":\"array\",\"elem\":{},\"len\":{}", e, esc(&format!("{}", n))) }
            ty::Slice(e) => { let e = self.ty(e); format!("\"k\":\"slice\",\"elem\":{}", e) }
            ty::Ref(_, e, m) => { let e = self.ty(e); format!("\"k\":\"ref\",\"to\":{},\"mut\":{}", e, m.is_mut()) }
            ty::RawPtr(e, m) => { let e = self.ty(e); format!("\"k\":\"ptr\",\"to\":{},\"mut\":{}", e, m.is_mut()) }
            ty::Tuple(ts) => { let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect(); format!("\"k\":\"tuple\",\"fields\":{}", list(v)) }
            ty::Param(p) => format!("\"k\":\"param\",\"name\":{}", esc(p.name.as_str())),
            ty::Dynamic(..) => "\"k\":\"dyn\"".into(),
            ty::FnDef(d, args) => { let a = self.args(args.skip_binder()); format!("\"k\":\"fndef\",\"path\":{},\"args\":{}", esc(&self.path(d)), a) }
            ty::FnPtr(..) => "\"k\":\"fnptr\"".into(),
            ty::Closure(d, args) => {
                let ups: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"closure\",\"path\":{},\"upvars\":{},\"ck\":{}", esc(&self.path(d)), list(ups), esc(&format!("{:?}", args.as_closure().kind())))
            }
            ty::Adt(def, args) => {
                let k = self.krate(def.did());
                let p = self.path(def.did());
                let a = self.args(args);
                let full = self.local_crates.contains(&k) || def.is_enum() || self.allow.iter().any(|x| p.contains(x.as_str())) || k == "scale_type_resolver";
                let mut vs = vec![];
                if full && !def.is_union() {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let discr = if def.is_enum() { def.discriminant_for_variant(self.tcx, vi).val.to_string() } else { "0".into() };
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(self.tcx, args);
                            let ft = self.norm(ft.skip_norm_wip());
                            fs.push(format!("[{},{}]", esc(f.name.as_str()), self.ty(ft)));
                        }
                        vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":{}}}", esc(v.name.as_str()), esc(&discr), list(fs)));
                    }
                }
                format!("\"k\":\"adt\",\"path\":{},\"crate\":{},\"args\":{},\"enum\":{},\"full\":{},\"variants\":{}", esc(&p), esc(&k), a, def.is_enum(), full, list(vs))
            }
            ty::Alias(..) => format!("\"k\":\"alias\""),
            _ => "\"k\":\"other\"".into(),
        };
        self.types_json[i] = format!("{{\"s\":{},{}}}", s, j);
        i
    }
    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> { self.tcx.erase_and_anonymize_regions(t) }
    fn args(&mut self, args: GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for a in args.iter() {
            match a.kind() {
                ty::GenericArgKind::Type(t) => v.push(self.ty(t).to_string()),
                ty::GenericArgKind::Const(c) => v.push(esc(&format!("{}", c))),
                _ => {}
            }
        }
        list(v)
    }
    fn inst(&mut self, inst: Instance<'tcx>, scope: usize, promoted: Option<u32>) -> usize {
        let has_param = inst.args.has_param() || inst.args.has_aliases();
        let sc = if has_param { scope } else { 0 };
        let k = IKey { inst, scope: sc, promoted };
        if let Some(i) = self.insts.get(&k) { return *i; }
        let i = self.inst_list.len();
        self.inst_list.push(k);
        self.insts.insert(k, i);
        self.queue.push_back(i);
        i
    }
    fn resolve(&self, env: TypingEnv<'tcx>, d: DefId, args: GenericArgsRef<'tcx>) -> Option<Instance<'tcx>> {
        let args = self.tcx.try_normalize_erasing_regions(env, rustc_middle::ty::Unnormalized::new_wip(args)).ok()?;
        Instance::try_resolve(self.tcx, env, d, args).ok().flatten()
    }
    // A callee: what is called, what it resolves to.
    fn callee(&mut self, env: TypingEnv<'tcx>, scope: usize, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("\"path\":{},\"crate\":{},\"name\":{},\"args\":{}", esc(&self.path(d)), esc(&self.krate(d)),
            esc(&tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default()), self.args(args));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"trait\":{}", esc(&self.path(tr)));
        }
        // `Some`, or another constructor, used as a function
        if let rustc_hir::def::DefKind::Ctor(_, rustc_hir::def::CtorKind::Fn) = tcx.def_kind(d) {
            let ret = tcx.fn_sig(d).instantiate_identity().skip_binder().output();
            if let ty::Adt(adt, _) = ret.kind() {
                let v = adt.variants().iter_enumerated().find(|(_, v)| v.ctor_def_id() == Some(d)).map(|(i, _)| i.as_usize()).unwrap_or(0);
                let _ = write!(o, ",\"ctor\":[{},{}]", esc(&self.path(adt.did())), v);
            }
        }
        if let Some(i) = self.resolve(env, d, args) {
            let (kind, rd) = match i.def {
                InstanceKind::Item(d) => ("item", d),
                InstanceKind::Intrinsic(d) => ("intrinsic", d),
                InstanceKind::Virtual(d, _) => ("virtual", d),
                InstanceKind::Shim(_) => ("shim", i.def.def_id()),
                _ => ("other", i.def.def_id()),
            };
            let _ = write!(o, ",\"ikind\":{},\"rpath\":{},\"rcrate\":{},\"rargs\":{}", esc(kind), esc(&self.path(rd)), esc(&self.krate(rd)), self.args(i.args));
            if kind == "shim" { let _ = write!(o, ",\"shim\":{}", esc(&format!("{:?}", i.def).chars().take(40).collect::<String>())); }
            let ok = match i.def {
                InstanceKind::Item(d) => self.descend(d) && (tcx.is_mir_available(d)) && !tcx.is_foreign_item(d),
                InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => true,
                InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => true,
                _ => false,
            };
            if ok {
                let id = self.inst(i, scope, None);
                let _ = write!(o, ",\"inst\":{}", id);
            }
            // Iterators consumed by opaque callees: make their `next` available as well.
            {
                let mut nexts = vec![];
                for a in i.args.types() {
                    if let Some(n) = self.iter_next(env, scope, a) { nexts.push(n); }
                }
                for n in self.fn_args(env, scope, i.args) { nexts.push(n); }
                if !nexts.is_empty() { let _ = write!(o, ",\"iters\":{}", list(nexts)); }
            }
        } else {
            let mut nexts = vec![];
            for a in args.types() {
                if let Some(n) = self.iter_next(env, scope, a) { nexts.push(n); }
            }
            for n in self.fn_args(env, scope, args) { nexts.push(n); }
            if !nexts.is_empty() { let _ = write!(o, ",\"iters\":{}", list(nexts)); }
        }
        let sig_unsafe = tcx.fn_sig(d).skip_binder().safety().is_unsafe();
        if sig_unsafe { o.push_str(",\"unsafe\":true"); }
        format!("{{{}}}", o)
    }
    // Closure / fn item types among generic args: provide their callable instance.
    fn fn_args(&mut self, env: TypingEnv<'tcx>, scope: usize, args: GenericArgsRef<'tcx>) -> Vec<String> {
        let mut out = vec![];
        for t in args.types() {
            if let ty::Closure(d, cargs) = *t.kind() {
                let kind = cargs.as_closure().kind();
                let i = Instance::resolve_closure(self.tcx, d, cargs, kind);
                let _ = env;
                let id = self.inst(i, scope, None);
                let ti = self.ty(t);
                out.push(format!("{{\"ty\":{},\"call\":{}}}", ti, id));
            }
        }
        out
    }
    fn iter_next(&mut self, env: TypingEnv<'tcx>, scope: usize, t: Ty<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        if matches!(t.kind(), ty::Param(_) | ty::Dynamic(..) | ty::Alias(..)) { return None; }
        let tr = tcx.get_diagnostic_item(rustc_span::Symbol::intern("Iterator"))?;
        let next = tcx.associated_items(tr).in_definition_order().find(|a| a.name().as_str() == "next")?.def_id;
        let args = tcx.mk_args(&[t.into()]);
        // Does it implement Iterator?
        let inst = self.resolve(env, next, args)?;
        if inst.def_id() == next { return None; }
        let ti = self.ty(t);
        let ok = match inst.def { InstanceKind::Item(d) => self.descend(d) && tcx.is_mir_available(d), _ => false };
        if ok {
            let id = self.inst(inst, scope, None);
            Some(format!("{{\"ty\":{},\"next\":{}}}", ti, id))
        } else { None }
    }

    fn place(&mut self, p: mir::Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                mir::ProjectionElem::Deref => "\"*\"".to_string(),
                mir::ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.index(), self.ty(t)),
                mir::ProjectionElem::Index(l) => format!("[\"i\",{}]", l.index()),
                mir::ProjectionElem::ConstantIndex { offset, from_end, min_length } => format!("[\"c\",{},{},{}]", offset, from_end, min_length),
                mir::ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
                mir::ProjectionElem::Downcast(_, vi) => format!("[\"v\",{}]", vi.index()),
                _ => "[\"?\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.index(), list(v))
    }
    fn konst(&mut self, env: TypingEnv<'tcx>, scope: usize, inst: Instance<'tcx>, c: &mir::ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ti = self.ty(t);
        if let ty::FnDef(d, args) = *t.kind() {
            let cal = self.callee(env, scope, d, args.skip_binder());
            return format!("{{\"ty\":{},\"fn\":{}}}", ti, cal);
        }
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                // promoteds share the instance of their owner
                let owner = if inst.def_id() == u.def { inst } else { Instance { def: InstanceKind::Item(u.def), args: u.args } };
                let id = self.inst(owner, scope, Some(p.as_u32()));
                return format!("{{\"ty\":{},\"promoted\":{}}}", ti, id);
            }
        }
        let unev = match c.const_ { mir::Const::Unevaluated(u, _) => Some((self.path(u.def), tcx.def_kind(u.def))), _ => None };
        let too_generic = c.const_.has_param();
        let val = if too_generic { None } else { c.const_.eval(tcx, env, c.span).ok() };
        let mut extra = String::new();
        if let Some((p, _)) = &unev { let _ = write!(extra, ",\"named\":{}", esc(p)); }
        match val {
            Some(mir::ConstValue::ZeroSized) => format!("{{\"ty\":{},\"zst\":true{}}}", ti, extra),
            Some(mir::ConstValue::Scalar(Scalar::Int(i))) => {
                let bits = i.to_bits(i.size());
                let val = match t.kind() {
                    ty::Int(_) => i.to_int(i.size()).to_string(),
                    _ => bits.to_string(),
                };
                format!("{{\"ty\":{},\"int\":{}{}}}", ti, esc(&val), extra)
            }
            Some(mir::ConstValue::Scalar(Scalar::Ptr(p, _))) => {
                let (prov, _) = p.prov_and_relative_offset();
                match tcx.try_get_global_alloc(prov.alloc_id()) {
                    Some(GlobalAlloc::Static(d)) => format!("{{\"ty\":{},\"static\":{},\"mut\":{}{}}}", ti, esc(&self.path(d)), tcx.is_mutable_static(d), extra),
                    Some(GlobalAlloc::Memory(m)) => {
                        let b = m.inner();
                        let n = b.len();
                        let bytes = if b.provenance().ptrs().is_empty() && n <= 256 { list(b.inspect_with_uninit_and_ptr_outside_interpreter(0..n).iter().map(|x| x.to_string())) } else { "null".into() };
                        format!("{{\"ty\":{},\"mem\":{}{}}}", ti, bytes, extra)
                    }
                    _ => format!("{{\"ty\":{},\"opaque\":\"ptr\"{}}}", ti, extra),
                }
            }
            Some(mir::ConstValue::Slice { alloc_id, meta }) => {
                if let Some(GlobalAlloc::Memory(m)) = tcx.try_get_global_alloc(alloc_id) {
                    let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
                    return format!("{{\"ty\":{},\"str\":{}{}}}", ti, esc(&String::from_utf8_lossy(b)), extra);
                }
                format!("{{\"ty\":{},\"opaque\":\"slice\"{}}}", ti, extra)
            }
            Some(mir::ConstValue::Indirect { .. }) => format!("{{\"ty\":{},\"opaque\":{}{}}}", ti, esc(&format!("{}", c.const_)), extra),
            None => format!("{{\"ty\":{},\"opaque\":{}{}}}", ti, esc(&rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", c.const_))), extra),
        }
    }
    fn operand(&mut self, env: TypingEnv<'tcx>, scope: usize, inst: Instance<'tcx>, o: &mir::Operand<'tcx>) -> String {
        match o {
            mir::Operand::Copy(p) => format!("{{\"p\":{}}}", self.place(*p)),
            mir::Operand::Move(p) => format!("{{\"p\":{},\"mv\":true}}", self.place(*p)),
            mir::Operand::Constant(c) => format!("{{\"c\":{}}}", self.konst(env, scope, inst, c)),
            mir::Operand::RuntimeChecks(r) => format!("{{\"rt\":{}}}", esc(&format!("{:?}", r))),
        }
    }
    fn body(&mut self, id: usize) {
        let tcx = self.tcx;
        let key = self.inst_list[id];
        let env = self.scope_envs[key.scope];
        let scope = key.scope;
        let inst = key.inst;
        let raw: &mir::Body<'tcx> = match key.promoted {
            Some(p) => &tcx.promoted_mir(inst.def_id())[mir::Promoted::from_u32(p)],
            None => tcx.instance_mir(inst.def),
        };
        let raw = raw.clone();
        let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, raw.clone())) {
            Ok(b) => b,
            Err(e) => {
                if std::env::var("VP_DEBUG").is_ok() { eprintln!("cannot normalize {:?} scope {}: {:?}", inst, scope, e); }
                ty::EarlyBinder::bind(tcx, raw).instantiate(tcx, inst.args).skip_norm_wip()
            }
        };
        let locals: Vec<String> = body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        for v in body.var_debug_info.iter() {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() { names.insert(p.local.index(), v.name.to_string()); }
            }
        }
        let mut blocks = vec![];
        for (_bb, b) in body.basic_blocks.iter_enumerated() {
            if b.is_cleanup { blocks.push("null".to_string()); continue; }
            let mut st = vec![];
            for s in b.statements.iter() {
                match &s.kind {
                    mir::StatementKind::Assign(bx) => {
                        let (p, rv) = &**bx;
                        let pj = self.place(*p);
                        let r = self.rvalue(env, scope, inst, rv);
                        st.push(format!("[\"=\",{},{},{}]", pj, r, esc(&self.span(s.source_info.span))));
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(**place);
                        st.push(format!("[\"sd\",{},{}]", pj, variant_index.index()));
                    }
                    mir::StatementKind::Intrinsic(i) => {
                        if let mir::NonDivergingIntrinsic::Assume(o) = &**i {
                            let o = self.operand(env, scope, inst, o);
                            st.push(format!("[\"assume\",{}]", o));
                        } else { st.push("[\"copy_nonoverlapping\"]".into()); }
                    }
                    _ => {}
                }
            }
            let t = b.terminator();
            let sp = esc(&self.span(t.source_info.span));
            let sp_in = esc(&self.span_in(t.source_info.span));
            let tj = match &t.kind {
                mir::TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.index()),
                mir::TerminatorKind::SwitchInt { discr, targets } => {
                    let dty = discr.ty(&body.local_decls, tcx);
                    let o = self.operand(env, scope, inst, discr);
                    let signed_size = match dty.kind() { ty::Int(it) => Some(it.normalize(64).bit_width().unwrap_or(64)), _ => None };
                    let tg: Vec<String> = targets.iter().map(|(v, b)| {
                        let v = match signed_size { Some(w) if w < 128 => (((v << (128 - w)) as i128) >> (128 - w)).to_string(), Some(_) => (v as i128).to_string(), None => v.to_string() };
                        format!("[{},{}]", esc(&v), b.index())
                    }).collect();
                    let dt = self.ty(dty);
                    format!("[\"switch\",{},{},{},{}]", o, list(tg), targets.otherwise().index(), dt)
                }
                mir::TerminatorKind::Return => "[\"return\"]".into(),
                mir::TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                mir::TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(*place);
                    let dt = self.ty(place.ty(&body.local_decls, tcx).ty);
                    format!("[\"drop\",{},{},{}]", p, target.index(), dt)
                }
                mir::TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match *func.ty(&body.local_decls, tcx).kind() {
                        ty::FnDef(d, a) if !matches!(func, mir::Operand::Constant(_)) => {
                            let cal = self.callee(env, scope, d, a.skip_binder());
                            format!("{{\"c\":{{\"ty\":0,\"fn\":{}}}}}", cal)
                        }
                        _ => self.operand(env, scope, inst, func),
                    };
                    let a: Vec<String> = args.iter().map(|x| self.operand(env, scope, inst, &x.node)).collect();
                    let dt = self.ty(destination.ty(&body.local_decls, tcx).ty);
                    let at: Vec<String> = args.iter().map(|x| { let t = x.node.ty(&body.local_decls, tcx); self.ty(t).to_string() }).collect();
                    let d = self.place(*destination);
                    format!("[\"call\",{},{},{},{},{},{},{},{}]", f, list(a), d, target.map(|t| t.index().to_string()).unwrap_or("null".into()), dt, list(at), sp, sp_in)
                }
                mir::TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let o = self.operand(env, scope, inst, cond);
                    use mir::AssertKind::*;
                    let (mk, ops): (String, Vec<String>) = match &**msg {
                        BoundsCheck { len, index } => ("bounds".into(), vec![self.operand(env, scope, inst, index), self.operand(env, scope, inst, len)]),
                        Overflow(op, a, b) => (format!("overflow_{:?}", op), vec![self.operand(env, scope, inst, a), self.operand(env, scope, inst, b)]),
                        m => (format!("{:?}", m).chars().take_while(|c| c.is_alphanumeric()).collect(), vec![]),
                    };
                    format!("[\"assert\",{},{},{},{},{},{}]", o, expected, esc(&mk), list(ops), target.index(), sp)
                }
                _ => "[\"unwind\"]".into(),
            };
            blocks.push(format!("[{},{},{}]", list(st), tj, sp));
        }
        let did = inst.def_id();
        let nm: Vec<String> = names.iter().map(|(k, v)| format!("\"{}\":{}", k, esc(v))).collect();
        let up_names: Vec<String> = body.var_debug_info.iter().filter_map(|v| match v.value {
            mir::VarDebugInfoContents::Place(p) if !p.projection.is_empty() => Some(format!("[{},{}]", esc(v.name.as_str()), self.place(p))),
            _ => None }).collect();
        let ia = self.args(inst.args);
        let shim = matches!(inst.def, InstanceKind::Shim(_));
        let j = format!("{{\"id\":{},\"path\":{},\"crate\":{},\"args\":{},\"scope\":{},\"shim\":{},\"promoted\":{},\"span\":{},\"argc\":{},\"spread\":{},\"locals\":{},\"names\":{{{}}},\"dbg\":{},\"blocks\":{}}}",
            id, esc(&self.path(did)), esc(&self.krate(did)), ia, scope, shim,
            key.promoted.map(|p| p.to_string()).unwrap_or("null".into()),
            esc(&self.span(tcx.def_span(did))), body.arg_count,
            body.spread_arg.map(|l| l.index().to_string()).unwrap_or("null".into()),
            list(locals), nm.join(","), list(up_names), list(blocks));
        self.bodies.insert(id, j);
    }
    fn rvalue(&mut self, env: TypingEnv<'tcx>, scope: usize, inst: Instance<'tcx>, rv: &mir::Rvalue<'tcx>) -> String {
        use mir::Rvalue::*;
        let tcx = self.tcx;
        macro_rules! op { ($o:expr) => { self.operand(env, scope, inst, $o) } }
        match rv {
            Use(o, ..) => format!("[\"use\",{}]", op!(o)),
            Repeat(o, c) => format!("[\"repeat\",{},{}]", op!(o), esc(&format!("{}", c))),
            Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, mir::BorrowKind::Mut { .. }), self.place(*p)),
            RawPtr(k, p) => format!("[\"ptr\",{},{}]", matches!(k, mir::RawPtrKind::Mut), self.place(*p)),
            Cast(k, o, t) => {
                let kk = format!("{:?}", k);
                let o2 = op!(o);
                // function item / closure to pointer casts: expose the callee
                let ti = self.ty(*t);
                let mut ex = String::from("null");
                if let mir::Operand::Constant(c) = o {
                    if let ty::FnDef(d, a) = *c.const_.ty().kind() { ex = self.callee(env, scope, d, a.skip_binder()); }
                }
                format!("[\"cast\",{},{},{},{}]", esc(&kk), o2, ti, ex)
            }
            BinaryOp(b, ab) => format!("[\"bin\",{},{},{}]", esc(&format!("{:?}", b)), op!(&ab.0), op!(&ab.1)),
            UnaryOp(u, o) => format!("[\"un\",{},{}]", esc(&format!("{:?}", u)), op!(o)),
            Discriminant(p) => format!("[\"discr\",{}]", self.place(*p)),
            Aggregate(k, fs) => {
                let f: Vec<String> = fs.iter().map(|x| op!(x)).collect();
                let kj = match &**k {
                    mir::AggregateKind::Array(t) => { let t = self.ty(*t); format!("\"kind\":\"array\",\"elem\":{}", t) }
                    mir::AggregateKind::Tuple => "\"kind\":\"tuple\"".into(),
                    mir::AggregateKind::Adt(d, vi, args, _, _) => {
                        let def = tcx.adt_def(*d);
                        let t = Ty::new_adt(tcx, def, args);
                        let t = self.ty(t);
                        format!("\"kind\":\"adt\",\"path\":{},\"variant\":{},\"vname\":{},\"ty\":{}", esc(&self.path(*d)), vi.index(), esc(def.variant(*vi).name.as_str()), t)
                    }
                    mir::AggregateKind::Closure(d, args) => {
                        let i = Instance::resolve_closure(tcx, *d, args, args.as_closure().kind());
                        let id = self.inst(i, scope, None);
                        let t = Ty::new_closure(tcx, *d, args);
                        let t = self.ty(t);
                        format!("\"kind\":\"closure\",\"path\":{},\"inst\":{},\"ck\":{},\"ty\":{}", esc(&self.path(*d)), id, esc(&format!("{:?}", args.as_closure().kind())), t)
                    }
                    mir::AggregateKind::RawPtr(t, _) => { let t = self.ty(*t); format!("\"kind\":\"rawptr\",\"ty\":{}", t) }
                    _ => "\"kind\":\"other\"".into(),
                };
                format!("[\"agg\",{{{}}},{}]", kj, list(f))
            }
            CopyForDeref(p) => format!("[\"use\",{{\"p\":{}}}]", self.place(*p)),
            ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.path(*d))),
            _ => "[\"?\"]".into(),
        }
    }
}

fn unsafe_uses(tcx: TyCtxt<'_>) -> Vec<String> {
    use rustc_hir as hir;
    use rustc_hir::intravisit::{self, Visitor};
    struct U<'tcx> { tcx: TyCtxt<'tcx>, out: Vec<String> }
    impl<'tcx> Visitor<'tcx> for U<'tcx> {
        type NestedFilter = rustc_middle::hir::nested_filter::All;
        fn maybe_tcx(&mut self) -> Self::MaybeTyCtxt { self.tcx }
        fn visit_block(&mut self, b: &'tcx hir::Block<'tcx>) {
            if let hir::BlockCheckMode::UnsafeBlock(src) = b.rules {
                if src == hir::UnsafeSource::UserProvided && !b.span.allows_unsafe() {
                    self.out.push(format!("unsafe block at {}", self.tcx.sess.source_map().span_to_diagnostic_string(b.span)));
                }
            }
            intravisit::walk_block(self, b)
        }
    }
    let mut u = U { tcx, out: vec![] };
    tcx.hir_walk_toplevel_module(&mut u);
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn => {
                if tcx.fn_sig(d).skip_binder().safety().is_unsafe() { u.out.push(format!("unsafe fn {}", tcx.def_path_str(d))); }
            }
            DefKind::ForeignMod => u.out.push(format!("foreign module {}", tcx.def_path_str(d))),
            DefKind::Trait => {
                if tcx.trait_def(d).safety.is_unsafe() { u.out.push(format!("unsafe trait {}", tcx.def_path_str(d))); }
            }
            DefKind::Impl { of_trait: true } => {
                if tcx.impl_trait_header(d).safety.is_unsafe() { u.out.push(format!("unsafe impl {}", tcx.def_path_str(d))); }
            }
            _ => {}
        }
    }
    u.out
}

fn extract(tcx: TyCtxt<'_>, out: &str) {
    let crate_name = tcx.crate_name(LOCAL_CRATE).to_string();
    let cfg = std::fs::read_to_string(std::env::var("VP_DESCEND").expect("VP_DESCEND")).expect("descend file");
    let mut allow = vec![];
    let mut deny = vec![];
    for l in cfg.lines() {
        let l = l.trim();
        if l.is_empty() || l.starts_with('#') { continue; }
        if let Some(d) = l.strip_prefix('-') { deny.push(d.trim().to_string()) } else { allow.push(l.to_string()) }
    }
    let mut cx = Cx {
        tcx, types: HashMap::new(), types_json: vec![], insts: HashMap::new(), inst_list: vec![], bodies: BTreeMap::new(),
        queue: VecDeque::new(), scopes: HashMap::new(), scope_envs: vec![], adts: BTreeMap::new(), allow, deny,
        local_crates: vec!["scale_decode".into(), crate_name.clone()],
    };
    // scope 0: fully monomorphic
    cx.scope(TypingEnv::fully_monomorphized());
    let ev = tcx.effective_visibilities(());
    let light = std::env::var("VP_LIGHT").is_ok(); // only the crate graph, statics and uses of unsafe
    let mut roots = vec![];
    // every function with a body, with identity arguments
    for ld in tcx.mir_keys(()).iter() {
        let d = ld.to_def_id();
        if light || !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) { continue; }
        if !tcx.is_mir_available(d) { continue; }
        let env = TypingEnv::codegen(tcx, d);
        let scope = cx.scope(env);
        let args = ty::GenericArgs::identity_for_item(tcx, d);
        let args = tcx.erase_and_anonymize_regions(args);
        let args = tcx.try_normalize_erasing_regions(env, rustc_middle::ty::Unnormalized::new_wip(args)).unwrap_or(args);
        let inst = Instance { def: InstanceKind::Item(d), args };
        let id = cx.inst(inst, scope, None);
        let mut extra = String::new();
        if let Some(tr) = tcx.trait_of_assoc(d) { let _ = write!(extra, ",\"trait_default\":{}", esc(&cx.path(tr))); }
        if let Some(im) = tcx.impl_of_assoc(d) {
            let st = cx.ty(tcx.type_of(im).instantiate_identity().skip_norm_wip());
            let _ = write!(extra, ",\"self_ty\":{}", st);
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                let _ = write!(extra, ",\"impl_trait\":{},\"impl\":{}", esc(&cx.path(tr.def_id)), esc(&cx.path(im)));
            }
        }
        let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
        let sig = tcx.instantiate_bound_regions_with_erased(sig);
        let ins: Vec<String> = sig.inputs().iter().map(|t| cx.ty(*t).to_string()).collect();
        let outp = cx.ty(sig.output());
        let sigs = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{:?}", tcx.fn_sig(d).instantiate_identity().skip_norm_wip()));
        let derived = tcx.def_span(d).from_expansion();
        let gens: Vec<String> = { let mut v = vec![]; let mut g = Some(tcx.generics_of(d)); while let Some(gg) = g { for p in gg.own_params.iter() { v.push(p.name.to_string()); } g = gg.parent.map(|p| tcx.generics_of(p)); } v };
        let hidden = tcx.is_doc_hidden(d);
        roots.push(format!("{{\"id\":{},\"name\":{},\"path\":{},\"pub\":{},\"hidden\":{},\"ins\":{},\"out\":{},\"sig\":{},\"gens\":{},\"expn\":{}{}}}", id, esc(tcx.item_name(d).as_str()), esc(&cx.path(d)), ev.is_reachable(*ld), hidden, list(ins), outp, esc(&sigs), strs(&gens), derived, extra));
    }
    // trait impls: every method, whether overridden or inherited
    let mut impls = vec![];
    for (tr_id, ims) in tcx.all_local_trait_impls(()).iter() {
        for im in ims.iter() {
            if light { break; }
            let im = im.to_def_id();
            let tref = tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip();
            let env = TypingEnv::codegen(tcx, im);
            let st = cx.ty(tref.self_ty());
            let tp = cx.path(*tr_id);
            let mut ms = vec![];
            let mut atys = vec![];
            for it in tcx.associated_items(*tr_id).in_definition_order() {
                if it.is_type() {
                    if let Some(a) = tcx.associated_items(im).in_definition_order().find(|a| a.is_type() && a.name() == it.name()) {
                        let t = tcx.type_of(a.def_id).instantiate_identity().skip_norm_wip();
                        atys.push(format!("[{},{}]", esc(it.name().as_str()), cx.ty(t)));
                    }
                    continue;
                }
                if !it.is_fn() { continue; }
                let own_gen = tcx.generics_of(it.def_id).own_params.iter().any(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime));
                let has_own = tcx.associated_items(im).in_definition_order().any(|a| a.is_fn() && a.name() == it.name());
                if own_gen && !has_own {
                    // inherited and generic in itself: the trait's own default body stands for it
                    ms.push(format!("{{\"name\":{},\"id\":null,\"own\":false,\"default\":true}}", esc(it.name().as_str())));
                    continue;
                }
                let scope_full = cx.scope(env);
                let ident = ty::GenericArgs::identity_for_item(tcx, it.def_id);
                let margs = tref.args.extend_to(tcx, it.def_id, |p, _| ident[p.index as usize]);
                let margs = tcx.erase_and_anonymize_regions(margs);
                let r = cx.resolve(env, it.def_id, margs);
                if let Some(i) = r {
                    let own = tcx.impl_of_assoc(i.def_id()) == Some(im);
                    let mut e = env;
                    let mut inst = i;
                    let mut scope = scope_full;
                    if own {
                        // Analyse overridden methods in their own environment.
                        e = TypingEnv::codegen(tcx, i.def_id());
                        scope = cx.scope(e);
                        let args = tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, i.def_id()));
                        let args = tcx.try_normalize_erasing_regions(e, rustc_middle::ty::Unnormalized::new_wip(args)).unwrap_or(args);
                        inst = Instance { def: InstanceKind::Item(i.def_id()), args };
                    }
                    let _ = e;
                    let ok = own || (cx.descend(i.def_id()) && tcx.is_mir_available(i.def_id())) || (tp.contains("Visitor") && tcx.is_mir_available(i.def_id()));
                    let id = if ok { cx.inst(inst, scope, None).to_string() } else { "null".into() };
                    ms.push(format!("{{\"name\":{},\"id\":{},\"own\":{}}}", esc(it.name().as_str()), id, own));
                } else {
                    ms.push(format!("{{\"name\":{},\"id\":null,\"own\":false}}", esc(it.name().as_str())));
                }
            }
            impls.push(format!("{{\"trait\":{},\"self\":{},\"selfs\":{},\"methods\":{},\"types\":{},\"derived\":{}}}", esc(&tp), st, esc(&cx.tystr(tref.self_ty())), list(ms), list(atys), tcx.def_span(im).from_expansion()));
        }
    }
    while let Some(id) = cx.queue.pop_front() { cx.body(id); }
    // ADTs, statics
    let mut adts = vec![];
    let mut statics = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let env = TypingEnv::codegen(tcx, d);
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let ti = cx.ty(t);
                let fz = tcx.erase_and_anonymize_regions(t).is_freeze(tcx, env);
                let fields: Vec<String> = tcx.adt_def(d).all_fields().map(|f| {
                    let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let freeze = tcx.erase_and_anonymize_regions(ft).is_freeze(tcx, env);
                    format!("[{},{},{},{}]", esc(f.name.as_str()), esc(&cx.tystr(ft)), ev.is_reachable(f.did.expect_local()) && f.vis.is_public(), freeze)
                }).collect();
                adts.push(format!("{{\"path\":{},\"ty\":{},\"pub\":{},\"freeze\":{},\"fields\":{}}}", esc(&cx.path(d)), ti, ev.is_reachable(id), fz, list(fields)));
            }
            DefKind::Static { .. } => statics.push(format!("{{\"path\":{},\"mut\":{},\"ty\":{}}}", esc(&cx.path(d)), tcx.is_mutable_static(d), esc(&cx.tystr(tcx.type_of(d).instantiate_identity().skip_norm_wip())))),
            _ => {}
        }
    }
    let crates: Vec<String> = tcx.crates(()).iter().map(|c| tcx.crate_name(*c).to_string()).collect();
    let us = unsafe_uses(tcx);
    let mut o = String::new();
    let _ = write!(o, "{{\"crate\":{},\"ptr_width\":{},\"crates\":{},\"unsafe\":{},\"statics\":{},\"adts\":{},\n\"roots\":[\n{}\n],\n\"impls\":[\n{}\n],\n\"types\":[\n{}\n],\n\"bodies\":[\n{}\n]}}\n",
        esc(&crate_name), tcx.data_layout.pointer_size().bits(), strs(&crates), strs(&us), list(statics), list(adts), roots.join(",\n"), impls.join(",\n"), cx.types_json.join(",\n"),
        cx.bodies.values().cloned().collect::<Vec<_>>().join(",\n"));
    std::fs::write(format!("{}/{}.json.tmp", out, crate_name), o).expect("write facts");
    std::fs::rename(format!("{}/{}.json.tmp", out, crate_name), format!("{}/{}.json", out, crate_name)).expect("rename facts");
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        extract(tcx, &std::env::var("VP_OUT").expect("VP_OUT"));
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0); // ourselves; args[0] is now the real rustc
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let wanted = std::env::var("VP_CRATES").unwrap_or_default();
    if wanted.split(',').any(|w| w == name) {
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    } else {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
}
