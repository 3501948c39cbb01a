//! rustc driver used by the static checks in /verif: it type-checks the crate exactly as
//! cargo asks for, then dumps the resolved program (MIR of every body, types, ADTs, impls)
//! as JSON into $MIRDUMP_OUT.  Nothing of the crate is executed.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_hir::intravisit::{self, Visitor};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_json: Vec<String>,
    adts: HashMap<DefId, String>,
    unsafes: Vec<String>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(d)))
}

impl<'tcx> D<'tcx> {
    fn span(&self, s: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        format!("[{},{}]", esc(&lo.file.name.prefer_local_unconditionally().to_string()), lo.line)
    }

    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        if self.adts.contains_key(&def.did()) {
            return;
        }
        self.adts.insert(def.did(), String::new());
        let tcx = self.tcx;
        let mut vs = vec![];
        let discrs: Vec<(rustc_abi::VariantIdx, u128)> =
            if def.is_enum() { def.discriminants(tcx).map(|(i, d)| (i, d.val)).collect() } else { vec![] };
        let local = def.did().is_local();
        for (i, v) in def.variants().iter_enumerated() {
            let d = discrs.iter().find(|x| x.0 == i).map(|x| x.1).unwrap_or(0);
            let fs: Vec<String> = v
                .fields
                .iter()
                .map(|f| {
                    let t = if local {
                        let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        self.ty(t).to_string()
                    } else {
                        "null".into()
                    };
                    let vis = if f.vis.is_public() { "true" } else { "false" };
                    format!("[{},{},{}]", esc(f.name.as_str()), t, vis)
                })
                .collect();
            vs.push(format!(
                "{{\"name\":{},\"discr\":\"{}\",\"fields\":[{}]}}",
                esc(v.name.as_str()),
                d,
                fs.join(",")
            ));
        }
        let j = format!(
            "{{\"path\":{},\"kind\":\"{}\",\"local\":{},\"span\":{},\"variants\":[{}]}}",
            esc(&path(tcx, def.did())),
            if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" },
            local,
            if local { self.span(tcx.def_span(def.did())) } else { "null".into() },
            vs.join(",")
        );
        self.adts.insert(def.did(), j);
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let id = self.ty_json.len();
        self.tys.insert(t, id);
        self.ty_json.push(String::new());
        let tcx = self.tcx;
        let s = with_no_visible_paths!(with_no_trimmed_paths!(t.to_string()));
        let extra = match t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(i) => format!("\"k\":\"int\",\"bits\":{}", i.bit_width().unwrap_or(64)),
            ty::Uint(i) => format!("\"k\":\"uint\",\"bits\":{}", i.bit_width().unwrap_or(64)),
            ty::Adt(def, args) => {
                self.adt(*def);
                let a: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
                format!("\"k\":\"adt\",\"path\":{},\"args\":[{}]", esc(&path(tcx, def.did())), a.join(","))
            }
            ty::Str => "\"k\":\"str\"".into(),
            ty::Array(e, n) => {
                let e = self.ty(*e);
                let n = n.try_to_target_usize(tcx);
                format!("\"k\":\"array\",\"elem\":{},\"len\":{}", e, n.map(|x| x.to_string()).unwrap_or("null".into()))
            }
            ty::Slice(e) => {
                let e = self.ty(*e);
                format!("\"k\":\"slice\",\"elem\":{}", e)
            }
            ty::Ref(_, e, m) => {
                let e = self.ty(*e);
                format!("\"k\":\"ref\",\"to\":{},\"mut\":{}", e, m.is_mut())
            }
            ty::RawPtr(e, m) => {
                let e = self.ty(*e);
                format!("\"k\":\"ptr\",\"to\":{},\"mut\":{}", e, m.is_mut())
            }
            ty::FnDef(d, args) => {
                let c = self.callee((*d).into(), args.skip_binder(), None);
                format!("\"k\":\"fndef\",\"fn\":{}", c)
            }
            ty::Closure(d, _) => format!("\"k\":\"closure\",\"path\":{}", esc(&path(tcx, (*d).into()))),
            ty::Tuple(ts) => {
                let a: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("\"k\":\"tuple\",\"args\":[{}]", a.join(","))
            }
            ty::Never => "\"k\":\"never\"".into(),
            ty::Param(_) => "\"k\":\"param\"".into(),
            ty::Dynamic(..) => "\"k\":\"dyn\"".into(),
            ty::FnPtr(..) => "\"k\":\"fnptr\"".into(),
            ty::Float(_) => "\"k\":\"float\"".into(),
            _ => "\"k\":\"other\"".into(),
        };
        self.ty_json[id] = format!("{{\"s\":{},{}}}", esc(&s), extra);
        id
    }

    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: Option<ty::TypingEnv<'tcx>>) -> String {
        let tcx = self.tcx;
        let p = path(tcx, d);
        let targs: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
        let mut o = format!(
            "{{\"path\":{},\"crate\":{},\"local\":{},\"args\":[{}]",
            esc(&p),
            esc(tcx.crate_name(d.krate).as_str()),
            d.is_local(),
            targs.join(",")
        );
        if d.is_local() && args.consts().next().is_some() {
            let gens = tcx.generics_of(d);
            let mut cs = vec![];
            for (i, a) in args.iter().enumerate() {
                if let Some(c) = a.as_const() {
                    let name = gens.param_at(i, tcx).name;
                    let v = match c.kind() {
                        ty::ConstKind::Param(p) => esc(p.name.as_str()),
                        _ => c.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into()),
                    };
                    cs.push(format!("{}:{}", esc(name.as_str()), v));
                }
            }
            let _ = write!(o, ",\"cargs\":{{{}}}", cs.join(","));
        }
        let parent_trait = if matches!(tcx.def_kind(d), DefKind::AssocFn) { tcx.trait_of_assoc(d) } else { None };
        if let Some(t) = parent_trait {
            let _ = write!(o, ",\"trait\":{},\"method\":{}", esc(&path(tcx, t)), esc(tcx.item_name(d).as_str()));
        }
        if let DefKind::Ctor(of, _) = tcx.def_kind(d) {
            let par = tcx.parent(d);
            let (adt, idx) = match of {
                rustc_hir::def::CtorOf::Struct => (par, 0),
                rustc_hir::def::CtorOf::Variant => {
                    let a = tcx.parent(par);
                    (a, tcx.adt_def(a).variant_index_with_id(par).as_usize())
                }
            };
            let def = tcx.adt_def(adt);
            self.adt(def);
            let _ = write!(o, ",\"ctor\":[{},{}]", esc(&path(tcx, adt)), idx);
        }
        let env = env.unwrap_or_else(ty::TypingEnv::fully_monomorphized);
        let has_inner = args.has_infer() || args.has_escaping_bound_vars();
        let eargs = tcx.erase_and_anonymize_regions(args);
        if !has_inner && matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, eargs) {
                let (k, rd) = match inst.def {
                    ty::InstanceKind::Item(x) => ("item", x),
                    ty::InstanceKind::Virtual(x, _) => ("virtual", x),
                    ty::InstanceKind::Intrinsic(x) => ("intrinsic", x),
                    other => ("shim", other.def_id()),
                };
                let _ = write!(
                    o,
                    ",\"res\":{{\"k\":\"{}\",\"path\":{},\"crate\":{},\"local\":{}}}",
                    k,
                    esc(&path(tcx, rd)),
                    esc(tcx.crate_name(rd.krate).as_str()),
                    rd.is_local()
                );
            }
        }
        o.push('}');
        o
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut o = format!("[{}", p.local.as_usize());
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => o.push_str(",[\"*\"]"),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    let _ = write!(o, ",[\"f\",{},{}]", f.as_usize(), t);
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, ",[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(o, ",[\"ci\",{},{},{}]", offset, min_length, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, ",[\"ss\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(_, v) => {
                    let _ = write!(o, ",[\"d\",{}]", v.as_usize());
                }
                _ => o.push_str(",[\"?\"]"),
            }
        }
        o.push(']');
        o
    }

    fn alloc_bytes(&self, id: rustc_middle::mir::interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let (s, e) = (off as usize, (off + len) as usize);
                if e > a.len() {
                    return None;
                }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(s..e).to_vec())
            }
            _ => None,
        }
    }

    fn bytes_json(b: &[u8]) -> String {
        let mut s = String::from("\"");
        for x in b {
            let _ = write!(s, "{:02x}", x);
        }
        s.push('"');
        s
    }

    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>) -> String {
        match v {
            ConstValue::ZeroSized => "\"v\":[\"zst\"]".into(),
            ConstValue::Scalar(Scalar::Int(i)) => {
                let sz = i.size();
                let bits = i.to_bits(sz);
                if t.is_signed() {
                    let v = sz.sign_extend(bits);
                    format!("\"v\":[\"int\",\"{}\"]", v)
                } else {
                    format!("\"v\":[\"int\",\"{}\"]", bits)
                }
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                let id = prov.alloc_id();
                match self.tcx.try_get_global_alloc(id) {
                    Some(GlobalAlloc::Static(d)) => {
                        format!("\"v\":[\"static\",{}]", esc(&path(self.tcx, d)))
                    }
                    Some(GlobalAlloc::Function { instance }) => {
                        let c = self.callee(instance.def_id(), instance.args, None);
                        format!("\"v\":[\"fn\",{}]", c)
                    }
                    Some(GlobalAlloc::Memory(a)) => {
                        let n = a.inner().len() as u64;
                        if a.inner().provenance().ptrs().is_empty() && off.bytes() <= n {
                            let b = self.alloc_bytes(id, off.bytes(), n - off.bytes()).unwrap_or_default();
                            format!("\"v\":[\"ptrbytes\",{}]", Self::bytes_json(&b))
                        } else {
                            "\"v\":[\"opaque\"]".into()
                        }
                    }
                    _ => "\"v\":[\"opaque\"]".into(),
                }
            }
            ConstValue::Slice { alloc_id, meta } => match self.alloc_bytes(alloc_id, 0, meta) {
                Some(b) => format!("\"v\":[\"slice\",{}]", Self::bytes_json(&b)),
                None => "\"v\":[\"opaque\"]".into(),
            },
            ConstValue::Indirect { alloc_id, offset } => {
                if let Some(GlobalAlloc::Memory(a)) = self.tcx.try_get_global_alloc(alloc_id) {
                    let n = a.inner().len() as u64;
                    if a.inner().provenance().ptrs().is_empty() && offset.bytes() <= n && n < 65536 {
                        let b = self.alloc_bytes(alloc_id, offset.bytes(), n - offset.bytes()).unwrap_or_default();
                        return format!("\"v\":[\"mem\",{}]", Self::bytes_json(&b));
                    }
                    // fat pointer to a str/slice without further pointers
                    let ptrs = a.inner().provenance().ptrs();
                    if n == 16 && offset.bytes() == 0 && ptrs.iter().count() == 1 {
                        let (_, prov) = ptrs.iter().next().unwrap();
                        let raw = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(8..16);
                        let len = u64::from_le_bytes(raw.try_into().unwrap());
                        if let Some(b) = self.alloc_bytes(prov.alloc_id(), 0, len) {
                            return format!("\"v\":[\"slice\",{}]", Self::bytes_json(&b));
                        }
                    }
                }
                "\"v\":[\"opaque\"]".into()
            }
        }
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tid = self.ty(t);
        if let ty::FnDef(d, args) = t.kind() {
            let cal = self.callee((*d).into(), args.skip_binder(), Some(env));
            return format!("{{\"k\":\"fn\",\"ty\":{},\"fn\":{}}}", tid, cal);
        }
        let mut o = format!("{{\"k\":\"c\",\"ty\":{}", tid);
        let mut try_eval = true;
        match c.const_ {
            Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    let _ = write!(o, ",\"promoted\":[{},{}]", esc(&path(tcx, u.def)), p.as_usize());
                    try_eval = false;
                } else {
                    let _ = write!(o, ",\"def\":{},\"local\":{}", esc(&path(tcx, u.def)), u.def.is_local());
                    if u.args.has_param() {
                        try_eval = false;
                    }
                }
            }
            Const::Ty(_, ct) => {
                if ct.has_param() {
                    if let ty::ConstKind::Param(p) = ct.kind() {
                        let _ = write!(o, ",\"cparam\":{}", esc(p.name.as_str()));
                    }
                    try_eval = false;
                }
            }
            Const::Val(..) => {}
        }
        if try_eval {
            if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                let s = self.constval(v, t);
                let _ = write!(o, ",{}", s);
            }
        }
        o.push('}');
        o
    }

    fn operand(&mut self, op: &Operand<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("{{\"k\":\"cp\",\"p\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"k\":\"mv\",\"p\":{}}}", self.place(p)),
            Operand::Constant(c) => self.constant(c, env),
            _ => "{\"k\":\"rt\"}".into(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(op, ..) => format!("[\"use\",{}]", self.operand(op, env)),
            Rvalue::Repeat(op, n) => {
                let n = match n.kind() {
                    ty::ConstKind::Param(p) => esc(p.name.as_str()),
                    _ => n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into()),
                };
                format!("[\"repeat\",{},{}]", self.operand(op, env), n)
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(p))
            }
            Rvalue::RawPtr(k, p) => format!("[\"rawptr\",{},{}]", esc(&format!("{:?}", k)), self.place(p)),
            Rvalue::Cast(k, op, t) => {
                let t = self.ty(*t);
                format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), self.operand(op, env), t)
            }
            Rvalue::BinaryOp(b, ops) => format!(
                "[\"bin\",\"{:?}\",{},{}]",
                b,
                self.operand(&ops.0, env),
                self.operand(&ops.1, env)
            ),
            Rvalue::UnaryOp(u, op) => format!("[\"un\",\"{:?}\",{}]", u, self.operand(op, env)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o, env)).collect();
                let ks = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, _, _, f) => {
                        let def = self.tcx.adt_def(*d);
                        self.adt(def);
                        format!(
                            "[\"adt\",{},{},{}]",
                            esc(&path(self.tcx, *d)),
                            v.as_usize(),
                            f.map(|x| x.as_usize().to_string()).unwrap_or("null".into())
                        )
                    }
                    AggregateKind::Closure(d, _) => format!("[\"closure\",{}]", esc(&path(self.tcx, *d))),
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},[{}]]", ks, os.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"k\":\"cp\",\"p\":{}}}]", self.place(p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&path(self.tcx, *d))),
            other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
        }
    }

    fn body(&mut self, b: &Body<'tcx>, def: DefId) -> String {
        let tcx = self.tcx;
        let env = ty::TypingEnv::post_analysis(tcx, def);
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upv: Vec<String> = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                } else {
                    upv.push(format!("[{},{}]", esc(v.name.as_str()), self.place(p)));
                }
            }
        }
        let locals: Vec<String> = b
            .local_decls
            .iter_enumerated()
            .map(|(i, l)| {
                let t = self.ty(l.ty);
                match names.get(&i.as_usize()) {
                    Some(n) => format!("[{},{}]", t, esc(n)),
                    None => format!("[{}]", t),
                }
            })
            .collect();
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&a.0);
                        let r = self.rvalue(&a.1, env);
                        let sp = self.span(s.source_info.span);
                        st.push(format!("[\"=\",{},{},{}]", p, r, sp));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"setd\",{},{}]", self.place(place), variant_index.as_usize()));
                    }
                    StatementKind::Intrinsic(i) => st.push(format!("[\"intr\",{}]", esc(&format!("{:?}", i)))),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ts: Vec<String> =
                        targets.iter().map(|(v, t)| format!("[\"{}\",{}]", v, t.as_usize())).collect();
                    let dty = discr.ty(&b.local_decls, tcx);
                    let dt = self.ty(dty);
                    format!(
                        "[\"switch\",{},[{}],{},{}]",
                        self.operand(discr, env),
                        ts.join(","),
                        targets.otherwise().as_usize(),
                        dt
                    )
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&b.local_decls, tcx).ty;
                    let pt = self.ty(pt);
                    format!("[\"drop\",{},{},{}]", self.place(place), target.as_usize(), pt)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, env);
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node, env)).collect();
                    let at: Vec<String> = args
                        .iter()
                        .map(|x| {
                            let t = x.node.ty(&b.local_decls, tcx);
                            self.ty(t).to_string()
                        })
                        .collect();
                    let dt = destination.ty(&b.local_decls, tcx).ty;
                    let dt = self.ty(dt);
                    format!(
                        "[\"call\",{},[{}],{},{},[{}],{}]",
                        f,
                        a.join(","),
                        self.place(destination),
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()),
                        at.join(","),
                        dt
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            format!("[\"bounds\",{},{}]", self.operand(len, env), self.operand(index, env))
                        }
                        AssertKind::Overflow(op, a, c) => format!(
                            "[\"overflow\",\"{:?}\",{},{}]",
                            op,
                            self.operand(a, env),
                            self.operand(c, env)
                        ),
                        AssertKind::OverflowNeg(a) => format!("[\"overflowneg\",{}]", self.operand(a, env)),
                        AssertKind::DivisionByZero(a) => format!("[\"div0\",{}]", self.operand(a, env)),
                        AssertKind::RemainderByZero(a) => format!("[\"rem0\",{}]", self.operand(a, env)),
                        o => format!("[\"other\",{}]", esc(&format!("{:?}", o))),
                    };
                    format!("[\"assert\",{},{},{},{}]", self.operand(cond, env), expected, m, target.as_usize())
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
            };
            blocks.push(format!(
                "{{\"s\":[{}],\"t\":{},\"sp\":{},\"cl\":{}}}",
                st.join(","),
                tj,
                sp,
                bb.is_cleanup
            ));
        }
        format!(
            "\"argc\":{},\"locals\":[{}],\"upvars\":[{}],\"blocks\":[{}]",
            b.arg_count,
            locals.join(","),
            upv.join(","),
            blocks.join(",")
        )
    }
}

struct UnsafeFinder<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<Span>,
}
impl<'tcx> Visitor<'tcx> for UnsafeFinder<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(_) = b.rules {
            self.found.push(b.span);
        }
        intravisit::walk_block(self, b);
    }
}

struct Cb {
    out: String,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if tcx.crate_name(LOCAL_CRATE).as_str() != "sshcerts" {
            return Compilation::Continue;
        }
        let mut d = D { tcx, tys: HashMap::new(), ty_json: vec![], adts: HashMap::new(), unsafes: vec![] };
        let mut fns = vec![];
        let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|k| k.local_def_index.as_usize());
        for ld in keys {
            let did = ld.to_def_id();
            let kind = tcx.def_kind(did);
            let (body, is_const) = match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => (tcx.optimized_mir(did), false),
                DefKind::Ctor(..) => continue,
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst => {
                    (tcx.mir_for_ctfe(did), true)
                }
                _ => continue,
            };
            let mut uf = UnsafeFinder { tcx, found: vec![] };
            if kind != DefKind::Closure {
                if let Some(hb) = tcx.hir_maybe_body_owned_by(ld) {
                    uf.visit_body(hb);
                }
            }
            for s in uf.found {
                let x = format!("[{},{}]", esc(&path(tcx, did)), d.span(s));
                d.unsafes.push(x);
            }
            let vis = if matches!(kind, DefKind::Closure) {
                "closure".to_string()
            } else if tcx.effective_visibilities(()).is_reachable(ld) {
                "reachable".to_string()
            } else {
                "private".to_string()
            };
            let public = !matches!(kind, DefKind::Closure)
                && matches!(kind, DefKind::Fn | DefKind::AssocFn)
                && tcx.visibility(did).is_public();
            let mut extra = String::new();
            if let DefKind::Static { mutability, .. } = kind {
                let sty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let fr = sty.is_freeze(tcx, ty::TypingEnv::fully_monomorphized());
                let _ = write!(extra, ",\"static_mut\":{}", mutability.is_mut() || !fr);
            }
            if matches!(kind, DefKind::AssocFn) {
                let par = tcx.parent(did);
                if let DefKind::Impl { of_trait } = tcx.def_kind(par) {
                    let st = tcx.type_of(par).instantiate_identity().skip_norm_wip();
                    let st = d.ty(st);
                    let _ = write!(extra, ",\"impl_self\":{}", st);
                    if of_trait {
                        let tr = tcx.impl_trait_ref(par).instantiate_identity().skip_norm_wip();
                        let _ = write!(extra, ",\"impl_trait\":{}", esc(&path(tcx, tr.def_id)));
                        if tr.args.types().count() > 1 {
                            let t1 = tr.args.types().nth(1).unwrap();
                            let t1 = d.ty(t1);
                            let _ = write!(extra, ",\"impl_trait_arg\":{}", t1);
                        }
                        let der = tcx.is_automatically_derived(par);
                        let _ = write!(extra, ",\"derived\":{}", der);
                    }
                } else if let DefKind::Trait = tcx.def_kind(par) {
                    let _ = write!(extra, ",\"trait_default\":{}", esc(&path(tcx, par)));
                }
                let _ = write!(extra, ",\"method\":{}", esc(tcx.item_name(did).as_str()));
            }
            let unsafe_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn) && tcx.fn_sig(did).skip_binder().safety().is_unsafe();
            let bj = d.body(body, did);
            let mut proms = vec![];
            for p in tcx.promoted_mir(did).iter() {
                let pj = d.body(p, did);
                proms.push(format!("{{{}}}", pj));
            }
            let sp = d.span(tcx.def_span(did));
            let exp = tcx.def_span(did).from_expansion();
            fns.push(format!(
                "{{\"path\":{},\"kind\":{},\"const\":{},\"span\":{},\"macro\":{},\"vis\":{},\"pub\":{},\"unsafe_fn\":{}{},{},\"promoted\":[{}]}}",
                esc(&path(tcx, did)),
                esc(&format!("{:?}", kind)),
                is_const,
                sp,
                exp,
                esc(&vis),
                public,
                unsafe_fn,
                extra,
                bj,
                proms.join(",")
            ));
        }
        // trait impls
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            if let DefKind::Impl { of_trait } = tcx.def_kind(did) {
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let st = d.ty(st);
                let tr = if of_trait {
                    let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                    esc(&path(tcx, tr.def_id))
                } else {
                    "null".into()
                };
                let der = tcx.is_automatically_derived(did);
                let sp = d.span(tcx.def_span(did));
                impls.push(format!("{{\"self\":{},\"trait\":{},\"derived\":{},\"span\":{}}}", st, tr, der, sp));
            }
            if let DefKind::Struct | DefKind::Enum | DefKind::Union = tcx.def_kind(did) {
                d.adt(tcx.adt_def(did));
            }
        }
        let adts: Vec<String> = {
            let mut v: Vec<String> = d.adts.values().cloned().collect();
            v.sort();
            v
        };
        let j = format!(
            "{{\"fns\":[\n{}],\n\"types\":[\n{}],\n\"adts\":[\n{}],\n\"impls\":[\n{}],\n\"unsafe\":[{}]}}\n",
            fns.join(",\n"),
            d.ty_json.join(",\n"),
            adts.join(",\n"),
            impls.join(",\n"),
            d.unsafes.join(",")
        );
        std::fs::write(&self.out, j).expect("write dump");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 {
        args.remove(0);
    }
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "sshcerts");
    if out.is_empty() || !target {
        struct N;
        impl Callbacks for N {}
        let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut N));
        if code != std::process::ExitCode::SUCCESS {
            std::process::exit(1);
        }
        return;
    }
    for a in ["-Zmir-opt-level=0", "-Cdebug-assertions=off", "-Coverflow-checks=on"] {
        args.push(a.into());
    }
    args.push("--cap-lints".into());
    args.push("warn".into());
    let mut cb = Cb { out };
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb));
    if code != std::process::ExitCode::SUCCESS {
        std::process::exit(1);
    }
}
