use rustc_hir::def::DefKind;
use rustc_ast::attr::AttributeExt as _;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use std::collections::HashMap;
use std::fmt::Write;

/// type numbers are offset so that they can be told from other numbers in the dump
const TYPE_BASE: usize = 7_100_000_000_000;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_json: Vec<String>,
    adts: HashMap<DefId, String>,
}

struct BodyCx<'tcx> {
    did: DefId,
    tenv: TypingEnv<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        // stable, crate-qualified, impl-disambiguated
        let tcx = self.tcx;
        let krate = tcx.crate_name(d.krate).to_string();
        let s = rustc_middle::ty::print::with_no_trimmed_paths!(
            rustc_middle::ty::print::with_no_visible_paths!(tcx.def_path_str(d))
        );
        if d.is_local() {
            format!("{}::{}", krate, s)
        } else {
            s
        }
    }

    fn tyl(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.types.get(&t) {
            return TYPE_BASE + i;
        }
        let i = self.type_json.len();
        self.types.insert(t, i);
        self.type_json.push(String::new());
        let disp = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t));
        let mut j = format!("{{\"s\":{}", esc(&disp));
        match t.kind() {
            ty::Bool => j.push_str(",\"k\":\"bool\""),
            ty::Char => j.push_str(",\"k\":\"char\""),
            ty::Str => j.push_str(",\"k\":\"str\""),
            ty::Never => j.push_str(",\"k\":\"never\""),
            ty::Int(it) => {
                let w = it.bit_width().unwrap_or(64);
                let _ = write!(j, ",\"k\":\"int\",\"w\":{},\"n\":\"{}\"", w, it.name_str());
            }
            ty::Uint(it) => {
                let w = it.bit_width().unwrap_or(64);
                let _ = write!(j, ",\"k\":\"uint\",\"w\":{},\"n\":\"{}\"", w, it.name_str());
            }
            ty::Float(f) => {
                let _ = write!(j, ",\"k\":\"float\",\"w\":{}", f.bit_width());
            }
            ty::Ref(_, t2, m) => {
                let r = self.tyl(*t2);
                let _ = write!(j, ",\"k\":\"ref\",\"mut\":{},\"t\":{}", m.is_mut(), r);
            }
            ty::RawPtr(t2, m) => {
                let r = self.tyl(*t2);
                let _ = write!(j, ",\"k\":\"ptr\",\"mut\":{},\"t\":{}", m.is_mut(), r);
            }
            ty::Slice(t2) => {
                let r = self.tyl(*t2);
                let _ = write!(j, ",\"k\":\"slice\",\"t\":{}", r);
            }
            ty::Array(t2, n) => {
                let r = self.tyl(*t2);
                let n = n.try_to_target_usize(self.tcx);
                match n {
                    Some(n) => {
                        let _ = write!(j, ",\"k\":\"array\",\"t\":{},\"len\":{}", r, n);
                    }
                    None => {
                        let _ = write!(j, ",\"k\":\"array\",\"t\":{},\"len\":null", r);
                    }
                }
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.tyl(t).to_string()).collect();
                let _ = write!(j, ",\"k\":\"tuple\",\"ts\":[{}]", v.join(","));
            }
            ty::Adt(def, args) => {
                let p = self.path(def.did());
                let a = self.args(args);
                let _ = write!(j, ",\"k\":\"adt\",\"p\":{},\"args\":{}", esc(&p), a);
                // field types for this instantiation
                let mut vs = vec![];
                let tcx = self.tcx;
                for v in def.variants() {
                    let mut fs = vec![];
                    for f in &v.fields {
                        let ft = if def.did().is_local() || p.starts_with("core::") || p.starts_with("std::") || p.starts_with("image::") || p.starts_with("alloc::") {
                            let ft = tcx.type_of(f.did).instantiate(tcx, args).skip_norm_wip();
                            self.tyl(ft) as i64
                        } else {
                            -1
                        };
                        fs.push(format!("[{},{}]", esc(f.name.as_str()), ft));
                    }
                    vs.push(format!("[{},[{}]]", esc(v.name.as_str()), fs.join(",")));
                }
                let kind = if def.is_enum() {
                    "enum"
                } else if def.is_union() {
                    "union"
                } else {
                    "struct"
                };
                let _ = write!(j, ",\"ak\":\"{}\",\"vs\":[{}]", kind, vs.join(","));
                self.adts.entry(def.did()).or_default();
            }
            ty::Closure(d, args) => {
                let p = self.path(*d);
                let up: Vec<String> = args
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|t| self.tyl(t).to_string())
                    .collect();
                let _ = write!(j, ",\"k\":\"closure\",\"p\":{},\"up\":[{}]", esc(&p), up.join(","));
            }
            ty::FnDef(d, args) => {
                let p = self.path(*d);
                let args = args.no_bound_vars().unwrap_or_else(|| ty::GenericArgs::identity_for_item(self.tcx, *d));
                let a = self.args(args);
                let _ = write!(j, ",\"k\":\"fndef\",\"p\":{},\"args\":{}", esc(&p), a);
            }
            ty::FnPtr(..) => j.push_str(",\"k\":\"fnptr\""),
            ty::Dynamic(..) => j.push_str(",\"k\":\"dyn\""),
            ty::Param(p) => {
                let _ = write!(j, ",\"k\":\"param\",\"n\":{}", esc(p.name.as_str()));
            }
            ty::Alias(..) => j.push_str(",\"k\":\"alias\""),
            _ => j.push_str(",\"k\":\"other\""),
        }
        j.push('}');
        self.type_json[i] = j;
        TYPE_BASE + i
    }

    fn args(&mut self, args: GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                v.push(self.tyl(t).to_string());
            } else if let Some(c) = a.as_const() {
                v.push(esc(&format!("{}", c)));
            }
        }
        format!("[{}]", v.join(","))
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut s = format!("[{}", p.local.as_usize());
        for (base, e) in p.iter_projections() {
            match e {
                ProjectionElem::Deref => s.push_str(",[\"*\"]"),
                ProjectionElem::Field(f, t) => {
                    let bt = base.ty(body, self.tcx);
                    let mut name = String::new();
                    if let ty::Adt(def, _) = bt.ty.kind() {
                        let vi = bt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                        if !def.is_enum() || bt.variant_index.is_some() {
                            name = def.variant(vi).fields[f].name.to_string();
                        }
                    }
                    let t = self.tyl(t);
                    let _ = write!(s, ",[\"f\",{},{},{}]", f.as_usize(), t, esc(&name));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(s, ",[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex {
                    offset,
                    min_length,
                    from_end,
                } => {
                    let _ = write!(s, ",[\"c\",{},{},{}]", offset, min_length, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(s, ",[\"s\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(n, v) => {
                    let _ = write!(
                        s,
                        ",[\"d\",{},{}]",
                        v.as_usize(),
                        esc(n.map(|x| x.to_string()).unwrap_or_default().as_str())
                    );
                }
                _ => s.push_str(",[\"o\"]"),
            }
        }
        s.push(']');
        s
    }

    fn scalar(&self, bits: u128, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Int(it) => {
                let w = it.bit_width().unwrap_or(64) as u32;
                let sh = 128 - w;
                let v = ((bits << sh) as i128) >> sh;
                format!("{{\"c\":\"int\",\"v\":\"{}\"", v)
            }
            ty::Uint(_) => format!("{{\"c\":\"int\",\"v\":\"{}\"", bits),
            ty::Bool => format!("{{\"c\":\"bool\",\"v\":\"{}\"", bits),
            ty::Char => format!("{{\"c\":\"char\",\"v\":\"{}\"", bits),
            ty::Float(f) => {
                let v = if f.bit_width() == 32 {
                    format!("{:?}", f32::from_bits(bits as u32))
                } else {
                    format!("{:?}", f64::from_bits(bits as u64))
                };
                format!("{{\"c\":\"float\",\"v\":\"{}\"", v)
            }
            _ => format!("{{\"c\":\"bits\",\"v\":\"{}\"", bits),
        }
    }

    fn constant(&mut self, bcx: &BodyCx<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tid = self.tyl(t);
        let mut j;
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.no_bound_vars().unwrap_or_else(|| ty::GenericArgs::identity_for_item(tcx, *d));
            j = format!("{{\"c\":\"fn\",{}", self.callee(bcx, *d, args));
        } else {
            j = String::new();
            if let Some(sc) = c.const_.try_eval_scalar(tcx, bcx.tenv) {
                match sc {
                    rustc_middle::mir::interpret::Scalar::Int(si) => {
                        j = self.scalar(si.to_bits_unchecked(), t);
                    }
                    rustc_middle::mir::interpret::Scalar::Ptr(p, _) => {
                        // pointer to static / alloc
                        let aid = p.provenance.alloc_id();
                        match tcx.try_get_global_alloc(aid) {
                            Some(rustc_middle::mir::interpret::GlobalAlloc::Static(sd)) => {
                                j = format!("{{\"c\":\"static\",\"p\":{}", esc(&self.path(sd)));
                            }
                            _ => {
                                j = String::from("{\"c\":\"ptr\"");
                            }
                        }
                    }
                }
            }
            if j.is_empty() {
                j = String::from("{\"c\":\"other\"");
            }
            if let Const::Unevaluated(u, _) = c.const_ {
                let _ = write!(j, ",\"name\":{}", esc(&self.path(u.def)));
                if let Some(pr) = u.promoted {
                    let _ = write!(j, ",\"promoted\":{}", pr.as_usize());
                }
            }
            // string literal
            if let ty::Ref(_, it, _) = t.kind() {
                if it.is_str() {
                    if let Const::Val(v, _) = c.const_ {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            let _ = write!(j, ",\"str\":{}", esc(&String::from_utf8_lossy(b)));
                        }
                    }
                }
            }
        }
        let d = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", c.const_));
        let _ = write!(j, ",\"t\":{},\"d\":{}}}", tid, esc(&d));
        j
    }

    fn callee(&mut self, bcx: &BodyCx<'tcx>, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let p = self.path(d);
        let a = self.args(args);
        let mut s = format!("\"p\":{},\"args\":{},\"krate\":{}", esc(&p), a, esc(tcx.crate_name(d.krate).as_str()));
        let sig = tcx.fn_sig(d).skip_binder();
        let _ = write!(s, ",\"unsafe\":{}", !sig.safety().is_safe());
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(s, ",\"trait\":{}", esc(&self.path(tr)));
        }
        let _ = write!(s, ",\"local\":{}", d.is_local());
        let args = tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, bcx.tenv, d, args) {
            let rd = inst.def_id();
            if rd != d {
                let rp = self.path(rd);
                let ra = self.args(inst.args);
                let _ = write!(
                    s,
                    ",\"rp\":{},\"rargs\":{},\"rlocal\":{}",
                    esc(&rp),
                    ra,
                    rd.is_local()
                );
            }
            let kind = match inst.def {
                ty::InstanceKind::Item(_) => "item",
                ty::InstanceKind::Virtual(..) => "virtual",
                
                
                _ => "shim",
            };
            let _ = write!(s, ",\"ik\":\"{}\"", kind);
        }
        s
    }

    fn operand(&mut self, bcx: &BodyCx<'tcx>, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"cp\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"mv\":{}}}", self.place(body, p)),
            Operand::Constant(c) => self.constant(bcx, c),
            #[allow(unreachable_patterns)]
            _ => "{\"c\":\"rt\"}".to_string(),
        }
    }

    fn rvalue(&mut self, bcx: &BodyCx<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(bcx, body, o)),
            Rvalue::Repeat(o, n) => format!(
                "[\"repeat\",{},{}]",
                self.operand(bcx, body, o),
                n.try_to_target_usize(self.tcx)
                    .map(|x| x.to_string())
                    .unwrap_or("null".into())
            ),
            Rvalue::Ref(_, bk, p) => format!(
                "[\"ref\",{},{}]",
                matches!(bk, BorrowKind::Mut { .. }),
                self.place(body, p)
            ),
            Rvalue::RawPtr(k, p) => format!(
                "[\"raw\",{},{}]",
                esc(&format!("{:?}", k)),
                self.place(body, p)
            ),
            Rvalue::Cast(k, o, t) => {
                let ot = o.ty(body, self.tcx);
                let ot = self.tyl(ot);
                let tt = self.tyl(*t);
                format!(
                    "[\"cast\",{},{},{},{}]",
                    esc(&format!("{:?}", k)),
                    self.operand(bcx, body, o),
                    ot,
                    tt
                )
            }
            Rvalue::BinaryOp(op, ab) => {
                let t = ab.0.ty(body, self.tcx);
                let t = self.tyl(t);
                format!(
                    "[\"bin\",\"{:?}\",{},{},{}]",
                    op,
                    self.operand(bcx, body, &ab.0),
                    self.operand(bcx, body, &ab.1),
                    t
                )
            }
            Rvalue::UnaryOp(op, a) => {
                let t = a.ty(body, self.tcx);
                let t = self.tyl(t);
                format!(
                    "[\"un\",\"{:?}\",{},{}]",
                    op,
                    self.operand(bcx, body, a),
                    t
                )
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(body, p)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(bcx, body, o)).collect();
                let kind = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, _, _, fidx) => {
                        let def = self.tcx.adt_def(*d);
                        let var = def.variant(*v);
                        let names: Vec<String> = match fidx {
                            Some(f) => vec![esc(var.fields[*f].name.as_str())],
                            None => var.fields.iter().map(|f| esc(f.name.as_str())).collect(),
                        };
                        format!(
                            "[\"adt\",{},{},{},[{}]]",
                            esc(&self.path(*d)),
                            v.as_usize(),
                            esc(var.name.as_str()),
                            names.join(",")
                        )
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("[\"closure\",{}]", esc(&self.path(*d)))
                    }
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},[{}]]", kind, os.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"cp\":{}}}]", self.place(body, p)),
            other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
        }
    }

    // ---- evaluated constants (as the compiler evaluates them)
    fn cval_at(&mut self, alloc: rustc_middle::mir::interpret::ConstAllocation<'tcx>, off: u64, t: Ty<'tcx>, depth: usize) -> Option<String> {
        use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
        let tcx = self.tcx;
        if depth > 8 {
            return None;
        }
        let tenv = TypingEnv::fully_monomorphized();
        let lay = tcx.layout_of(tenv.as_query_input(t)).ok()?;
        let sz = |b: u64| rustc_abi::Size::from_bytes(b);
        match t.kind() {
            ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char | ty::Float(_) => {
                let r = AllocRange { start: sz(off), size: lay.size };
                let sc = alloc.inner().read_scalar(&tcx, r, false).ok()?;
                match sc {
                    Scalar::Int(si) => {
                        let mut j = self.scalar(si.to_bits_unchecked(), t);
                        j.push('}');
                        Some(j)
                    }
                    _ => None,
                }
            }
            ty::Array(et, n) => {
                let n = n.try_to_target_usize(tcx)?;
                if n > 5000 {
                    return None;
                }
                let es = tcx.layout_of(tenv.as_query_input(*et)).ok()?.size.bytes();
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.cval_at(alloc, off + i * es, *et, depth + 1)?);
                }
                Some(format!("[{}]", v.join(",")))
            }
            ty::Tuple(ts) => {
                let mut v = vec![];
                for (i, ft) in ts.iter().enumerate() {
                    let fo = lay.fields.offset(i).bytes();
                    v.push(self.cval_at(alloc, off + fo, ft, depth + 1)?);
                }
                Some(format!("{{\"s\":\"tuple\",\"v\":[{}]}}", v.join(",")))
            }
            ty::Adt(def, args) if def.is_struct() => {
                let mut v = vec![];
                for (i, f) in def.non_enum_variant().fields.iter().enumerate() {
                    let fo = lay.fields.offset(i).bytes();
                    let ft = f.ty(tcx, args).skip_norm_wip();
                    v.push(self.cval_at(alloc, off + fo, ft, depth + 1)?);
                }
                Some(format!("{{\"s\":{},\"v\":[{}]}}", esc(&self.path(def.did())), v.join(",")))
            }
            ty::Ref(_, it, _) => {
                let ps = tcx.data_layout.pointer_size();
                let sc = alloc.inner().read_scalar(&tcx, AllocRange { start: sz(off), size: ps }, true).ok()?;
                let Scalar::Ptr(p, _) = sc else { return None };
                let (prov, o2) = p.prov_and_relative_offset();
                let aid = prov.alloc_id();
                let inner = match tcx.try_get_global_alloc(aid)? {
                    GlobalAlloc::Memory(a) => a,
                    _ => return None,
                };
                match it.kind() {
                    ty::Slice(et) => {
                        let l = alloc.inner().read_scalar(&tcx, AllocRange { start: sz(off + ps.bytes()), size: ps }, false).ok()?;
                        let Scalar::Int(si) = l else { return None };
                        let n = si.to_bits_unchecked() as u64;
                        if n > 5000 {
                            return None;
                        }
                        let es = tcx.layout_of(tenv.as_query_input(*et)).ok()?.size.bytes();
                        let mut v = vec![];
                        for i in 0..n {
                            v.push(self.cval_at(inner, o2.bytes() + i * es, *et, depth + 1)?);
                        }
                        Some(format!("{{\"ref\":[{}]}}", v.join(",")))
                    }
                    ty::Str => None,
                    _ => {
                        let x = self.cval_at(inner, o2.bytes(), *it, depth + 1)?;
                        Some(format!("{{\"ref\":{}}}", x))
                    }
                }
            }
            _ => None,
        }
    }

    fn cval(&mut self, did: DefId, is_static: bool) -> Option<String> {
        use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
        let tcx = self.tcx;
        if tcx.generics_of(did).requires_monomorphization(tcx) {
            return None;
        }
        let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
        if is_static {
            let a = tcx.eval_static_initializer(did).ok()?;
            return self.cval_at(a, 0, t, 0);
        }
        match tcx.const_eval_poly(did).ok()? {
            ConstValue::Scalar(Scalar::Int(si)) => {
                let mut j = self.scalar(si.to_bits_unchecked(), t);
                j.push('}');
                Some(j)
            }
            ConstValue::Indirect { alloc_id, offset } => match tcx.try_get_global_alloc(alloc_id)? {
                GlobalAlloc::Memory(a) => self.cval_at(a, offset.bytes(), t, 0),
                _ => None,
            },
            _ => None,
        }
    }

    fn loc(&self, sp: rustc_span::Span) -> (String, usize) {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let l = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", l.file.name.prefer_local_unconditionally());
        (f, l.line)
    }

    fn body(&mut self, did: DefId, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let bcx = BodyCx {
            did,
            tenv: TypingEnv::post_analysis(tcx, did),
        };
        let _ = bcx.did;
        let mut s = String::new();
        let (file, line) = self.loc(body.span);
        let _ = write!(
            s,
            "\"file\":{},\"line\":{},\"argc\":{},\"locals\":[",
            esc(&file),
            line,
            body.arg_count
        );
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut dbg = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                } else {
                    dbg.push(format!("[{},{}]", esc(v.name.as_str()), self.place(body, p)));
                }
            }
        }
        let ls: Vec<String> = body
            .local_decls
            .iter_enumerated()
            .map(|(i, l)| {
                let t = self.tyl(l.ty);
                match names.get(&i.as_usize()) {
                    Some(n) => format!("[{},{}]", t, esc(n)),
                    None => format!("[{}]", t),
                }
            })
            .collect();
        s.push_str(&ls.join(","));
        let _ = write!(s, "],\"dbg\":[{}]", dbg.join(","));
        if let Some(sp) = body.spread_arg {
            let _ = write!(s, ",\"spread\":{}", sp.as_usize());
        }
        s.push_str(",\"blocks\":[");
        let mut bs = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                let (_, ln) = self.loc(x.source_info.span);
                match &x.kind {
                    StatementKind::Assign(pr) => {
                        let (p, r) = &**pr;
                        st.push(format!(
                            "[\"=\",{},{},{}]",
                            self.place(body, p),
                            self.rvalue(&bcx, body, r),
                            ln
                        ));
                    }
                    StatementKind::SetDiscriminant {
                        place,
                        variant_index,
                    } => {
                        st.push(format!(
                            "[\"sd\",{},{},{}]",
                            self.place(body, place),
                            variant_index.as_usize(),
                            ln
                        ));
                    }
                    StatementKind::Intrinsic(i) => {
                        st.push(format!("[\"intr\",{},{}]", esc(&format!("{:?}", i)), ln));
                    }
                    _ => {}
                }
            }
            let term = bb.terminator();
            let (_, ln) = self.loc(term.source_info.span);
            let exp = term.source_info.span.from_expansion();
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let t = discr.ty(body, tcx);
                    let signed = t.is_signed();
                    let mut v = vec![];
                    for (val, tg) in targets.iter() {
                        let vs = if signed {
                            let w = match t.kind() {
                                ty::Int(it) => it.bit_width().unwrap_or(64) as u32,
                                _ => 128,
                            };
                            let sh = 128 - w;
                            (((val << sh) as i128) >> sh).to_string()
                        } else {
                            val.to_string()
                        };
                        v.push(format!("[\"{}\",{}]", vs, tg.as_usize()));
                    }
                    let ti = self.tyl(t);
                    format!(
                        "[\"switch\",{},{},[{}],{}]",
                        self.operand(&bcx, body, discr),
                        ti,
                        v.join(","),
                        targets.otherwise().as_usize()
                    )
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".into(),
                TerminatorKind::Drop { place, target, .. } => format!(
                    "[\"drop\",{},{}]",
                    self.place(body, place),
                    target.as_usize()
                ),
                TerminatorKind::Call {
                    func,
                    args,
                    destination,
                    target,
                    ..
                } => {
                    let f = self.operand(&bcx, body, func);
                    let a: Vec<String> = args
                        .iter()
                        .map(|a| self.operand(&bcx, body, &a.node))
                        .collect();
                    format!(
                        "[\"call\",{},[{}],{},{}]",
                        f,
                        a.join(","),
                        self.place(body, destination),
                        target
                            .map(|t| t.as_usize().to_string())
                            .unwrap_or("null".into())
                    )
                }
                TerminatorKind::Assert {
                    cond,
                    expected,
                    msg,
                    target,
                    ..
                } => {
                    let (k, ops): (String, Vec<String>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => (
                            "bounds".into(),
                            vec![
                                self.operand(&bcx, body, len),
                                self.operand(&bcx, body, index),
                            ],
                        ),
                        AssertKind::Overflow(op, a, b) => (
                            format!("overflow_{:?}", op),
                            vec![self.operand(&bcx, body, a), self.operand(&bcx, body, b)],
                        ),
                        AssertKind::OverflowNeg(a) => {
                            ("overflow_Neg".into(), vec![self.operand(&bcx, body, a)])
                        }
                        AssertKind::DivisionByZero(a) => {
                            ("divzero".into(), vec![self.operand(&bcx, body, a)])
                        }
                        AssertKind::RemainderByZero(a) => {
                            ("remzero".into(), vec![self.operand(&bcx, body, a)])
                        }
                        o => (format!("other:{:?}", o).chars().take(60).collect(), vec![]),
                    };
                    format!(
                        "[\"assert\",{},{},{},[{}],{}]",
                        self.operand(&bcx, body, cond),
                        expected,
                        esc(&k),
                        ops.join(","),
                        target.as_usize()
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                _ => "[\"otherterm\"]".into(),
            };
            bs.push(format!(
                "{{\"st\":[{}],\"t\":{},\"ln\":{},\"exp\":{},\"cl\":{}}}",
                st.join(","),
                t,
                ln,
                exp,
                bb.is_cleanup
            ));
        }
        s.push_str(&bs.join(","));
        s.push(']');
        s
    }
}

pub fn dump_crate(tcx: TyCtxt<'_>) -> String {
    let mut cx = Cx {
        tcx,
        types: HashMap::new(),
        type_json: vec![],
        adts: HashMap::new(),
    };
    let mut fns = vec![];
    let ev = tcx.effective_visibilities(());
    for ld in tcx.hir_body_owners() {
        let did = ld.to_def_id();
        let kind = tcx.def_kind(did);
        let p = cx.path(did);
        let mut s = format!("{{\"p\":{},\"kind\":{}", esc(&p), esc(&format!("{:?}", kind)));
        let pubr = ev.is_reachable(ld);
        let _ = write!(s, ",\"pub\":{}", pubr);
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let _ = write!(s, ",\"vis\":{}", esc(&format!("{:?}", tcx.visibility(did))));
        }
        match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                if !matches!(kind, DefKind::Closure) {
                    let sig = tcx.fn_sig(did).skip_binder();
                    let _ = write!(s, ",\"unsafe\":{}", !sig.safety().is_safe());
                } else {
                    let par = tcx.local_parent(ld).to_def_id();
                    let _ = write!(s, ",\"parent\":{}", esc(&cx.path(par)));
                }
                if kind == DefKind::AssocFn {
                    let par = tcx.parent(did);
                    match tcx.def_kind(par) {
                        DefKind::Impl { of_trait } => {
                            let st = tcx.type_of(par).instantiate_identity().skip_norm_wip();
                            let sid = cx.tyl(st);
                            let _ = write!(s, ",\"self_ty\":{}", sid);
                            if of_trait {
                                let tr = tcx.impl_trait_ref(par).instantiate_identity().skip_norm_wip();
                                let tp = cx.path(tr.def_id);
                                let ta = cx.args(tr.args);
                                let _ = write!(s, ",\"impl_trait\":{},\"trait_args\":{}", esc(&tp), ta);
                            }
                        }
                        DefKind::Trait => {
                            let _ = write!(s, ",\"in_trait\":{}", esc(&cx.path(par)));
                        }
                        _ => {}
                    }
                    let _ = write!(s, ",\"name\":{}", esc(tcx.item_name(did).as_str()));
                }
                // generics
                let g = tcx.generics_of(did);
                let mut gs = vec![];
                for i in 0..g.count() {
                    let prm = g.param_at(i, tcx);
                    if matches!(prm.kind, ty::GenericParamDefKind::Type { .. } | ty::GenericParamDefKind::Const { .. }) {
                        gs.push(esc(prm.name.as_str()));
                    }
                }
                let _ = write!(s, ",\"generics\":[{}]", gs.join(","));
                let doc = doc_of(tcx, did);
                let _ = write!(s, ",\"doc\":{}", esc(&doc));
                let body = tcx.optimized_mir(did);
                s.push(',');
                s.push_str(&cx.body(did, body));
                let pr = tcx.promoted_mir(did);
                let mut ps = vec![];
                for b in pr.iter() {
                    ps.push(format!("{{{}}}", cx.body(did, b)));
                }
                let _ = write!(s, ",\"promoted\":[{}]", ps.join(","));
            }
            DefKind::Static { .. } | DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let tid = cx.tyl(t);
                let _ = write!(s, ",\"ty\":{}", tid);
                if let Some(v) = cx.cval(did, matches!(kind, DefKind::Static { .. })) {
                    let _ = write!(s, ",\"cval\":{}", v);
                }
                let body = tcx.mir_for_ctfe(did);
                s.push(',');
                s.push_str(&cx.body(did, body));
                let pr = tcx.promoted_mir(did);
                let mut ps = vec![];
                for b in pr.iter() {
                    ps.push(format!("{{{}}}", cx.body(did, b)));
                }
                let _ = write!(s, ",\"promoted\":[{}]", ps.join(","));
                if matches!(kind, DefKind::AssocConst { .. }) {
                    let par = tcx.parent(did);
                    if let DefKind::Impl { .. } = tcx.def_kind(par) {
                        let st = tcx.type_of(par).instantiate_identity().skip_norm_wip();
                        let sid = cx.tyl(st);
                        let _ = write!(s, ",\"self_ty\":{}", sid);
                    }
                }
            }
            _ => {
                continue;
            }
        }
        s.push('}');
        fns.push(s);
    }
    // ADT info: field visibility
    let mut adts = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let k = tcx.def_kind(id);
        if matches!(k, DefKind::Struct | DefKind::Enum | DefKind::Union) {
            let def = tcx.adt_def(id.to_def_id());
            let mut vs = vec![];
            for v in def.variants() {
                let fs: Vec<String> = v
                    .fields
                    .iter()
                    .map(|f| {
                        let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        let ti = cx.tyl(ft);
                        format!(
                            "[{},{},{}]",
                            esc(f.name.as_str()),
                            ti,
                            tcx.visibility(f.did).is_public()
                        )
                    })
                    .collect();
                vs.push(format!("[{},[{}]]", esc(v.name.as_str()), fs.join(",")));
            }
            adts.push(format!(
                "{{\"p\":{},\"pub\":{},\"vs\":[{}]}}",
                esc(&cx.path(id.to_def_id())),
                ev.is_reachable(id),
                vs.join(",")
            ));
        }
    }
    let _ = LOCAL_CRATE;
    format!(
        "{{\"fns\":[\n{}\n],\n\"adts\":[\n{}\n],\n\"types\":[\n{}\n]}}\n",
        fns.join(",\n"),
        adts.join(",\n"),
        cx.type_json.join(",\n")
    )
}

fn doc_of(tcx: TyCtxt<'_>, did: DefId) -> String {
    let mut o = String::new();
    let Some(ld) = did.as_local() else { return o };
    let hid = tcx.local_def_id_to_hir_id(ld);
    for a in tcx.hir_attrs(hid) {
        if let Some(s) = a.doc_str() {
            o.push_str(s.as_str());
            o.push('\n');
        }
    }
    o
}
