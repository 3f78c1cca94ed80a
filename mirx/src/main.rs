//! mirx: dumps the monomorphic MIR of the crate being compiled as JSON.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER: `mirx <rustc> <args...>`.  Only the crate named by
//! MIRX_CRATE is dumped (to MIRX_OUT); everything else is plain rustc.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet, VecDeque};
use std::ops::ControlFlow;

struct Cx {
    types: HashMap<Ty, usize>,
    type_json: Vec<Value>,
    fns: HashMap<String, Value>,
    queue: VecDeque<(String, Instance)>,
    seen: HashSet<String>,
    statics: HashMap<String, Value>,
}

fn follow_external(name: &str) -> bool {
    // External bodies worth dumping: small pure plumbing of core/alloc whose MIR is simply executed.
    const P: &[&str] = &[
        "std::option::", "core::option::", "std::result::", "core::result::",
        "std::convert::", "core::convert::", "std::ops::", "core::ops::",
        "std::cmp::", "core::cmp::", "std::clone::", "core::clone::",
        "<std::option::", "<std::result::", "<&T as", "<T as std::convert", "<T as core::convert",
        "<std::boxed::Box", "<bool as", "std::mem::", "core::mem::", "core::bool::", "std::bool::",
        "<core::option", "<core::result", "<U as", "<[T; N] as", "std::default", "<std::ops", "<std::cmp", "<F as",
        "nom::", "<nom::", "<(", "<I as nom", "<E as nom", "<&'a str as nom", "<&str as nom", "<O as nom", "<A as nom", "<M as nom",
    ];
    P.iter().any(|p| name.starts_with(p))
}

impl Cx {
    fn inst_key(&mut self, i: Instance) -> String {
        let key = i.mangled_name();
        let key = key.to_string();
        if !self.seen.contains(&key) {
            self.seen.insert(key.clone());
            self.queue.push_back((key.clone(), i));
        }
        key
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let id = self.type_json.len();
        self.types.insert(t, id);
        self.type_json.push(Value::Null);
        let s = format!("{}", t);
        let v = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => json!({"k":"bool"}),
                RigidTy::Char => json!({"k":"char"}),
                RigidTy::Int(i) => json!({"k":"int","signed":true,"bits":i.num_bytes()*8}),
                RigidTy::Uint(i) => json!({"k":"int","signed":false,"bits":i.num_bytes()*8}),
                RigidTy::Float(f) => json!({"k":"float","f":format!("{:?}",f)}),
                RigidTy::Str => json!({"k":"str"}),
                RigidTy::Never => json!({"k":"never"}),
                RigidTy::Adt(def, args) => {
                    let targs: Vec<Value> = args.0.iter().map(|a| match a {
                        GenericArgKind::Type(t) => json!(self.ty(*t)),
                        _ => Value::Null,
                    }).collect();
                    let kind = format!("{:?}", def.kind());
                    let variants: Vec<Value> = if def.is_box() { vec![] } else {
                        def.variants().iter().enumerate().map(|(i, v)| {
                            let d = if def.kind().is_enum() { def.discriminant_for_variant(VariantIdx::to_val(i)).val.to_string() } else { "0".into() };
                            let fields: Vec<Value> = v.fields().iter().map(|f| {
                                let fname = f.name.to_string();
                                let ft = f.ty_with_args(&args);
                                json!([fname, self.ty(ft)])
                            }).collect();
                            json!({"name": v.name().to_string(), "discr": d, "fields": fields})
                        }).collect()
                    };
                    json!({"k":"adt","name":def.name().to_string(),"adt":kind,"box":def.is_box(),"args":targs,"variants":variants})
                }
                RigidTy::Array(t, n) => json!({"k":"array","t":self.ty(t),"n":n.eval_target_usize().ok()}),
                RigidTy::Slice(t) => json!({"k":"slice","t":self.ty(t)}),
                RigidTy::RawPtr(t, m) => json!({"k":"ptr","t":self.ty(t),"m":m==Mutability::Mut}),
                RigidTy::Ref(_, t, m) => json!({"k":"ref","t":self.ty(t),"m":m==Mutability::Mut}),
                RigidTy::Tuple(ts) => { let v: Vec<usize> = ts.iter().map(|t| self.ty(*t)).collect(); json!({"k":"tuple","ts":v}) }
                RigidTy::FnDef(def, args) => {
                    let inst = Instance::resolve(def, &args).ok();
                    let key = inst.map(|i| self.inst_key(i));
                    json!({"k":"fndef","def":def.name().to_string(),"inst":key,"args":self.gargs(&args)})
                }
                RigidTy::Closure(def, args) => {
                    let inst = Instance::resolve_closure(def, &args, ClosureKind::Fn).ok();
                    let key = inst.map(|i| self.inst_key(i));
                    // captured upvar types are the tuple in the last generic arg
                    let up = args.0.last().and_then(|a| a.ty().copied()).map(|t| self.ty(t));
                    json!({"k":"closure","def":def.name().to_string(),"inst":key,"upvars":up})
                }
                RigidTy::FnPtr(_) => json!({"k":"fnptr"}),
                RigidTy::Dynamic(..) => json!({"k":"dyn"}),
                RigidTy::Pat(t, _) => json!({"k":"pat","t":self.ty(t)}),
                other => json!({"k":"other","d":format!("{:?}",other)}),
            },
            other => json!({"k":"nonrigid","d":format!("{:?}",other)}),
        };
        let mut v = v;
        v["s"] = json!(s);
        self.type_json[id] = v;
        id
    }

    fn gargs(&mut self, a: &GenericArgs) -> Vec<Value> {
        a.0.iter().map(|a| match a {
            GenericArgKind::Type(t) => json!(self.ty(*t)),
            GenericArgKind::Const(c) => json!({"const": c.eval_target_usize().ok()}),
            _ => Value::Null,
        }).collect()
    }

    fn bytes(a: &Allocation, off: usize, n: usize) -> Option<Vec<u8>> {
        if off + n > a.bytes.len() { return None; }
        a.bytes[off..off + n].iter().map(|b| *b).collect::<Option<Vec<u8>>>()
    }
    fn uint(a: &Allocation, off: usize, n: usize) -> Option<u128> {
        let b = Self::bytes(a, off, n)?;
        let mut r = 0u128;
        for (i, x) in b.iter().enumerate() { r |= (*x as u128) << (8 * i); }
        Some(r)
    }
    fn prov(a: &Allocation, off: usize) -> Option<rustc_public::mir::alloc::AllocId> {
        a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0)
    }

    fn decode(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> Value {
        let tid = self.ty(t);
        if depth > 12 { return json!({"c":"opaque","ty":tid,"why":"depth"}); }
        let opaque = |why: &str| json!({"c":"opaque","ty":tid,"why":why});
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => match Self::uint(a, off, 1) { Some(x) => json!({"c":"bool","v":x!=0}), None => opaque("uninit") },
                RigidTy::Char => match Self::uint(a, off, 4) { Some(x) => json!({"c":"char","v":x as u64}), None => opaque("uninit") },
                RigidTy::Int(i) => match Self::uint(a, off, i.num_bytes()) {
                    Some(x) => { let bits = i.num_bytes()*8; let v = if bits<128 && (x>>(bits-1))&1==1 { (x as i128) - (1i128<<bits) } else { x as i128 }; json!({"c":"int","ty":tid,"v":v.to_string()}) }
                    None => opaque("uninit") },
                RigidTy::Uint(i) => match Self::uint(a, off, i.num_bytes()) { Some(x) => json!({"c":"int","ty":tid,"v":x.to_string()}), None => {
                    if Self::prov(a, off).is_some() { opaque("ptrint") } else { opaque("uninit") } } },
                RigidTy::Float(f) => { let n = match f { FloatTy::F32 => 4, FloatTy::F64 => 8, _ => 16 }; match Self::uint(a, off, n) { Some(x) => json!({"c":"float","ty":tid,"bits":x.to_string()}), None => opaque("uninit") } }
                RigidTy::Tuple(ts) => {
                    let offs = match t.layout().ok().map(|l| l.shape().fields) { Some(FieldsShape::Arbitrary{offsets}) => offsets.iter().map(|s| s.bytes()).collect::<Vec<_>>(), _ => vec![0; ts.len()] };
                    let fs: Vec<Value> = ts.iter().zip(offs).map(|(t, o)| self.decode(a, off + o, *t, depth + 1)).collect();
                    json!({"c":"tuple","ty":tid,"fs":fs})
                }
                RigidTy::Array(et, n) => {
                    let n = n.eval_target_usize().unwrap_or(0) as usize;
                    let sz = match et.layout() { Ok(l) => l.shape().size.bytes(), Err(_) => return opaque("layout") };
                    if n > 4096 { return opaque("big"); }
                    if matches!(et.kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::U8))) {
                        if let Some(b) = Self::bytes(a, off, n) { return json!({"c":"bytes","ty":tid,"v":b}); }
                    }
                    let es: Vec<Value> = (0..n).map(|i| self.decode(a, off + i * sz, et, depth + 1)).collect();
                    json!({"c":"array","ty":tid,"es":es})
                }
                RigidTy::Ref(_, pt, _) | RigidTy::RawPtr(pt, _) => {
                    let Some(id) = Self::prov(a, off) else { return match Self::uint(a, off, 8) { Some(x) => json!({"c":"addr","ty":tid,"v":x.to_string()}), None => opaque("noprov") } };
                    let inner_off = Self::uint(a, off, 8).unwrap_or(0) as usize;
                    match GlobalAlloc::from(id) {
                        GlobalAlloc::Memory(m) => match pt.kind() {
                            TyKind::RigidTy(RigidTy::Str) => {
                                let n = Self::uint(a, off + 8, 8).unwrap_or(0) as usize;
                                match Self::bytes(&m, inner_off, n) { Some(b) => json!({"c":"str","v":String::from_utf8_lossy(&b)}), None => opaque("str") }
                            }
                            TyKind::RigidTy(RigidTy::Slice(et)) => {
                                let n = Self::uint(a, off + 8, 8).unwrap_or(0) as usize;
                                let sz = match et.layout() { Ok(l) => l.shape().size.bytes(), Err(_) => return opaque("layout") };
                                if n > 4096 { return opaque("big"); }
                                let es: Vec<Value> = (0..n).map(|i| self.decode(&m, inner_off + i * sz, et, depth + 1)).collect();
                                json!({"c":"ref","ty":tid,"v":{"c":"slice","es":es}})
                            }
                            _ => { let v = self.decode(&m, inner_off, pt, depth + 1); json!({"c":"ref","ty":tid,"v":v}) }
                        },
                        GlobalAlloc::Static(s) => {
                            let name = s.name().to_string();
                            if !self.statics.contains_key(&name) {
                                self.statics.insert(name.clone(), Value::Null);
                                let v = match s.eval_initializer() { Ok(m) => { let st = s.ty(); self.decode(&m, 0, st, depth + 1) } Err(_) => Value::Null };
                                self.statics.insert(name.clone(), v);
                            }
                            json!({"c":"static","ty":tid,"name":name})
                        }
                        GlobalAlloc::Function(i) => { let k = self.inst_key(i); json!({"c":"fnptr","ty":tid,"inst":k}) }
                        _ => opaque("alloc"),
                    }
                }
                RigidTy::FnPtr(_) => match Self::prov(a, off).map(GlobalAlloc::from) {
                    Some(GlobalAlloc::Function(i)) => { let k = self.inst_key(i); json!({"c":"fnptr","ty":tid,"inst":k}) }
                    _ => opaque("fnptr"),
                },
                RigidTy::Adt(def, args) => {
                    let Ok(l) = t.layout() else { return opaque("layout") };
                    let shape = l.shape();
                    let (vidx, offs): (usize, Vec<usize>) = match &shape.variants {
                        VariantsShape::Empty => return opaque("empty"),
                        VariantsShape::Single { index } => {
                            let offs = match &shape.fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|s| s.bytes()).collect(), _ => vec![0; 64] };
                            (index.to_index(), offs)
                        }
                        VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                            let toff = match &shape.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => 0 };
                            let tsz = (match tag { rustc_public::abi::Scalar::Initialized{value,..} | rustc_public::abi::Scalar::Union{value} => *value }).size(&rustc_public::target::MachineInfo::target()).bytes();
                            let has_prov = Self::prov(a, off + toff).is_some();
                            let raw = Self::uint(a, off + toff, tsz);
                            let vi = match tag_encoding {
                                TagEncoding::Direct => {
                                    let Some(raw) = raw else { return opaque("tag") };
                                    let mut found = None;
                                    for i in 0..def.num_variants() { let mask = if tsz == 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                        if def.discriminant_for_variant(VariantIdx::to_val(i)).val & mask == raw { found = Some(i); } }
                                    match found { Some(i) => i, None => return opaque("discr") }
                                }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    if has_prov { untagged_variant.to_index() } else {
                                        let Some(raw) = raw else { return opaque("niche") };
                                        let mask = if tsz == 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                        let rel = raw.wrapping_sub(*niche_start) & mask;
                                        let lo = niche_variants.start().to_index() as u128; let hi = niche_variants.end().to_index() as u128;
                                        if rel <= hi - lo { (rel + lo) as usize } else { untagged_variant.to_index() }
                                    }
                                }
                            };
                            (vi, variants[vi].offsets.iter().map(|s| s.bytes()).collect())
                        }
                    };
                    if !def.kind().is_enum() && !def.kind().is_struct() { return opaque("union"); }
                    let vd = def.variants()[vidx].clone();
                    let fs: Vec<Value> = vd.fields().iter().enumerate().map(|(i, f)| { let ft = f.ty_with_args(&args); self.decode(a, off + offs.get(i).copied().unwrap_or(0), ft, depth + 1) }).collect();
                    json!({"c":"adt","ty":tid,"variant":vidx,"fs":fs})
                }
                RigidTy::FnDef(..) | RigidTy::Closure(..) => json!({"c":"zst","ty":tid}),
                _ => opaque("kind"),
            },
            _ => opaque("nonrigid"),
        }
    }

    fn constant(&mut self, c: &MirConst) -> Value {
        let ty = c.ty();
        let tid = self.ty(ty);
        match c.kind() {
            ConstantKind::ZeroSized => json!({"c":"zst","ty":tid}),
            ConstantKind::Allocated(a) => { let mut v = self.decode(a, 0, ty, 0); v["ty"] = json!(tid); v }
            ConstantKind::Ty(tc) => match tc.eval_target_usize() { Ok(v) => json!({"c":"int","ty":tid,"v":v.to_string()}), Err(_) => json!({"c":"opaque","ty":tid,"why":"tyconst"}) },
            other => json!({"c":"opaque","ty":tid,"why":format!("{:?}",other)}),
        }
    }

    fn place(&mut self, p: &Place) -> Value {
        let proj: Vec<Value> = p.projection.iter().map(|e| match e {
            ProjectionElem::Deref => json!(["deref"]),
            ProjectionElem::Field(i, t) => json!(["field", i, self.ty(*t)]),
            ProjectionElem::Index(l) => json!(["index", l]),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => json!(["cindex", offset, min_length, from_end]),
            ProjectionElem::Subslice { from, to, from_end } => json!(["subslice", from, to, from_end]),
            ProjectionElem::Downcast(v) => json!(["downcast", v.to_index()]),
            ProjectionElem::OpaqueCast(_) => json!(["opaquecast"]),
        }).collect();
        json!([p.local, proj])
    }

    fn operand(&mut self, o: &Operand) -> Value {
        match o {
            Operand::Copy(p) => json!({"copy": self.place(p)}),
            Operand::Move(p) => json!({"move": self.place(p)}),
            Operand::Constant(c) => json!({"const": self.constant(&c.const_)}),
            Operand::RuntimeChecks(k) => json!({"rtcheck": format!("{:?}", k)}),
        }
    }

    fn rvalue(&mut self, r: &Rvalue) -> Value {
        match r {
            Rvalue::AddressOf(_, p) => json!(["addrof", self.place(p)]),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<Value> = ops.iter().map(|o| self.operand(o)).collect();
                let k = match k {
                    AggregateKind::Array(t) => json!({"k":"array","t":self.ty(*t)}),
                    AggregateKind::Tuple => json!({"k":"tuple"}),
                    AggregateKind::Adt(def, v, args, _, f) => { let t = self.ty(def.ty_with_args(args)); json!({"k":"adt","t":t,"v":v.to_index(),"union_field":f}) }
                    AggregateKind::Closure(def, args) => { let t = self.ty(Ty::new_closure(*def, args.clone())); json!({"k":"closure","t":t}) }
                    AggregateKind::RawPtr(t, _) => json!({"k":"rawptr","t":self.ty(*t)}),
                    _ => json!({"k":"other"}),
                };
                json!(["agg", k, ops])
            }
            Rvalue::BinaryOp(b, x, y) => json!(["bin", format!("{:?}", b), self.operand(x), self.operand(y)]),
            Rvalue::CheckedBinaryOp(b, x, y) => json!(["checked", format!("{:?}", b), self.operand(x), self.operand(y)]),
            Rvalue::Cast(k, o, t) => json!(["cast", format!("{:?}", k), self.operand(o), self.ty(*t)]),
            Rvalue::CopyForDeref(p) => json!(["use", {"copy": self.place(p)}]),
            Rvalue::Discriminant(p) => json!(["discr", self.place(p)]),
            Rvalue::Len(p) => json!(["len", self.place(p)]),
            Rvalue::Ref(_, bk, p) => json!(["ref", matches!(bk, BorrowKind::Mut{..}), self.place(p)]),
            Rvalue::Repeat(o, n) => json!(["repeat", self.operand(o), n.eval_target_usize().ok()]),
            Rvalue::UnaryOp(u, o) => json!(["un", format!("{:?}", u), self.operand(o)]),
            Rvalue::Use(o, ..) => json!(["use", self.operand(o)]),
            Rvalue::Reborrow(_, m, p) => json!(["ref", *m == Mutability::Mut, self.place(p)]),
            Rvalue::ThreadLocalRef(i) => json!(["tls", i.name().to_string()]),
        }
    }

    fn span(&self, s: Span) -> Value {
        let l = s.get_lines();
        json!([s.get_filename().to_string(), l.start_line])
    }

    fn body(&mut self, b: &Body) -> Value {
        let locals: Vec<usize> = b.locals().iter().map(|l| self.ty(l.ty)).collect();
        let nargs = b.arg_locals().len();
        let mut names = vec![];
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value { names.push(json!([v.name.to_string(), self.place(p)])); }
        }
        let blocks: Vec<Value> = b.blocks.iter().map(|bb| {
            let stmts: Vec<Value> = bb.statements.iter().filter_map(|s| match &s.kind {
                StatementKind::Assign(p, r) => Some(json!(["=", self.place(p), self.rvalue(r)])),
                StatementKind::SetDiscriminant { place, variant_index } => Some(json!(["setdiscr", self.place(place), variant_index.to_index()])),
                StatementKind::Intrinsic(i) => Some(json!(["intrinsic", format!("{:?}", i)])),
                _ => None,
            }).collect();
            let line = bb.terminator.source_info.span.get_lines().start_line;
            let term = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => json!({"t":"goto","to":target}),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<Value> = targets.branches().map(|(v, t)| json!([v.to_string(), t])).collect();
                    json!({"t":"switch","d":self.operand(discr),"br":br,"otherwise":targets.otherwise()})
                }
                TerminatorKind::Return => json!({"t":"return"}),
                TerminatorKind::Unreachable => json!({"t":"unreachable"}),
                TerminatorKind::Resume => json!({"t":"resume"}),
                TerminatorKind::Abort => json!({"t":"abort"}),
                TerminatorKind::Drop { place, target, .. } => { let ty = place.ty(b.locals()).ok().map(|t| self.ty(t)); json!({"t":"drop","p":self.place(place),"to":target,"ty":ty}) }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::Overflow(op, ..) => format!("Overflow({:?})", op),
                        AssertMessage::OverflowNeg(_) => "OverflowNeg".into(),
                        AssertMessage::BoundsCheck { .. } => "BoundsCheck".into(),
                        AssertMessage::DivisionByZero(_) => "DivisionByZero".into(),
                        AssertMessage::RemainderByZero(_) => "RemainderByZero".into(),
                        _ => "Other".into(),
                    };
                    json!({"t":"assert","cond":self.operand(cond),"expected":expected,"msg":m,"to":target})
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let mut callee = json!({});
                    if let Ok(ft) = func.ty(b.locals()) {
                        if let TyKind::RigidTy(RigidTy::FnDef(def, gargs)) = ft.kind() {
                            callee["def"] = json!(def.name().to_string());
                            callee["gargs"] = json!(self.gargs(&gargs));
                            if let Ok(i) = Instance::resolve(def, &gargs) {
                                callee["kind"] = json!(format!("{:?}", i.kind));
                                callee["name"] = json!(i.name().to_string());
                                if let Some(n) = i.intrinsic_name() { callee["intrinsic"] = json!(n.to_string()); }
                                callee["empty"] = json!(i.is_empty_shim());
                                let k = self.inst_key(i);
                                callee["inst"] = json!(k);
                            }
                        } else { callee["dynamic"] = self.operand(func); }
                    }
                    let args: Vec<Value> = args.iter().map(|a| self.operand(a)).collect();
                    json!({"t":"call","f":callee,"args":args,"dest":self.place(destination),"to":target})
                }
                TerminatorKind::InlineAsm { .. } => json!({"t":"asm"}),
            };
            json!({"s":stmts,"term":term,"line":line})
        }).collect();
        json!({"locals":locals,"nargs":nargs,"blocks":blocks,"span":self.span(b.span),"names":names})
    }
}

fn dump(tcx: rustc_middle::ty::TyCtxt<'_>) -> ControlFlow<()> {
    let krate = rustc_public::local_crate();
    let want = std::env::var("MIRX_CRATE").unwrap_or_default();
    if krate.name.to_string() != want { return ControlFlow::Continue(()); }
    let _ = tcx;
    let mut cx = Cx { types: HashMap::new(), type_json: vec![], fns: HashMap::new(), queue: VecDeque::new(), seen: HashSet::new(), statics: HashMap::new() };
    let mut roots = vec![];
    let mut generic = vec![];
    for item in rustc_public::all_local_items() {
        if !matches!(item.kind(), rustc_public::ItemKind::Fn) { continue; }
        if item.requires_monomorphization() { generic.push(item.name().to_string()); continue; }
        let n = item.name().to_string();
        if n.contains("{closure") { continue; }
        if ["pyo3", "__pymethod", "__pyo3", "__pyfunction", "std::fmt::Debug", "std::hash::Hash", "__PYO3", "_PYO3"].iter().any(|p| n.contains(p)) { continue; }
        if let Ok(i) = Instance::try_from(item) { roots.push(cx.inst_key(i)); }
    }
    while let Some((key, inst)) = cx.queue.pop_front() {
        let name = inst.name().to_string();
        let local = inst_is_local(&inst, &krate);
        let want_body = local || matches!(inst.kind, InstanceKind::Shim) || follow_external(&name) || follow_external(&inst_def_name(&inst));
        let body = if want_body && inst.has_body() { inst.body() } else { None };
        let gargs = inst.args();
        let ga = cx.gargs(&gargs);
        let def = inst_def_name(&inst);
        let b = match body { Some(b) => cx.body(&b), None => Value::Null };
        let ret = if b.is_null() { inst.ty().kind().fn_sig().map(|s| cx.ty(s.skip_binder().output())) } else { None };
        let v = json!({"name": name, "ret": ret, "def": def, "local": local, "kind": format!("{:?}", inst.kind), "gargs": ga, "body": b,
            "intrinsic": inst.intrinsic_name().map(|s| s.to_string()), "empty": inst.is_empty_shim()});
        cx.fns.insert(key, v);
    }
    let out = json!({"fns": cx.fns, "types": cx.type_json, "roots": roots, "generic": generic, "statics": cx.statics});
    let path = std::env::var("MIRX_OUT").expect("MIRX_OUT");
    let tmp = format!("{}.tmp", path);
    std::fs::write(&tmp, serde_json::to_string(&out).unwrap()).unwrap();
    std::fs::rename(&tmp, &path).unwrap();
    ControlFlow::Continue(())
}

fn inst_def_name(i: &Instance) -> String {
    use rustc_public::CrateDef;
    i.def.name().to_string()
}
fn inst_is_local(i: &Instance, k: &rustc_public::Crate) -> bool {
    use rustc_public::CrateDef;
    i.def.krate().name == k.name
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WORKSPACE_WRAPPER: argv = [mirx, rustc, ...]
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let _ = run_with_tcx!(&args, dump);
}
