//! rustc driver: compiles a crate exactly as rustc does and, for the crates
//! named in MIRDUMP_CRATES, writes the monomorphic MIR of every non-generic
//! local function and of everything reachable from them (core and std code
//! included) as one JSON document, with the layouts of every type involved.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

use rustc_public::abi::*;
use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use rustc_public::mir::alloc::*;
use rustc_public::mir::mono::*;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{run_with_tcx, CompilerError};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn join<T>(v: impl IntoIterator<Item = T>, f: impl FnMut(T) -> String) -> String {
    v.into_iter().map(f).collect::<Vec<_>>().join(",")
}

#[derive(Default)]
struct Dump {
    tys: HashMap<Ty, usize>,
    ty_json: Vec<Option<String>>,
    allocs: HashMap<AllocId, usize>,
    alloc_json: Vec<Option<String>>,
    inst: HashMap<Instance, usize>,
    queue: VecDeque<(usize, Instance)>,
    bodies: Vec<String>,
}

impl Dump {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(&i) = self.tys.get(&t) { return i; }
        let i = self.ty_json.len();
        self.tys.insert(t, i);
        self.ty_json.push(None);
        let s = self.ty_body(t);
        self.ty_json[i] = Some(s);
        i
    }

    fn inst(&mut self, i: Instance) -> usize {
        if let Some(&n) = self.inst.get(&i) { return n; }
        let n = self.inst.len();
        self.inst.insert(i, n);
        self.queue.push_back((n, i));
        n
    }

    fn alloc_body(&mut self, a: &Allocation) -> String {
        let mut hex = String::with_capacity(a.bytes.len() * 2);
        for b in &a.bytes {
            match b { Some(b) => { let _ = write!(hex, "{:02x}", b); } None => hex.push_str("__") }
        }
        let ptrs = a.provenance.ptrs.clone();
        let p = join(ptrs, |(o, p)| format!("[{},{}]", o, self.alloc(p.0)));
        format!("{{\"b\":\"{}\",\"p\":[{}]}}", hex, p)
    }

    fn alloc(&mut self, id: AllocId) -> usize {
        if let Some(&i) = self.allocs.get(&id) { return i; }
        let i = self.alloc_json.len();
        self.allocs.insert(id, i);
        self.alloc_json.push(None);
        let s = match GlobalAlloc::from(id) {
            GlobalAlloc::Memory(a) => self.alloc_body(&a),
            // what a mutable static holds depends on the calls made before
            GlobalAlloc::Static(s) if rustc_middle::ty::tls::with(|tcx| {
                let d = rustc_public::rustc_internal::internal(tcx, s.def_id());
                tcx.is_mutable_static(d) || !tcx.type_of(d).instantiate_identity().skip_normalization().is_freeze(tcx, rustc_middle::ty::TypingEnv::fully_monomorphized())
            }) => "{\"other\":\"mutable static\"}".to_string(),
            GlobalAlloc::Static(s) => match s.eval_initializer() {
                Ok(a) => self.alloc_body(&a),
                Err(_) => "{\"other\":\"static\"}".to_string(),
            },
            GlobalAlloc::Function(f) => { let n = self.inst(f); format!("{{\"fn\":{}}}", n) }
            GlobalAlloc::VTable(..) => "{\"other\":\"vtable\"}".to_string(),
            GlobalAlloc::TypeId { .. } => "{\"other\":\"typeid\"}".to_string(),
        };
        self.alloc_json[i] = Some(s);
        i
    }

    fn ty_body(&mut self, t: Ty) -> String {
        let kind = t.kind();
        let name = format!("{}", t);
        let layout = t.layout().ok().map(|l| l.shape());
        let mut s = format!("{{\"name\":{}", esc(&name));
        if let Some(l) = &layout {
            let _ = write!(s, ",\"size\":{},\"align\":{}", l.size.bytes(), l.abi_align);
            if l.is_unsized() { s.push_str(",\"unsized\":true"); }
        }
        let TyKind::RigidTy(r) = kind else { s.push_str(",\"k\":\"other\"}"); return s; };
        match &r {
            RigidTy::Bool => s.push_str(",\"k\":\"bool\""),
            RigidTy::Char => s.push_str(",\"k\":\"char\""),
            RigidTy::Int(i) => { let _ = write!(s, ",\"k\":\"int\",\"signed\":true,\"bits\":{}", i.num_bytes() * 8); }
            RigidTy::Uint(i) => { let _ = write!(s, ",\"k\":\"int\",\"signed\":false,\"bits\":{}", i.num_bytes() * 8); }
            RigidTy::Float(f) => { let _ = write!(s, ",\"k\":\"float\",\"fk\":\"{:?}\"", f); }
            RigidTy::Str => s.push_str(",\"k\":\"str\""),
            RigidTy::Never => s.push_str(",\"k\":\"never\""),
            RigidTy::Array(e, n) => { let e = self.ty(*e); let _ = write!(s, ",\"k\":\"array\",\"elem\":{},\"len\":{}", e, n.eval_target_usize().unwrap_or(0)); }
            RigidTy::Slice(e) => { let e = self.ty(*e); let _ = write!(s, ",\"k\":\"slice\",\"elem\":{}", e); }
            RigidTy::Pat(e, _) => { let e = self.ty(*e); let _ = write!(s, ",\"k\":\"pat\",\"elem\":{}", e); }
            RigidTy::RawPtr(e, _) => { let e = self.ty(*e); let _ = write!(s, ",\"k\":\"ptr\",\"elem\":{}", e); }
            RigidTy::Ref(_, e, _) => { let e = self.ty(*e); let _ = write!(s, ",\"k\":\"ref\",\"elem\":{}", e); }
            RigidTy::FnDef(d, a) => {
                s.push_str(",\"k\":\"fndef\"");
                let _ = write!(s, ",\"path\":{}", esc(&d.name()));
                if let Ok(i) = Instance::resolve(*d, a) { let n = self.inst(i); let _ = write!(s, ",\"inst\":{}", n); }
            }
            RigidTy::FnPtr(_) => s.push_str(",\"k\":\"fnptr\""),
            RigidTy::Dynamic(..) => s.push_str(",\"k\":\"dyn\""),
            RigidTy::Tuple(ts) => {
                let f = join(ts.clone(), |t| self.ty(t).to_string());
                let _ = write!(s, ",\"k\":\"tuple\",\"fields\":[{}],\"offs\":[{}]", f, offs(&layout));
            }
            RigidTy::Closure(d, a) => {
                // upvars: the last generic argument is the tuple of captured types
                s.push_str(",\"k\":\"closure\"");
                let _ = write!(s, ",\"path\":{}", esc(&d.name()));
                if let Some(GenericArgKind::Type(t)) = a.0.last() {
                    if let TyKind::RigidTy(RigidTy::Tuple(ts)) = t.kind() {
                        let f = join(ts, |t| self.ty(t).to_string());
                        let _ = write!(s, ",\"fields\":[{}],\"offs\":[{}]", f, offs(&layout));
                    }
                }
            }
            RigidTy::Adt(d, args) => {
                let _ = write!(s, ",\"k\":\"adt\",\"path\":{},\"ak\":\"{:?}\"", esc(&d.name()), d.kind());
                let mut vs = vec![];
                for (vi, v) in d.variants().into_iter().enumerate() {
                    let fields = v.fields();
                    let ft: Vec<usize> = fields.iter().map(|f| self.ty(f.ty_with_args(args))).collect();
                    let fnames = join(fields.iter(), |f| esc(&f.name.to_string()));
                    let off = match &layout {
                        Some(l) => match &l.variants {
                            VariantsShape::Multiple { variants, .. } => join(variants[vi].offsets.iter(), |o| o.bytes().to_string()),
                            VariantsShape::Single { index } if index.to_index() == vi => offs(&layout),
                            _ => String::new(),
                        },
                        None => String::new(),
                    };
                    let discr = if d.kind() == AdtKind::Enum { d.discriminant_for_variant(v.idx()).val.to_string() } else { "0".into() };
                    vs.push(format!("{{\"name\":{},\"fields\":[{}],\"fnames\":[{}],\"offs\":[{}],\"discr\":\"{}\"}}",
                        esc(&v.name()), join(ft, |x| x.to_string()), fnames, off, discr));
                }
                let _ = write!(s, ",\"variants\":[{}]", vs.join(","));
                if let Some(l) = &layout {
                    match &l.variants {
                        VariantsShape::Multiple { tag, tag_encoding, tag_field, .. } => {
                            let prim = match tag { Scalar::Initialized { value, .. } => value, Scalar::Union { value } => value };
                            let (sz, isptr) = match prim { Primitive::Int { length, .. } => (length.bits() / 8, false), Primitive::Pointer(_) => (8, true), Primitive::Float { length } => (length.bits() / 8, false) };
                            let toff = match &l.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => 0 };
                            let enc = match tag_encoding {
                                TagEncoding::Direct => "\"direct\"".to_string(),
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } =>
                                    format!("{{\"untagged\":{},\"lo\":{},\"hi\":{},\"start\":\"{}\"}}", untagged_variant.to_index(), niche_variants.start().to_index(), niche_variants.end().to_index(), niche_start),
                            };
                            let _ = write!(s, ",\"tag\":{{\"off\":{},\"size\":{},\"ptr\":{},\"enc\":{}}}", toff, sz, isptr, enc);
                        }
                        VariantsShape::Single { index } => { let _ = write!(s, ",\"single\":{}", index.to_index()); }
                        VariantsShape::Empty => s.push_str(",\"uninhabited\":true"),
                    }
                }
            }
            _ => s.push_str(",\"k\":\"other\""),
        }
        s.push('}');
        s
    }

    fn place(&mut self, p: &Place) -> String {
        let pr = join(p.projection.iter(), |e| match e {
            ProjectionElem::Deref => "[\"d\"]".into(),
            ProjectionElem::Field(i, t) => { let t = self.ty(*t); format!("[\"f\",{},{}]", i, t) }
            ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"c\",{},{},{}]", offset, min_length, from_end),
            ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
            ProjectionElem::Downcast(v) => format!("[\"v\",{}]", v.to_index()),
            ProjectionElem::OpaqueCast(t) => { let t = self.ty(*t); format!("[\"o\",{}]", t) }
        });
        format!("[{},[{}]]", p.local, pr)
    }

    fn konst(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        match c.kind() {
            ConstantKind::Allocated(a) => { let a = self.alloc_body(a); format!("[\"k\",{},{}]", t, a) }
            ConstantKind::ZeroSized => format!("[\"z\",{}]", t),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => { let a = self.alloc_body(a); format!("[\"k\",{},{}]", t, a) }
                TyConstKind::ZSTValue(_) => format!("[\"z\",{}]", t),
                o => format!("[\"bad\",{},{}]", t, esc(&format!("{:?}", o))),
            },
            o => format!("[\"bad\",{},{}]", t, esc(&format!("{:?}", o))),
        }
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"p\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"p\",{}]", self.place(p)),
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(r) => format!("[\"rc\",\"{:?}\"]", r),
        }
    }

    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"ref\",{}]", self.place(p)),
            Rvalue::Ref(_, _, p) => format!("[\"ref\",{}]", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"p\",{}]]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let os = join(ops.iter(), |o| self.operand(o));
                let k = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(_, v, _, _, active) => format!("[\"adt\",{},{}]", v.to_index(), match active { Some(f) => f.to_string(), None => "null".into() }),
                    AggregateKind::Closure(..) => "[\"closure\"]".into(),
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},[{}]]", k, os)
            }
            Rvalue::BinaryOp(b, x, y) => { let (x, y) = (self.operand(x), self.operand(y)); format!("[\"bin\",\"{:?}\",{},{}]", b, x, y) }
            Rvalue::CheckedBinaryOp(b, x, y) => { let (x, y) = (self.operand(x), self.operand(y)); format!("[\"cbin\",\"{:?}\",{},{}]", b, x, y) }
            Rvalue::UnaryOp(u, x) => { let x = self.operand(x); format!("[\"un\",\"{:?}\",{}]", u, x) }
            Rvalue::Cast(k, x, t) => { let x = self.operand(x); let t = self.ty(*t); format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), x, t) }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"p\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(x, n) => { let x = self.operand(x); format!("[\"rep\",{},{}]", x, n.eval_target_usize().unwrap_or(0)) }
            Rvalue::Use(x, _) => format!("[\"use\",{}]", self.operand(x)),
            Rvalue::ThreadLocalRef(_) => "[\"other\",\"tls\"]".into(),
        }
    }

    fn line(s: &rustc_public::ty::Span) -> String {
        let l = s.get_lines();
        format!("\"{}:{}\"", s.get_filename().replace('\\', "/").replace('"', ""), l.start_line)
    }

    fn body(&mut self, b: &Body, local: bool) -> String {
        let ls: Vec<usize> = b.locals().iter().map(|l| self.ty(l.ty)).collect();
        let mut s = format!("{{\"args\":{},\"spread\":{},\"locals\":[{}],\"blocks\":[", b.arg_locals().len(),
            match b.spread_arg() { Some(l) => l.to_string(), None => "null".into() }, join(ls, |x| x.to_string()));
        for (i, bb) in b.blocks.iter().enumerate() {
            if i > 0 { s.push(','); }
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(p, r) => { let p = self.place(p); let r = self.rvalue(r); st.push(format!("[\"=\",{},{}]", p, r)); }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(place); st.push(format!("[\"sd\",{},{}]", p, variant_index.to_index())); }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(_)) => {}
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        let (a, b, c) = (self.operand(&c.src), self.operand(&c.dst), self.operand(&c.count));
                        st.push(format!("[\"cno\",{},{},{}]", a, b, c));
                    }
                    _ => {}
                }
            }
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr);
                    let br = join(targets.branches(), |(v, t)| format!("[\"{}\",{}]", v, t));
                    format!("[\"switch\",{},[{}],{}]", d, br, targets.otherwise())
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let ty = place.ty(b.locals()).ok();
                    let (needs, glue) = match ty {
                        Some(t) => { let i = Instance::resolve_drop_in_place(t); if i.is_empty_shim() { (false, "null".into()) } else { (true, self.inst(i).to_string()) } }
                        None => (true, "null".into()),
                    };
                    format!("[\"drop\",{},{},{},{}]", self.place(place), target, needs, glue)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let a = join(args.iter(), |o| self.operand(o));
                    let d = self.place(destination);
                    let sp = if local { Self::line(&bb.terminator.source_info.span) } else { "\"\"".into() };
                    format!("[\"call\",{},[{}],{},{},{}]", f, a, d, match target { Some(t) => t.to_string(), None => "null".into() }, sp)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond);
                    let m = msg.description().unwrap_or("assertion");
                    let sp = if local { Self::line(&bb.terminator.source_info.span) } else { "\"\"".into() };
                    format!("[\"assert\",{},{},{},{},{}]", c, expected, esc(m), target, sp)
                }
                TerminatorKind::InlineAsm { .. } => "[\"other\",\"asm\"]".into(),
            };
            let _ = write!(s, "{{\"s\":[{}],\"t\":{}}}", st.join(","), t);
        }
        s.push_str("]}");
        s
    }
}

fn offs(l: &Option<LayoutShape>) -> String {
    match l {
        Some(l) => match &l.fields {
            FieldsShape::Arbitrary { offsets } => join(offsets.iter(), |o| o.bytes().to_string()),
            FieldsShape::Array { stride, count } => join(0..*count, |i| (i as usize * stride.bytes()).to_string()),
            FieldsShape::Union(n) => join(0..n.get(), |_| "0".to_string()),
            _ => String::new(),
        },
        None => String::new(),
    }
}

fn skip(name: &str, krate: &str) -> bool {
    // The crates' own code, formatting included, and the interpretation of format strings.
    if krate.starts_with("tofas") || krate.ends_with("_tool") { return false; }
    // printing a reference: followed to reach the formatting of what it refers to
    if name.starts_with("<&") && name.ends_with(" as std::fmt::Display>::fmt") { return false; }
    if name.starts_with("core::fmt::Arguments") || name.starts_with("core::fmt::rt::") || name.starts_with("core::fmt::write")
        || name.starts_with("std::fmt::Arguments") || name.starts_with("std::fmt::rt::") || name.starts_with("std::fmt::write")
        || name.starts_with("core::fmt::FormattingOptions") || name.starts_with("std::fmt::FormattingOptions")
        || ["new", "write_fmt", "with_options", "options", "width", "precision", "sign_plus", "fill", "align", "alternate", "sign_minus", "sign_aware_zero_pad"].iter().any(|m| name.starts_with("std::fmt::Formatter") && name.ends_with(&format!(">::{}", m))) { return false; }
    // Never descended into: diverging panic machinery, digit generation and I/O.
    ["core::panicking::", "std::rt::", "core::fmt::", "std::fmt::", "alloc::fmt::", "std::io::", "std::panicking::",
     "core::result::unwrap_failed", "core::option::expect_failed", "core::option::unwrap_failed", "std::alloc::", "alloc::alloc::"]
        .iter().any(|p| name.starts_with(p))
        || name.contains(" as std::fmt::") || name.contains(" as core::fmt::")
}

fn dump(path: &str) -> ControlFlow<(), ()> {
    let mut d = Dump::default();
    let mut roots = vec![];
    for it in rustc_public::all_local_items() {
        if it.requires_monomorphization() { continue; }
        // Functions, and the initialisers of constants (as functions without arguments) that are not tables.
        match it.kind() {
            rustc_public::ItemKind::Fn => {}
            rustc_public::ItemKind::Const if matches!(it.ty().kind(), TyKind::RigidTy(RigidTy::Adt(..)) | TyKind::RigidTy(RigidTy::Float(_))) => {}
            _ => continue,
        }
        if let Ok(i) = Instance::try_from(it) { roots.push(d.inst(i)); }
    }
    let mut seen = HashSet::new();
    while let Some((n, i)) = d.queue.pop_front() {
        if !seen.insert(n) { continue; }
        let name = i.name().to_string();
        let krate = i.def.krate();
        let mut s = format!("{{\"id\":{},\"name\":{},\"path\":{},\"crate\":{},\"local\":{},\"kind\":{}", n, esc(&name), esc(&i.def.name()), esc(&krate.name), krate.is_local, esc(&format!("{:?}", i.kind)));
        if let Some(x) = i.intrinsic_name() { let _ = write!(s, ",\"intrinsic\":{}", esc(&x)); }
        let args = i.args();
        let mut at = vec![];
        for a in args.0.iter() { if let GenericArgKind::Type(t) = a { at.push(*t); } }
        let at = join(at, |t| d.ty(t).to_string());
        let _ = write!(s, ",\"targs\":[{}]", at);
        if i.is_empty_shim() { s.push_str(",\"empty\":true"); }
        if matches!(i.kind, InstanceKind::Item | InstanceKind::Shim) && !skip(&name, &krate.name) && !i.is_empty_shim() {
            let sp = Dump::line(&i.def.span());
            let _ = write!(s, ",\"span\":{}", sp);
            if let Some(b) = i.body() { let b = d.body(&b, true); let _ = write!(s, ",\"body\":{}", b); }
        }
        s.push('}');
        d.bodies.push(s);
    }
    let mut o = String::new();
    let _ = write!(o, "{{\"roots\":[{}],\n\"types\":[\n", join(roots, |r| r.to_string()));
    o.push_str(&d.ty_json.iter().map(|x| x.clone().unwrap_or("{\"k\":\"other\",\"name\":\"?\"}".into())).collect::<Vec<_>>().join(",\n"));
    o.push_str("],\n\"allocs\":[\n");
    o.push_str(&d.alloc_json.iter().map(|x| x.clone().unwrap_or("{\"other\":\"rec\"}".into())).collect::<Vec<_>>().join(",\n"));
    o.push_str("],\n\"fns\":[\n");
    o.push_str(&d.bodies.join(",\n"));
    o.push_str("]}\n");
    std::fs::write(path, o).expect("write dump");
    ControlFlow::Continue(())
}

fn main() {
    // As RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc.
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    let krate = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let want = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    let outdir = std::env::var("MIRDUMP_DIR").unwrap_or_default();
    let dodump = !outdir.is_empty() && want.split(',').any(|c| c == krate) && !args.iter().any(|a| a == "--test");
    let path = format!("{}/{}.json", outdir, krate);
    let r = run_with_tcx!(&args, |_tcx| -> ControlFlow<(), ()> {
        if dodump { dump(&path) } else { ControlFlow::Continue(()) }
    });
    match r {
        Ok(_) | Err(CompilerError::Skipped) => {}
        Err(_) => std::process::exit(101),
    }
}
