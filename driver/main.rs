// mirdump: a rustc driver that writes, for one crate (the harness), every monomorphic
// MIR body reachable from its `root_*` functions, together with the layouts of all the
// types, the evaluated constants and the source positions, as one JSON document.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;

use rustc_public::abi::*;
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::crate_def::CrateDefType;
use rustc_public::{CrateDef, CrateItem};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
struct Dump {
    tys: HashMap<Ty, usize>,
    ty_json: Vec<String>,
    insts: HashMap<Instance, usize>,
    inst_json: Vec<String>,
    work: VecDeque<(usize, Instance)>,
    allocs: HashMap<AllocId, usize>,
    alloc_json: Vec<String>,
    statics: HashMap<String, usize>,
    files: HashMap<String, usize>,
    file_list: Vec<String>,
}

fn join<T: AsRef<str>>(v: &[T]) -> String {
    let mut s = String::from("[");
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(x.as_ref());
    }
    s.push(']');
    s
}

impl Dump {
    fn span(&mut self, sp: &Span) -> String {
        let f = sp.get_filename().to_string();
        let n = self.files.len();
        let fl = &mut self.file_list;
        let id = *self.files.entry(f.clone()).or_insert_with(|| {
            fl.push(f);
            n
        });
        let l = sp.get_lines();
        format!("[{},{},{}]", id, l.start_line, l.start_col)
    }

    fn layout(&mut self, t: Ty) -> String {
        let Ok(l) = t.layout() else { return "null".into() };
        let sh = l.shape();
        let offs = |o: &Vec<_>| -> String {
            let v: Vec<String> = o.iter().map(|s: &rustc_public::target::MachineSize| s.bytes().to_string()).collect();
            join(&v)
        };
        let fields = match &sh.fields {
            FieldsShape::Primitive => "[\"prim\"]".to_string(),
            FieldsShape::Union(n) => format!("[\"union\",{}]", n),
            FieldsShape::Array { stride, count } => format!("[\"array\",{},{}]", stride.bytes(), count),
            FieldsShape::Arbitrary { offsets } => format!("[\"arb\",{}]", offs(offsets)),
        };
        let variants = match &sh.variants {
            VariantsShape::Empty => "[\"empty\"]".to_string(),
            VariantsShape::Single { index } => format!("[\"single\",{}]", vidx(index)),
            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                let tagsz = match tag {
                    Scalar::Initialized { value, .. } | Scalar::Union { value } => match value {
                        Primitive::Int { length, signed } => format!("[{},{}]", length.bits() / 8, *signed as u8),
                        Primitive::Float { .. } => "[8,0]".into(),
                        Primitive::Pointer(_) => "[8,0]".into(),
                    },
                };
                let tagoff = match &sh.fields {
                    FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                    _ => 0,
                };
                let enc = match tag_encoding {
                    TagEncoding::Direct => "[\"direct\"]".to_string(),
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => format!(
                        "[\"niche\",{},{},{},\"{}\"]",
                        vidx(untagged_variant),
                        vidx(niche_variants.start()),
                        vidx(niche_variants.end()),
                        niche_start
                    ),
                };
                let vs: Vec<String> = variants.iter().map(|v| offs(&v.offsets)).collect();
                format!("[\"multi\",{},{},{},{}]", tagoff, tagsz, enc, join(&vs))
            }
        };
        format!(
            "{{\"size\":{},\"align\":{},\"unsized\":{},\"fields\":{},\"variants\":{}}}",
            sh.size.bytes(),
            sh.abi_align,
            sh.is_unsized(),
            fields,
            variants
        )
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let id = self.ty_json.len();
        self.tys.insert(t, id);
        self.ty_json.push(String::new());
        let lay = self.layout(t);
        let k = t.kind();
        let desc = match &k {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".to_string(),
                RigidTy::Char => "\"k\":\"char\"".to_string(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"bits\":{}", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("\"k\":\"uint\",\"bits\":{}", i.num_bytes() * 8),
                RigidTy::Float(_) => "\"k\":\"float\"".to_string(),
                RigidTy::Str => "\"k\":\"str\"".to_string(),
                RigidTy::Never => "\"k\":\"never\"".to_string(),
                RigidTy::Array(e, n) => {
                    let e = self.ty(*e);
                    let n = n.eval_target_usize().map(|v| v.to_string()).unwrap_or("null".into());
                    format!("\"k\":\"array\",\"elem\":{},\"len\":{}", e, n)
                }
                RigidTy::Slice(e) => {
                    let e = self.ty(*e);
                    format!("\"k\":\"slice\",\"elem\":{}", e)
                }
                RigidTy::RawPtr(e, m) => {
                    let e = self.ty(*e);
                    format!("\"k\":\"ptr\",\"to\":{},\"mut\":{}", e, (*m == Mutability::Mut) as u8)
                }
                RigidTy::Ref(_, e, m) => {
                    let e = self.ty(*e);
                    format!("\"k\":\"ref\",\"to\":{},\"mut\":{}", e, (*m == Mutability::Mut) as u8)
                }
                RigidTy::Tuple(v) => {
                    let v: Vec<String> = v.iter().map(|t| self.ty(*t).to_string()).collect();
                    format!("\"k\":\"tuple\",\"fields\":{}", join(&v))
                }
                RigidTy::Adt(d, args) => {
                    let kind = match d.kind() {
                        AdtKind::Enum => "enum",
                        AdtKind::Struct => "struct",
                        AdtKind::Union => "union",
                    };
                    let mut vs = vec![];
                    for v in d.variants() {
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = f.ty_with_args(args);
                            let fid = self.ty(ft);
                            fs.push(format!("[{},{}]", q(&f.name.to_string()), fid));
                        }
                        let discr = if d.kind() == AdtKind::Enum {
                            d.discriminant_for_variant(v.idx()).val.to_string()
                        } else {
                            "0".into()
                        };
                        vs.push(format!(
                            "{{\"name\":{},\"fields\":{},\"discr\":\"{}\"}}",
                            q(&v.name().to_string()),
                            join(&fs),
                            discr
                        ));
                    }
                    format!(
                        "\"k\":\"adt\",\"adt\":\"{}\",\"name\":{},\"crate\":{},\"box\":{},\"variants\":{}",
                        kind,
                        q(&d.name().to_string()),
                        q(&d.krate().name.to_string()),
                        d.is_box(),
                        join(&vs)
                    )
                }
                RigidTy::FnDef(d, _) => format!("\"k\":\"fndef\",\"name\":{}", q(&d.name().to_string())),
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".to_string(),
                RigidTy::Closure(d, args) => {
                    // upvar types: last generic arg is the tuple of captured types
                    let mut ups = vec![];
                    if let Some(GenericArgKind::Type(t)) = args.0.last() {
                        if let TyKind::RigidTy(RigidTy::Tuple(v)) = t.kind() {
                            for x in v {
                                ups.push(self.ty(x).to_string());
                            }
                        }
                    }
                    format!("\"k\":\"closure\",\"name\":{},\"fields\":{}", q(&d.name().to_string()), join(&ups))
                }
                RigidTy::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
                RigidTy::Pat(t, _) => {
                    let t = self.ty(*t);
                    format!("\"k\":\"pat\",\"base\":{}", t)
                }
                _ => "\"k\":\"other\"".to_string(),
            },
            _ => "\"k\":\"unresolved\"".to_string(),
        };
        self.ty_json[id] = format!("{{{},\"str\":{},\"layout\":{}}}", desc, q(&format!("{}", t)), lay);
        id
    }

    fn inst(&mut self, i: Instance) -> usize {
        if let Some(x) = self.insts.get(&i) {
            return *x;
        }
        let id = self.inst_json.len();
        self.insts.insert(i, id);
        self.inst_json.push(String::new());
        self.work.push_back((id, i));
        id
    }

    fn alloc(&mut self, a: AllocId) -> usize {
        if let Some(x) = self.allocs.get(&a) {
            return *x;
        }
        let id = self.alloc_json.len();
        self.allocs.insert(a, id);
        self.alloc_json.push(String::new());
        let g: GlobalAlloc = a.into();
        let j = match g {
            GlobalAlloc::Function(i) => {
                let x = self.inst(i);
                format!("{{\"k\":\"fn\",\"inst\":{}}}", x)
            }
            GlobalAlloc::VTable(t, _) => {
                let t = self.ty(t);
                format!("{{\"k\":\"vtable\",\"ty\":{}}}", t)
            }
            GlobalAlloc::Static(s) => self.static_json(s),
            GlobalAlloc::Memory(m) => {
                let m = self.mem(&m);
                format!("{{\"k\":\"mem\",\"mem\":{}}}", m)
            }
            GlobalAlloc::TypeId { ty } => {
                let t = self.ty(ty);
                format!("{{\"k\":\"typeid\",\"ty\":{}}}", t)
            }
        };
        self.alloc_json[id] = j;
        id
    }

    fn static_json(&mut self, s: StaticDef) -> String {
        let name = s.name().to_string();
        let t = self.ty(s.ty());
        let m = if name.contains("{extern#") || matches!(s.krate().name.as_str(), "std" | "core" | "alloc") { "null".to_string() } else { match s.eval_initializer() {
            Ok(m) => self.mem(&m),
            Err(_) => "null".into(),
        } };
        format!("{{\"k\":\"static\",\"name\":{},\"crate\":{},\"ty\":{},\"mem\":{}}}", q(&name), q(&s.krate().name.to_string()), t, m)
    }

    fn mem(&mut self, m: &Allocation) -> String {
        let mut s = String::new();
        for b in &m.bytes {
            match b {
                Some(b) => {
                    let _ = write!(s, "{:02x}", b);
                }
                None => s.push_str("__"),
            }
        }
        let ps: Vec<String> = m
            .provenance
            .ptrs
            .iter()
            .map(|(o, p)| format!("[{},{}]", o, self.alloc(p.0)))
            .collect();
        format!("{{\"bytes\":\"{}\",\"ptrs\":{},\"mut\":{}}}", s, join(&ps), (m.mutability == Mutability::Mut) as u8)
    }

    fn cnst(&mut self, c: &ConstOperand) -> String {
        let t = self.ty(c.const_.ty());
        let tk = c.const_.ty().kind();
        if let TyKind::RigidTy(RigidTy::FnDef(d, args)) = &tk {
            return match Instance::resolve(*d, args) {
                Ok(i) => {
                    let x = self.inst(i);
                    format!("[\"fn\",{},{}]", t, x)
                }
                Err(_) => format!("[\"fn\",{},null]", t),
            };
        }
        match c.const_.kind() {
            ConstantKind::Allocated(a) => {
                let m = self.mem(a);
                format!("[\"c\",{},{}]", t, m)
            }
            ConstantKind::ZeroSized => format!("[\"z\",{}]", t),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => {
                    let m = self.mem(a);
                    format!("[\"c\",{},{}]", t, m)
                }
                TyConstKind::ZSTValue(_) => format!("[\"z\",{}]", t),
                _ => format!("[\"u\",{}]", t),
            },
            _ => format!("[\"u\",{}]", t),
        }
    }

    fn place(&mut self, p: &Place) -> String {
        let ps: Vec<String> = p
            .projection
            .iter()
            .map(|e| match e {
                ProjectionElem::Deref => "[\"d\"]".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, *from_end as u8)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, *from_end as u8)
                }
                ProjectionElem::Downcast(v) => format!("[\"dc\",{}]", vidx(v)),
                ProjectionElem::OpaqueCast(t) => format!("[\"oc\",{}]", self.ty(*t)),
            })
            .collect();
        format!("[{},{}]", p.local, join(&ps))
    }

    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) | Operand::Move(p) => format!("[\"p\",{}]", self.place(p)),
            Operand::Constant(c) => self.cnst(c),
            Operand::RuntimeChecks(k) => format!("[\"rc\",{}]", q(&format!("{:?}", k))),
        }
    }

    fn rv(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"ref\",{}]", self.place(p)),
            Rvalue::Ref(_, _, p) => format!("[\"ref\",{}]", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"p\",{}]]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.op(o)).collect();
                let ks = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, args, _, f) => {
                        let t = self.ty(d.ty_with_args(args));
                        let f = f.map(|x| x.to_string()).unwrap_or("null".into());
                        format!("[\"adt\",{},{},{}]", t, vidx(v), f)
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = self.ty(Ty::new_closure(*d, args.clone()));
                        format!("[\"closure\",{}]", t)
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},{}]", ks, join(&os))
            }
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("[\"chk\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::UnaryOp(u, x) => format!("[\"un\",\"{:?}\",{}]", u, self.op(x)),
            Rvalue::Cast(k, o, t) => {
                let mut extra = "null".to_string();
                if let CastKind::PointerCoercion(pc) = k {
                    if let Operand::Constant(c) = o {
                        match (pc, c.const_.ty().kind()) {
                            (PointerCoercion::ReifyFnPointer(_), TyKind::RigidTy(RigidTy::FnDef(d, args))) => {
                                if let Ok(i) = Instance::resolve_for_fn_ptr(d, &args) {
                                    extra = self.inst(i).to_string();
                                }
                            }
                            (PointerCoercion::ClosureFnPointer(_), TyKind::RigidTy(RigidTy::Closure(d, args))) => {
                                if let Ok(i) = Instance::resolve_closure(d, &args, ClosureKind::FnOnce) {
                                    extra = self.inst(i).to_string();
                                }
                            }
                            _ => {}
                        }
                    }
                }
                let ks = match k {
                    CastKind::PointerCoercion(pc) => format!("PC:{:?}", pc),
                    k => format!("{:?}", k),
                };
                format!("[\"cast\",{},{},{},{}]", q(&ks), self.op(o), self.ty(*t), extra)
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"p\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, c) => {
                let n = c.eval_target_usize().map(|v| v.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.op(o), n)
            }
            Rvalue::ThreadLocalRef(it) => format!("[\"tls\",{}]", q(&it.name().to_string())),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
        }
    }

    fn stmt(&mut self, s: &Statement) -> Option<String> {
        let sp = self.span(&s.source_info.span);
        Some(match &s.kind {
            StatementKind::Assign(p, r) => format!("[\"=\",{},{},{}]", sp, self.place(p), self.rv(r)),
            StatementKind::SetDiscriminant { place, variant_index } => {
                format!("[\"sd\",{},{},{}]", sp, self.place(place), vidx(variant_index))
            }
            StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                format!("[\"cpy\",{},{},{},{}]", sp, self.op(&c.src), self.op(&c.dst), self.op(&c.count))
            }
            StatementKind::StorageDead(l) => format!("[\"dead\",{},{}]", sp, l),
            StatementKind::StorageLive(l) => format!("[\"live\",{},{}]", sp, l),
            _ => return None,
        })
    }

    fn term(&mut self, t: &Terminator, locals: &[LocalDecl]) -> String {
        let sp = self.span(&t.source_info.span);
        match &t.kind {
            TerminatorKind::Goto { target } => format!("[\"goto\",{},{}]", sp, target),
            TerminatorKind::SwitchInt { discr, targets } => {
                let bs: Vec<String> = targets.branches().map(|(v, b)| format!("[\"{}\",{}]", v, b)).collect();
                let dt = discr.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("[\"switch\",{},{},{},{},{}]", sp, self.op(discr), join(&bs), targets.otherwise(), dt)
            }
            TerminatorKind::Return => format!("[\"ret\",{}]", sp),
            TerminatorKind::Unreachable => format!("[\"unreachable\",{}]", sp),
            TerminatorKind::Resume | TerminatorKind::Abort => format!("[\"resume\",{}]", sp),
            TerminatorKind::Drop { place, target, .. } => {
                let mut di = "null".to_string();
                if let Ok(t) = place.ty(locals) {
                    let i = Instance::resolve_drop_in_place(t);
                    if !i.is_empty_shim() {
                        di = self.inst(i).to_string();
                    }
                }
                format!("[\"drop\",{},{},{},{}]", sp, self.place(place), target, di)
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let a: Vec<String> = args.iter().map(|o| self.op(o)).collect();
                let tg = target.map(|x| x.to_string()).unwrap_or("null".into());
                let mut f = self.op(func);
                if !matches!(func, Operand::Constant(_)) {
                    // a callee held in a place of function-item type is still a static call
                    if let Ok(ft) = func.ty(locals) {
                        if let TyKind::RigidTy(RigidTy::FnDef(d, args)) = ft.kind() {
                            if let Ok(i) = Instance::resolve(d, &args) {
                                let t = self.ty(ft);
                                f = format!("[\"fn\",{},{}]", t, self.inst(i));
                            }
                        }
                    }
                }
                format!("[\"call\",{},{},{},{},{}]", sp, f, join(&a), self.place(destination), tg)
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let m = match msg {
                    AssertMessage::BoundsCheck { len, index } => {
                        format!("[\"bounds\",{},{}]", self.op(len), self.op(index))
                    }
                    AssertMessage::Overflow(b, x, y) => {
                        format!("[\"overflow\",\"{:?}\",{},{}]", b, self.op(x), self.op(y))
                    }
                    m => format!("[{}]", q(m.description().unwrap_or("assert"))),
                };
                format!("[\"assert\",{},{},{},{},{}]", sp, self.op(cond), *expected as u8, m, target)
            }
            TerminatorKind::InlineAsm { .. } => format!("[\"asm\",{}]", sp),
        }
    }

    fn process(&mut self, id: usize, i: Instance, skip: &dyn Fn(&str) -> bool) {
        let name = i.name().to_string();
        let defname = i.def.name().to_string();
        let krate = i.def.krate().name.to_string();
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let intr = i.intrinsic_name().map(|n| q(&n.to_string())).unwrap_or("null".into());
        let sp = self.span(&i.def.span());
        let foreign = i.is_foreign_item();
        let gargs: Vec<String> = i
            .args()
            .0
            .iter()
            .filter_map(|a| match a {
                GenericArgKind::Type(t) => Some(self.ty(*t).to_string()),
                _ => None,
            })
            .collect();
        let mut head = format!(
            "\"name\":{},\"def\":{},\"crate\":{},\"kind\":\"{}\",\"intrinsic\":{},\"span\":{},\"foreign\":{},\"targs\":{}",
            q(&name),
            q(&defname),
            q(&krate),
            kind,
            intr,
            sp,
            foreign,
            join(&gargs)
        );
        if skip(&defname) {
            head.push_str(",\"skipped\":true");
        }
        let body = if kind == "virtual" || skip(&defname) || foreign { None } else { i.body() };
        match body {
            None => {
                self.inst_json[id] = format!("{{{},\"body\":null}}", head);
            }
            Some(b) => {
                let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
                let mut bl = vec![];
                for blk in &b.blocks {
                    let ss: Vec<String> = blk.statements.iter().filter_map(|s| self.stmt(s)).collect();
                    let t = self.term(&blk.terminator, b.locals());
                    bl.push(format!("[{},{}]", join(&ss), t));
                }
                let spread = b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into());
                self.inst_json[id] = format!(
                    "{{{},\"body\":{{\"argc\":{},\"spread\":{},\"locals\":{},\"blocks\":{}}}}}",
                    head,
                    b.arg_locals().len(),
                    spread,
                    join(&locals),
                    join(&bl)
                );
            }
        }
    }
}

fn vidx(v: &VariantIdx) -> usize {
    // VariantIdx is an opaque index; its serialised / debug form carries the number
    let s = format!("{:?}", v);
    let d: String = s.chars().filter(|c| c.is_ascii_digit()).collect();
    d.parse().unwrap_or(usize::MAX)
}

fn run_dump() -> ControlFlow<(), ()> {
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let mut d = Dump::default();
    let mut roots = vec![];
    for it in rustc_public::all_local_items() {
        let n = it.name().to_string();
        let last = n.rsplit("::").next().unwrap_or("").to_string();
        if last.starts_with("root_") {
            if let Ok(i) = Instance::try_from(it) {
                let id = d.inst(i);
                roots.push(format!("[{},{}]", q(&last), id));
            }
        }
    }
    // diverging panic machinery and the formatting it drags in is never entered by the analysis
    let skips: &[&str] = &[
        "core::panicking::", "std::panicking::", "core::fmt::", "std::fmt::", "alloc::fmt::",
        "core::result::unwrap_failed", "core::option::expect_failed", "core::option::unwrap_failed",
        "alloc::alloc::handle_alloc_error", "alloc::raw_vec::handle_error", "std::backtrace",
        "core::str::slice_error_fail", "alloc::raw_vec::capacity_overflow", "std::process::abort",
        "core::intrinsics::abort", "std::sys::", "std::thread::", "std::io::", "std::env::", "std::fs::",
        "std::net::", "std::time::", "std::process::", "std::sync::", "rand::rngs::", "rand::thread_rng", "getrandom::",
    ];
    let skip = move |n: &str| skips.iter().any(|p| n.starts_with(p));
    while let Some((id, i)) = d.work.pop_front() {
        d.process(id, i, &skip);
    }
    let mut s = String::new();
    let files: Vec<String> = d.file_list.iter().map(|f| q(f)).collect();
    let _ = write!(
        s,
        "{{\"roots\":{},\n\"files\":{},\n\"types\":[\n{}\n],\n\"allocs\":[\n{}\n],\n\"insts\":[\n{}\n]}}",
        join(&roots),
        join(&files),
        d.ty_json.join(",\n"),
        d.alloc_json.join(",\n"),
        d.inst_json.join(",\n")
    );
    std::fs::write(&out, s).expect("write dump");
    let _ = HashSet::<u8>::new();
    let _: Option<CrateItem> = None;
    let _ = &d.statics;
    ControlFlow::Continue(())
}

fn main() {
    // invoked as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let mut is_target = false;
    for w in args.windows(2) {
        if w[0] == "--crate-name" && w[1] == want {
            is_target = true;
        }
    }
    if is_target {
        let r = rustc_public::run!(&args, run_dump);
        if r.is_err() {
            std::process::exit(1);
        }
    } else {
        let r = rustc_public::run!(&args, || ControlFlow::<(), ()>::Continue(()));
        match r {
            Ok(_) | Err(rustc_public::CompilerError::Skipped) => {}
            Err(_) => std::process::exit(1),
        }
    }
}
