//! Random generator of valid, terminating HUGR programs.
//! Writes nodes and edges directly (not through the builders).
use crate::ext;
use crate::rng::Rng;
use crate::val::V;
use hugr_core::extension::prelude::{usize_t, ConstString, ConstUsize, PRELUDE, string_type, error_type};
use hugr_core::extension::Extension;
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::hugr::views::HugrView;
use hugr_core::ops::constant::Value;
use hugr_core::ops::*;
use hugr_core::ops::dataflow::IOTrait;
use hugr_core::std_extensions::arithmetic::{conversions, float_ops, float_types, int_ops, int_types, int_types::int_type};
use hugr_core::std_extensions::collections::{array, borrow_array, list, value_array};
use hugr_core::std_extensions::logic;
use hugr_core::types::type_param::{Term, TypeArg, TypeParam};
use hugr_core::types::{PolyFuncType, Signature, SumType, Type, TypeBound, TypeEnum, TypeRow};
use hugr_core::{Direction, Hugr, Node, Visibility};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Sz { L(u64), V(usize) }
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Ty {
    Int(u8), IntV(usize), F64, Usize, Str, Err, Sum(Vec<Vec<Ty>>), Fn(Vec<Ty>, Vec<Ty>), Tok,
    /// kind: 0 array, 1 value_array, 2 borrow_array
    Arr(u8, Sz, Box<Ty>), List(Box<Ty>),
    /// type variable (index, copyable)
    Var(usize, bool),
}
pub fn tbool() -> Ty { Ty::Sum(vec![vec![], vec![]]) }
pub fn opt(t: Ty) -> Ty { Ty::Sum(vec![vec![], vec![t]]) }
pub fn tup(ts: Vec<Ty>) -> Ty { Ty::Sum(vec![ts]) }
impl Ty {
    pub fn copyable(&self) -> bool {
        match self {
            Ty::Tok => false,
            Ty::Var(_, c) => *c,
            Ty::Arr(k, _, e) => *k == 1 && e.copyable(),
            Ty::List(e) => e.copyable(),
            Ty::Sum(rs) => rs.iter().flatten().all(|t| t.copyable()),
            _ => true,
        }
    }
    pub fn has_var(&self) -> bool {
        match self {
            Ty::Var(..) | Ty::IntV(_) => true,
            Ty::Arr(_, s, e) => matches!(s, Sz::V(_)) || e.has_var(),
            Ty::List(e) => e.has_var(),
            Ty::Sum(rs) => rs.iter().flatten().any(|t| t.has_var()),
            Ty::Fn(a, b) => a.iter().chain(b).any(|t| t.has_var()),
            _ => false,
        }
    }
    /// contains a linear value nothing can consume except passing it on
    fn stuck(&self) -> bool {
        match self {
            Ty::Var(_, c) => !*c,
            Ty::Arr(k, s, e) => e.stuck() || (!e.copyable() && (*k == 1 || matches!(s, Sz::V(_)))),
            Ty::Sum(rs) => rs.iter().flatten().any(|t| t.stuck()),
            _ => false,
        }
    }
    pub fn ty(&self) -> Type {
        match self {
            Ty::Int(w) => int_type(*w as u64),
            Ty::IntV(i) => int_types::int_type(TypeArg::new_var_use(*i, int_types::LOG_WIDTH_TYPE_PARAM)),
            Ty::F64 => float_types::float64_type(),
            Ty::Usize => usize_t(), Ty::Str => string_type(), Ty::Err => error_type(),
            Ty::Sum(rs) => Type::new_sum(rs.iter().map(|r| row(r))),
            Ty::Fn(a, b) => Type::new_function(Signature::new(row(a), row(b))),
            Ty::Tok => ext::tok(),
            Ty::Arr(k, s, e) => arr_ext(*k).get_type(if *k == 0 { "array" } else if *k == 1 { "value_array" } else { "borrow_array" }).unwrap().instantiate([sz(s), e.ty().into()]).unwrap().into(),
            Ty::List(e) => list::list_type(e.ty()),
            Ty::Var(i, c) => Type::new_var_use(*i, if *c { TypeBound::Copyable } else { TypeBound::Linear }),
        }
    }
    pub fn of(t: &Type) -> Option<Ty> {
        Some(match t.as_type_enum() {
            TypeEnum::Sum(s) => Ty::Sum(match s { SumType::Unit { size } => vec![vec![]; *size as usize], SumType::General { rows } => rows.iter().map(|r| r.iter().map(|t| Type::try_from(t.clone()).ok().and_then(|t| Ty::of(&t))).collect::<Option<Vec<_>>>()).collect::<Option<Vec<_>>>()? , _ => return None }),
            TypeEnum::Variable(i, b) => Ty::Var(*i, *b == TypeBound::Copyable),
            TypeEnum::Function(f) => { let s = Signature::try_from((**f).clone()).ok()?; Ty::Fn(unrow(s.input())?, unrow(s.output())?) }
            TypeEnum::Extension(c) => {
                let size = |a: &TypeArg| match a { Term::BoundedNat(n) => Some(Sz::L(*n)), Term::Variable(v) => Some(Sz::V(v.index())), _ => None };
                let elem = |a: &TypeArg| match a { Term::Runtime(t) => Ty::of(t), _ => None };
                match (c.extension().as_ref(), c.name().as_str()) {
                    (_, "int") => match &c.args()[0] { Term::BoundedNat(n) => Ty::Int(*n as u8), Term::Variable(v) => Ty::IntV(v.index()), _ => return None },
                    (_, "float64") => Ty::F64, ("prelude", "usize") => Ty::Usize, ("prelude", "string") => Ty::Str, ("prelude", "error") => Ty::Err,
                    ("verif.fx", "tok") => Ty::Tok,
                    ("collections.array", "array") => Ty::Arr(0, size(&c.args()[0])?, Box::new(elem(&c.args()[1])?)),
                    ("collections.value_array", _) => Ty::Arr(1, size(&c.args()[0])?, Box::new(elem(&c.args()[1])?)),
                    ("collections.borrow_arr", _) => Ty::Arr(2, size(&c.args()[0])?, Box::new(elem(&c.args()[1])?)),
                    ("collections.list", _) => Ty::List(Box::new(elem(&c.args()[0])?)),
                    _ => return None,
                }
            }
            _ => return None,
        })
    }
    pub fn rand_val(&self, r: &mut Rng) -> V {
        match self {
            Ty::Int(w) => V::int(*w, r.edge_u64()),
            Ty::F64 => V::f(rand_f64(r)),
            Ty::Usize => V::Usize(r.below(6) as u64), Ty::Str => V::Str(format!("s{}", r.below(9))), Ty::Err => V::Err(1, "e".into()),
            Ty::Sum(rs) => { let t = r.below(rs.len()); V::Sum(t, rs[t].iter().map(|x| x.rand_val(r)).collect()) }
            Ty::Arr(_, Sz::L(n), e) => V::Arr((0..*n).map(|_| Some(e.rand_val(r))).collect()),
            Ty::List(e) => V::List((0..r.below(4)).map(|_| e.rand_val(r)).collect()),
            Ty::Tok => V::Tok(r.u64()),
            _ => V::Poison,
        }
    }
}
pub fn rand_f64(r: &mut Rng) -> f64 {
    match r.below(10) { 0 => 0.0, 1 => -0.0, 2 => 1.0, 3 => -1.5, 4 => (r.below(1000) as f64 - 500.0) / 8.0, 5 => 2f64.powi(r.below(140) as i32 - 20), 6 => -2f64.powi(r.below(70) as i32), 7 => 2f64.powi(r.below(65) as i32) - 1.0, 8 => 1e300, _ => (r.u64() >> 11) as f64 / 1024.0 }
}
pub fn row(r: &[Ty]) -> TypeRow { r.iter().map(|t| t.ty()).collect::<Vec<_>>().into() }
pub fn unrow(r: &TypeRow) -> Option<Vec<Ty>> { r.iter().map(Ty::of).collect() }
pub fn sz(s: &Sz) -> TypeArg { match s { Sz::L(n) => TypeArg::from(*n), Sz::V(i) => TypeArg::new_var_use(*i, TypeParam::max_nat_type()) } }
pub fn arr_ext(k: u8) -> &'static Arc<Extension> { match k { 0 => &array::EXTENSION, 1 => &value_array::EXTENSION, _ => &borrow_array::EXTENSION } }
pub fn std_ext(name: &str) -> &'static Arc<Extension> {
    match name { "prelude" => &PRELUDE, "logic" => &logic::EXTENSION, "arithmetic.int" => &int_ops::EXTENSION, "arithmetic.float" => &float_ops::EXTENSION, "arithmetic.conversions" => &conversions::EXTENSION, "collections.list" => &list::EXTENSION, "collections.array" => &array::EXTENSION, "collections.value_array" => &value_array::EXTENSION, "collections.borrow_arr" => &borrow_array::EXTENSION, "verif.fx" => &ext::EXT, x => panic!("{x}") }
}
pub fn xop(e: &str, name: &str, args: impl Into<Vec<TypeArg>>) -> ExtensionOp {
    let args = args.into();
    ExtensionOp::new(std_ext(e).get_op(name).unwrap_or_else(|| panic!("{e}.{name}")).clone(), args.clone()).unwrap_or_else(|x| panic!("{e}.{name} {args:?}: {x}"))
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub size: usize, pub depth: usize, pub funcs: usize,
    pub lin: bool, pub poly: bool, pub floats: bool, pub arrays: bool, pub lists: bool, pub strs: bool, pub llvm: bool,
    pub nonlocal: bool, pub effects: bool, pub order: bool, pub meta: bool, pub decls: bool, pub fnvals: bool,
    pub cfgs: bool, pub loops: bool, pub conds: bool, pub dfgs: bool, pub calls: bool, pub rec: bool, pub panics: bool, pub int_noop_only: bool,
    pub widths: Vec<u8>, pub const_heavy: bool, pub dead_blocks: bool, pub aliases: bool, pub opaque_arr: bool,
    /// effects need not be demanded by an order edge
    pub loose: bool,
    /// list operations whose folding is a recorded finding (C08)
    pub all_list_ops: bool,
}
impl Default for Cfg {
    fn default() -> Cfg {
        Cfg { size: 60, depth: 3, funcs: 3, lin: true, poly: true, floats: true, arrays: true, lists: true, strs: true, llvm: false, nonlocal: true, effects: true, order: true, meta: true, decls: true, fnvals: true, cfgs: true, loops: true, conds: true, dfgs: true, calls: true, rec: true, panics: false, int_noop_only: false, widths: vec![5, 5, 5, 6, 3, 0, 1], const_heavy: false, dead_blocks: false, aliases: true, opaque_arr: true, loose: false, all_list_ops: false }
    }
}
impl Cfg {
    /// Randomly switch features and sizes so that different cases look different.
    pub fn vary(mut self, r: &mut Rng) -> Cfg {
        self.size = match r.below(4) { 0 => self.size / 4, 1 => self.size / 2, 2 => self.size, _ => self.size * 3 / 2 }.max(4);
        self.funcs = r.range(1, self.funcs.max(1));
        let fs: [&mut bool; 18] = [&mut self.lin, &mut self.poly, &mut self.floats, &mut self.arrays, &mut self.lists, &mut self.strs, &mut self.nonlocal, &mut self.effects, &mut self.order, &mut self.meta, &mut self.decls, &mut self.fnvals, &mut self.cfgs, &mut self.loops, &mut self.conds, &mut self.dfgs, &mut self.rec, &mut self.calls];
        for f in fs { if *f && r.chance(1, 5) { *f = false; } }
        if r.chance(1, 3) { self.const_heavy = true; }
        self
    }
}

#[derive(Clone, Debug)]
pub struct FInfo { pub node: Node, pub name: String, pub params: Vec<P>, pub ins: Vec<Ty>, pub outs: Vec<Ty>, pub decl: bool, pub rec: Option<usize>, pub poly: PolyFuncType, pub public: bool }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum P { Ty(bool), Nat, Width }

type Src = (Node, usize);
#[derive(Clone, Debug)]
struct W { n: Node, p: usize, ty: Ty, used: bool }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum K { Func, Dfg, Case, Loop, Block }
struct Reg { parent: Node, container: Node, inp: Node, wires: Vec<W>, effects: Vec<Node>, kind: K, dom: Vec<W>, consts: Vec<(Node, Ty)> }

pub struct G {
    pub r: Rng, pub c: Cfg, pub h: Hugr, pub module: Node, pub funcs: Vec<FInfo>,
    stack: Vec<Reg>, budget: isize, fx: u64, cur: usize, mod_consts: Vec<(Node, Ty)>, depth: usize, pub nonlocal_edges: usize, pub fxdecl: Option<Node>,
}
pub struct Program { pub hugr: Hugr, pub funcs: Vec<FInfo>, pub main: Node, pub ins: Vec<Ty>, pub outs: Vec<Ty>, pub nonlocal_edges: usize }

/// Generate a whole module with a public `main`; the entrypoint is main unless varied by the caller.
pub fn program(seed: u64, c: &Cfg) -> Program {
    for k in 0..20 {
        match crate::driver::quiet_catch(|| program_(crate::rng::mix(&[seed, k]), c)) {
            Ok(p) => return p,
            Err(e) if e.harness() => continue,
            Err(e) => panic!("generation met a library panic at {}:{}: {}", e.file, e.line, e.msg),
        }
    }
    panic!("generator gave up")
}
fn program_(seed: u64, c: &Cfg) -> Program {
    let mut g = G::new(seed, c.clone());
    g.build();
    let m = g.funcs.last().unwrap().clone();
    let mut h = g.h;
    h.resolve_extension_defs(&crate::spice::registry()).expect("resolving generated program");
    h.set_entrypoint(m.node);
    Program { hugr: h, main: m.node, ins: m.ins, outs: m.outs, funcs: g.funcs, nonlocal_edges: g.nonlocal_edges }
}

impl G {
    pub fn new(seed: u64, c: Cfg) -> G {
        let h = Hugr::new();
        let module = h.module_root();
        let budget = c.size as isize;
        G { r: Rng::new(seed), c, h, module, funcs: vec![], stack: vec![], budget, fx: 0, cur: 0, mod_consts: vec![], depth: 0, nonlocal_edges: 0, fxdecl: None }
    }
    fn build(&mut self) {
        // the effect declaration used by programs meant for execution
        if self.c.llvm {
            let poly: PolyFuncType = Signature::new(vec![int_type(5), int_type(5)], vec![int_type(5)]).into();
            self.fxdecl = Some(self.h.add_node_with_parent(self.module, FuncDecl::new_vis("ext_fx", poly, Visibility::Public)));
        }
        if self.c.decls && !self.c.llvm {
            for i in 0..self.r.range(0, 2) {
                let ins = vec![Ty::Int(5); self.r.range(0, 2)];
                let outs: Vec<Ty> = (0..self.r.range(0, 2)).map(|_| self.r.pick(&[Ty::Int(5), tbool(), Ty::Int(6)]).clone()).collect();
                let poly: PolyFuncType = Signature::new(row(&ins), row(&outs)).into();
                let name = format!("decl{i}");
                let node = self.h.add_node_with_parent(self.module, FuncDecl::new_vis(&name, poly.clone(), Visibility::Public));
                self.funcs.push(FInfo { node, name, params: vec![], ins, outs, decl: true, rec: None, poly, public: true });
            }
        }
        if self.c.aliases && !self.c.llvm && self.r.chance(1, 4) {
            self.h.add_node_with_parent(self.module, AliasDefn { name: "al".into(), definition: int_type(5) });
            self.h.add_node_with_parent(self.module, AliasDecl::new("ad", TypeBound::Linear));
        }
        // signatures first, so that calls can go to functions that appear later in the module
        let nf = self.c.funcs;
        let base = self.funcs.len();
        if self.c.fnvals || self.c.arrays { self.new_fn("f_map".into(), vec![], vec![Ty::Int(5)], vec![Ty::Int(5)], None, false); self.new_fn("f_gen".into(), vec![], vec![], vec![Ty::Int(5)], None, false); }
        for i in 0..nf.saturating_sub(1) {
            let params = if self.c.poly && self.r.chance(1, 2) { (0..self.r.range(1, 2)).map(|_| match self.r.below(6) { 0 | 1 => P::Ty(true), 2 if self.c.lin => P::Ty(false), 3 if self.c.arrays => P::Nat, 4 => P::Width, _ => P::Ty(true) }).collect() } else { vec![] };
            let (mut ins, mut outs) = (vec![], vec![]);
            for (j, p) in params.iter().enumerate() {
                let t = match p { P::Ty(c) => Ty::Var(j, *c), P::Nat => Ty::Arr(if self.r.bool() { 1 } else { 0 }, Sz::V(j), Box::new(Ty::Int(5))), P::Width => Ty::IntV(j) };
                ins.push(t.clone());
                if matches!(p, P::Ty(true) | P::Width) && self.r.bool() { ins.push(t.clone()); }
                if t.stuck() || (t.copyable() && self.r.bool()) { outs.push(t); }
            }
            for _ in 0..self.r.range(0, 3) { let t = self.rand_ty(2); ins.push(t); }
            for _ in 0..self.r.range(0, 2) { let t = self.rand_ty(2); outs.push(t); }
            if self.r.bool() { self.r.shuffle(&mut outs); }
            if self.c.rec && params.is_empty() && self.r.chance(1, 3) {
                ins.insert(0, Ty::Int(5));
                let me = self.funcs.len();
                if self.r.chance(1, 3) {
                    // mutually recursive pair
                    let (mut i2, mut o2) = (vec![Ty::Int(5)], vec![]);
                    for _ in 0..self.r.range(0, 2) { let t = self.rand_ty(1); i2.push(t); }
                    for _ in 0..self.r.range(0, 2) { let t = self.rand_ty(1); o2.push(t); }
                    self.new_fn(format!("f{i}a"), vec![], ins, outs, Some(me + 1), false);
                    self.new_fn(format!("f{i}b"), vec![], i2, o2, Some(me), false);
                } else { self.new_fn(format!("f{i}"), vec![], ins, outs, Some(me), false); }
            } else { self.new_fn(format!("f{i}"), params, ins, outs, None, false); }
        }
        let (mut ins, mut outs) = (vec![], vec![]);
        for _ in 0..self.r.range(0, 4) { ins.push(self.rand_ground(1)); }
        for _ in 0..self.r.range(1, 4) { outs.push(self.rand_ground(1)); }
        self.new_fn("main".into(), vec![], ins, outs, None, true);
        for i in base..self.funcs.len() {
            self.cur = i;
            self.budget = (self.c.size / (self.funcs.len() - base).max(1)).max(3) as isize;
            if i + 1 == self.funcs.len() { self.budget = self.budget.max(self.c.size as isize / 2); }
            let f = self.funcs[i].clone();
            self.region(f.node, f.node, K::Func, &f.ins, &f.outs, vec![], None);
        }
        if self.c.meta {
            let nodes: Vec<Node> = self.h.nodes().collect();
            for n in nodes { if self.r.chance(1, 12) { let v = self.rand_json(2); let k = format!("k{}", self.r.below(3)); self.h.set_metadata(n, k, v); } }
        }
    }
    pub fn rand_json(&mut self, d: usize) -> serde_json::Value {
        match self.r.below(if d == 0 { 5 } else { 7 }) {
            0 => serde_json::json!(null), 1 => serde_json::json!(self.r.bool()), 2 => serde_json::json!(self.r.u64() >> self.r.below(64)), 3 => serde_json::json!(*self.r.pick(&["", "a", "ü\n\"q\"", "λ\u{1F600}", "\\x\t{}"])), 4 => serde_json::json!(-(self.r.below(1000) as i64)),
            5 => { let n = self.r.below(3); serde_json::Value::Array((0..n).map(|_| self.rand_json(d - 1)).collect()) }
            _ => { let n = self.r.below(3); serde_json::Value::Object((0..n).map(|i| (format!("o{i}"), self.rand_json(d - 1))).collect()) }
        }
    }
    fn new_fn(&mut self, name: String, params: Vec<P>, ins: Vec<Ty>, outs: Vec<Ty>, rec: Option<usize>, main: bool) {
        let ps: Vec<TypeParam> = params.iter().map(|p| match p { P::Ty(c) => TypeParam::from(if *c { TypeBound::Copyable } else { TypeBound::Linear }), P::Nat => TypeParam::max_nat_type(), P::Width => int_types::LOG_WIDTH_TYPE_PARAM }).collect();
        let poly = PolyFuncType::new(ps, Signature::new(row(&ins), row(&outs)));
        let public = main || self.r.chance(1, 4);
        let op = FuncDefn::new_vis(&name, poly.clone(), if public { Visibility::Public } else { Visibility::Private });
        let kids: Vec<Node> = self.h.children(self.module).collect();
        let node = if !kids.is_empty() && self.r.bool() { let k = *self.r.pick(&kids); self.h.add_node_before(k, op) } else { self.h.add_node_with_parent(self.module, op) };
        self.funcs.push(FInfo { node, name, params, ins, outs, decl: false, rec, poly, public });
    }
    fn width(&mut self) -> u8 { let w = self.c.widths.clone(); *self.r.pick(&w) }
    fn elem(&mut self) -> Ty { match self.r.below(6) { 0 => tbool(), 1 if self.c.floats => Ty::F64, 2 if self.c.lin && !self.c.llvm => Ty::Tok, 3 if !self.c.llvm => Ty::Arr(1, Sz::L(self.r.below(3) as u64), Box::new(Ty::Int(5))), _ => Ty::Int(5) } }
    /// a copyable type of main's interface: comparable between runs
    fn rand_ground(&mut self, d: usize) -> Ty {
        match self.r.below(10) {
            0..=3 => Ty::Int(5), 4 => Ty::Int(self.width()), 5 | 6 => tbool(), 7 if self.c.floats => Ty::F64,
            8 if d > 0 => { let n = self.r.range(0, 2); tup((0..n).map(|_| self.rand_ground(d - 1)).collect()) }
            9 if d > 0 => { let n = self.r.range(1, 3); Ty::Sum((0..n).map(|_| (0..self.r.range(0, 2)).map(|_| self.rand_ground(d - 1)).collect()).collect()) }
            _ => Ty::Int(5),
        }
    }
    fn rand_ty(&mut self, d: usize) -> Ty {
        match self.r.below(14) {
            0..=2 => Ty::Int(5), 3 => Ty::Int(self.width()), 4 => tbool(), 5 if self.c.floats => Ty::F64,
            6 if self.c.lin && !self.c.llvm => Ty::Tok,
            7 if self.c.arrays => { let k = self.r.below(3) as u8; let k = if self.c.llvm && k == 1 { 0 } else { k }; let mut e = self.elem(); if k == 1 && !e.copyable() { e = Ty::Int(5); } Ty::Arr(k, Sz::L(self.r.below(4) as u64), Box::new(e)) }
            8 if self.c.lists && !self.c.llvm => Ty::List(Box::new(Ty::Int(5))),
            9 if d > 0 => { let n = self.r.range(0, 3); tup((0..n).map(|_| self.rand_ty(d - 1)).collect()) }
            10 if d > 0 => { let n = self.r.range(1, 3); Ty::Sum((0..n).map(|_| (0..self.r.range(0, 2)).map(|_| self.rand_ty(d - 1)).collect()).collect()) }
            11 if self.c.fnvals => Ty::Fn(vec![Ty::Int(5)], vec![Ty::Int(5)]),
            12 => Ty::Usize,
            13 if self.c.strs && !self.c.llvm => Ty::Str,
            _ => Ty::Int(5),
        }
    }
    /// some type that can be produced here: a wire's type or a fresh one
    fn out_ty(&mut self) -> Ty {
        if self.r.chance(1, 3) { let t: Vec<Ty> = self.top().wires.iter().filter(|w| !w.ty.has_var()).map(|w| w.ty.clone()).collect(); if let Some(t) = self.r.pick_opt(&t) { return t.clone(); } }
        self.rand_ty(1)
    }
    fn top(&mut self) -> &mut Reg { self.stack.last_mut().unwrap() }

    /// Build the contents of a dataflow container. `tail`: produce the outputs itself.
    fn region(&mut self, parent: Node, container: Node, kind: K, ins: &[Ty], outs: &[Ty], dom: Vec<W>, tail: Option<&mut dyn FnMut(&mut G) -> Vec<Src>>) -> Vec<W> {
        let inp = self.h.add_node_with_parent(parent, Input::new(row(ins)));
        let out = self.h.add_node_with_parent(parent, Output::new(row(outs)));
        let wires = ins.iter().enumerate().map(|(p, t)| W { n: inp, p, ty: t.clone(), used: false }).collect();
        self.stack.push(Reg { parent, container, inp, wires, effects: vec![], kind, dom, consts: vec![] });
        self.depth += 1;
        self.body();
        let srcs = match tail { Some(f) => f(self), None => outs.iter().map(|t| self.make(t, 3)).collect() };
        self.cleanup();
        for (i, s) in srcs.iter().enumerate() { self.conn(*s, out, i); }
        for n in self.top().effects.clone() {
            // every effect is demanded: it has an order path to the region's output
            let last = !self.order_path(n, out);
            if (last && (!self.c.loose || self.r.bool()) && (self.effectful(n) || self.h.get_optype(n).other_input_port().is_some_and(|p| self.h.is_linked(n, p)))) || (self.c.order && self.r.chance(1, 6)) { self.h.add_other_edge(n, out); }
        }
        self.depth -= 1;
        self.stack.pop().unwrap().wires
    }
    /// Is there a path of order edges?
    fn order_path(&self, from: Node, to: Node) -> bool {
        let mut seen = std::collections::HashSet::from([from]);
        let mut q = vec![from];
        while let Some(n) = q.pop() {
            if n == to { return true; }
            if let Some(p) = self.h.get_optype(n).other_output_port() { for (m, _) in self.h.linked_inputs(n, p) { if seen.insert(m) { q.push(m); } } }
        }
        false
    }
    fn cleanup(&mut self) {
        loop {
            let Some(i) = self.top().wires.iter().position(|w| !w.used && !w.ty.copyable()) else { break };
            let w = self.top().wires[i].clone();
            self.top().wires[i].used = true;
            self.discard((w.n, w.p), &w.ty);
        }
    }
    fn discard(&mut self, s: Src, t: &Ty) {
        match t {
            Ty::Tok => { let id = self.id(); let n = self.leaf(ext::op1("tfree", id), &[s]); self.effect(n); }
            Ty::Arr(k, z, e) => {
                let name = ["collections.array", "collections.value_array", "collections.borrow_arr"][*k as usize];
                if e.copyable() { self.leaf(xop(name, "discard", vec![sz(z), e.ty().into()]), &[s]); return; }
                let Sz::L(n) = z else { panic!("undiscardable {t:?}") };
                if *n == 0 { self.leaf(xop(name, "discard_empty", vec![e.ty().into()]), &[s]); }
                else { self.leaf(xop(name, "unpack", vec![sz(z), e.ty().into()]), &[s]); }
            }
            Ty::Sum(rs) => {
                let rs = rs.clone();
                if rs.len() == 1 && self.r.bool() { self.unpack(s, &rs[0]); return; }
                self.conditional(s, &rs, &[], &[], 0, &mut |_g, _i| None);
            }
            t => panic!("cannot discard {t:?}"),
        }
    }
    fn unpack(&mut self, s: Src, r: &[Ty]) -> Node { self.leaf(xop("prelude", "UnpackTuple", vec![Term::new_list(r.iter().map(|t| TypeArg::from(t.ty())))]), &[s]) }
    fn id(&mut self) -> u64 { self.fx += 1; self.fx }

    // ---- wires
    fn conn(&mut self, s: Src, d: Node, dp: usize) { self.h.connect(s.0, s.1, d, dp); }
    fn find(&mut self, t: &Ty) -> Option<Src> {
        let top = self.stack.len() - 1;
        if self.c.nonlocal && t.copyable() && self.r.chance(1, 4) {
            if let Some(s) = self.find_outer(t) { return Some(s); }
        }
        let lin = !t.copyable();
        let c: Vec<usize> = self.stack[top].wires.iter().enumerate().filter(|(_, w)| &w.ty == t && !(lin && w.used)).map(|x| x.0).collect();
        // prefer recent wires so that chains form
        let i = if c.is_empty() { None } else if self.r.chance(1, 2) { Some(c[c.len() - 1 - self.r.below(c.len().min(3))]) } else { Some(*self.r.pick(&c)) };
        match i { Some(i) => { let w = &mut self.stack[top].wires[i]; w.used = true; Some((w.n, w.p)) } None => if self.c.nonlocal && !lin { self.find_outer(t) } else { None } }
    }
    fn find_outer(&mut self, t: &Ty) -> Option<Src> {
        let mut cands: Vec<(Src, Option<Node>)> = vec![];
        let top = self.stack.len() - 1;
        for l in (0..=top).rev() {
            for w in &self.stack[l].dom { if &w.ty == t { cands.push(((w.n, w.p), None)); } }
            if self.stack[l].kind == K::Func || l == 0 { break; }
            let cont = self.stack[l].container;
            for w in &self.stack[l - 1].wires { if &w.ty == t && w.ty.copyable() { cands.push(((w.n, w.p), Some(cont))); } }
        }
        if cands.is_empty() { return None; }
        let (s, o) = *self.r.pick(&cands);
        self.nonlocal_edges += 1;
        if let Some(c) = o {
            let have = self.h.node_outputs(s.0).filter(|p| self.h.get_optype(s.0).port_kind(*p) == Some(hugr_core::types::EdgeKind::StateOrder)).any(|p| self.h.linked_inputs(s.0, p).any(|(n, _)| n == c));
            if !have { self.h.add_other_edge(s.0, c); }
        }
        Some(s)
    }
    fn leaf(&mut self, op: impl Into<OpType>, ins: &[Src]) -> Node {
        let op = op.into();
        let parent = self.top().parent;
        let outs = op.dataflow_signature().unwrap().output().clone();
        let n = self.h.add_node_with_parent(parent, op);
        for (i, s) in ins.iter().enumerate() { self.conn(*s, n, i); }
        self.out_wires(n, &outs);
        self.budget -= 1;
        n
    }
    fn out_wires(&mut self, n: Node, outs: &TypeRow) {
        for (p, t) in outs.iter().enumerate() { let ty = Ty::of(t).unwrap_or_else(|| panic!("unknown type {t}")); self.top().wires.push(W { n, p, ty, used: false }); }
    }
    /// mark an output used and give it as a source
    fn take(&mut self, n: Node, p: usize) -> Src { for w in self.top().wires.iter_mut().rev() { if w.n == n && w.p == p { w.used = true; return (n, p); } } panic!("take {n} {p}") }
    fn effectful(&self, n: Node) -> bool { self.h.descendants(n).any(|m| match self.h.get_optype(m) {
        OpType::Call(_) | OpType::CallIndirect(_) => true,
        OpType::ExtensionOp(e) => matches!((&**e.extension_id(), e.unqualified_id()), ("verif.fx", "fx" | "tnew" | "tuse" | "tfree") | ("prelude", "print") | (_, "repeat" | "scan")),
        _ => false }) }
    fn effect(&mut self, n: Node) {
        if self.c.order {
            let e = self.top().effects.clone();
            if !e.is_empty() && self.r.chance(2, 3) { let m = if self.r.chance(2, 3) { *e.last().unwrap() } else { *self.r.pick(&e) }; if m != n { self.h.add_other_edge(m, n); } }
            if self.r.chance(1, 10) { let i = self.top().inp; self.h.add_other_edge(i, n); }
        }
        self.top().effects.push(n);
    }
    fn konst(&mut self, v: Value, t: &Ty) -> Src {
        // reuse an existing constant node sometimes
        let mut avail: Vec<Node> = self.mod_consts.iter().filter(|c| &c.1 == t).map(|c| c.0).collect();
        for r in &self.stack { avail.extend(r.consts.iter().filter(|c| &c.1 == t).map(|c| c.0)); }
        let c = if !avail.is_empty() && self.r.chance(1, 4) { *self.r.pick(&avail) } else {
            let l = self.r.below(self.stack.len() + 1);
            if l == self.stack.len() { let n = self.h.add_node_with_parent(self.module, Const::new(v)); self.mod_consts.push((n, t.clone())); n }
            else { let l = if self.r.bool() { self.stack.len() - 1 } else { l }; let n = self.h.add_node_with_parent(self.stack[l].parent, Const::new(v)); self.stack[l].consts.push((n, t.clone())); n }
        };
        let op = LoadConstant { datatype: t.ty() };
        let n = self.leaf(op, &[]);
        self.h.connect(c, 0, n, 0);
        self.take(n, 0)
    }
    pub fn const_of(&mut self, t: &Ty) -> Option<Value> {
        use hugr_core::std_extensions::arithmetic::{float_types::ConstF64, int_types::ConstInt};
        Some(match t {
            Ty::Int(w) => { let m = crate::val::mask(*w); ConstInt::new_u(*w, self.r.edge_u64() & m).ok()?.into() }
            Ty::F64 => ConstF64::new(loop { let f = rand_f64(&mut self.r); if f.is_finite() && crate::spice::json_exact(f) { break f; } }).into(),
            Ty::Usize => ConstUsize::new(self.r.below(5) as u64).into(),
            Ty::Str => ConstString::new(self.r.pick(&["", "x", "hé\n", "\"q\\"]).to_string()).into(),
            Ty::Err => hugr_core::extension::prelude::ConstError::new(self.r.below(5) as u32, "boom").into(),
            Ty::Sum(rs) => { if rs.is_empty() { return None; } let i = self.r.below(rs.len()); let vs = rs[i].clone().iter().map(|x| self.const_of(x)).collect::<Option<Vec<_>>>()?; Value::sum(i, vs, SumType::new(rs.iter().map(|r| row(r)))).ok()? }
            Ty::List(e) => { let vs = (0..self.r.below(3)).map(|_| self.const_of(e)).collect::<Option<Vec<_>>>()?; list::ListValue::new(e.ty(), vs).into() }
            Ty::Arr(k, Sz::L(n), e) if e.copyable() => {
                let vs = (0..*n).map(|_| self.const_of(e)).collect::<Option<Vec<_>>>()?;
                match k { 1 => Value::extension(value_array::VArrayValue::new(e.ty(), vs)), _ => return None }
            }
            Ty::Fn(a, b) if self.c.fnvals && !self.c.llvm && a == &[Ty::Int(5)] && b == &[Ty::Int(5)] => {
                use hugr_core::builder::{Dataflow, DataflowHugr, DFGBuilder};
                let mut d = DFGBuilder::new(Signature::new_endo(vec![int_type(5)])).ok()?;
                let [x] = d.input_wires_arr();
                let id = self.id();
                let m = d.add_dataflow_op(ext::op1("mix", id), [x, x]).ok()?;
                Value::function(d.finish_hugr_with_outputs(m.outputs()).ok()?).ok()?
            }
            _ => return None,
        })
    }
    fn can_make(&self, t: &Ty) -> bool {
        let top = self.stack.len() - 1;
        let have = |t: &Ty| self.stack[top].wires.iter().any(|w| &w.ty == t && (w.ty.copyable() || !w.used))
            || (self.c.nonlocal && t.copyable() && (0..=top).rev().take_while(|l| *l == top || self.stack[*l + 1].kind != K::Func).any(|l| self.stack[l].wires.iter().any(|w| &w.ty == t)));
        match t {
            Ty::Var(..) | Ty::IntV(_) => have(t),
            Ty::Arr(_, Sz::V(_), _) => have(t),
            Ty::Arr(_, _, e) => have(t) || (!e.has_var() && self.can_make(e)),
            Ty::Sum(rs) => have(t) || rs.iter().any(|r| r.iter().all(|x| x.copyable() && self.can_make(x) || !x.has_var() && self.can_make(x))),
            Ty::Fn(a, b) => have(t) || (a == &[Ty::Int(5)] && b == &[Ty::Int(5)] && (self.funcs.iter().take(self.cur).any(|f| f.name == "f_map"))) || (!self.c.llvm && self.c.fnvals && a == &[Ty::Int(5)] && b == &[Ty::Int(5)]) || (a.is_empty() && b == &[Ty::Int(5)] && self.funcs.iter().take(self.cur).any(|f| f.name == "f_gen")),
            _ => true,
        }
    }
    /// Produce a value of the type in the current region.
    fn make(&mut self, t: &Ty, d: usize) -> Src {
        let pf = if self.c.const_heavy { 1 } else { 3 };
        if d == 0 || self.budget <= 0 || self.r.chance(pf, 4) || t.has_var() { if let Some(s) = self.find(t) { return s; } }
        if let Some(s) = self.build_val(t, d) { return s; }
        self.find(t).unwrap_or_else(|| panic!("cannot make {t:?}"))
    }
    fn build_val(&mut self, t: &Ty, d: usize) -> Option<Src> {
        match t {
            Ty::Tok => { let id = self.id(); let n = self.leaf(ext::op1("tnew", id), &[]); return Some(self.take(n, 0)); }
            Ty::Var(..) | Ty::IntV(_) => return None,
            Ty::Fn(a, b) => {
                let c: Vec<FInfo> = self.funcs[..self.cur].iter().filter(|f| f.rec.is_none() && &f.ins == a && &f.outs == b && f.params.is_empty() && !(f.decl && self.c.llvm)).cloned().collect();
                if (c.is_empty() || self.r.chance(1, 4)) && !self.c.llvm { if let Some(v) = self.const_of(t) { return Some(self.konst(v, t)); } }
                let f = self.r.pick_opt(&c)?.clone();
                let op = LoadFunction::try_new(f.poly.clone(), vec![]).unwrap();
                let port = op.function_port();
                let n = self.leaf(op, &[]);
                self.h.connect(f.node, 0, n, port);
                return Some(self.take(n, 0));
            }
            Ty::Arr(k, z, e) => {
                let Sz::L(n) = z else { return None };
                if *k == 1 && self.r.chance(1, 3) { if let Some(v) = self.const_of(t) { return Some(self.konst(v, t)); } }
                let xn = ["collections.array", "collections.value_array", "collections.borrow_arr"][*k as usize];
                if **e == Ty::Int(5) && self.r.chance(1, 4) && self.can_make(&Ty::Fn(vec![], vec![Ty::Int(5)])) {
                    let f = self.make(&Ty::Fn(vec![], vec![Ty::Int(5)]), d.saturating_sub(1));
                    let nd = self.leaf(xop(xn, "repeat", vec![sz(z), e.ty().into()]), &[f]); self.effect(nd); return Some(self.take(nd, 0));
                }
                if e.has_var() { return None; }
                let ins: Vec<Src> = (0..*n).map(|_| self.make(e, d.saturating_sub(1))).collect();
                let nd = self.leaf(xop(xn, "new_array", vec![sz(z), e.ty().into()]), &ins);
                return Some(self.take(nd, 0));
            }
            Ty::Sum(rs) => {
                if t.copyable() && !t.has_var() && self.r.chance(1, 3) { if let Some(v) = self.const_of(t) { return Some(self.konst(v, t)); } }
                if *t == tbool() && d > 0 && self.r.bool() { return Some(self.cmp(d - 1)); }
                let ok: Vec<usize> = (0..rs.len()).filter(|i| rs[*i].iter().all(|x| self.can_make(x) && (x.copyable() || !x.has_var()))).collect();
                let i = *self.r.pick_opt(&ok)?;
                if ok.len() > 1 && d > 1 && self.budget > 4 && self.c.conds && self.r.chance(1, 3) && !t.has_var() {
                    let c = self.make(&tbool(), d - 1); let j = *self.r.pick(&ok);
                    return Some(self.branch(c, rs, i, j));
                }
                let ins: Vec<Src> = rs[i].iter().map(|x| self.make(x, d.saturating_sub(1))).collect();
                if rs.len() == 1 && self.r.bool() { let n = self.leaf(xop("prelude", "MakeTuple", vec![Term::new_list(rs[0].iter().map(|t| TypeArg::from(t.ty())))]), &ins); return Some(self.take(n, 0)); }
                let n = self.leaf(Tag::new(i, rs.iter().map(|r| row(r)).collect()), &ins);
                return Some(self.take(n, 0));
            }
            Ty::Int(w) if d > 0 && self.budget > 0 && self.r.chance(1, 2) && !self.c.int_noop_only => { let w = *w; return Some(self.int_expr(w, d - 1)); }
            Ty::List(e) if d > 0 && self.r.bool() => { let l = self.make(t, 0); let x = self.make(e, d - 1); let n = self.leaf(xop("collections.list", "push", vec![e.ty().into()]), &[l, x]); return Some(self.take(n, 0)); }
            _ => {}
        }
        let v = self.const_of(t)?;
        Some(self.konst(v, t))
    }
    /// Sum value selected by a bool: true -> tag `a`, false -> tag `b`
    fn branch(&mut self, c: Src, rows: &[Vec<Ty>], a: usize, b: usize) -> Src {
        let t = Ty::Sum(rows.to_vec());
        let rows2 = rows.to_vec();
        let n = self.conditional(c, &[vec![], vec![]], &[], &[t], 2, &mut |g: &mut G, case| {
            let i = if case == 1 { a } else { b };
            let ins: Vec<Src> = rows2[i].iter().map(|x| g.make(x, 1)).collect();
            let n = g.leaf(Tag::new(i, rows2.iter().map(|r| row(r)).collect()), &ins);
            Some(vec![g.take(n, 0)])
        });
        self.take(n, 0)
    }
    fn cmp(&mut self, d: usize) -> Src {
        if self.c.floats && self.r.chance(1, 6) {
            let (a, b) = (self.make(&Ty::F64, d), self.make(&Ty::F64, d));
            let op = *self.r.pick(&["feq", "fne", "flt", "fgt", "fle", "fge"]);
            let n = self.leaf(xop("arithmetic.float", op, vec![]), &[a, b]); return self.take(n, 0);
        }
        if self.r.chance(1, 3) {
            let b = tbool();
            let op = *self.r.pick(&["And", "Or", "Eq", "Xor", "Not"]);
            let ins: Vec<Src> = (0..if op == "Not" { 1 } else { 2 }).map(|_| self.make(&b, d)).collect();
            let n = self.leaf(xop("logic", op, vec![]), &ins); return self.take(n, 0);
        }
        let w = self.width();
        let (a, b) = (self.make(&Ty::Int(w), d), self.make(&Ty::Int(w), d));
        let op = *self.r.pick(&["ieq", "ine", "ilt_u", "ilt_s", "igt_u", "igt_s", "ile_u", "ile_s", "ige_u", "ige_s"]);
        let n = self.leaf(xop("arithmetic.int", op, vec![TypeArg::from(w as u64)]), &[a, b]); self.take(n, 0)
    }
    fn int_const(&mut self, w: u8, v: u64) -> Src {
        let v = hugr_core::std_extensions::arithmetic::int_types::ConstInt::new_u(w, v & crate::val::mask(w)).unwrap();
        let par = self.top().parent;
        let c = self.h.add_node_with_parent(par, Const::new(v.into()));
        let n = self.leaf(LoadConstant { datatype: int_type(w as u64) }, &[]);
        self.h.connect(c, 0, n, 0);
        self.take(n, 0)
    }
    fn int_expr(&mut self, w: u8, d: usize) -> Src {
        let t = Ty::Int(w);
        let wa = vec![TypeArg::from(w as u64)];
        match self.r.below(10) {
            0..=4 => { let op = *self.r.pick(if self.c.llvm { &["iadd", "isub", "imul", "iand", "ior", "ixor", "imax_u", "imin_u", "imax_s", "imin_s"] as &[&str] } else { &["iadd", "isub", "imul", "iand", "ior", "ixor", "ishl", "ishr", "irotl", "irotr", "imax_u", "imin_u", "imax_s", "imin_s"] }); let (a, b) = (self.make(&t, d), self.make(&t, d)); let n = self.leaf(xop("arithmetic.int", op, wa), &[a, b]); self.take(n, 0) }
            5 => { let op = *self.r.pick(&["ineg", "inot", "iabs"]); let a = self.make(&t, d); let n = self.leaf(xop("arithmetic.int", op, wa), &[a]); self.take(n, 0) }
            6 => { // division by a nonzero constant (or anything, if panics are wanted)
                let a = self.make(&t, d);
                let b = if self.c.panics { self.make(&t, d) } else { let v = self.r.edge_u64() & crate::val::mask(w); self.int_const(w, if v == 0 { 1 } else { v }) };
                let op = *self.r.pick(if self.c.llvm { &["idiv_u", "imod_u", "idivmod_u"] as &[&str] } else { &["idiv_u", "imod_u", "idivmod_u", "idiv_s", "imod_s", "idivmod_s"] });
                let n = self.leaf(xop("arithmetic.int", op, wa), &[a, b]); self.take(n, 0) }
            7 => { let lo = if self.c.llvm { 3 } else { 0u8 }; let w2 = (lo..=6u8).filter(|x| *x < w).collect::<Vec<_>>(); match self.r.pick_opt(&w2).copied() { Some(x) => { let a = self.make(&Ty::Int(x), d); let op = if self.r.bool() { "iwiden_u" } else { "iwiden_s" }; let n = self.leaf(xop("arithmetic.int", op, vec![TypeArg::from(x as u64), TypeArg::from(w as u64)]), &[a]); self.take(n, 0) } None => self.int_const(w, 1) } }
            8 if w == 5 && self.c.effects => self.fx_op(d),
            9 if w == 5 && !self.c.llvm => { let (a, b) = (self.make(&t, d), self.make(&t, d)); let id = self.id(); let n = self.leaf(ext::op1("mix", id), &[a, b]); self.take(n, 0) }
            _ => { let v = self.r.edge_u64(); self.int_const(w, v) }
        }
    }
    fn fx_op(&mut self, d: usize) -> Src {
        let a = self.make(&Ty::Int(5), d);
        let id = self.id();
        let n = if let Some(f) = self.fxdecl {
            let i = self.int_const(5, id);
            let OpType::FuncDecl(fd) = self.h.get_optype(f) else { unreachable!() };
            let op = Call::try_new(fd.signature().clone(), vec![]).unwrap();
            let port = op.called_function_port();
            let n = self.leaf(op, &[i, a]);
            self.h.connect(f, 0, n, port);
            n
        } else { self.leaf(ext::op1("fx", id), &[a]) };
        self.effect(n);
        self.take(n, 0)
    }

    // ---- containers
    fn body(&mut self) {
        let k = self.r.range(0, if self.depth <= 1 { 10 } else { 4 });
        for _ in 0..k { if self.budget <= 0 { break; } self.step(); }
        // in the outermost region use up the function's share
        if self.depth == 1 { let mut g = 0; while self.budget > 0 && g < 60 { self.step(); g += 1; } }
        // recursion
        if self.stack.last().unwrap().kind == K::Func && let Some(tgt) = self.funcs[self.cur].rec { self.recurse(tgt); }
    }
    fn recurse(&mut self, tgt: usize) {
        let inp = self.top().inp;
        let f = self.funcs[tgt].clone();
        let z = self.int_const(5, 0);
        let c = self.leaf(xop("arithmetic.int", "ine", vec![TypeArg::from(5u64)]), &[(inp, 0), z]);
        let c = self.take(c, 0);
        let outs = f.outs.clone();
        let n = self.conditional(c, &[vec![], vec![]], &[((inp, 0), Ty::Int(5))], &outs, 1, &mut |g: &mut G, case| {
            if case == 0 { return None; }
            let i = g.top().inp;
            let one = g.int_const(5, 1);
            let s = g.leaf(xop("arithmetic.int", "ishr", vec![TypeArg::from(5u64)]), &[(i, 0), one]);
            let mut args = vec![g.take(s, 0)];
            for t in &f.ins[1..] { args.push(g.make(t, 1)); }
            let n = g.call_node(&f, vec![], &args);
            Some((0..f.outs.len()).map(|p| g.take(n, p)).collect())
        });
        let _ = n;
    }
    fn call_node(&mut self, f: &FInfo, targs: Vec<TypeArg>, args: &[Src]) -> Node {
        let op = Call::try_new(f.poly.clone(), targs).unwrap();
        let port = op.called_function_port();
        let n = self.leaf(op, args);
        self.h.connect(f.node, 0, n, port);
        self.effect(n);
        n
    }
    fn pick_wires(&mut self, max: usize) -> Vec<(Src, Ty)> {
        let mut v = vec![];
        for _ in 0..self.r.range(0, max) {
            let c: Vec<usize> = self.top().wires.iter().enumerate().filter(|(_, w)| w.ty.copyable() || !w.used).map(|x| x.0).collect();
            if let Some(i) = self.r.pick_opt(&c).copied() { let w = &mut self.stack.last_mut().unwrap().wires[i]; w.used = true; v.push(((w.n, w.p), w.ty.clone())); }
        }
        v
    }
    fn outs_for(&mut self, ins: &[Ty], max: usize) -> Vec<Ty> {
        let mut o: Vec<Ty> = ins.iter().filter(|t| t.stuck()).cloned().collect();
        for _ in 0..self.r.range(0, max) { let t = if !ins.is_empty() && self.r.bool() { let t = self.r.pick(ins).clone(); if t.stuck() || (t.has_var() && !t.copyable()) { Ty::Int(5) } else { t } } else { self.out_ty() }; o.push(t); }
        o
    }
    fn dfg(&mut self) {
        let ins = self.pick_wires(3);
        let it: Vec<Ty> = ins.iter().map(|x| x.1.clone()).collect();
        let ot = self.outs_for(&it, 2);
        let parent = self.top().parent;
        let n = self.h.add_node_with_parent(parent, DFG { signature: Signature::new(row(&it), row(&ot)) });
        for (i, (s, _)) in ins.iter().enumerate() { self.conn(*s, n, i); }
        self.region(n, n, K::Dfg, &it, &ot, vec![], None);
        self.out_wires(n, &row(&ot)); self.effect(n);
    }
    /// `body(g, case)` may supply the outputs of a case.
    fn conditional(&mut self, s: Src, rows: &[Vec<Ty>], others: &[(Src, Ty)], outs: &[Ty], share: usize, body: &mut dyn FnMut(&mut G, usize) -> Option<Vec<Src>>) -> Node {
        let parent = self.top().parent;
        let ot: Vec<Ty> = others.iter().map(|x| x.1.clone()).collect();
        let n = self.h.add_node_with_parent(parent, Conditional { sum_rows: rows.iter().map(|r| row(r)).collect(), other_inputs: row(&ot), outputs: row(outs) });
        self.conn(s, n, 0);
        for (i, (s, _)) in others.iter().enumerate() { self.conn(*s, n, i + 1); }
        let save = self.budget;
        for (i, r) in rows.iter().enumerate() {
            let mut it = r.clone(); it.extend(ot.iter().cloned());
            let case = self.h.add_node_with_parent(n, Case { signature: Signature::new(row(&it), row(outs)) });
            if share == 0 { self.budget = 0; } else if share == 2 { self.budget = self.budget.min(1); }
            let outs2 = outs.to_vec();
            self.region(case, n, K::Case, &it, outs, vec![], Some(&mut |g: &mut G| body(g, i).unwrap_or_else(|| outs2.iter().map(|t| g.make(t, 2)).collect())));
        }
        if share == 0 || share == 2 { self.budget = save - rows.len() as isize; }
        self.out_wires(n, &row(outs));
        self.effect(n);
        n
    }
    fn step_cond(&mut self) {
        let sums: Vec<(usize, Ty)> = self.top().wires.iter().enumerate().filter(|(_, w)| matches!(&w.ty, Ty::Sum(_)) && (w.ty.copyable() || !w.used)).map(|(i, w)| (i, w.ty.clone())).collect();
        let (s, t) = if let (Some((i, t)), true) = (self.r.pick_opt(&sums).cloned(), self.r.chance(2, 3)) { let w = &mut self.stack.last_mut().unwrap().wires[i]; w.used = true; ((w.n, w.p), t) }
            else { let n = self.r.range(1, 3); let t = if self.r.bool() { tbool() } else { Ty::Sum((0..n).map(|_| (0..self.r.range(0, 2)).map(|_| self.rand_ty(0)).collect()).collect()) }; if !self.can_make(&t) { return; } (self.make(&t, 2), t) };
        let Ty::Sum(rows) = t else { unreachable!() };
        if rows.is_empty() { return; }
        let others = self.pick_wires(2);
        let mut its: Vec<Ty> = others.iter().map(|x| x.1.clone()).collect();
        // a stuck value inside a variant could not be returned by the other cases
        if rows.iter().flatten().any(|t| t.stuck()) { let ok = rows.len() == 1; if !ok { panic!("stuck sum"); } its.extend(rows[0].iter().cloned()); }
        let outs = self.outs_for(&its, 2);
        // outputs must be makeable in every case: restrict variables to the shared inputs
        let shared: Vec<Ty> = its.clone();
        let outs: Vec<Ty> = outs.into_iter().filter(|t| !t.has_var() || shared.contains(t)).collect();
        self.conditional(s, &rows, &others, &outs, 1, &mut |_g, _i| None);
    }
    fn counter(&mut self) -> Src {
        if self.r.bool() { let v = self.r.below(8) as u64; return self.int_const(5, v); }
        let a = self.make(&Ty::Int(5), 1); let m = self.int_const(5, 7);
        let n = self.leaf(xop("arithmetic.int", "iand", vec![TypeArg::from(5u64)]), &[a, m]); self.take(n, 0)
    }
    /// in a region whose input `p` is the counter: (halved counter, counter != 0)
    fn tick(&mut self, p: usize) -> (Src, Src) {
        let i = self.top().inp;
        let w = vec![TypeArg::from(5u64)];
        let one = self.int_const(5, 1); let z = self.int_const(5, 0);
        let s = self.leaf(xop("arithmetic.int", "ishr", w.clone()), &[(i, p), one]); let s = self.take(s, 0);
        let c = self.leaf(xop("arithmetic.int", "ine", w), &[(i, p), z]); let c = self.take(c, 0);
        (s, c)
    }
    fn tail_loop(&mut self) {
        let just: Vec<(Src, Ty)> = self.pick_wires(2).into_iter().collect();
        let jt: Vec<Ty> = just.iter().map(|x| x.1.clone()).collect();
        let c = self.counter();
        let mut rest = vec![(c, Ty::Int(5))];
        rest.extend(self.pick_wires(2));
        let rt: Vec<Ty> = rest.iter().map(|x| x.1.clone()).collect();
        let jo = self.outs_for(&jt, 2).into_iter().filter(|t| !t.has_var() || jt.contains(t)).collect::<Vec<_>>();
        let parent = self.top().parent;
        let n = self.h.add_node_with_parent(parent, TailLoop { just_inputs: row(&jt), just_outputs: row(&jo), rest: row(&rt) });
        for (i, (s, _)) in just.iter().chain(rest.iter()).enumerate() { self.conn(*s, n, i); }
        let mut it = jt.clone(); it.extend(rt.iter().cloned());
        let rows = vec![jt.clone(), jo.clone()];
        let mut ot = vec![Ty::Sum(rows.clone())]; ot.extend(rt.iter().cloned());
        let np = jt.len();
        self.region(n, n, K::Loop, &it, &ot, vec![], Some(&mut |g: &mut G| {
            let (cnt, more) = g.tick(np);
            // stuck and linear payload must be forwarded explicitly to the branch
            let s = g.choose_rows(more, &rows, 0, 1);
            let mut o = vec![s, cnt];
            for t in &rt[1..] { o.push(g.make(t, 1)); }
            o
        }));
        let mut outs = jo; outs.extend(rt);
        self.out_wires(n, &row(&outs)); self.effect(n);
    }
    /// Sum with payload rows, tag `a` when c else `b`; linear payload is passed in as inputs
    fn choose_rows(&mut self, c: Src, rows: &[Vec<Ty>], a: usize, b: usize) -> Src {
        // stuck values in either row (the same ones in both)
        let mut others = vec![];
        let stuck: Vec<Ty> = rows[a].iter().filter(|t| t.stuck()).cloned().collect();
        for t in &stuck { let s = self.find(t).unwrap_or_else(|| panic!("stuck {t:?}")); others.push((s, t.clone())); }
        // values mentioning type variables cannot be built from nothing
        for i in [a, b] { for t in &rows[i] { if t.has_var() && !t.stuck() && (t.copyable() || !others.iter().any(|o: &(Src, Ty)| &o.1 == t)) { if let Some(s) = self.find(t) { others.push((s, t.clone())); } } } }
        if rows[a].is_empty() && rows[b].is_empty() && rows.len() == 2 && a == 1 && b == 0 { return c; }
        let rows2 = rows.to_vec();
        let n = self.conditional(c, &[vec![], vec![]], &others, &[Ty::Sum(rows.to_vec())], 2, &mut |g: &mut G, case| {
            let i = if case == 1 { a } else { b };
            let ins: Vec<Src> = rows2[i].iter().map(|x| g.make(x, 1)).collect();
            let n = g.leaf(Tag::new(i, rows2.iter().map(|r| row(r)).collect()), &ins);
            Some(vec![g.take(n, 0)])
        });
        self.take(n, 0)
    }
    fn cfg(&mut self) {
        let nb = self.r.range(1, 5);
        let cnt = self.counter();
        let state: Vec<(Src, Ty)> = { let mut s = vec![(cnt, Ty::Int(5))]; s.extend(self.pick_wires(2)); s };
        let st: Vec<Ty> = state.iter().map(|x| x.1.clone()).collect();
        // per-block extra inputs (exit is nb)
        let mut extra: Vec<Vec<Ty>> = (0..=nb).map(|_| (0..[0, 0, 1, 2][self.r.below(4)]).map(|_| { let t = self.rand_ty(0); if t.copyable() { t } else { Ty::Int(5) } }).collect()).collect();
        let e0: Vec<Src> = extra[0].clone().iter().map(|t| self.make(t, 1)).collect();
        if self.r.chance(1, 2) { let x = extra[0].clone(); for e in extra.iter_mut().skip(1) { if self.r.bool() { *e = x.clone(); } } }
        // successors: block j>0 gets an edge from an earlier block
        let mut succ: Vec<Vec<usize>> = vec![vec![]; nb];
        for j in 1..=nb { let lo = if self.r.bool() { j - 1 } else { self.r.below(j) }; if succ[lo].len() < 3 { succ[lo].push(j); } else { succ[j - 1].push(j); } }
        for b in 0..nb {
            if succ[b].is_empty() { let j = self.r.range(b + 1, nb); succ[b].push(j); }
            if succ[b].len() < 3 && self.r.chance(1, 3) { let j = self.r.range(b + 1, nb); succ[b].push(j); }
        }
        let mut back = vec![false; nb];
        for b in 0..nb { if self.r.chance(1, 3) { let j = self.r.below(b + 1); back[b] = true; succ[b].insert(0, j); } }
        // dominators over the block graph
        let dom = dominators(nb, &succ);
        let mut it: Vec<Ty> = extra[0].clone(); it.extend(st.iter().cloned());
        let mut ot = extra[nb].clone(); ot.extend(st.iter().cloned());
        let parent = self.top().parent;
        let n = self.h.add_node_with_parent(parent, CFG { signature: Signature::new(row(&it), row(&ot)) });
        for (i, s) in e0.iter().copied().chain(state.iter().map(|x| x.0)).enumerate() { self.conn(s, n, i); }
        let blk = |b: usize| DataflowBlock { inputs: { let mut x = extra[b].clone(); x.extend(st.iter().cloned()); row(&x) }, other_outputs: row(&st), sum_rows: succ[b].iter().map(|s| row(&extra[*s])).collect() };
        let mut ids = vec![self.h.add_node_with_parent(n, blk(0))];
        let exit = self.h.add_node_with_parent(n, ExitBlock { cfg_outputs: row(&ot) });
        let mut ord: Vec<usize> = (1..nb).collect(); self.r.shuffle(&mut ord);
        let mut m = vec![exit; nb]; m[0] = ids[0];
        for b in ord { m[b] = self.h.add_node_with_parent(n, blk(b)); }
        ids = m;
        for b in 0..nb { for (i, s) in succ[b].iter().enumerate() { let t = if *s == nb { exit } else { ids[*s] }; self.h.connect(ids[b], i, t, 0); } }
        let mut outw: Vec<Vec<W>> = vec![vec![]; nb];
        for b in 0..nb {
            let mut bi = extra[b].clone(); bi.extend(st.iter().cloned());
            let rows: Vec<Vec<Ty>> = succ[b].iter().map(|s| extra[*s].clone()).collect();
            let mut bo = vec![Ty::Sum(rows.clone())]; bo.extend(st.iter().cloned());
            let dw: Vec<W> = if self.c.nonlocal { (0..nb).filter(|d| *d != b && dom[b].contains(d)).flat_map(|d| outw[d].iter().filter(|w| w.ty.copyable()).cloned().collect::<Vec<_>>()).collect() } else { vec![] };
            let cp = extra[b].len();
            let bk = back[b];
            self.budget = self.budget.max(0);
            let ws = self.region(ids[b], n, K::Block, &bi, &bo, dw, Some(&mut |g: &mut G| {
                let (cnt, more) = if bk { let (c, m) = g.tick(cp); (c, Some(m)) } else { ((g.top().inp, cp), None) };
                let k = rows.len();
                let fwd = if bk { 1 } else { 0 };
                let sum = match (more, k - fwd) {
                    (None, 1) => { let ins: Vec<Src> = rows[0].iter().map(|x| g.make(x, 1)).collect(); let n = g.leaf(Tag::new(0, rows.iter().map(|r| row(r)).collect()), &ins); g.take(n, 0) }
                    (None, _) => { let c = g.make(&tbool(), 2); let (i, j) = (g.r.below(k), g.r.below(k)); g.choose_rows(c, &rows, i, j) }
                    (Some(m), _) => { let j = g.r.range(1, k - 1); g.choose_rows(m, &rows, 0, j) }
                };
                let mut o = vec![sum, cnt];
                for t in &st[1..] { o.push(g.make(t, 1)); }
                o
            }));
            outw[b] = ws;
        }
        self.out_wires(n, &row(&ot)); self.effect(n);
    }
    fn step_call(&mut self) {
        let cands: Vec<FInfo> = self.funcs[..self.cur].iter().filter(|f| !f.name.starts_with("f_")).cloned().collect();
        let Some(f) = self.r.pick_opt(&cands).cloned() else { return };
        // a function whose recursion partner is the current one would not terminate
        if f.rec == Some(self.cur) || (f.rec.is_some() && self.funcs[self.cur].rec.is_some()) { return; }
        // pick type arguments
        let wires: Vec<Ty> = self.top().wires.iter().filter(|w| w.ty.copyable() || !w.used).map(|w| w.ty.clone()).collect();
        let mut targs: Vec<(TypeArg, Option<Ty>, Sz)> = vec![];
        for p in &f.params {
            match p {
                P::Ty(c) => { let ok: Vec<Ty> = wires.iter().filter(|t| !*c || t.copyable()).cloned().collect(); let t = match self.r.pick_opt(&ok) { Some(t) => t.clone(), None => Ty::Int(5) }; targs.push((t.ty().into(), Some(t), Sz::L(0))); }
                P::Nat => { let vs: Vec<Sz> = wires.iter().filter_map(|t| match t { Ty::Arr(_, z, e) if **e == Ty::Int(5) => Some(z.clone()), _ => None }).collect(); let z = match self.r.pick_opt(&vs) { Some(z) if self.r.bool() => z.clone(), _ => Sz::L(self.r.below(4) as u64) }; targs.push((sz(&z), None, z)); }
                P::Width => { let vs: Vec<Ty> = wires.iter().filter(|t| matches!(t, Ty::IntV(_))).cloned().collect(); let t = match self.r.pick_opt(&vs) { Some(t) if self.r.bool() => t.clone(), _ => Ty::Int(self.width()) }; let a = match &t { Ty::Int(w) => TypeArg::from(*w as u64), Ty::IntV(i) => TypeArg::new_var_use(*i, int_types::LOG_WIDTH_TYPE_PARAM), _ => unreachable!() }; targs.push((a, Some(t), Sz::L(0))); }
            }
        }
        let ins: Vec<Ty> = f.ins.iter().map(|t| inst(t, &targs)).collect();
        // linear inputs are used up one by one; make sure each can be provided
        let mut need: Vec<&Ty> = vec![];
        for t in &ins { if !self.can_make(t) { return; } if t.has_var() && !t.copyable() { if need.contains(&t) { return; } need.push(t); } }
        let mut args: Vec<Src> = vec![];
        for (i, t) in ins.iter().enumerate() {
            if i == 0 && f.rec.is_some() { let a = self.make(t, 1); let m = self.int_const(5, 3); let n = self.leaf(xop("arithmetic.int", "iand", vec![TypeArg::from(5u64)]), &[a, m]); args.push(self.take(n, 0)); continue; }
            if t.has_var() { match self.find(t) { Some(s) => args.push(s), None => args.push(self.make(t, 2)) } } else { args.push(self.make(t, 2)); }
        }
        let ta: Vec<TypeArg> = targs.into_iter().map(|x| x.0).collect();
        if !f.decl && self.c.fnvals && f.rec.is_none() && self.r.chance(1, 4) {
            // through a function value
            let op = LoadFunction::try_new(f.poly.clone(), ta).unwrap();
            let port = op.function_port();
            let sig = op.instantiation.clone();
            let parent = self.top().parent;
            let l = self.h.add_node_with_parent(parent, op);
            self.h.connect(f.node, 0, l, port);
            let mut a = vec![(l, 0)]; a.extend(args);
            let n = self.leaf(CallIndirect { signature: sig }, &a);
            self.effect(n);
        } else { self.call_node(&f, ta, &args); }
    }
    fn step(&mut self) {
        let deep = self.depth as usize > self.c.depth;
        let ce = self.c.clone();
        let on = |b: bool, w: usize| if b { w } else { 0 };
        let ws = [10, on(ce.dfgs && !deep, 2), on(ce.conds && !deep, 3), on(ce.loops && !deep, 2), on(ce.cfgs && !deep, 2), on(ce.calls, 3), on(ce.effects, 3), on(ce.lin && !ce.llvm, 2), on(ce.arrays, 4), on(ce.lists && !ce.llvm, 2), on(ce.floats, 2), on(ce.fnvals, 1), 3];
        match self.r.weighted(&ws) {
            0 => { let w = self.width(); self.int_expr(w, 2); }
            1 => self.dfg(), 2 => self.step_cond(), 3 => self.tail_loop(), 4 => self.cfg(), 5 => self.step_call(),
            6 => { self.fx_op(2); if !self.c.llvm && self.c.strs && self.r.chance(1, 6) { let s = self.make(&Ty::Str, 1); let n = self.leaf(xop("prelude", "print", vec![]), &[s]); self.effect(n); } }
            7 => { let t = self.make(&Ty::Tok, 1); let i = self.make(&Ty::Int(5), 1); let id = self.id(); self.leaf(ext::op1("tuse", id), &[t, i]); }
            8 => self.step_array(),
            9 => self.step_list(),
            10 => self.step_float(),
            11 => { let ft = Ty::Fn(vec![Ty::Int(5)], vec![Ty::Int(5)]); if !self.can_make(&ft) { return; } let f = self.make(&ft, 1); let x = self.make(&Ty::Int(5), 1); let n = self.leaf(CallIndirect { signature: Signature::new_endo(vec![int_type(5)]) }, &[f, x]); self.effect(n); }
            _ => self.step_misc(),
        }
    }
    fn step_array(&mut self) {
        // operate on an existing array wire or a new one
        let k = self.r.below(3) as u8; let k = if self.c.llvm && k == 1 { 0 } else { k };
        let c: Vec<Ty> = self.top().wires.iter().filter(|w| matches!(w.ty, Ty::Arr(..)) && (w.ty.copyable() || !w.used)).map(|w| w.ty.clone()).collect();
        let t = match self.r.pick_opt(&c) { Some(t) if self.r.chance(2, 3) => t.clone(), _ => { let mut e = self.elem(); if k == 1 && !e.copyable() { e = Ty::Int(5); } Ty::Arr(k, Sz::L(self.r.below(4) as u64), Box::new(e)) } };
        if !self.can_make(&t) { return; }
        let Ty::Arr(k, z, e) = t.clone() else { unreachable!() };
        let xn = ["collections.array", "collections.value_array", "collections.borrow_arr"][k as usize];
        let fixed = matches!(z, Sz::L(_));
        let sa = vec![sz(&z), e.ty().into()];
        let a = self.make(&t, 2);
        match self.r.below(9) {
            0 if e.copyable() => { let i = self.make(&Ty::Usize, 1); self.leaf(xop(xn, "get", sa), &[a, i]); }
            1 if !e.has_var() && e.copyable() => { let i = self.make(&Ty::Usize, 1); let v = self.make(&e, 1); self.leaf(xop(xn, "set", sa), &[a, i, v]); }
            2 if e.copyable() && (k == 1 || fixed) => { let (i, j) = (self.make(&Ty::Usize, 1), self.make(&Ty::Usize, 1)); self.leaf(xop(xn, "swap", sa), &[a, i, j]); }
            3 if fixed && z != Sz::L(0) && e.copyable() => { let n = *self.r.pick(&["pop_left", "pop_right"]); self.leaf(xop(xn, n, sa), &[a]); }
            4 if fixed && !self.c.llvm => { self.leaf(xop(xn, "unpack", sa), &[a]); }
            5 if e.copyable() && k != 1 => { self.leaf(xop(xn, "clone", sa), &[a]); }
            6 if *e == Ty::Int(5) && self.can_make(&Ty::Fn(vec![Ty::Int(5)], vec![Ty::Int(5)])) => {
                let f = self.make(&Ty::Fn(vec![Ty::Int(5)], vec![Ty::Int(5)]), 1);
                let n = self.leaf(xop(xn, "scan", vec![sz(&z), e.ty().into(), e.ty().into(), Term::new_list(Vec::<TypeArg>::new())]), &[a, f]); self.effect(n);
            }
            7 if k != 0 && e.copyable() => { // conversions live in the extensions of value and borrow arrays
                let ops: &[&str] = if k == 1 { &["to_array"] } else { &["to_array"] };
                let n = *self.r.pick(ops); self.leaf(xop(xn, n, sa), &[a]);
            }
            8 if k == 0 && e.copyable() && self.r.bool() => { let x = *self.r.pick(if self.c.llvm { &["collections.borrow_arr"] as &[&str] } else { &["collections.value_array", "collections.borrow_arr"] }); self.leaf(xop(x, "from_array", sa), &[a]); }
            8 if k == 2 && fixed && z != Sz::L(0) => {
                // borrow, then give it back
                let n = if let Sz::L(n) = z { n } else { 1 };
                let v = self.r.below(n as usize) as u64;
                let i = self.konst(ConstUsize::new(v).into(), &Ty::Usize);
                // reuse of a shared constant may change the index: load the same wire for both
                let b = self.leaf(xop(xn, "borrow", sa.clone()), &[a, i]);
                let (s0, s1) = (self.take(b, 0), self.take(b, 1));
                let s0 = if self.r.bool() && e.copyable() { let q = self.leaf(xop(xn, "is_borrowed", sa.clone()), &[s0, i]); self.take(q, 0) } else { s0 };
                self.leaf(xop(xn, "return", sa), &[s0, i, s1]);
            }
            _ => { let n = self.leaf(xop("prelude", "Noop", vec![t.ty().into()]), &[a]); let _ = n; }
        }
    }
    fn step_list(&mut self) {
        let e = Ty::Int(5); let lt = Ty::List(Box::new(e.clone()));
        let l = self.make(&lt, 2); let a = vec![TypeArg::from(e.ty())];
        match self.r.below(6) {
            0 => { self.leaf(xop("collections.list", "pop", a), &[l]); }
            1 => { let v = self.make(&e, 1); self.leaf(xop("collections.list", "push", a), &[l, v]); }
            2 => { let i = self.make(&Ty::Usize, 1); self.leaf(xop("collections.list", "get", a), &[l, i]); }
            3 | 4 => { let i = self.make(&Ty::Usize, 1); let v = self.make(&e, 1); let n = if self.c.all_list_ops { *self.r.pick(&["set", "insert"]) } else { "set" }; self.leaf(xop("collections.list", n, a), &[l, i, v]); }
            _ if self.c.all_list_ops => { self.leaf(xop("collections.list", "length", a), &[l]); }
            _ => {}
        }
    }
    fn step_float(&mut self) {
        match self.r.below(5) {
            0..=2 => { let n = *self.r.pick(&["fadd", "fsub", "fmul", "fdiv", "fmax", "fmin"]); let (a, b) = (self.make(&Ty::F64, 1), self.make(&Ty::F64, 1)); self.leaf(xop("arithmetic.float", n, vec![]), &[a, b]); }
            3 => { let n = *self.r.pick(&["fneg", "fabs", "ffloor", "fceil"]); let a = self.make(&Ty::F64, 1); self.leaf(xop("arithmetic.float", n, vec![]), &[a]); }
            _ => { let w = self.width(); if self.r.bool() && !self.c.llvm { let a = self.make(&Ty::F64, 1); let n = *self.r.pick(&["trunc_u", "trunc_s"]); self.leaf(xop("arithmetic.conversions", n, vec![TypeArg::from(w as u64)]), &[a]); } else { let a = self.make(&Ty::Int(w), 1); let n = *self.r.pick(&["convert_u", "convert_s"]); self.leaf(xop("arithmetic.conversions", n, vec![TypeArg::from(w as u64)]), &[a]); } }
        }
    }
    fn step_misc(&mut self) {
        match self.r.below(9) {
            0 => { let ws = self.pick_wires(3); let r: Vec<Ty> = ws.iter().map(|w| w.1.clone()).collect(); let s: Vec<Src> = ws.iter().map(|w| w.0).collect(); if r.iter().any(|t| t.has_var() && !t.copyable()) { let n = self.leaf(xop("prelude", "Barrier", vec![Term::new_list(r.iter().map(|t| TypeArg::from(t.ty())))]), &s); let _ = n; } else { let n = self.leaf(xop("prelude", "MakeTuple", vec![Term::new_list(r.iter().map(|t| TypeArg::from(t.ty())))]), &s); if self.r.bool() && self.c.order { self.effect(n); } } }
            1 | 2 => { let ts: Vec<Ty> = self.top().wires.iter().filter(|w| matches!(&w.ty, Ty::Sum(r) if r.len() == 1) && (w.ty.copyable() || !w.used)).map(|w| w.ty.clone()).collect(); if let Some(t) = self.r.pick_opt(&ts).cloned() { let Ty::Sum(r) = &t else { unreachable!() }; if let Some(s) = self.find(&t) { self.unpack(s, &r[0].clone()); } } }
            3 => { let ws = self.pick_wires(1); for (s, t) in ws { self.leaf(xop("prelude", "Noop", vec![t.ty().into()]), &[s]); } }
            4 => { let ws = self.pick_wires(3); let s: Vec<Src> = ws.iter().map(|w| w.0).collect(); self.leaf(xop("prelude", "Barrier", vec![Term::new_list(ws.iter().map(|w| TypeArg::from(w.1.ty())))]), &s); }
            5 if !self.c.llvm => { let w = self.width(); let (a, b) = (self.make(&Ty::Int(w), 1), self.make(&Ty::Int(w), 1)); let n = *self.r.pick(&["idiv_checked_u", "idiv_checked_s", "imod_checked_u", "imod_checked_s", "idivmod_checked_u", "idivmod_checked_s"]); self.leaf(xop("arithmetic.int", n, vec![TypeArg::from(w as u64)]), &[a, b]); }
            6 => { let ws = [0u8, 1, 2, 3, 4, 5, 6]; let w = self.width(); let o: Vec<u8> = ws.iter().copied().filter(|x| *x < w && (*x > 2 || !self.c.llvm)).collect(); if let Some(x) = self.r.pick_opt(&o).copied() { let a = self.make(&Ty::Int(w), 1); let n = *self.r.pick(&["inarrow_u", "inarrow_s"]); self.leaf(xop("arithmetic.int", n, vec![TypeArg::from(w as u64), TypeArg::from(x as u64)]), &[a]); } }
            7 => { match self.r.below(4) { 0 | 1 if self.c.llvm => {} 0 => { let b = self.make(&tbool(), 1); self.leaf(xop("arithmetic.conversions", "ifrombool", vec![]), &[b]); } 1 => { let a = self.make(&Ty::Int(0), 1); self.leaf(xop("arithmetic.conversions", "itobool", vec![]), &[a]); } 2 if !self.c.llvm => { let a = self.make(&Ty::Usize, 1); self.leaf(xop("arithmetic.conversions", "ifromusize", vec![]), &[a]); } _ => { let w = self.width(); let a = self.make(&Ty::Int(w), 1); if self.c.strs && !self.c.llvm { let n = *self.r.pick(&["itostring_u", "itostring_s"]); self.leaf(xop("arithmetic.conversions", n, vec![TypeArg::from(w as u64)]), &[a]); } } } }
            _ => { // work on type-variable wires
                let ws: Vec<Ty> = self.top().wires.iter().filter(|w| w.ty.has_var() && (w.ty.copyable() || !w.used)).map(|w| w.ty.clone()).collect();
                if let Some(t) = self.r.pick_opt(&ws).cloned() { if let Some(s) = self.find(&t) {
                    match t { Ty::IntV(i) => { let s2 = self.find(&t).unwrap(); let n = *self.r.pick(&["iadd", "imul", "ixor"]); self.leaf(xop("arithmetic.int", n, vec![TypeArg::new_var_use(i, int_types::LOG_WIDTH_TYPE_PARAM)]), &[s, s2]); }
                        _ => { self.leaf(xop("prelude", "Noop", vec![t.ty().into()]), &[s]); } }
                } }
            }
        }
    }
}
fn inst(t: &Ty, a: &[(TypeArg, Option<Ty>, Sz)]) -> Ty {
    match t {
        Ty::Var(i, _) | Ty::IntV(i) => a[*i].1.clone().unwrap(),
        Ty::Arr(k, Sz::V(i), e) => Ty::Arr(*k, a[*i].2.clone(), Box::new(inst(e, a))),
        Ty::Arr(k, z, e) => Ty::Arr(*k, z.clone(), Box::new(inst(e, a))),
        Ty::Sum(rs) => Ty::Sum(rs.iter().map(|r| r.iter().map(|t| inst(t, a)).collect()).collect()),
        Ty::List(e) => Ty::List(Box::new(inst(e, a))),
        t => t.clone(),
    }
}
pub fn dominators(nb: usize, succ: &[Vec<usize>]) -> Vec<Vec<usize>> {
    // d dominates b if removing d makes b unreachable from block 0
    let mut dom = vec![vec![]; nb];
    for d in 0..nb {
        let mut seen = vec![false; nb];
        let mut st = if d == 0 { vec![] } else { vec![0] };
        if d != 0 { seen[0] = true; }
        while let Some(x) = st.pop() { for s in &succ[x] { if *s < nb && *s != d && !seen[*s] { seen[*s] = true; st.push(*s); } } }
        for b in 0..nb { if !seen[b] || b == d { dom[b].push(d); } }
    }
    dom
}
#[allow(unused)] fn _d(_: Direction) {}
