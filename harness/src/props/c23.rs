//! Compiled code: programs are compiled to LLVM, run natively in a child process and compared
//! with the reference interpreter; the heap is replaced by one that catches stray accesses.
use crate::driver::{Obs, Prop};
use crate::gen_::{Cfg, Program, Sz, Ty};
use crate::interp::{compare_events, outcome, Bits, Event, Outcome, Prog, Stop};
use crate::rng::{hash_str, mix, Rng};
use crate::util::*;
use crate::val::V;
use hugr_core::builder::{DFGBuilder, Dataflow, DataflowSubContainer, SubContainer};
use hugr_core::extension::prelude::{usize_t, UnwrapBuilder};
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::hugr::views::HugrView;
use hugr_core::ops::handle::FuncID;
use hugr_core::ops::{FuncDecl, FuncDefn, OpTrait, OpType, Value};
use hugr_core::std_extensions::arithmetic::float_types::float64_type;
use hugr_core::std_extensions::arithmetic::int_types::{ConstInt, INT_TYPES};
use hugr_core::std_extensions::STD_REG;
use hugr_core::types::type_param::{Term, TypeArg};
use hugr_core::types::{Signature, Type};
use hugr_core::{Hugr, Node, Visibility, Wire};
use hugr_llvm::custom::CodegenExtsBuilder;
use hugr_llvm::emit::{EmitFuncContext, EmitHugr, Namer};
use hugr_llvm::extension::PreludeCodegen;
use hugr_llvm::utils::fat::FatExt;
use inkwell::context::Context;
use inkwell::module::Module;
use inkwell::values::BasicValueEnum;
use itertools::Itertools;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::Mutex;

unsafe extern "C" {
    fn fork() -> i32;
    fn pipe(f: *mut i32) -> i32;
    fn read(f: i32, b: *mut u8, n: usize) -> isize;
    fn write(f: i32, b: *const u8, n: usize) -> isize;
    fn close(f: i32) -> i32;
    fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, p: i32) -> i32;
}

// ---- what compiled programs call ----
static LOG: Mutex<String> = Mutex::new(String::new());
static OUT: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(-1);
fn log(s: String) { LOG.lock().unwrap().push_str(&s); LOG.lock().unwrap().push('\n'); }
fn finish(end: &str) -> ! {
    log(end.to_string());
    let s = LOG.lock().unwrap();
    let (fd, mut b) = (OUT.load(std::sync::atomic::Ordering::SeqCst), s.as_bytes());
    unsafe { while !b.is_empty() { let n = write(fd, b.as_ptr(), b.len()); if n <= 0 { break } b = &b[n as usize..]; } _exit(0) }
}
extern "C" fn hv_u64(i: u64, v: u64) { log(format!("decl:hv_u64:{:?}", vec![V::int(6, i), V::int(6, v)])) }
extern "C" fn hv_f64(i: u64, v: f64) { log(format!("decl:hv_f64:{:?}", vec![V::int(6, i), V::f(v)])) }
extern "C" fn hv_us(i: u64, v: u64) { log(format!("decl:hv_us:{:?}", vec![V::int(6, i), V::Usize(v)])) }
extern "C" fn ext_fx(i: u32, v: u32) -> u32 {
    let args = vec![V::int(5, i as u64), V::int(5, v as u64)];
    let h = mix(&[hash_str("ext_fx"), V::tuple(args.clone()).hash()]);
    log(format!("decl:ext_fx:{args:?}"));
    let V::Int(_, b) = V::int(5, mix(&[h, 0])) else { unreachable!() };
    b as u32
}
extern "C" fn hv_panic(sig: u32, msg: *const i8) -> ! {
    let m = unsafe { std::ffi::CStr::from_ptr(msg as *const _) }.to_string_lossy().to_string();
    finish(&format!("PANIC {sig} {m}"))
}
// ---- the heap: every block ends at an inaccessible page, released blocks stay inaccessible ----
struct Block { base: usize, pages: usize, size: usize, live: bool }
static HEAP: Mutex<Option<HashMap<usize, Block>>> = Mutex::new(None);
const PG: usize = 4096;
extern "C" fn hv_malloc(n: u64) -> *mut u8 {
    let n = n as usize;
    if n > 1 << 28 { finish(&format!("HEAP allocation of {n} bytes")); }
    let pages = (n + 64).div_ceil(PG);
    let base = unsafe { mmap(std::ptr::null_mut(), (pages + 1) * PG, 3, 0x22, -1, 0) } as usize;
    let p = (base + pages * PG - n) & !15;
    unsafe { std::ptr::write_bytes(base as *mut u8, 0xA5, pages * PG); std::ptr::write_bytes(p as *mut u8, 0xDD, n); mprotect((base + pages * PG) as *mut u8, PG, 0); }
    HEAP.lock().unwrap().get_or_insert_with(HashMap::new).insert(p, Block { base, pages, size: n, live: true });
    p as *mut u8
}
fn canaries(p: usize, b: &Block) -> bool {
    let bytes = unsafe { std::slice::from_raw_parts(b.base as *const u8, b.pages * PG) };
    let (s, e) = (p - b.base, p - b.base + b.size);
    bytes[..s].iter().chain(&bytes[e..]).all(|x| *x == 0xA5)
}
extern "C" fn hv_free(p: *mut u8) {
    if p.is_null() { return; }
    let mut g = HEAP.lock().unwrap();
    let what = match g.get_or_insert_with(HashMap::new).get_mut(&(p as usize)) {
        None => Some("HEAP release of something that is no block"),
        Some(b) if !b.live => Some("HEAP second release of a block"),
        Some(b) if !canaries(p as usize, b) => Some("HEAP write next to a block"),
        Some(b) => { b.live = false; unsafe { mprotect(b.base as *mut u8, b.pages * PG, 0); } None }
    };
    drop(g);
    if let Some(w) = what { finish(w); }
}
fn heap_end() {
    let g = HEAP.lock().unwrap();
    let Some(h) = g.as_ref() else { return };
    let (total, live) = (h.len(), h.values().filter(|b| b.live).count());
    let bad = h.iter().any(|(p, b)| b.live && !canaries(*p, b));
    let sizes: Vec<usize> = h.values().filter(|b| b.live).map(|b| b.size).sorted().take(4).collect();
    drop(g);
    log(format!("BLOCKS {total}"));
    if bad { finish("HEAP write next to a block"); }
    if live > 0 { finish(&format!("HEAP {live} of {total} blocks are never released, of sizes {sizes:?}")); }
}

#[derive(Clone)]
struct Pcg;
impl PreludeCodegen for Pcg {
    fn emit_panic<H: HugrView<Node = Node>>(&self, ctx: &mut EmitFuncContext<H>, err: BasicValueEnum) -> anyhow_::Result<()> {
        let c = ctx.iw_context();
        let p = c.i8_type().ptr_type(inkwell::AddressSpace::default());
        let f = ctx.get_extern_func("hv_panic", c.void_type().fn_type(&[c.i32_type().into(), p.into()], false))?;
        let s = err.into_struct_value();
        let (sig, msg) = (ctx.builder().build_extract_value(s, 0, "")?, ctx.builder().build_extract_value(s, 1, "")?);
        ctx.builder().build_call(f, &[sig.into(), msg.into()], "")?;
        Ok(())
    }
}
/// the error type of the code generator, whose crate is not a dependency of this one
mod anyhow_ { pub type Result<T> = std::result::Result<T, anyhow::Error>; }

pub struct Opts { pub optimise: bool, pub heap: bool, pub stack: bool }
fn compile<'c>(cx: &'c Context, h: &'c Hugr, o: &Opts) -> Result<Module<'c>, String> {
    let exts = CodegenExtsBuilder::<Hugr>::default().add_prelude_extensions(Pcg).add_extension(hugr_llvm::extension::int::IntCodegenExtension::new(Pcg)).add_float_extensions().add_logic_extensions().add_conversion_extensions()
        .add_default_array_extensions().add_default_borrow_array_extensions(Pcg).add_default_static_array_extensions()
;
    let exts = if o.stack { exts.add_extension(hugr_llvm::extension::collections::stack_array::ArrayCodegenExtension::from(hugr_llvm::extension::collections::stack_array::DefaultArrayCodegen)) } else { exts }.finish();
    let e = EmitHugr::new(cx, cx.create_module("m"), Rc::new(Namer::new("", false)), Rc::new(exts));
    let root = h.try_fat::<hugr_core::ops::Module>(h.module_root()).ok_or("no module")?;
    let m = e.emit_module(root).map_err(|e| format!("emission: {e:#}"))?.finish();
    m.verify().map_err(|e| format!("LLVM verifier: {e}"))?;
    if o.optimise {
        use inkwell::targets::*;
        static INIT: std::sync::Once = std::sync::Once::new();
        INIT.call_once(|| Target::initialize_native(&InitializationConfig::default()).unwrap());
        let t = TargetMachine::get_default_triple();
        let tm = Target::from_triple(&t).unwrap().create_target_machine(&t, "generic", "", inkwell::OptimizationLevel::Default, RelocMode::Default, CodeModel::JITDefault).unwrap();
        m.run_passes("default<O2>", &tm, inkwell::passes::PassBuilderOptions::create()).map_err(|e| format!("optimiser: {e}"))?;
        m.verify().map_err(|e| format!("LLVM verifier after optimisation: {e}"))?;
    }
    Ok(m)
}
#[derive(Debug, Clone, PartialEq)]
pub enum End { Returned, Panic(String), Heap(String), Died(String) }
/// Runs a function without inputs and outputs in a child process.
fn run(m: &Module, entry: &str, o: &Opts) -> (Vec<String>, End) {
    let mut fd = [0i32; 2];
    let pid = unsafe { pipe(fd.as_mut_ptr()); fork() };
    if pid == 0 {
        unsafe { close(fd[0]); alarm(60); }
        OUT.store(fd[1], std::sync::atomic::Ordering::SeqCst);
        let ee = match m.create_jit_execution_engine(inkwell::OptimizationLevel::None) { Ok(e) => e, Err(e) => finish(&format!("JIT {e}")) };
        let map: &[(&str, usize)] = &[("hv_u64", hv_u64 as usize), ("hv_f64", hv_f64 as usize), ("hv_us", hv_us as usize), ("ext_fx", ext_fx as usize), ("hv_panic", hv_panic as usize)];
        for (n, a) in map { if let Some(f) = m.get_function(n) { ee.add_global_mapping(&f, *a); } }
        if o.heap { for (n, a) in [("malloc", hv_malloc as usize), ("free", hv_free as usize)] { if let Some(f) = m.get_function(n) { ee.add_global_mapping(&f, a); } } }
        match unsafe { ee.get_function::<unsafe extern "C" fn()>(entry) } {
            Ok(f) => { unsafe { f.call() }; if o.heap { heap_end(); } finish("RETURNED") }
            Err(e) => finish(&format!("JIT {e}")),
        }
    }
    let mut s = vec![];
    let mut st = 0;
    unsafe {
        close(fd[1]);
        let mut b = [0u8; 65536];
        loop { let n = read(fd[0], b.as_mut_ptr(), b.len()); if n <= 0 { break } s.extend_from_slice(&b[..n as usize]); }
        close(fd[0]);
        waitpid(pid, &mut st, 0);
    }
    let s = String::from_utf8_lossy(&s).to_string();
    let mut ls: Vec<String> = s.lines().map(|x| x.to_string()).collect();
    let last = ls.pop().unwrap_or_default();
    let end = if st != 0 { End::Died(if st & 127 != 0 { format!("signal {}", st & 127) } else { format!("status {}", st >> 8) }) }
        else if last == "RETURNED" { End::Returned } else if let Some(p) = last.strip_prefix("PANIC ") { End::Panic(p.to_string()) }
        else if let Some(p) = last.strip_prefix("HEAP ") { End::Heap(p.to_string()) } else { End::Died(last) };
    (ls, end)
}

// ---- an entry function that feeds constants and reports the results ----
struct Sinks { u: Node, f: Node, us: Node }
fn std_op(e: &str, name: &str, args: Vec<TypeArg>) -> OpType { STD_REG.get(e).unwrap().instantiate_extension_op(name, args).unwrap().into() }
fn num(b: &mut impl Dataflow, w: u8, v: u64) -> Wire { b.add_load_value(ConstInt::new_u(w, v).unwrap()) }
fn sink(b: &mut impl Dataflow, s: &Sinks, w: Wire, t: &Ty, idx: &mut u64) -> Option<()> {
    
    *idx += 1;
    match t {
        Ty::Int(k) => { let v = if *k == 6 { w } else { b.add_dataflow_op(std_op("arithmetic.int", "iwiden_u", vec![TypeArg::from(*k as u64), TypeArg::from(6u64)]), [w]).unwrap().out_wire(0) }; callk(b, s.u, *idx, v); }
        Ty::F64 => callk(b, s.f, *idx, w),
        Ty::Usize => callk(b, s.us, *idx, w),
        Ty::Err => {}
        Ty::Sum(rows) => {
            let tys: Vec<_> = rows.iter().map(|r| crate::gen_::row(r)).collect();
            let mut c = b.conditional_builder((tys, w), [], vec![].into()).unwrap();
            for (k, r) in rows.iter().enumerate() {
                let mut cb = c.case_builder(k).unwrap();
                let tag = num(&mut cb, 6, k as u64);
                callk(&mut cb, s.u, *idx, tag);
                let ws: Vec<Wire> = cb.input_wires().collect();
                for (w, t) in ws.into_iter().zip(r) { sink(&mut cb, s, w, t, idx)?; }
                cb.finish_with_outputs([]).unwrap();
            }
            c.finish_sub_container().unwrap();
        }
        Ty::Fn(a, o) if a == &[Ty::Int(5)] && o == &[Ty::Int(5)] => {
            let i = num(b, 5, 12345);
            let sig = Signature::new_endo(vec![INT_TYPES[5].clone()]);
            let v = b.add_dataflow_op(hugr_core::ops::CallIndirect { signature: sig }, [w, i]).unwrap().out_wire(0);
            sink(b, s, v, &Ty::Int(5), idx)?;
        }
        Ty::Arr(kind, Sz::L(n), e) => {
            let name = ["collections.array", "collections.value_array", "collections.borrow_arr"][*kind as usize];
            // unpacking leaks the array (recorded), so it is taken apart element by element
            let mut w = w;
            for k in (1..=*n).rev() {
                let p = b.add_dataflow_op(std_op(name, "pop_left", vec![TypeArg::from(k), e.ty().into()]), [w]).unwrap().out_wire(0);
                let rest = Ty::Arr(*kind, Sz::L(k - 1), e.clone());
                let ws: [Wire; 2] = {
                    let (t0, t1) = (hugr_core::types::TypeRow::from(vec![]), crate::gen_::row(&[(**e).clone(), rest]));
                    b.build_unwrap_sum(1, hugr_core::types::SumType::new([t0, t1]), p).unwrap()
                };
                sink(b, s, ws[0], e, idx)?;
                w = ws[1];
            }
            b.add_dataflow_op(std_op(name, "discard_empty", vec![e.ty().into()]), [w]).unwrap();
        }
        _ => return None,
    }
    Some(())
}
fn callk(b: &mut impl Dataflow, f: Node, i: u64, v: Wire) { let i = num(b, 6, i); call0(b, f, &[i, v]) }
fn call0(b: &mut impl Dataflow, f: Node, ws: &[Wire]) {
    b.call(&FuncID::<false>::from(f), &[], ws.iter().copied()).unwrap();
}
/// Adds `entry<k>` for every vector of inputs.
fn add_entries(h: &mut Hugr, p: &Program, main: Node, ins: &[Vec<V>]) -> Option<Vec<Node>> {
    let root = h.module_root();
    h.set_entrypoint(root);
    let i6 = || INT_TYPES[6].clone();
    let mut decl = |h: &mut Hugr, n: &str, t: Type| h.add_node_with_parent(root, FuncDecl::new_vis(n, Signature::new(vec![i6(), t], vec![]), Visibility::Public));
    let s = Sinks { u: decl(h, "hv_u64", i6()), f: decl(h, "hv_f64", float64_type()), us: decl(h, "hv_us", usize_t()) };
    let mut out = vec![];
    for (k, iv) in ins.iter().enumerate() {
        let consts: Option<Vec<Value>> = p.ins.iter().zip(iv).map(|(t, v)| super::c09::to_const(t, v)).collect();
        let consts = consts?;
        let sig = Signature::new(vec![], vec![]);
        let f = h.add_node_with_parent(root, FuncDefn::new_vis(format!("entry{k}"), sig.clone(), Visibility::Public));
        let mut b = DFGBuilder::create_with_io(&mut *h, f, sig).unwrap();
        let ws: Vec<Wire> = consts.into_iter().map(|c| b.add_load_value(c)).collect();
        let rs: Vec<Wire> = b.call(&FuncID::<true>::from(main), &[], ws).unwrap().outputs().collect();
        let mut idx = 0;
        for (w, t) in rs.into_iter().zip(&p.outs) { sink(&mut b, &s, w, t, &mut idx)?; }
        b.finish_with_outputs([]).unwrap();
        out.push(f);
    }
    Some(out)
}

fn class(e: &str) -> String { e.chars().map(|c| if c.is_ascii_digit() { ' ' } else { c }).collect::<String>().split(' ').filter(|x| !x.is_empty()).take(7).collect::<Vec<_>>().join(" ").chars().take(70).collect() }
/// Operations and types that have no lowering, which is not claimed here.
fn no_lowering(e: &str) -> bool {
    e.contains("Unknown type: value_array") || ["fabs", "fceil", "ffloor", "fmax", "fmin", "fround", "ftostring", "irotl", "irotr"].iter().any(|n| e.ends_with(&format!("unimplemented op: {n}")) || e.ends_with(&format!("unimplemented op: arithmetic.int.{n}")))
}
fn one(o: &mut Obs, seed: u64, idx: u64, heap: bool) {
    let mut r = rng(seed, idx, if heap { 24 } else { 23 });
    let mut cfg = Cfg { size: *r.pick(&[10, 20, 40, 60]), llvm: true, meta: false, lists: false, strs: false, decls: false, aliases: false, dead_blocks: r.chance(1, 4), ..Cfg::default() }.vary(&mut r);
    cfg.llvm = true; cfg.lists = false; cfg.strs = false; cfg.decls = false; cfg.widths = vec![5, 5, 6, 3, 4];
    if heap { cfg.arrays = true; cfg.lin = true; }
    let cfg = dev_cfg(cfg);
    let Some(p) = prog(o, seed ^ (heap as u64) << 40, idx, &cfg) else { return };
    let nin = r.range(1, 3);
    let ins = inputs(&p.ins, &mut r, nin);
    go(o, &mut r, p, ins, heap, None)
}
/// One operation on constants.
fn op_case(o: &mut Obs, seed: u64, idx: u64, r: &mut Rng) {
    let mut defs = vec![];
    for e in ["arithmetic.int", "arithmetic.float", "arithmetic.conversions", "logic"] { let e = STD_REG.get(e).unwrap(); let mut d: Vec<_> = e.operations().map(|(_, d)| d.clone()).collect(); d.sort_by_key(|d| d.name().to_string()); defs.extend(d); }
    let d = &defs[((idx / 3) as usize + mix(&[seed]) as usize % 7) % defs.len()];
    let Ok(params) = d.params().map(|p| p.to_vec()) else { return };
    let Some(args) = params.iter().map(|p| match p { Term::BoundedNatType(_) => Some(TypeArg::from(r.below(7) as u64)), _ => None }).collect::<Option<Vec<_>>>() else { return };
    let Ok(op) = hugr_core::ops::ExtensionOp::new(d.clone(), args.clone()) else { return };
    use hugr_core::ops::DataflowOpTrait;
    let sig = op.signature().into_owned();
    let (Some(ins), Some(outs)) = (sig.input().iter().map(Ty::of).collect::<Option<Vec<_>>>(), sig.output().iter().map(Ty::of).collect::<Option<Vec<_>>>()) else { return };
    let mut h = Hugr::default();
    let root = h.module_root();
    let main = h.add_node_with_parent(root, FuncDefn::new_vis("main", sig.clone(), Visibility::Public));
    let mut b = DFGBuilder::create_with_io(&mut h, main, sig).unwrap();
    let iw: Vec<Wire> = b.input_wires().collect();
    let ow: Vec<Wire> = b.add_dataflow_op(op, iw).unwrap().outputs().collect();
    b.finish_with_outputs(ow).unwrap();
    let p = Program { hugr: h, funcs: vec![], main, ins: ins.clone(), outs, nonlocal_edges: 0 };
    let mut vs = inputs(&ins, r, 6);
    // small second operands: shifts, divisors, exponents
    for v in inputs(&ins, r, 3) { let mut v = v; if let Some(V::Int(k, _)) = v.last().cloned() { *v.last_mut().unwrap() = V::int(k, *r.pick(&[0, 0, 1, 2, 3, 5, 7, 8, 16, 31, 32, 63])); } vs.push(v); }
    // extreme operands
    for _ in 0..4 { vs.push(ins.iter().map(|t| match t {
        Ty::Int(k) => { let w = 1u32 << k; let top = if w == 64 { u64::MAX } else { (1 << w) - 1 }; V::int(*k, *r.pick(&[0, 1, top, top >> 1, (top >> 1) + 1, top - 1])) }
        Ty::F64 => { let k = *r.pick(&[1, 2, 4, 7, 8, 15, 16, 31, 32, 52, 53]); let p = 2f64.powi(k); V::f(*r.pick(&[p - 1.0, p, p - 0.5, -p, -p - 0.5, -p - 1.0, -0.5, -1.0, 1e300])) }
        t => t.rand_val(r),
    }).collect()); }
    let narrow = args.iter().any(|a| matches!(a, Term::BoundedNat(n) if *n < 3));
    let name = d.name().to_string();
    o.saw(mix(&[hash_str(&name), args.iter().map(|a| hash_str(&a.to_string())).fold(0, |a, b| mix(&[a, b]))]));
    go(o, r, p, vs, false, Some((name, narrow)))
}
/// The class of the operands of an operation.
fn operands(name: &str, v: &[V]) -> &'static str {
    let sb = |k: u8, x: u64| { let w = 1u32 << k; if w == 64 { x as i64 } else { ((x << (64 - w)) as i64) >> (64 - w) } };
    match v {
        [V::Int(_, _), V::Int(k, x)] if name == "ipow" && *k >= 5 && *x > 1 << 20 => "huge exponent",
        [V::Int(_, _), V::Int(_, 0)] if name.contains("div") || name.contains("mod") => "zero divisor",
        [V::Int(k, a), V::Int(_, b)] if (name.contains("div") || name.contains("mod")) && name.ends_with("_s") && sb(*k, *b) == -1 && sb(*k, *a) < 0 => "negative dividend, maximal divisor",
        [V::Int(k, _), V::Int(_, x)] if name.starts_with("ish") && *x >= 1 << *k => "overshift",
        [V::F(b)] if name.starts_with("trunc") => { let t = f64::from_bits(*b).trunc(); if t == 0.0 && f64::from_bits(*b) < 0.0 || (0..64).any(|k| t == -((1u64 << k) as f64)) { "minimum" } else if (1..64).any(|k| t == ((1u64 << k) - 1) as f64) { "maximum" } else { "" } }
        _ => "",
    }
}
/// Integers of less than 8 bits, and checked divisions: see the recorded findings of single operations.
fn tainted(h: &Hugr) -> bool {
    let narrow = |t: &Type| { let s = t.to_string(); s.contains("int(0)") || s.contains("int(1)") || s.contains("int(2)") };
    h.nodes().any(|n| {
        let op = h.get_optype(n);
        let r = tainted_op(op, &narrow);
        if r && std::env::var("HV_DUMP").is_ok() { eprintln!("tainted: {}", describe(op)); }
        r
    })
}
fn tainted_op(op: &OpType, narrow: &impl Fn(&Type) -> bool) -> bool {
        {
        if let OpType::ExtensionOp(e) = op { let u = e.unqualified_id(); if u.contains("checked") || ["ipow", "ishl", "idiv_s", "imod_s", "idivmod_s", "trunc_s", "trunc_u"].contains(&u) { return true; } }
        let Some(sig) = op.dataflow_signature() else { return false };
        sig.input().iter().chain(sig.output().iter()).any(narrow) || op.static_output().is_some_and(|k| match k { hugr_core::types::EdgeKind::Const(t) => narrow(&t), _ => false })
    }
}
fn go(o: &mut Obs, r: &mut Rng, p: Program, ins: Vec<Vec<V>>, heap: bool, op: Option<(String, bool)>) {
    // exponentiation takes time linear in the exponent
    let ins: Vec<Vec<V>> = ins.into_iter().filter(|iv| !op.as_ref().is_some_and(|(n, _)| operands(n, iv) == "huge exponent")).filter(|iv| p.ins.iter().zip(iv).all(|(t, v)| super::c09::to_const(t, v).is_some())).collect();
    let pre = match &op { Some((n, true)) => format!("narrow op|{n}"), Some((n, _)) => format!("op|{n}"), None => "program|".into() };
    let mut h = p.hugr.clone();
    let Some(entries) = add_entries(&mut h, &p, p.main, &ins) else { o.n("inputs or outputs without a constant form"); return };
    if let Err(e) = h.validate() { o.n("entry functions refused"); if o.verbose { eprintln!("{e}"); } return; }
    let pr = Prog::new(h.clone());
    let want: Vec<_> = entries.iter().map(|e| outcome(&pr, *e, &[], vec![], 20_000)).collect();
    if want.iter().all(|w| !matches!(w, Ok(_) | Err(Stop::Panic(_)))) { o.n("no reference"); return; }
    if op.is_none() && tainted(&h) { o.n("programs over operations with recorded findings"); return; }
    // what the code generator expects: no polymorphism, no function constants
    use hugr_passes::composable::ComposablePass;
    let names: Vec<String> = (0..entries.len()).map(|k| format!("entry{k}")).collect();
    let poly = h.children(h.module_root()).any(|n| h.get_optype(n).as_func_defn().is_some_and(|d| !d.signature().params().is_empty()));
    if poly {
        if hugr_passes::monomorphize(&mut h).is_err() { o.n("not monomorphized"); return; }
        let es: Vec<Node> = h.children(h.module_root()).filter(|n| h.get_optype(*n).as_func_defn().is_some_and(|d| d.signature().params().is_empty())).collect();
        if hugr_passes::RemoveDeadFuncsPass::default().with_module_entry_points(es).run(&mut h).is_err() { o.n("not monomorphized"); return; }
    }
    match o.guard("inline_constant_functions", || hugr_llvm::utils::inline_constant_functions(&mut h)) { None => return, Some(Err(e)) => { o.bad(format!("inline_constant_functions|{}", class(&format!("{e:#}"))), format!("{e:#}")); return } Some(Ok(())) => {} }
    if h.validate().is_err() { o.bad("inline_constant_functions|invalid", "the program is not valid any more"); return; }
    let opts = Opts { optimise: r.bool(), heap, stack: !heap && r.chance(1, 2) && !h.nodes().any(|n| match h.get_optype(n) { OpType::ExtensionOp(e) => ["to_array", "from_array"].contains(&e.unqualified_id()), _ => false }) };
    let cx = Context::create();
    let dump = || if std::env::var("HV_DUMP").is_ok() { eprintln!("{}", outline(&h)); };
    let m = match o.guard("compile", || compile(&cx, &h, &opts)) { None => { dump(); return } Some(Err(e)) => { if no_lowering(&e) { o.n("no lowering"); return } dump(); o.bad(format!("{pre}|compile|{}", class(&e)), e.chars().take(400).collect::<String>()); return } Some(Ok(m)) => m };
    o.n(if opts.optimise { "programs compiled and optimised" } else { "programs compiled" });
    let mut seen = std::collections::HashSet::new();
    for (at, (name, w)) in names.iter().zip(&want).enumerate() {
        let pre = match &op { Some((_, true)) | None => pre.clone(), Some((n, _)) => format!("{pre}|{}", operands(n, &ins[at])) };
        if !matches!(w, Ok(_) | Err(Stop::Panic(_))) { o.n(match w { Err(Stop::Fuel) => "reference out of fuel", _ => "reference not supported" }); continue; }
        let (mut ev, mut end) = run(&m, name, &opts);
        if end == End::Died("signal 14".into()) { o.n("runs repeated after a timeout"); (ev, end) = run(&m, name, &opts); }
        let blocks: u64 = ev.iter().filter_map(|l| l.strip_prefix("BLOCKS ")).filter_map(|x| x.parse::<u64>().ok()).sum();
        let ev: Vec<String> = ev.into_iter().filter(|l| !l.starts_with("BLOCKS ")).collect();
        o.add("heap blocks released exactly once", blocks);
        let mut fail = |o: &mut Obs, k: String, msg: String| { dump(); if std::env::var("HV_DUMP").is_ok() { eprintln!("{}", m.print_to_string().to_string()); } if !seen.insert(pre.clone()) { return } o.bad(if pre.starts_with("narrow") { pre.clone() } else { format!("{pre}|{k}") }, format!("{name}: {msg}{}", if op.is_some() { format!(" on {:?}", ins[at]) } else { String::new() })); };
        match (w, &end) {
            (_, End::Heap(x)) if x.contains("never released") && h.nodes().any(|n| matches!(h.get_optype(n), OpType::ExtensionOp(e) if e.extension_id().to_string() == "collections.borrow_arr" && ["discard", "unpack"].contains(&e.unqualified_id()))) => { fail(o, "leak|borrow_arr.discard or unpack".into(), x.clone()); return }
            (_, End::Heap(x)) => { fail(o, format!("run|heap|{}", class(x)), x.clone()); if op.is_some() { continue } return }
            (_, End::Died(x)) => { fail(o, format!("run|died|{}", class(x)), format!("the compiled program dies: {x}; the reference {}", match w { Ok(_) => "returns".to_string(), Err(e) => format!("{e:?}") })); if op.is_some() { continue } return }
            (Ok(_), End::Panic(x)) => { fail(o, format!("run|panic|{}", class(x)), format!("the compiled program panics: {x}")); if op.is_some() { continue } return }
            (Err(e), End::Returned) => { fail(o, format!("run|no panic|{}", class(&format!("{e:?}"))), format!("the compiled program returns, but must stop with {e:?}")); if op.is_some() { continue } return }
            (Err(_), End::Panic(_)) => { o.n("panics compared"); }
            (Ok(w), End::Returned) => {
                let mut weak = Bits::default();
                let evs: Vec<Event> = ev.iter().enumerate().map(|(i, k)| { let e = Event { key: k.clone(), weak: weak.clone(), strong: Bits::default() }; weak.set(i); e }).collect();
                o.add("results compared", ev.iter().filter(|l| l.starts_with("decl:hv_")).count() as u64);
                o.add("effects compared", ev.iter().filter(|l| l.starts_with("decl:ext_fx")).count() as u64);
                o.n("runs compared");
                o.add("steps", w.steps as u64);
                if let Err(e) = compare_events(w, &Outcome { vals: vec![], events: evs, steps: 0 }) { fail(o, "run|differs".into(), e); if op.is_some() { continue } return }
            }
        }
        o.saw(mix(&[hash_str(&ev.join("\n")), hash_str(&outline(&h))]));
    }
    o.note(|| format!("program of {} nodes, {} entry functions, {}", h.num_nodes(), names.len(), if opts.optimise { "optimised" } else { "not optimised" }));
    let _: Option<Rng> = None;
    let _ = Term::from(0u64);
}
fn case23(o: &mut Obs, seed: u64, idx: u64) { if idx % 3 == 0 { let mut r = rng(seed, idx, 230); op_case(o, seed, idx, &mut r) } else { one(o, seed, idx, false) } }
fn case24(o: &mut Obs, seed: u64, idx: u64) { one(o, seed, idx, true) }
pub fn prop() -> Prop {
    Prop { id: "C23", case: case23, rule: "a compiled program was run and compared on one input (distinct programs and traces)", need: &["programs compiled", "programs compiled and optimised", "results compared", "effects compared", "panics compared"], quick_s: 40, thorough_s: 600, min_cases: 400, max_cases: 3000 }
}
pub fn prop24() -> Prop {
    Prop { id: "C24", case: case24, rule: "a compiled program over arrays was run under the monitored heap (distinct programs and traces)", need: &["heap blocks released exactly once", "results compared", "panics compared"], quick_s: 40, thorough_s: 600, min_cases: 400, max_cases: 3000 }
}
