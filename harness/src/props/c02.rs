//! Builders: whole programs are rebuilt through the building interface, correctly
//! and with one mistake at a random call.
use crate::driver::{Obs, Prop};
use crate::gen_::Cfg;
use crate::rng::Rng;
use crate::util::*;
use hugr_core::builder::*;
use hugr_core::extension::prelude::{bool_t, usize_t};
use hugr_core::hugr::views::HugrView;
use hugr_core::ops::handle::*;
use hugr_core::ops::*;
use hugr_core::types::{EdgeKind, Signature, Type, TypeRow};
use hugr_core::{Hugr, IncomingPort, Node, OutgoingPort, PortIndex, Wire};
use std::collections::{HashMap, HashSet};

struct Cx<'a> {
    h: &'a Hugr,
    nm: HashMap<Node, Node>,
    r: Rng,
    known: Vec<Wire>,
    calls: usize,
    /// the call at which to make a mistake
    at: usize,
    mistake: Option<&'static str>,
    used: std::collections::BTreeMap<&'static str, u64>,
}
impl Cx<'_> {
    fn here(&mut self) -> bool { self.calls += 1; self.calls == self.at }
    fn src(&self, n: Node, p: usize) -> Wire { let (m, q) = self.h.single_linked_output(n, IncomingPort::from(p)).expect("linked"); Wire::new(self.nm[&m], q) }
    fn use_(&mut self, k: &'static str) { *self.used.entry(k).or_default() += 1; }
    /// the wires of the first value inputs, perhaps with a mistake
    fn ins(&mut self, n: Node, from: usize, to: usize) -> Vec<Wire> {
        let v: Vec<Wire> = (from..to).map(|i| self.src(n, i)).collect();
        self.twist(v)
    }
    fn twist(&mut self, mut v: Vec<Wire>) -> Vec<Wire> {
        for w in &v { if !self.known.contains(w) { self.known.push(*w); } }
        if !self.here() { return v; }
        let w = if self.known.is_empty() { return v } else { self.known[self.r.below(self.known.len())] };
        let k = if v.is_empty() { 3 } else { self.r.below(6) };
        self.mistake = Some(match k {
            0 | 1 => { let i = self.r.below(v.len()); if v[i] == w { return v; } v[i] = w; "other wire" }
            2 => { v.pop(); "too few wires" }
            3 => { v.push(w); "too many wires" }
            4 if v.len() > 1 => { let i = self.r.below(v.len() - 1); if v[i] == v[i + 1] { return v; } v.swap(i, i + 1); "swapped wires" }
            _ => { let i = self.r.below(v.len()); let j = self.r.below(v.len()); if v[i] == v[j] { return v; } v[i] = v[j]; "repeated wire" }
        });
        v
    }
    fn skip(&mut self, what: &'static str) -> bool { if self.here() { self.mistake = Some(what); true } else { false } }
}
type Bu<T> = Result<T, BuildError>;
fn vins(h: &Hugr, n: Node) -> usize { h.get_optype(n).value_input_count() }
fn tys(row: &TypeRow, w: Vec<Wire>) -> Vec<(Type, Wire)> {
    // a wrong number of wires shows as a wrong number of typed inputs
    let mut v: Vec<(Type, Wire)> = row.iter().cloned().zip(w.iter().copied()).collect();
    if w.len() > row.len() { v.push((bool_t(), w[w.len() - 1])); }
    v
}
/// children in an order in which everything is there before it is used
fn order(h: &Hugr, parent: Node, flow: bool) -> Vec<Node> {
    let ch: Vec<Node> = h.children(parent).collect();
    let set: HashSet<Node> = ch.iter().copied().collect();
    let mut deg: HashMap<Node, usize> = ch.iter().map(|c| (*c, 0)).collect();
    let mut succ: HashMap<Node, Vec<Node>> = HashMap::new();
    for c in &ch {
        for d in std::iter::once(*c).chain(h.descendants(*c).skip(1)) {
            for p in h.node_outputs(d) {
                if !flow && d == *c && matches!(h.get_optype(d).port_kind(p), Some(EdgeKind::ControlFlow)) { continue; }
                for (t, _) in h.linked_inputs(d, p) {
                    let mut a = t;
                    while !set.contains(&a) { match h.get_parent(a) { Some(x) => a = x, None => break } }
                    if set.contains(&a) && a != *c { succ.entry(*c).or_default().push(a); *deg.get_mut(&a).unwrap() += 1; }
                }
            }
        }
    }
    let mut q: Vec<Node> = ch.iter().rev().copied().filter(|c| deg[c] == 0).collect();
    let mut out = vec![];
    while let Some(n) = q.pop() { out.push(n); for m in succ.remove(&n).unwrap_or_default() { let d = deg.get_mut(&m).unwrap(); *d -= 1; if *d == 0 { q.push(m); } } }
    for c in ch { if !out.contains(&c) { out.push(c); } }
    out
}
/// Build the inside of a region; gives the wires for its outputs.
fn region<T: Dataflow>(cx: &mut Cx, b: &mut T, parent: Node) -> Bu<Vec<Wire>> {
    let h = cx.h;
    let ch: Vec<Node> = h.children(parent).collect();
    let [i, o] = b.io();
    cx.nm.insert(ch[0], i); cx.nm.insert(ch[1], o);
    for n in order(h, parent, true) {
        if n == ch[0] || n == ch[1] { continue; }
        node(cx, b, n)?;
    }
    // order edges
    for n in h.children(parent) {
        if let Some(p) = h.get_optype(n).other_output_port() {
            for (m, _) in h.linked_inputs(n, p) {
                let (a, c) = (cx.nm[&n], cx.nm[&m]);
                if !has_order(b.hugr(), a, c) { b.set_order(&DataflowOpID::from(a), &DataflowOpID::from(c)); cx.use_("set_order"); }
            }
        }
    }
    let k = vins(h, ch[1]);
    Ok(cx.ins(ch[1], 0, k))
}
fn has_order(h: &Hugr, a: Node, b: Node) -> bool { h.get_optype(a).other_output_port().is_some_and(|p| h.linked_inputs(a, p).any(|x| x.0 == b)) }
fn node<T: Dataflow>(cx: &mut Cx, b: &mut T, n: Node) -> Bu<()> {
    let h = cx.h;
    if cx.nm.contains_key(&n) { return Ok(()); }
    let op = h.get_optype(n).clone();
    let k = op.value_input_count();
    let new: Node = match &op {
        OpType::Const(c) => {
            let uses: Vec<Node> = h.linked_inputs(n, OutgoingPort::from(0)).map(|x| x.0).collect();
            if uses.len() == 1 && h.get_parent(uses[0]) == h.get_parent(n) && cx.r.bool() {
                let w = b.add_load_value(c.value().clone()); cx.use_("add_load_value");
                cx.nm.insert(uses[0], w.node());
                b.hugr().static_source(w.node()).unwrap()
            } else { cx.use_("add_constant"); b.add_constant(c.clone()).node() }
        }
        OpType::LoadConstant(_) => { let c = cx.h.static_source(n).unwrap(); cx.use_("load_const"); let id = ConstID::from(cx.nm[&c]); b.load_const(&id).node() }
        OpType::LoadFunction(l) => {
            let f = cx.h.static_source(n).unwrap(); let m = cx.nm[&f];
            let mut a = l.type_args.clone(); if cx.here() { cx.mistake = Some("type arguments"); if a.pop().is_none() { a.push(usize_t().into()); } }
            cx.use_("load_func");
            if matches!(b.hugr().get_optype(m), OpType::FuncDefn(_)) { b.load_func(&FuncID::<true>::from(m), &a)?.node() } else { b.load_func(&FuncID::<false>::from(m), &a)?.node() }
        }
        OpType::Call(l) => {
            let f = cx.h.static_source(n).unwrap(); let m = cx.nm[&f];
            let mut a = l.type_args.clone(); if cx.here() { cx.mistake = Some("type arguments"); if a.pop().is_none() { a.push(usize_t().into()); } }
            let w = cx.ins(n, 0, k); cx.use_("call");
            if matches!(b.hugr().get_optype(m), OpType::FuncDefn(_)) { b.call(&FuncID::<true>::from(m), &a, w)?.node() } else { b.call(&FuncID::<false>::from(m), &a, w)?.node() }
        }
        OpType::Tag(t) if cx.r.bool() => {
            let w = cx.ins(n, 0, k);
            if t.variants.len() == 1 && cx.mistake.is_none() && cx.r.bool() {
                cx.use_("make_tuple"); let w = b.make_tuple(w)?; if h_op_differs(b.hugr(), w.node(), &op) { b.hugr(); cx.use_("make_tuple_op"); } w.node()
            } else { cx.use_("make_sum"); let tag = t.tag; b.make_sum(tag, t.variants.clone(), w)?.node() }
        }
        OpType::DFG(d) => {
            let w = cx.ins(n, 0, k);
            let same = d.signature.input == d.signature.output;
            let mut s = if same && cx.mistake.is_none() && cx.r.bool() { cx.use_("dfg_builder_endo"); b.dfg_builder_endo(tys(&d.signature.input, w))? } else { cx.use_("dfg_builder"); b.dfg_builder(d.signature.clone(), w)? };
            let outs = region(cx, &mut s, n)?;
            if cx.skip("outputs not set") { s.finish_sub_container()?.node() } else { s.finish_with_outputs(outs)?.node() }
        }
        OpType::Conditional(c) => {
            let mut w = cx.ins(n, 0, k);
            if w.is_empty() { return Err(BuildError::BasicBlockTooComplex); }
            let sum = w.remove(0); cx.use_("conditional_builder");
            let mut s = b.conditional_builder((c.sum_rows.clone(), sum), tys(&c.other_inputs, w), c.outputs.clone())?;
            let mut cs: Vec<(usize, Node)> = h.children(n).enumerate().collect();
            for i in (1..cs.len()).rev() { let j = cx.r.below(i + 1); cs.swap(i, j); }
            for (i, cn) in cs {
                if cx.skip("missing case") { continue; }
                let at = if cx.skip("no such case") { i + 7 } else { i };
                let mut cb = s.case_builder(at)?;
                cx.nm.insert(cn, cb.container_node());
                let outs = region(cx, &mut cb, cn)?;
                cb.finish_with_outputs(outs)?;
                if cx.skip("case twice") { s.case_builder(i)?; }
            }
            s.finish_sub_container()?.node()
        }
        OpType::TailLoop(l) => {
            let mut w = cx.ins(n, 0, k);
            let rest = if w.len() >= l.just_inputs.len() { w.split_off(l.just_inputs.len()) } else { vec![] };
            cx.use_("tail_loop_builder");
            let mut s = b.tail_loop_builder(tys(&l.just_inputs, w), tys(&l.rest, rest), l.just_outputs.clone())?;
            let mut outs = region(cx, &mut s, n)?;
            if outs.is_empty() { return Err(BuildError::BasicBlockTooComplex); } let f = outs.remove(0); s.finish_with_outputs(f, outs)?.node()
        }
        OpType::CFG(c) => {
            let w = cx.ins(n, 0, k); cx.use_("cfg_builder");
            let mut s = b.cfg_builder(tys(&c.signature.input, w), c.signature.output.clone())?;
            flow(cx, &mut s, n)?;
            s.finish_sub_container()?.node()
        }
        _ => { let w = cx.ins(n, 0, k); cx.use_("add_dataflow_op"); b.add_dataflow_op(op.clone(), w)?.node() }
    };
    for p in 0..b.hugr().get_optype(new).value_output_count() { cx.known.push(Wire::new(new, OutgoingPort::from(p))); }
    cx.nm.insert(n, new);
    Ok(())
}
fn h_op_differs(h: &Hugr, n: Node, op: &OpType) -> bool { crate::canon::cmp_op(h.get_optype(n), op, Default::default()).is_err() }
fn flow<B: AsMut<Hugr> + AsRef<Hugr>>(cx: &mut Cx, s: &mut CFGBuilder<B>, n: Node) -> Bu<()> {
    let h = cx.h;
    let ch: Vec<Node> = h.children(n).collect();
    cx.nm.insert(ch[1], s.exit_block().node());
    for bn in order(h, n, false) {
        match h.get_optype(bn) {
            OpType::Const(c) => { let id = s.add_constant(c.clone()); cx.nm.insert(bn, id.node()); }
            OpType::DataflowBlock(d) => {
                let simple = d.sum_rows.iter().all(|r| r.is_empty()) && cx.r.bool();
                let twice = bn != ch[0] && cx.skip("second entry");
                let mut bb = match (bn == ch[0] || twice, simple) {
                    (true, true) => { cx.use_("simple_entry_builder"); s.simple_entry_builder(d.other_outputs.clone(), d.sum_rows.len())? }
                    (true, false) => { cx.use_("entry_builder"); s.entry_builder(d.sum_rows.clone(), d.other_outputs.clone())? }
                    (false, true) => { cx.use_("simple_block_builder"); s.simple_block_builder(Signature::new(d.inputs.clone(), d.other_outputs.clone()), d.sum_rows.len())? }
                    (false, false) => { cx.use_("block_builder"); s.block_builder(d.inputs.clone(), d.sum_rows.clone(), d.other_outputs.clone())? }
                };
                cx.nm.insert(bn, bb.container_node());
                let mut outs = region(cx, &mut bb, bn)?;
                if outs.is_empty() || cx.skip("outputs not set") { bb.finish_sub_container()?; } else { let f = outs.remove(0); bb.finish_with_outputs(f, outs)?; }
            }
            _ => {}
        }
    }
    for bn in &ch {
        if !matches!(h.get_optype(*bn), OpType::DataflowBlock(_)) { continue; }
        for p in h.node_outputs(*bn) {
            if cx.skip("missing branch") { continue; }
            let (mut t, _) = h.linked_inputs(*bn, p).next().unwrap();
            if cx.skip("other branch target") { let bs: Vec<Node> = ch.iter().copied().filter(|x| !matches!(h.get_optype(*x), OpType::Const(_))).collect(); t = bs[cx.r.below(bs.len())]; }
            cx.use_("branch");
            s.branch(&BasicBlockID::from(cx.nm[bn]), p.index(), &BasicBlockID::from(cx.nm[&t]))?;
            if cx.skip("branch twice") { s.branch(&BasicBlockID::from(cx.nm[bn]), p.index(), &BasicBlockID::from(cx.nm[&t]))?; }
        }
    }
    Ok(())
}
fn build(cx: &mut Cx) -> Result<Hugr, String> {
    let h = cx.h;
    let e = |x: BuildError| format!("{x}");
    let mut m = ModuleBuilder::new();
    let early = cx.r.bool();
    cx.nm.insert(h.module_root(), m.container_node());
    for n in h.children(h.module_root()) {
        let id = match h.get_optype(n) {
            OpType::FuncDecl(f) => m.declare_vis(f.func_name(), f.signature().clone(), f.visibility().clone()).map_err(e)?.node(),
            OpType::FuncDefn(f) if early || uses(h, n) => { cx.use_("declare"); m.declare_vis(f.func_name(), f.signature().clone(), f.visibility().clone()).map_err(e)?.node() }
            OpType::Const(c) => m.add_constant(c.clone()).node(),
            OpType::AliasDecl(a) => m.add_alias_declare(a.name.clone(), a.bound).map_err(e)?.node(),
            OpType::AliasDefn(a) => m.add_alias_def(a.name.clone(), a.definition.clone()).map_err(e)?.node(),
            _ => continue,
        };
        cx.nm.insert(n, id);
    }
    for n in h.children(h.module_root()) {
        let OpType::FuncDefn(f) = h.get_optype(n) else { continue };
        let sig = f.signature().clone();
        // some inputs and outputs of functions without parameters are added later
        let late = !cx.nm.contains_key(&n) && sig.params().is_empty() && cx.r.bool();
        let mut fb = match cx.nm.get(&n).copied() {
            Some(d) => { cx.use_("define_declaration"); m.define_declaration(&FuncID::<false>::from(d)).map_err(e)? }
            None if late => {
                let (i, o) = (sig.body().input(), sig.body().output());
                let (ki, ko) = (cx.r.below(i.len() + 1), cx.r.below(o.len() + 1));
                let mut fb = m.define_function_vis(f.func_name(), Signature::new(i[..ki].to_vec(), o[..ko].to_vec()), f.visibility().clone()).map_err(e)?;
                for t in i[ki..].iter() { fb.add_input(t.clone()).map_err(|x| format!("{x}"))?; cx.use_("add_input"); }
                for t in o[ko..].iter() { fb.add_output(t.clone()).map_err(|x| format!("{x}"))?; cx.use_("add_output"); }
                fb
            }
            None => { cx.use_("define_function"); m.define_function_vis(f.func_name(), sig, f.visibility().clone()).map_err(e)? }
        };
        cx.nm.insert(n, fb.container_node());
        let outs = region(cx, &mut fb, n).map_err(e)?;
        if cx.skip("outputs not set") { fb.finish_sub_container().map_err(e)?; } else { fb.finish_with_outputs(outs).map_err(e)?; }
    }
    m.finish_hugr().map_err(|x| format!("{x}"))
}
fn uses(h: &Hugr, n: Node) -> bool { h.linked_inputs(n, OutgoingPort::from(0)).next().is_some() }
/// The new program is the old one, node by node.
fn alike(h: &Hugr, g: &Hugr, nm: &HashMap<Node, Node>) -> Result<(), String> {
    if h.num_nodes() != g.num_nodes() { return Err(format!("{} nodes instead of {}", g.num_nodes(), h.num_nodes())); }
    let back: HashMap<Node, Node> = nm.iter().map(|(a, b)| (*b, *a)).collect();
    for n in h.nodes() {
        let Some(m) = nm.get(&n) else { return Err(format!("nothing was built for {n}")) };
        let (a, b) = (h.get_optype(n), g.get_optype(*m));
        crate::canon::cmp_op(a, b, Default::default()).map_err(|x| format!("{} became {}: {x}", describe(a), describe(b)))?;
        if h.get_parent(n).map(|p| nm[&p]) != g.get_parent(*m) { return Err(format!("{} is in another region", describe(a))); }
        for p in h.node_inputs(n) {
            let kind = a.port_kind(p);
            let mut x: Vec<(Node, OutgoingPort)> = h.linked_outputs(n, p).map(|(s, q)| (nm[&s], q)).collect();
            let mut y: Vec<(Node, OutgoingPort)> = g.linked_outputs(*m, p).collect();
            if kind == Some(EdgeKind::StateOrder) {
                for (s, _) in &x { if !y.iter().any(|t| t.0 == *s) { return Err("an order edge is missing".into()); } }
                for (s, _) in &y {
                    if x.iter().any(|t| t.0 == *s) { continue; }
                    let inside: HashSet<Node> = g.descendants(*m).collect();
                    if !g.node_outputs(*s).any(|q| matches!(g.get_optype(*s).port_kind(q), Some(EdgeKind::Value(_))) && g.linked_inputs(*s, q).any(|t| t.0 != *m && inside.contains(&t.0))) { return Err("an order edge nobody asked for".into()); }
                }
                continue;
            }
            x.sort(); y.sort();
            if x != y { return Err(format!("{} input {p}: from {y:?}, not {x:?}", describe(a))); }
        }
        if matches!(a, OpType::Conditional(_)) || matches!(a, OpType::CFG(_)) {
            let k = if matches!(a, OpType::CFG(_)) { 2 } else { usize::MAX };
            if !h.children(n).take(k).map(|c| nm[&c]).eq(g.children(*m).take(k)) { return Err(format!("order of the children of {}", describe(a))); }
        }
    }
    let _ = back;
    Ok(())
}
fn case(o: &mut Obs, seed: u64, idx: u64) {
    let mut r = rng(seed, idx, 2);
    let mut cfg = dev_cfg(Cfg { size: if o.thorough { *r.pick(&[20, 60, 120]) } else { *r.pick(&[10, 25, 50]) }, dead_blocks: r.bool(), ..Cfg::default() }.vary(&mut r));
    cfg.meta = false;
    let Some(p) = prog(o, seed, idx, &cfg) else { return };
    let s0 = r.u64();
    let cx = |at: usize, s: u64| Cx { h: &p.hugr, nm: HashMap::new(), r: Rng::new(s), known: vec![], calls: 0, at, mistake: None, used: Default::default() };
    let mut c = cx(0, s0);
    let Some(g) = o.guard("build", || build(&mut c)) else { return };
    for (k, v) in &c.used { o.add(format!("call:{k}"), *v); }
    match g {
        Err(e) => { o.bad(format!("refused|{}", short(&e)), format!("a correct sequence of calls fails: {e}")); return; }
        Ok(g) => {
            o.n("rebuilt"); o.add("nodes_compared", g.num_nodes() as u64);
            if c.used.contains_key("make_tuple_op") { o.n("tuples_by_operation"); } else if let Err(e) = alike(&p.hugr, &g, &c.nm) { o.bad(format!("differs|{}", short(&e)), e); return; }
            if let Err(e) = crate::props::c01::spec(&g) { if e != "?" { o.bad("built invalid", format!("correct calls give an invalid program: {e}")); return; } }
            o.saws(&outline(&g));
        }
    }
    let n = c.calls;
    for k in 0..if o.thorough { 40 } else { 16 } {
        let at = 1 + r.below(n.max(1));
        let mut c = cx(at, if k % 2 == 0 { s0 } else { r.u64() });
        let res = crate::driver::quiet_catch(|| build(&mut c));
        let Some(what) = c.mistake else { o.n("no_mistake"); continue };
        o.n("mistakes"); o.n(format!("mistake:{what}"));
        match res {
            Err(pn) => { if pn.harness() { o.n("harness_panic"); if o.verbose { eprintln!("HARNESS PANIC {pn:?}"); } } else { o.bad(format!("mistake|panic|{}", pn.key()), format!("{what}: panic at {}:{}: {}", pn.file, pn.line, pn.msg)); if !o.verbose { return; } } }
            Ok(Err(_)) => { o.n("errors"); o.saw(crate::rng::mix(&[seed, idx, at as u64, k])); }
            Ok(Ok(g)) => {
                o.n("mistakes_finished");
                if let Err(e) = crate::props::c01::spec(&g) { if e != "?" { o.bad(format!("mistake finished|{e}"), format!("{what}: the finished program is invalid: {e}")); return; } }
                // the functions asked for
                let sigs = |h: &Hugr| h.children(h.module_root()).filter(|n| matches!(h.get_optype(*n), OpType::FuncDefn(_) | OpType::FuncDecl(_))).map(|n| sig_of(h, n)).collect::<std::collections::BTreeSet<_>>();
                if sigs(&p.hugr) != sigs(&g) { o.bad("mistake finished|interface", format!("{what}: other signatures than asked for")); return; }
            }
        }
    }
    standalone(o, &mut r, &p.hugr);
    circuit(o, &mut r);
    o.note(|| format!("program of {} nodes built with {n} calls that take wires", p.hugr.num_nodes()));
}
fn closed(h: &Hugr, n: Node) -> bool {
    let inside: HashSet<Node> = h.descendants(n).collect();
    h.descendants(n).skip(1).all(|d| h.node_inputs(d).all(|p| h.linked_outputs(d, p).all(|(s, _)| inside.contains(&s))) && h.node_outputs(d).all(|p| h.linked_inputs(d, p).all(|(s, _)| inside.contains(&s))))
        && !format!("{}", outline_of(h, n)).contains("Variable")
}
fn outline_of(h: &Hugr, n: Node) -> String { h.descendants(n).map(|d| format!("{:?}", h.get_optype(d))).collect() }
/// Builders of single regions.
fn standalone(o: &mut Obs, r: &mut Rng, h: &Hugr) {
    let c: Vec<Node> = h.nodes().filter(|n| matches!(h.get_optype(*n), OpType::DFG(_) | OpType::TailLoop(_) | OpType::Conditional(_) | OpType::CFG(_) | OpType::FuncDefn(_) | OpType::Case(_)) && closed(h, *n)).collect();
    if c.is_empty() { return; }
    let n = c[r.below(c.len())];
    let op = h.get_optype(n).clone();
    let mut cx = Cx { h, nm: HashMap::new(), r: Rng::new(r.u64()), known: vec![], calls: 0, at: 0, mistake: None, used: Default::default() };
    let e = |x: BuildError| format!("{x}");
    let kind = crate::props::c09::optype_name(&op);
    let res: Option<Result<Hugr, String>> = o.guard("standalone", || match &op {
        OpType::DFG(d) => { let mut b = DFGBuilder::new(d.signature.clone()).map_err(e)?; cx.nm.insert(n, b.container_node()); let w = region(&mut cx, &mut b, n).map_err(e)?; b.finish_hugr_with_outputs(w).map_err(e) }
        OpType::FuncDefn(f) => { let mut b = FunctionBuilder::new_vis(f.func_name(), f.signature().clone(), f.visibility().clone()).map_err(e)?; cx.nm.insert(n, b.container_node()); let w = region(&mut cx, &mut b, n).map_err(e)?; b.finish_hugr_with_outputs(w).map_err(e) }
        OpType::TailLoop(l) => { let mut b = TailLoopBuilder::new(l.just_inputs.clone(), l.rest.clone(), l.just_outputs.clone()).map_err(e)?; cx.nm.insert(n, b.container_node()); let mut w = region(&mut cx, &mut b, n).map_err(e)?; let f = w.remove(0); b.set_outputs(f, w).map_err(e)?; b.finish_hugr().map_err(|x| x.to_string()) }
        OpType::CFG(c) => { let mut b = CFGBuilder::new(c.signature.clone()).map_err(e)?; cx.nm.insert(n, b.container_node()); flow(&mut cx, &mut b, n).map_err(e)?; b.finish_hugr().map_err(|x| x.to_string()) }
        OpType::Case(c) => { let mut b = CaseBuilder::new(c.signature.clone()).map_err(e)?; let w = region(&mut cx, &mut b, n).map_err(e)?; b.finish_hugr_with_outputs(w).map_err(e) }
        OpType::Conditional(c) => {
            let mut b = ConditionalBuilder::new(c.sum_rows.clone(), c.other_inputs.clone(), c.outputs.clone()).map_err(e)?;
            cx.nm.insert(n, b.container_node());
            let mut cs: Vec<(usize, Node)> = h.children(n).enumerate().collect();
            for i in (1..cs.len()).rev() { let j = cx.r.below(i + 1); cs.swap(i, j); }
            for (i, cn) in cs { let mut cb = b.case_builder(i).map_err(e)?; cx.nm.insert(cn, cb.container_node()); let w = region(&mut cx, &mut cb, cn).map_err(e)?; cb.finish_with_outputs(w).map_err(e)?; }
            b.finish_hugr().map_err(|x| x.to_string())
        }
        _ => Err("?".into()),
    });
    let Some(res) = res else { return };
    match res {
        Err(x) => o.bad(format!("standalone {kind} refused|{}", short(&x)), format!("building a {kind} on its own fails: {x}")),
        Ok(g) => {
            o.n(format!("standalone:{kind}"));
            if let Err(x) = crate::props::c01::spec(&g) { if x != "?" { o.bad("standalone invalid", x); return; } }
            if matches!(op, OpType::Case(_)) { return; }
            if crate::canon::cmp_op(&op, g.entrypoint_optype(), Default::default()).is_err() { o.bad("standalone interface", format!("asked for {}, got {}", describe(&op), describe(g.entrypoint_optype()))); return; }
            // the region itself
            for d in h.descendants(n).skip(1) {
                let Some(m) = cx.nm.get(&d) else { o.bad("standalone differs", format!("nothing was built for {d}")); return };
                for q in h.node_inputs(d) { if h.get_optype(d).port_kind(q) == Some(EdgeKind::StateOrder) { continue; } let mut x: Vec<_> = h.linked_outputs(d, q).map(|(s, t)| (cx.nm[&s], t)).collect(); let mut y: Vec<_> = g.linked_outputs(*m, q).collect(); x.sort(); y.sort(); if x != y { o.bad("standalone differs", format!("input {q} of {}", describe(h.get_optype(d)))); return; } }
            }
        }
    }
}
/// Circuits: operations on tracked wires; the tracked wires must be those the calls say.
fn circuit(o: &mut Obs, r: &mut Rng) {
    use crate::ext;
    use hugr_core::std_extensions::arithmetic::int_types::int_type;
    let k = 1 + r.below(4);
    // some wires hold numbers, some tokens
    let kinds: Vec<bool> = (0..k).map(|_| r.bool()).collect();
    let row: Vec<Type> = kinds.iter().map(|t| if *t { ext::tok() } else { int_type(5) }).collect();
    let steps: Vec<u64> = (0..r.below(8)).map(|_| r.u64()).collect();
    let wrong = r.chance(1, 4).then(|| r.below(steps.len().max(1)));
    let mut model: Vec<Option<Wire>> = vec![];
    let mut free: Vec<Wire> = vec![];
    let res = o.guard("circuit", || -> Result<Result<Hugr, String>, BuildError> {
        let mut b = DFGBuilder::new(Signature::new(row.clone(), row.clone()))?;
        let ws: Vec<Wire> = b.input_wires().collect();
        model.extend(ws.iter().map(|w| Some(*w)));
        let mut c = b.as_circuit(ws);
        let mut tk = kinds.clone();
        for (j, s) in steps.iter().enumerate() {
            let mut rr = Rng::new(*s);
            let ix: Vec<usize> = (0..model.len()).filter(|i| model[*i].is_some()).collect();
            if ix.is_empty() { break; }
            let mut i = ix[rr.below(ix.len())];
            if Some(j) == wrong { i = model.len() + rr.below(3); match c.append(ext::op1("fx", 1), [i]) { Err(_) => return Ok(Err("an index without a wire".into())), Ok(_) => return Ok(Err("MISSED an index without a wire".into())) } }
            match rr.below(5) {
                0 if !tk[i] => { c.append(ext::op1("fx", *s % 9), [i])?; let n = c.tracked_wire(i).unwrap(); model[i] = Some(n); }
                1 if !tk[i] && free.len() < 9 => { // a plain wire goes in beside a tracked one, the other output is new
                    let other = c.tracked_wire(i).unwrap();
                    let outs = c.append_with_outputs(ext::op1("mix", *s % 9), [CircuitUnitW::Wire(other), CircuitUnitW::Wire(other)])?;
                    if outs.len() != 1 || c.tracked_wire(i) != Some(other) { return Ok(Err("MISSED outputs of an operation on plain wires".into())); }
                    free.push(outs[0]);
                }
                2 => { if tk[i] { let n = ix.iter().copied().find(|x| !tk[*x]); if let Some(n) = n { c.append(ext::op1("tuse", *s % 9), [i, n])?; model[i] = c.tracked_wire(i); model[n] = c.tracked_wire(n); let (a, b2) = (model[i].unwrap(), model[n].unwrap()); if a.node() != b2.node() || a.source().index() != 0 || b2.source().index() != 1 { return Ok(Err("MISSED order of outputs".into())); } } } }
                3 => { let w = c.untrack_wire(i)?; if Some(w) != model[i] || c.tracked_wire(i).is_some() { return Ok(Err("MISSED untracked wire".into())); } let nw = c.track_wire(w); if nw != model.len() { return Ok(Err("MISSED new index".into())); } model[i] = None; model.push(Some(w)); let t = tk[i]; tk.push(t); }
                _ => {}
            }
            if c.n_wires() != model.iter().flatten().count() || !c.tracked_units().eq((0..model.len()).filter(|i| model[*i].is_some())) { return Ok(Err("MISSED tracked units".into())); }
            for (i, m) in model.iter().enumerate() { if c.tracked_wire(i) != *m { return Ok(Err("MISSED a tracked wire changed".into())); } }
        }
        let outs = c.finish();
        if !outs.iter().copied().eq(model.iter().flatten().copied()) { return Ok(Err("MISSED wires at the end".into())); }
        // back into the order of the types
        let mut outs = outs;
        let ty = |b: &DFGBuilder<Hugr>, w: Wire| b.get_wire_type(w).map(|t| t == ext::tok());
        let mut sorted = vec![];
        for t in &kinds { let mut at = None; for (q, w) in outs.iter().enumerate() { if ty(&b, *w)? == *t { at = Some(q); break; } } if let Some(q) = at { sorted.push(outs.remove(q)); } }
        Ok(b.finish_hugr_with_outputs(sorted).map_err(|e| e.to_string()))
    });
    match res {
        None => {}
        Some(Err(e)) => o.bad(format!("circuit|{}", short(&e.to_string())), format!("building a circuit fails: {e}")),
        Some(Ok(Err(e))) => if e.starts_with("an index") { o.n("circuit_refused") } else { o.bad(format!("circuit|{}", short(&e)), e) },
        Some(Ok(Ok(g))) => { o.n("circuits"); if let Err(e) = crate::props::c01::spec(&g) { o.bad("circuit|invalid", e); } }
    }
}
use hugr_core::CircuitUnit as CircuitUnitW;
pub fn prop() -> Prop {
    Prop { id: "C02", case, rule: "a generated program was rebuilt through the builders, correctly (and compared node by node) or with a mistake at one call", need: &["rebuilt", "nodes_compared", "mistakes", "errors", "circuits", "call:call", "call:load_func", "call:make_sum", "call:add_input", "call:define_declaration", "call:block_builder", "call:branch", "call:conditional_builder", "call:tail_loop_builder", "standalone:DFG", "standalone:other", "standalone:CFG"], quick_s: 20, thorough_s: 300, min_cases: 60, max_cases: 20000 }
}
