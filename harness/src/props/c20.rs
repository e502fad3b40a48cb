//! Laws of types, type arguments and substitution.
use crate::driver::{Obs, Prop};
use crate::rng::Rng;
use crate::util::*;
use hugr_core::extension::{Extension, ExtensionId, TypeDefBound};
use hugr_core::ops::AliasDecl;
use hugr_core::types::type_param::{check_term_type, check_term_types, TypeParam};
use hugr_core::types::{CustomType, FuncValueType, PolyFuncTypeRV, SumType, Term, Type, TypeArg, TypeBound, TypeEnum, TypeName, TypeRV, TypeRowRV};
use std::hash::{Hash, Hasher};
use std::sync::{Arc, LazyLock};
use TypeBound::{Copyable, Linear};

/// Kinds.
#[derive(Clone, Debug, PartialEq)]
enum K { Ty(TypeBound), Nat(Option<u64>), Str, Bytes, Flt, List(Box<K>), Tup(Vec<K>), Static }
/// Types.
#[derive(Clone, Debug, PartialEq)]
enum Y { Fn(Vec<Y>, Vec<Y>), Sum(Vec<Vec<Y>>), Var(usize, TypeBound), Row(usize, TypeBound), Ext(usize, Vec<A>), Alias(TypeBound) }
/// Arguments.
#[derive(Clone, Debug, PartialEq)]
enum A { Ty(Y), Nat(u64), Str(String), Bytes(Vec<u8>), Flt(f64), List(Vec<P>, bool), Tup(Vec<P>), Var(usize, K), Kind(K) }
#[derive(Clone, Debug, PartialEq)]
enum P { Item(A), Splice(A) }

const ID: ExtensionId = ExtensionId::new_unchecked("verif.ty");
fn list(k: K) -> K { K::List(Box::new(k)) }
/// The declared types: parameters and, where fixed, the bound (else: that of the parameters).
static DEFS: LazyLock<Vec<(Vec<K>, Result<TypeBound, Vec<usize>>)>> = LazyLock::new(|| vec![
    (vec![K::Ty(Linear)], Err(vec![0])), (vec![K::Ty(Linear), K::Nat(None), K::Ty(Linear)], Err(vec![0, 2])), (vec![K::Ty(Linear), K::Ty(Linear)], Err(vec![1])),
    (vec![K::Ty(Copyable)], Ok(Linear)), (vec![], Ok(Copyable)), (vec![], Ok(Linear)),
    (vec![list(K::Ty(Linear))], Ok(Linear)), (vec![list(K::Ty(Copyable)), K::Str], Ok(Copyable)), (vec![list(K::Nat(Some(10)))], Ok(Copyable)), (vec![K::Nat(Some(5)), K::Bytes], Ok(Copyable)),
    (vec![K::Tup(vec![K::Str, K::Ty(Copyable)])], Ok(Linear)), (vec![K::Tup(vec![K::Nat(None), list(K::Str), K::Flt])], Ok(Copyable)), (vec![list(K::Tup(vec![K::Str, K::Nat(None)]))], Ok(Copyable)),
    (vec![list(list(K::Str))], Ok(Copyable)), (vec![list(list(K::Ty(Linear)))], Ok(Copyable)), (vec![K::Flt, K::Str], Ok(Linear)), (vec![K::Static], Ok(Copyable)),
]);
static EXT: LazyLock<Arc<Extension>> = LazyLock::new(|| Extension::new_arc(ID, semver::Version::new(0, 1, 0), |e, r| {
    for (i, (ks, b)) in DEFS.iter().enumerate() {
        e.add_type(TypeName::new(format!("t{i}")), ks.iter().map(kind).collect(), "".into(), match b { Ok(b) => TypeDefBound::Explicit { bound: *b }, Err(v) => TypeDefBound::from_params(v.clone()) }, r).unwrap();
    }
}));
fn kind(k: &K) -> TypeParam {
    match k { K::Ty(b) => Term::RuntimeType(*b), K::Nat(None) => Term::max_nat_type(), K::Nat(Some(n)) => Term::bounded_nat_type((*n).try_into().unwrap()), K::Str => Term::StringType, K::Bytes => Term::BytesType, K::Flt => Term::FloatType, K::List(k) => Term::new_list_type(kind(k)), K::Tup(ks) => Term::new_tuple_type(ks.iter().map(kind).collect::<Vec<_>>()), K::Static => Term::StaticType }
}
fn join(bs: impl IntoIterator<Item = TypeBound>) -> TypeBound { if bs.into_iter().all(|b| b == Copyable) { Copyable } else { Linear } }
fn bound(y: &Y) -> TypeBound {
    match y {
        Y::Fn(..) => Copyable, Y::Sum(rows) => join(rows.iter().flatten().map(bound)), Y::Var(_, b) | Y::Row(_, b) | Y::Alias(b) => *b,
        Y::Ext(d, args) => match &DEFS[*d].1 { Ok(b) => *b, Err(v) => join(v.iter().map(|i| match &args[*i] { A::Ty(y) => bound(y), _ => Linear })) },
    }
}
fn within(b: TypeBound, a: TypeBound) -> bool { b == Linear || a == Copyable }
// ---- to the library's terms
fn row(ys: &[Y]) -> TypeRowRV { ys.iter().map(ty_rv).collect::<Vec<_>>().into() }
fn ty_rv(y: &Y) -> TypeRV { match y { Y::Row(i, b) => TypeRV::new_row_var_use(*i, *b), y => ty(y).into() } }
fn ty(y: &Y) -> Type {
    match y {
        Y::Fn(a, b) => Type::new_function(FuncValueType::new(row(a), row(b))), Y::Sum(rows) => Type::new_sum(rows.iter().map(|r| row(r))), Y::Var(i, b) => Type::new_var_use(*i, *b),
        Y::Alias(b) => Type::new_alias(AliasDecl::new("al", *b)),
        Y::Ext(d, args) => CustomType::new(TypeName::new(format!("t{d}")), args.iter().map(term).collect::<Vec<_>>(), ID, bound(y), &Arc::downgrade(&EXT)).into(),
        Y::Row(..) => unreachable!("row variable as a type"),
    }
}
fn seq(ps: &[P], mk: fn(Vec<Term>) -> Term, cat: fn(Vec<Term>) -> Term) -> Term {
    if ps.iter().all(|p| matches!(p, P::Item(_))) { return mk(ps.iter().map(|p| match p { P::Item(a) => term(a), _ => unreachable!() }).collect()); }
    let (mut out, mut run) = (vec![], vec![]);
    for p in ps { match p { P::Item(a) => run.push(term(a)), P::Splice(a) => { if !run.is_empty() { out.push(mk(std::mem::take(&mut run))); } out.push(term(a)); } } }
    if !run.is_empty() { out.push(mk(run)); }
    cat(out)
}
fn term(a: &A) -> Term {
    match a {
        A::Ty(y) => ty(y).into(), A::Nat(n) => Term::BoundedNat(*n), A::Str(s) => Term::String(s.clone()), A::Bytes(b) => Term::Bytes(b.clone().into()), A::Flt(f) => Term::Float((*f).into()), A::Var(i, k) => Term::new_var_use(*i, kind(k)), A::Kind(k) => kind(k),
        // row variables may stand directly among types
        A::List(ps, direct) => if *direct && ps.iter().all(|p| matches!(p, P::Item(A::Ty(_))) || matches!(p, P::Splice(A::Var(_, K::List(k))) if matches!(**k, K::Ty(_)))) { Term::List(ps.iter().map(|p| match p { P::Item(a) | P::Splice(a) => term(a) }).collect()) } else { seq(ps, Term::List, Term::ListConcat) },
        A::Tup(ps) => seq(ps, Term::Tuple, Term::TupleConcat),
    }
}
// ---- a canonical form of the library's terms
fn n_row(r: &TypeRowRV) -> String { r.iter().map(n_rv).collect::<Vec<_>>().join(", ") }
fn n_rv(t: &TypeRV) -> String {
    match t.as_type_enum() {
        TypeEnum::RowVar(v) => format!("..{v:?}"),
        TypeEnum::Variable(i, b) => format!("v{i}:{b:?}"),
        TypeEnum::Alias(a) => format!("{a:?}"),
        TypeEnum::Function(f) => format!("fn({} -> {})", n_row(f.input()), n_row(f.output())),
        TypeEnum::Sum(s) => format!("sum({})", s.variants().map(|r| format!("[{}]", n_row(r))).collect::<Vec<_>>().join("")),
        TypeEnum::Extension(c) => format!("{}.{}<{}>:{:?}", c.extension(), c.name(), c.args().iter().map(n_term).collect::<Vec<_>>().join("; "), c.bound()),
        x => format!("{x:?}"),
    }
}
fn n_parts(t: &Term, out: &mut Vec<String>) {
    match t {
        Term::List(es) => { for e in es { match e { Term::Variable(v) if v.bound_if_row_var().is_some() => out.push(format!("..{}", n_term(e))), e => out.push(n_term(e)) } } }
        Term::Tuple(es) => { for e in es { out.push(n_term(e)); } }
        Term::ListConcat(ls) | Term::TupleConcat(ls) => { for l in ls { n_parts(l, out); } }
        t => out.push(format!("..{}", n_term(t))),
    }
}
fn n_term(t: &Term) -> String {
    match t {
        Term::Runtime(t) => n_rv(&t.clone().into()),
        Term::List(_) | Term::ListConcat(_) => { let mut v = vec![]; n_parts(t, &mut v); format!("list[{}]", v.join(", ")) }
        Term::Tuple(_) | Term::TupleConcat(_) => { let mut v = vec![]; n_parts(t, &mut v); format!("tuple[{}]", v.join(", ")) }
        Term::ListType(k) => format!("List {}", n_term(k)),
        Term::TupleType(k) => format!("Tuple {}", n_term(k)),
        t => format!("{t:?}"),
    }
}
fn n_sig(f: &FuncValueType) -> String { format!("{} -> {}", n_row(f.input()), n_row(f.output())) }
// ---- the meaning of substitution
fn flat(ps: Vec<P>) -> Vec<P> {
    ps.into_iter().flat_map(|p| match p { P::Splice(A::List(q, _)) | P::Splice(A::Tup(q)) => flat(q), p => vec![p] }).collect()
}
fn s_row(r: &[Y], s: &[A]) -> Vec<Y> {
    r.iter().flat_map(|y| match y {
        Y::Row(i, _) => match &s[*i] {
            A::List(ps, _) => flat(ps.clone()).into_iter().map(|p| match p { P::Item(A::Ty(y)) => y, P::Splice(A::Var(j, K::List(k))) => match *k { K::Ty(b) => Y::Row(j, b), _ => unreachable!() }, p => unreachable!("{p:?}") }).collect(),
            A::Var(j, K::List(k)) => match **k { K::Ty(b) => vec![Y::Row(*j, b)], _ => unreachable!() },
            a => unreachable!("{a:?}"),
        },
        y => vec![s_ty(y, s)],
    }).collect()
}
fn s_ty(y: &Y, s: &[A]) -> Y {
    match y {
        Y::Fn(a, b) => Y::Fn(s_row(a, s), s_row(b, s)), Y::Sum(rs) => Y::Sum(rs.iter().map(|r| s_row(r, s)).collect()), Y::Alias(b) => Y::Alias(*b), Y::Ext(d, a) => Y::Ext(*d, a.iter().map(|a| s_arg(a, s)).collect()),
        Y::Var(i, _) => match &s[*i] { A::Ty(y) => y.clone(), a => unreachable!("{a:?}") }, Y::Row(..) => unreachable!(),
    }
}
fn s_arg(a: &A, s: &[A]) -> A {
    let parts = |ps: &[P]| flat(ps.iter().map(|p| match p { P::Item(a) => P::Item(s_arg(a, s)), P::Splice(a) => P::Splice(s_arg(a, s)) }).collect());
    match a { A::Ty(y) => A::Ty(s_ty(y, s)), A::List(ps, d) => A::List(parts(ps), *d), A::Tup(ps) => A::Tup(parts(ps)), A::Var(i, _) => s[*i].clone(), a => a.clone() }
}
// ---- which arguments fit
fn sup(k: &K, d: &K) -> bool {
    match (k, d) { (K::Ty(a), K::Ty(b)) => within(*a, *b), (K::Nat(None), K::Nat(_)) => true, (K::Nat(Some(a)), K::Nat(Some(b))) => a >= b, (K::List(a), K::List(b)) => sup(a, b), (K::Tup(a), K::Tup(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| sup(a, b)), (a, b) => a == b }
}
fn fits(a: &A, k: &K) -> Option<bool> {
    let all = |v: Vec<Option<bool>>| if v.contains(&Some(false)) { Some(false) } else if v.contains(&None) { None } else { Some(true) };
    Some(match (a, k) {
        (A::Var(_, d), k) => sup(k, d),
        (A::Ty(y), K::Ty(b)) => within(*b, bound(y)),
        // (row variables standing directly in a list may also be read as its items)
        (A::List(ps, true), K::List(e)) if matches!(**e, K::List(_)) && ps.iter().any(|p| matches!(p, P::Splice(A::Var(..)))) => return None,
        (A::List(ps, _), K::List(e)) => return all(ps.iter().map(|p| match p { P::Item(a) => fits(a, e), P::Splice(a) => fits(a, k) }).collect()),
        // (open tuples are not checked by the library)
        (A::Tup(ps), K::Tup(ks)) => { let f = flat(ps.clone()); if f.iter().any(|p| matches!(p, P::Splice(_))) { return None; } return if f.len() != ks.len() { Some(false) } else { all(f.iter().zip(ks).map(|(p, k)| match p { P::Item(a) | P::Splice(a) => fits(a, k) }).collect()) }; }
        (A::Nat(n), K::Nat(b)) => b.is_none_or(|b| *n < b),
        (A::Str(_), K::Str) | (A::Bytes(_), K::Bytes) | (A::Flt(_), K::Flt) | (A::Kind(_), K::Static) => true,
        _ => false,
    })
}
// ---- generation
fn g_kind(r: &mut Rng, d: usize) -> K {
    match r.below(if d == 0 { 8 } else { 12 }) { 0..=2 => K::Ty(if r.bool() { Copyable } else { Linear }), 3 => K::Nat(None), 4 => K::Nat(Some(*r.pick(&[1, 5, 10]))), 5 => K::Str, 6 => *r.pick_opt(&[K::Bytes, K::Flt]).map(|k| Box::new(k.clone())).unwrap(), 7 | 8 | 9 => list(if r.bool() { K::Ty(if r.bool() { Copyable } else { Linear }) } else { g_kind(r, d.saturating_sub(2)) }), _ => K::Tup((0..r.below(4)).map(|_| g_kind(r, d - 1)).collect()) }
}
fn vars(r: &mut Rng, ds: &[K], k: &K) -> Option<(usize, K)> { let v: Vec<usize> = (0..ds.len()).filter(|i| sup(k, &ds[*i])).collect(); r.pick_opt(&v).map(|i| (*i, ds[*i].clone())) }
fn g_row(r: &mut Rng, ds: &[K], b: TypeBound, d: usize) -> Vec<Y> {
    let n = r.below(4);
    (0..n).map(|_| if r.chance(1, 3) { match vars(r, ds, &list(K::Ty(b))) { Some((i, K::List(k))) => match *k { K::Ty(b) => Y::Row(i, b), _ => unreachable!() }, _ => g_ty(r, ds, b, d) } } else { g_ty(r, ds, b, d) }).collect()
}
fn g_ty(r: &mut Rng, ds: &[K], b: TypeBound, d: usize) -> Y {
    if r.chance(1, 3) { if let Some((i, K::Ty(b))) = vars(r, ds, &K::Ty(b)) { return Y::Var(i, b); } }
    match r.below(if d == 0 { 3 } else { 7 }) {
        0 => Y::Sum(vec![vec![]; r.below(4)]), 1 => Y::Ext(4, vec![]), 2 => if b == Linear { Y::Ext(5, vec![]) } else { Y::Alias(Copyable) },
        3 => Y::Fn(g_row(r, ds, Linear, d - 1), g_row(r, ds, Linear, d - 1)),
        4 => Y::Sum((0..r.below(4)).map(|_| g_row(r, ds, b, d - 1)).collect()),
        _ => {
            let i = r.below(DEFS.len());
            let (ks, eb) = &DEFS[i];
            if b == Copyable && *eb == Ok(Linear) { return Y::Ext(4, vec![]); }
            Y::Ext(i, ks.iter().enumerate().map(|(j, k)| match (k, eb) { (K::Ty(_), Err(v)) if v.contains(&j) => A::Ty(g_ty(r, ds, b, d - 1)), (k, _) => g_arg(r, ds, k, d - 1) }).collect())
        }
    }
}
fn g_parts(r: &mut Rng, ds: &[K], k: &K, e: &K, d: usize) -> Vec<P> {
    let n = r.below(4);
    (0..n).map(|_| {
        if r.chance(1, 3) { if let Some((i, k)) = vars(r, ds, k) { return P::Splice(A::Var(i, k)); } }
        if r.chance(1, 8) && d > 0 { return P::Splice(A::List(g_parts(r, ds, k, e, d - 1), false)); }
        // (a list of row variables that are items, not spliced, cannot be told apart)
        if matches!(e, K::List(x) if matches!(**x, K::Ty(_))) { return P::Item(A::List(g_parts(r, ds, e, match e { K::List(x) => x, _ => unreachable!() }, d.saturating_sub(1)), r.bool())); }
        P::Item(g_arg(r, ds, e, d.saturating_sub(1)))
    }).collect()
}
fn g_arg(r: &mut Rng, ds: &[K], k: &K, d: usize) -> A {
    if r.chance(1, 4) && !matches!(k, K::Ty(_)) { if let Some((i, k)) = vars(r, ds, k) { return A::Var(i, k); } }
    match k {
        K::Ty(b) => A::Ty(g_ty(r, ds, *b, d)), K::Nat(b) => A::Nat(r.below(b.unwrap_or(1000) as usize) as u64), K::Str => A::Str(r.pick(&["", "a", "λ b"]).to_string()), K::Bytes => A::Bytes((0..r.below(4)).map(|_| r.below(256) as u8).collect()), K::Flt => A::Flt(*r.pick(&[0.0, 1.5, -2.25, 1e10])),
        K::List(e) => A::List(g_parts(r, ds, k, e, d), r.bool()),
        K::Tup(ks) => { let mut ps: Vec<P> = ks.iter().map(|k| P::Item(g_arg(r, ds, k, d.saturating_sub(1)))).collect(); if r.chance(1, 4) { let i = r.below(ps.len() + 1); let t = ps.split_off(i); ps = vec![P::Splice(A::Tup(ps)), P::Splice(A::Tup(t))]; } A::Tup(ps) }
        K::Static => A::Kind(g_kind(r, 1)),
    }
}
fn g_decls(r: &mut Rng) -> Vec<K> { (0..r.below(6)).map(|_| g_kind(r, 2)).collect() }
/// Variables and the kinds they are used at.
fn uses_y(y: &Y, u: &mut Vec<(usize, K)>) {
    match y { Y::Fn(a, b) => a.iter().chain(b).for_each(|y| uses_y(y, u)), Y::Sum(rs) => rs.iter().flatten().for_each(|y| uses_y(y, u)), Y::Var(i, b) => u.push((*i, K::Ty(*b))), Y::Row(i, b) => u.push((*i, list(K::Ty(*b)))), Y::Ext(_, a) => a.iter().for_each(|a| uses_a(a, u)), Y::Alias(_) => {} }
}
fn uses_a(a: &A, u: &mut Vec<(usize, K)>) {
    match a { A::Ty(y) => uses_y(y, u), A::List(p, _) | A::Tup(p) => p.iter().for_each(|p| match p { P::Item(a) | P::Splice(a) => uses_a(a, u) }), A::Var(i, k) => u.push((*i, k.clone())), _ => {} }
}
fn poly(ds: &[K], f: &(Vec<Y>, Vec<Y>)) -> PolyFuncTypeRV { PolyFuncTypeRV::new(ds.iter().map(kind).collect::<Vec<_>>(), FuncValueType::new(row(&f.0), row(&f.1))) }
fn hash<T: Hash>(t: &T) -> u64 { let mut h = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut h); h.finish() }
fn case(o: &mut Obs, seed: u64, idx: u64) {
    let mut r = rng(seed, idx, 20);
    let r = &mut r;
    let depth = if o.thorough { r.range(1, 5) } else { r.range(1, 3) };
    let (d1, d2, d3) = (g_decls(r), g_decls(r), g_decls(r));
    let f = (g_row(r, &d1, Linear, depth), g_row(r, &d1, Linear, depth));
    let a1: Vec<A> = d1.iter().map(|k| g_arg(r, &d2, k, 2)).collect();
    let a2: Vec<A> = d2.iter().map(|k| g_arg(r, &d3, k, 2)).collect();
    let p = poly(&d1, &f);
    o.saws(&n_sig(p.body()));
    // bounds
    for (y, t) in f.0.iter().chain(&f.1).zip(p.body().input().iter().chain(p.body().output().iter())) { if t.least_upper_bound() != bound(y) { o.bad("bound|wrong", format!("{t:?} has bound {:?}, its parts give {:?}", t.least_upper_bound(), bound(y))); return; } o.n("bounds"); }
    // validity
    let Some(v) = o.guard("validate", || p.validate()) else { return };
    if let Err(e) = v { o.bad("validate|rejected", format!("{p}: {e}")); return; }
    let mut u = vec![];
    f.0.iter().chain(&f.1).for_each(|y| uses_y(y, &mut u));
    if !d1.is_empty() {
        let mut dx = d1.clone();
        if r.bool() { dx.truncate(r.below(dx.len())); } else { let i = r.below(dx.len()); dx[i] = g_kind(r, 2); }
        let ok = u.iter().all(|(i, k)| dx.get(*i) == Some(k));
        let q = poly(&dx, &f);
        match o.guard("validate", || q.validate()) { None => return, Some(v) if v.is_ok() != ok => { o.bad(if ok { "validate|rejected" } else { "validate|accepted" }, format!("{q}: {v:?}")); return } Some(v) => o.n(if v.is_ok() { "valid" } else { "invalid" }) }
    }
    // instantiation
    let t1: Vec<TypeArg> = a1.iter().map(term).collect();
    let Some(i1) = o.guard("instantiate", || p.instantiate(&t1)) else { return };
    let i1 = match i1 { Ok(x) => x, Err(e) => { o.bad("instantiate|rejected", format!("{p} with {t1:?}: {e}")); return } };
    let g = (s_row(&f.0, &a1), s_row(&f.1, &a1));
    let want = poly(&d2, &g);
    if n_sig(&i1) != n_sig(want.body()) { o.bad("instantiate|differs", format!("{p} with {t1:?}: {} instead of {}", n_sig(&i1), n_sig(want.body()))); return; }
    o.n("instantiated");
    if u.iter().any(|(_, k)| matches!(k, K::List(_))) { o.n("with_lists"); }
    for (y, t) in g.0.iter().chain(&g.1).zip(i1.input().iter().chain(i1.output().iter())) { if t.least_upper_bound() != bound(y) { o.bad("instantiate|bound", format!("{t:?} has bound {:?} instead of {:?}", t.least_upper_bound(), bound(y))); return; } }
    for (ys, zs) in [(&f.0, &g.0), (&f.1, &g.1)] { if join(ys.iter().map(bound)) == Copyable && join(zs.iter().map(bound)) == Linear { o.n("harness_bound"); } }
    let p1 = PolyFuncTypeRV::new(d2.iter().map(kind).collect::<Vec<_>>(), i1.clone());
    match o.guard("validate", || p1.validate()) { None => return, Some(Err(e)) => { o.bad("instantiate|invalid", format!("{p} with {t1:?} gives {p1}: {e}")); return } Some(Ok(())) => o.n("validity_kept") }
    // composition
    let t2: Vec<TypeArg> = a2.iter().map(term).collect();
    let a12: Vec<A> = a1.iter().map(|a| s_arg(a, &a2)).collect();
    let t12: Vec<TypeArg> = a12.iter().map(term).collect();
    let Some(two) = o.guard("instantiate:twice", || p1.instantiate(&t2)) else { return };
    let Some(one) = o.guard("instantiate:composed", || p.instantiate(&t12)) else { return };
    match (two, one) {
        (Ok(x), Ok(y)) if n_sig(&x) == n_sig(&y) => o.n("composed"),
        (x, y) => { o.bad("composition|differs", format!("{p} with {t1:?} then {t2:?}: {:?} and at once: {:?}", x.map(|x| n_sig(&x)), y.map(|x| n_sig(&x)))); return }
    }
    // the variables themselves
    let ids: Vec<TypeArg> = d1.iter().enumerate().map(|(i, k)| Term::new_var_use(i, kind(k))).collect();
    match o.guard("identity", || p.instantiate(&ids)) { None => return, Some(Ok(x)) if n_sig(&x) == n_sig(p.body()) => o.n("identity"), Some(x) => { o.bad("identity|differs", format!("{p}: {x:?}")); return } }
    // closed types
    let c = (g_row(r, &[], Linear, depth), g_row(r, &[], Linear, depth));
    let pc = poly(&d1, &c);
    match o.guard("closed", || pc.instantiate(&t1)) { None => return, Some(Ok(x)) if n_sig(&x) == n_sig(pc.body()) => o.n("closed"), Some(x) => { o.bad("closed|differs", format!("{pc}: {x:?}")); return } }
    // arguments that may not fit
    if !a1.is_empty() {
        let mut ax = a1.clone();
        let j = r.below(ax.len());
        let k = g_kind(r, 2);
        ax[j] = g_arg(r, &d2, &k, 2);
        let want = fits(&ax[j], &d1[j]);
        let tx: Vec<TypeArg> = ax.iter().map(term).collect();
        let got = o.guard("check_term_type", || check_term_type(&tx[j], &kind(&d1[j])).is_ok());
        let Some(got) = got else { return };
        if want.is_some_and(|w| w != got) { o.bad(format!("check_term_type|{}", if got { "accepted" } else { "rejected" }), format!("{:?} for {}", tx[j], kind(&d1[j]))); return; }
        o.n(match want { Some(true) => "fits", Some(false) => "misfits", None => "open_tuple" });
        if want == Some(false) { match o.guard("instantiate:misfit", || p.instantiate(&tx)) { None => return, Some(Ok(x)) => { o.bad("instantiate|misfit accepted", format!("{p} with {tx:?} gives {x:?}")); return } Some(Err(_)) => {} } }
        let mut short = t1.clone();
        if r.bool() { short.pop(); } else { short.push(Term::BoundedNat(0)); }
        let ks: Vec<Term> = d1.iter().map(kind).collect();
        if check_term_types(&short, &ks).is_ok() || p.instantiate(&short).is_ok() { o.bad("instantiate|wrong number", format!("{p} accepts {short:?}")); return; }
        if let Err(e) = check_term_types(&t1, &ks) { o.bad("check_term_types|rejected", format!("{t1:?} for {ks:?}: {e}")); return; }
    }
    // parameters in arguments: kinds are not changed by substitution
    let k = K::Tup(vec![g_kind(r, 1), g_kind(r, 1)]);
    let pk = poly(&d1, &(vec![Y::Ext(16, vec![A::Kind(k.clone())])], vec![]));
    match o.guard("kinds", || pk.instantiate(&t1)) { None => return, Some(Ok(x)) if n_sig(&x) == n_sig(pk.body()) => o.n("kinds_kept"), Some(x) => { o.bad("kinds|differs", format!("{pk}: {x:?}")); return } }
    // equality and hashing
    let other = if r.bool() { f.clone() } else { let mut x = f.clone(); if let Some(i) = x.0.len().checked_sub(1) { x.0[i] = g_ty(r, &d1, Linear, 1); } else { x.0.push(g_ty(r, &d1, Linear, 1)); } x };
    let q = poly(&d1, &other);
    let same = n_sig(p.body()) == n_sig(q.body());
    if other == f && p != q || !same && p == q { o.bad("equality|wrong", format!("{p} and {q}")); return; }
    if p == q { o.n("equal"); for (a, b) in p.body().input().iter().zip(q.body().input().iter()) { if hash(a) != hash(b) { o.bad("hash|differs", format!("{a:?} and {b:?}")); return; } } } else { o.n("unequal"); }
    let n = r.below(5) as u8;
    let (us, gs) = (SumType::new_unary(n), SumType::new(vec![TypeRowRV::from(Vec::<TypeRV>::new()); n as usize]));
    let (ut, gt) = (Type::from(us.clone()), Type::from(gs.clone()));
    if us == gs && hash(&us) != hash(&gs) || ut == gt && hash(&ut) != hash(&gt) || us != gs || ut.least_upper_bound() != gt.least_upper_bound() { o.bad("sum|unit", format!("{us:?} and {gs:?}")); return; }
    // saving
    let s = serde_json::to_string(&p).unwrap();
    match o.guard("serde", || serde_json::from_str::<PolyFuncTypeRV>(&s)) { None => return, Some(Ok(x)) if x == p && n_sig(x.body()) == n_sig(p.body()) && x.params() == p.params() => { o.n("saved"); for (a, b) in p.body().output().iter().zip(x.body().output().iter()) { if hash(a) != hash(b) { o.bad("serde|hash", format!("{a:?}")); return; } } } Some(x) => { o.bad("serde|differs", format!("{p}: {x:?}")); return } }
    for t in t1.iter().chain(&t2) { let s = serde_json::to_string(t).unwrap(); match serde_json::from_str::<Term>(&s) { Ok(x) if x == *t && hash(&x) == hash(t) => o.n("args_saved"), x => { o.bad("serde|argument", format!("{t:?}: {x:?}")); return } } }
    o.note(|| format!("{p} with {t1:?}"));
}
pub fn prop() -> Prop {
    Prop { id: "C20", case, rule: "a polymorphic signature was checked and instantiated (distinct signatures)", need: &["bounds", "valid", "invalid", "instantiated", "with_lists", "validity_kept", "composed", "identity", "closed", "fits", "misfits", "open_tuple", "kinds_kept", "equal", "unequal", "saved", "args_saved"], quick_s: 15, thorough_s: 400, min_cases: 1000, max_cases: 60000 }
}
