//! Reference-interpreter values.
use hugr_core::types::Type;
use hugr_core::types::type_param::TypeArg;
use hugr_core::Node;
use std::fmt;
use std::rc::Rc;

#[derive(Clone)]
pub struct FuncV { pub prog: Rc<crate::interp::Prog>, pub node: Node, pub targs: Vec<TypeArg> }
#[derive(Clone)]
pub enum V {
    Sum(usize, Vec<V>),
    /// log-width, bits
    Int(u8, u64),
    F(u64),
    Str(String),
    Usize(u64),
    Err(u32, String),
    Func(FuncV),
    /// Some(None) marks a borrowed slot.
    Arr(Vec<Option<V>>),
    List(Vec<V>),
    /// Unit of a linear resource carrying its history
    Tok(u64),
    /// uninterpreted constant: name/type
    Opaque(String),
    /// Placeholder after a panic.
    Poison,
}
impl V {
    pub fn unit() -> V { V::Sum(0, vec![]) }
    pub fn bool(b: bool) -> V { V::Sum(b as usize, vec![]) }
    pub fn as_bool(&self) -> bool { matches!(self, V::Sum(1, _)) }
    pub fn int(w: u8, v: u64) -> V { V::Int(w, v & mask(w)) }
    pub fn f(x: f64) -> V { V::F(if x.is_nan() { f64::NAN.to_bits() } else { x.to_bits() }) }
    pub fn tuple(v: Vec<V>) -> V { V::Sum(0, v) }
    pub fn hash(&self) -> u64 { crate::rng::hash_str(&format!("{self:?}")) }
    pub fn has_func(&self) -> bool {
        match self {
            V::Func(_) => true,
            V::Sum(_, v) | V::List(v) => v.iter().any(|x| x.has_func()),
            V::Arr(v) => v.iter().flatten().any(|x| x.has_func()),
            _ => false,
        }
    }
}
pub fn mask(w: u8) -> u64 { if w >= 6 { u64::MAX } else { (1u64 << (1u32 << w)) - 1 } }
pub fn signed(w: u8, v: u64) -> i64 {
    let bits = 1u32 << w;
    if bits == 64 { v as i64 } else { ((v << (64 - bits)) as i64) >> (64 - bits) }
}
impl fmt::Debug for V {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            V::Sum(t, v) => { write!(f, "{t}<")?; for x in v { write!(f, "{x:?},")?; } write!(f, ">") }
            V::Int(w, v) => write!(f, "i{}:{}", 1u32 << w, v),
            V::F(b) => write!(f, "f{:?}", f64::from_bits(*b)),
            V::Str(s) => write!(f, "{s:?}"),
            V::Usize(u) => write!(f, "us{u}"),
            V::Err(..) => write!(f, "err"),
            V::Func(_) => write!(f, "func"),
            V::Arr(v) => { write!(f, "[")?; for x in v { match x { Some(x) => write!(f, "{x:?},")?, None => write!(f, "_,")? } } write!(f, "]") }
            V::List(v) => { write!(f, "L[")?; for x in v { write!(f, "{x:?},")?; } write!(f, "]") }
            V::Tok(h) => write!(f, "tok{h:x}"),
            V::Opaque(s) => write!(f, "opq{s}"),
            V::Poison => write!(f, "poison"),
        }
    }
}
/// Equality on observable content (functions are incomparable: equal by kind only).
impl PartialEq for V { fn eq(&self, o: &V) -> bool { format!("{self:?}") == format!("{o:?}") } }

pub fn type_has_func(t: &Type) -> bool { format!("{t:?}").contains("Function") }
