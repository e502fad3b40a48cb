#![allow(clippy::all)]
pub mod rng;
pub mod val;
pub mod ext;
pub mod interp;
pub mod gen_;
pub mod driver;
pub mod util;
pub mod canon;
pub mod spice;
pub mod props;
