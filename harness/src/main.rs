#![allow(dead_code, unused_imports, unused_variables)]
mod core;
mod io;
mod refm;
mod edge;
mod fmt;
#[cfg(feature = "dec")]
mod dec;
#[cfg(feature = "enc")]
mod enc;
#[cfg(feature = "mrg")]
mod mrg;
#[cfg(feature = "vcd")]
mod vcd;
#[cfg(feature = "priv")]
mod privs;
#[global_allocator]
static A: core::Counting = core::Counting;
fn main() {
    let mut v = fmt::props();
    #[cfg(feature = "dec")]
    v.extend(dec::props());
    #[cfg(feature = "enc")]
    v.extend(enc::props());
    #[cfg(feature = "mrg")]
    v.extend(mrg::props());
    #[cfg(feature = "vcd")]
    v.extend(vcd::props());
    #[cfg(feature = "priv")]
    v.extend(privs::props());
    core::main_with(&v);
}
