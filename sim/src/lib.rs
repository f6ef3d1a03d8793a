#![feature(alloc_error_hook)]
//! Deterministic simulation of `ethereum_ssz` and its callers.
pub mod alloc;
pub mod core;
pub mod probe;
pub mod runner;

#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;

/// Make refused allocations unwind, and panics silent.
pub fn install() {
    if std::env::var_os("SIM_NO_REFUSE").is_some() {
        crate::core::NO_REFUSE.store(true, std::sync::atomic::Ordering::Relaxed);
    }
    std::alloc::set_alloc_error_hook(|_| crate::core::on_alloc_error());
    if std::env::var_os("SIM_SHOW_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
}
