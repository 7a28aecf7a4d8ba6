#![feature(alloc_error_hook)]
//! Deterministic simulation of rustnomial with fault injection. See /verif/DESIGN.md.
mod alloc;
mod coef;
mod driver;
mod exec;
mod extra;
mod gen;
mod minimise;
mod model;
mod ops;
mod parties;
mod plan;
mod rng;
mod roots;
mod sim;
mod special;
mod stress;
mod text;
mod typed;
mod val;

#[global_allocator]
static GLOBAL: alloc::SimAlloc = alloc::SimAlloc;

fn main() {
    std::alloc::set_alloc_error_hook(|_| {
        alloc::IN_LIB.set(false);
        std::panic::panic_any(sim::SimPanic::Oom)
    });
    let show = std::env::var_os("RSIM_PANICS").is_some();
    std::panic::set_hook(Box::new(move |info| {
        let inside = alloc::IN_LIB.replace(false);
        if show || !(inside || info.payload().is::<sim::SimPanic>()) {
            eprintln!("{}", info);
        }
        // A panic ends the library call as far as counting and fault injection are concerned.
    }));
    let args: Vec<String> = std::env::args().skip(1).collect();
    std::process::exit(driver::main(&args));
}
