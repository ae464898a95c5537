#![feature(alloc_error_hook)]
mod adversary;
mod chain;
mod common;
mod dual;
mod e01;
mod e02;
mod e04;
mod cs;
mod e05;
mod e06;
mod pin;
mod memcap;
mod precomp;
mod prog;
mod refevm;

#[global_allocator]
static ALLOC: memcap::Capped = memcap::Capped;

/// Kernel execution log on stderr, for debugging a replay: SIM_LOG=debug|trace.
struct Log;
impl log::Log for Log {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        eprintln!("{}", r.args())
    }
    fn flush(&self) {}
}
fn main() {
    memcap::install();
    if let Ok(l) = std::env::var("SIM_LOG") {
        log::set_logger(&Log).unwrap();
        log::set_max_level(l.parse().unwrap());
    }
    simcore::cli! { "E01" => e01::E01, "E02" => e02::E02, "E04" => e04::E04, "E05" => e05::E05, "E06" => e06::E06 }
}
