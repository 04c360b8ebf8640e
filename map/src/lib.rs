//! Checks of the public map API: sequential model, metamorphic and scheduled-concurrency arms.
pub mod conc;
#[cfg(feature = "traced")]
pub mod diag;
pub mod keys;
pub mod nodes;
pub mod reenter;
pub mod seq;
pub mod tree;
pub mod val;
pub mod walk;

use masstree::sync::Event;

fn hook(e: Event, addr: usize, at: &'static std::panic::Location<'static>) {
    kit::sched::yield_point(e as u8, addr, at);
}

/// Install the schedule hook; call once at start.
pub fn init() {
    #[cfg(feature = "traced")]
    let _ = tracing_subscriber::fmt()
        .json()
        .with_max_level(tracing_subscriber::filter::LevelFilter::TRACE)
        .with_writer(std::io::sink)
        .try_init();
    masstree::sync::set_hook(hook);
}
