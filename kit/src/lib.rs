//! Generator, shrinker, runner, allocator and scheduler shared by the checks.
pub mod alloc;
pub mod rng;
pub mod runner;
pub mod sched;
pub mod src;

pub use rng::Rng;
pub use runner::{Arm, CaseResult, Ctx, Fail, Suite};
pub use src::Src;
