//! Rust side of the simulator: configuration of a run, running it in a forked child, and the search driver.
pub mod driver;
pub mod sim;
pub use driver::*;
pub use sim::*;
