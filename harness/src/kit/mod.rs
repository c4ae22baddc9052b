pub mod case;
pub mod heap;
pub mod probe;
pub mod rng;
pub mod run;
pub mod sched;

pub use crate::{chk, ev};
pub use case::Case;
pub use probe::*;
pub use rng::Rng;
pub use run::{Prop, Scenario};
pub use sched::*;
pub use std::sync::Arc;
pub use std::task::Poll;
pub use std::time::Duration;
pub use tower::BoxError;
pub use tower_service::Service;
