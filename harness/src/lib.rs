//! Shared machinery of the property checks: the runner (generation, shrinking,
//! sharding, evidence, replay), the reference model of a graph, graph generators
//! and a contained way to run the gc-* binaries.
pub mod cli;
pub mod csp;
pub mod ct;
pub mod edits;
pub mod gen;
pub mod model;
pub mod run;
pub mod textio;
pub mod wgraph;

pub use gen::*;
pub use model::*;
pub use proptest::prelude::*;
pub use run::*;
pub use serde::{Deserialize, Serialize};
