#![allow(clippy::type_complexity, clippy::too_many_arguments)]
pub mod alloc;
pub mod api;
pub mod dynamic;
pub mod engine;
pub mod gen;
pub mod msg;
pub mod props;
pub mod types;

/// The coverage-guided search of a property, if it is compiled in.
pub fn fuzzed(id: &str, stats: Option<String>, shrink_to: Option<String>) -> Option<Box<dyn engine::Fuzzed>> {
    with_prop!(id, P => Some(Box::new(engine::Fuzz::<P>::new(stats, shrink_to))), None)
}
