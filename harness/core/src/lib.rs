//! Oracle side of the monitors: everything here is independent of the crate
//! under test (it never links it).
pub mod rng;
pub mod model;
pub mod spec;
pub mod gen;
pub mod hostile;
pub mod rec;
