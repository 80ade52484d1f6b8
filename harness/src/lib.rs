pub mod gen_;
pub mod geom;
pub mod guard;
pub mod lib_api;
pub mod rep;
pub mod rng;
pub mod digest;
