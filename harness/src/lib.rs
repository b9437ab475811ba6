//! Runtime monitors for iota_mam.
#[macro_use]
pub mod eng;
pub mod rng;
pub mod rtroika;
pub mod rmodel;
pub mod util;
pub mod msg;
pub mod p;
