#![allow(dead_code)]
pub mod model;
pub mod sx;
pub mod types;
pub mod bits;
pub mod serdes;

#[cfg(feature = "c01")]
#[path = "c01.rs"]
mod p;
#[cfg(feature = "c02")]
#[path = "c02.rs"]
mod p;
#[cfg(feature = "c03")]
#[path = "c03.rs"]
mod p;
#[cfg(feature = "c04")]
#[path = "c04.rs"]
mod p;
#[cfg(feature = "c05")]
#[path = "c05.rs"]
mod p;
#[cfg(feature = "c06")]
#[path = "c06.rs"]
mod p;
#[cfg(feature = "c07")]
#[path = "c07.rs"]
mod p;
#[cfg(feature = "c08")]
#[path = "c08.rs"]
mod p;
#[cfg(feature = "c09")]
#[path = "c09.rs"]
mod p;
#[cfg(feature = "c10")]
#[path = "c10.rs"]
mod p;
#[cfg(feature = "c11")]
#[path = "c11.rs"]
mod p;
#[cfg(feature = "c12")]
#[path = "c12.rs"]
mod p;
#[cfg(feature = "c13")]
#[path = "c13.rs"]
mod p;
#[cfg(feature = "c14")]
#[path = "c14.rs"]
mod p;
#[cfg(feature = "c15")]
#[path = "c15.rs"]
mod p;
#[cfg(feature = "c16")]
#[path = "c16.rs"]
mod p;
#[cfg(feature = "c17")]
#[path = "c17.rs"]
mod p;
#[cfg(feature = "c18")]
#[path = "c18.rs"]
mod p;
#[cfg(feature = "c19")]
#[path = "c19.rs"]
mod p;
#[cfg(feature = "c20")]
#[path = "c20.rs"]
mod p;

#[cfg(any(
    feature = "c01", feature = "c02", feature = "c03", feature = "c04", feature = "c05", feature = "c06", feature = "c07",
    feature = "c08", feature = "c09", feature = "c10", feature = "c11", feature = "c12", feature = "c13", feature = "c14",
    feature = "c15", feature = "c16", feature = "c17", feature = "c18", feature = "c19", feature = "c20"
))]
pub fn run() {
    sx::mode(0, 0);
    p::run()
}
#[cfg(not(any(
    feature = "c01", feature = "c02", feature = "c03", feature = "c04", feature = "c05", feature = "c06", feature = "c07",
    feature = "c08", feature = "c09", feature = "c10", feature = "c11", feature = "c12", feature = "c13", feature = "c14",
    feature = "c15", feature = "c16", feature = "c17", feature = "c18", feature = "c19", feature = "c20"
)))]
pub fn run() {}
