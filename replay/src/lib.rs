//! Executable reference model of the revision wire format plus the generic
//! contract-replay engine.  Nothing in here calls the crate under test to decide
//! what is right: `spec` is written from the format documentation only.
pub mod checks;
pub mod idx;
pub mod io;
pub mod rep;
pub mod spec;
pub mod types;

pub const FIXED: bool = cfg!(feature = "fixed");
pub const SPECV: bool = cfg!(feature = "specv");
pub fn mode() -> &'static str {
    match (FIXED, SPECV) {
        (false, true) => "varint+specialised",
        (false, false) => "varint",
        (true, true) => "fixed+specialised",
        (true, false) => "fixed",
    }
}
