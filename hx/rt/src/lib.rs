//! Harness runtime: symbolic inputs, assertions, a recording serializer and the
//! oracles shared by the harnesses. Under the symbolic executor the `sx_*` functions
//! are intrinsics; with feature `native` they read a list of concrete inputs.
pub mod eq;
pub mod gen;
pub mod j;
pub mod o;
pub mod oracle;
pub mod sx;
pub mod symt;
pub mod v;

pub use eq::*;
pub use gen::*;
pub use j::*;
pub use oracle::*;
pub use sx::*;
pub use symt::*;
pub use v::*;

/// Declares harness entry points, and (natively) the table that finds them by name.
#[macro_export]
macro_rules! entries {
    ($($name:ident => $f:path),* $(,)?) => {
        $(
            #[no_mangle]
            pub extern "C" fn $name() {
                $f()
            }
        )*
        pub const ENTRIES: &[(&str, extern "C" fn())] = &[$((stringify!($name), $name)),*];
    };
}
