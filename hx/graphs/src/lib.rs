#![recursion_limit = "1024"]
extern crate kit;
mod c13;
mod c15;

rt::entries! {
    c13_derived => c13::derived,
    c13_declared => c13::declared,
    c04_derived => c15::histories,
    c15_derived => c15::cycles,
}
