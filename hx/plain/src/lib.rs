//! opg without its default features: arrays have one implementation per length.
#![recursion_limit = "1024"]
#![allow(dead_code)]
extern crate kit;
#[path = "../../standard/src/c12.rs"]
mod c12;

rt::entries! {
    c12_plain_lengths => c12::lengths,
    c12_plain_sequences => c12::sequences,
}
