#![recursion_limit = "1024"]
extern crate kit;
mod c17;
mod c17_gen;
use kit::attrs;

rt::entries! {
    c17_forms => c17::forms,
    c17_known => c17::known,
    c17_gen0 => c17_gen::g0,
    c17_gen1 => c17_gen::g1,
    c17_gen2 => c17_gen::g2,
    c17_gen3 => c17_gen::g3,
    c17_gen4 => c17_gen::g4,
    c17_gen5 => c17_gen::g5,
    c17_gen6 => c17_gen::g6,
    c17_gen7 => c17_gen::g7,
    c17_gen8 => c17_gen::g8,
    c17_gen9 => c17_gen::g9,
    c17_gen10 => c17_gen::g10,
    c17_gen11 => c17_gen::g11,
    c17_gen12 => c17_gen::g12,
    c17_gen13 => c17_gen::g13,
    c17_gen14 => c17_gen::g14,
    c17_gen15 => c17_gen::g15,
}
