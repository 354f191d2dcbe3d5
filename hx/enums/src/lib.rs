#![recursion_limit = "1024"]
extern crate kit;
mod c02;
mod c02_gen;

rt::entries! {
    c02_forms => c02::forms,
    c02_names => c02::names,
    c02_all_fields => c02::all_fields,
    c02_known => c02::known,
    c02_gen0 => c02_gen::g0,
    c02_gen1 => c02_gen::g1,
    c02_gen2 => c02_gen::g2,
    c02_gen3 => c02_gen::g3,
    c02_gen4 => c02_gen::g4,
    c02_gen5 => c02_gen::g5,
    c02_gen6 => c02_gen::g6,
    c02_gen7 => c02_gen::g7,
    c02_gen8 => c02_gen::g8,
    c02_gen9 => c02_gen::g9,
    c02_gen10 => c02_gen::g10,
    c02_gen11 => c02_gen::g11,
    c02_gen12 => c02_gen::g12,
    c02_gen13 => c02_gen::g13,
    c02_gen14 => c02_gen::g14,
    c02_gen15 => c02_gen::g15,
    c02_gen16 => c02_gen::g16,
    c02_gen17 => c02_gen::g17,
    c02_gen18 => c02_gen::g18,
    c02_gen19 => c02_gen::g19,
    c02_gen20 => c02_gen::g20,
}
