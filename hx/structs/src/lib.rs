#![recursion_limit = "1024"]
extern crate kit;
mod c01;
mod c01_gen;

rt::entries! {
    c01_newtypes => c01::newtypes,
    c01_known => c01::known,
    c01_generics => c01::generics,
    c01_wide => c01::wide,
    c01_fields => c01::fields,
    c01_gen0 => c01_gen::g0,
    c01_gen1 => c01_gen::g1,
    c01_gen2 => c01_gen::g2,
    c01_gen3 => c01_gen::g3,
    c01_gen4 => c01_gen::g4,
    c01_gen5 => c01_gen::g5,
    c01_gen6 => c01_gen::g6,
    c01_gen7 => c01_gen::g7,
    c01_gen8 => c01_gen::g8,
    c01_gen9 => c01_gen::g9,
    c01_gen10 => c01_gen::g10,
    c01_gen11 => c01_gen::g11,
    c01_gen12 => c01_gen::g12,
    c01_gen13 => c01_gen::g13,
    c01_gen14 => c01_gen::g14,
    c01_gen15 => c01_gen::g15,
    c01_gen16 => c01_gen::g16,
    c01_gen17 => c01_gen::g17,
    c01_gen18 => c01_gen::g18,
    c01_gen19 => c01_gen::g19,
    c01_gen20 => c01_gen::g20,
    c01_gen21 => c01_gen::g21,
    c01_gen22 => c01_gen::g22,
    c01_gen23 => c01_gen::g23,
    c01_gen24 => c01_gen::g24,
    c01_gen25 => c01_gen::g25,
    c01_gen26 => c01_gen::g26,
    c01_gen27 => c01_gen::g27,
    c01_gen28 => c01_gen::g28,
    c01_gen29 => c01_gen::g29,
    c01_gen30 => c01_gen::g30,
    c01_gen31 => c01_gen::g31,
    c01_gen32 => c01_gen::g32,
    c01_gen33 => c01_gen::g33,
    c01_gen34 => c01_gen::g34,
}
