#![recursion_limit = "1024"]
extern crate kit;
mod c12;

rt::entries! {
    c12_integers => c12::integers,
    c12_scalars => c12::scalars,
    c12_sequences => c12::sequences,
    c12_maps => c12::maps,
    c12_tuples => c12::tuples,
    c12_wrappers => c12::wrappers,
    c12_options => c12::options,
    c12_known => c12::known,
    c12_arbitrary => c12::arbitrary,
    c12_lengths => c12::lengths,
}
