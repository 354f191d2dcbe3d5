#![recursion_limit = "4096"]
mod c11;
mod c14;
mod c14_codes;
mod c18;
mod c19;
mod gen;
mod kit;
mod parts;

rt::entries! {
    c11_family => c11::family,
    c11_several => c11::several,
    c11_callbacks => c11::callbacks,
    c11_known => c11::known,
    c11_gen0 => gen::c11_0,
    c11_gen1 => gen::c11_1,
    c14_info => c14::info,
    c14_tags => c14::tags,
    c14_servers => c14::servers,
    c14_methods => c14::methods,
    c14_attributes => c14::attributes,
    c14_bodies => c14::bodies,
    c14_responses => c14::responses,
    c14_parameters => c14::parameters,
    c14_callbacks => c14::callbacks,
    c14_whole => c14::whole,
    c14_many => c14::many,
    c14_builders => c14::builders,
    c14_known => c14::known,
    c14_codes => c14_codes::codes,
    c14_gen0 => gen::c14_0,
    c14_gen1 => gen::c14_1,
    c18_literals => c18::literals,
    c18_requirements => c18::requirements,
    c18_registered => c18::registered_first,
    c18_gen0 => gen::c18_0,
    c18_gen1 => gen::c18_1,
    c19_scalars => c19::scalars,
    c19_raw => c19::raw,
    c19_compound => c19::compound,
    c19_large => c19::large,
}
