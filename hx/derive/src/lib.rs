mod c03;
mod c16;
mod c17;
mod serde_case;
mod tok;

rt::entries! {
    c03_fields => c03::fields,
    c03_variants => c03::variants,
    c03_rules => c03::rules,
    c03_renames => c03::renames,
    c03_raw => c03::raw,
    c03_long => c03::long,
    c03_texts => c03::texts,
    c03_unicode => c03::unicode,
    c03_all_fields => c03::all_fields,
    c17_texts => c17::texts,
    c16_words => c16::words,
    c16_values => c16::values,
    c16_pairs => c16::pairs,
    c16_malformed => c16::malformed,
    c16_structs => c16::structs,
    c16_enums => c16::enums,
    c16_forms => c16::forms,
    c16_serde_values => c16::serde_values,
}
