mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c13;

rt::entries! {
    c04_graph => c04::graph,
    c04_cycle => c04::cycle,
    c04_chain => c04::chain,
    c15_chain => c04::chain,
    c05_deep => c05::deep,
    c05_wide => c05::wide,
    c06_kinds => c06::kinds,
    c06_large => c06::large,
    c05_spine => c05::spine,
    c05_registry => c05::registry,
    c05_pair => c05::pair,
    c05_names => c05::names,
    c08_required => c08::required,
    c06_add => c06::add,
    c06_mention => c06::mention_leaf,
    c06_nested => c06::nested,
    c06_security => c06::security,
    c06_history => c06::history,
    c07_apply => c07::apply,
    c07_nested => c07::nested,
    c07_trait => c07::through_trait,
    c08_add => c08::add,
    c08_merge => c08::merge,
    c08_try => c08::try_merge,
    c08_large => c08::large,
    c09_large => c09::large,
    c09_scalar => c09::scalar,
    c09_tree => c09::tree,
    c09_object => c09::object,
    c09_text => c09::text_values,
    c10_operation => c10::operation,
    c10_parameter => c10::parameter,
    c10_parameters => c10::parameters,
    c10_bodies => c10::bodies,
    c10_path_item => c10::path_item,
    c10_callbacks => c10::callbacks,
    c10_document => c10::document,
    c10_components => c10::components,
    c10_large => c10::large,
    c10_codes => c10::codes,
    c11_render => c10::path_render,
    c13_select => c13::select,
    c13_containers => c13::containers,
    c13_nested => c13::nested,
    c15_graph => c04::terminates,
}
