fn main() {
    std::process::exit(rt::native_main(hx_models::ENTRIES));
}
