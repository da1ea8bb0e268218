fn main() {
    lalrpop::Configuration::new()
        .set_in_dir(std::env::var("VERIF_SRC").unwrap())
        .set_out_dir(std::env::var("OUT_DIR").unwrap())
        .process()
        .unwrap();
}
