fn main() {
    for d in ["/usr/lib/x86_64-linux-gnu", "/usr/lib/llvm-16/lib"] {
        println!("cargo:rustc-link-search=native={d}");
    }
    println!("cargo:rustc-link-lib=dylib=LLVM-16");
}
