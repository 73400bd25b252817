fn main() {
    // libz3 4.8.12 from the distribution; the linker name is libz3.so
    println!("cargo:rustc-link-search=native=/usr/lib/x86_64-linux-gnu");
    println!("cargo:rustc-link-lib=dylib=z3");
}
