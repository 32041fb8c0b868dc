fn main() {
    // the interposed libc entry points must also be visible to dlsym users
    for s in ["getrandom", "write", "writev", "mprotect", "mmap", "munmap"] {
        println!("cargo:rustc-link-arg-bins=-Wl,--export-dynamic-symbol={s}");
    }
    println!("cargo:rerun-if-changed=build.rs");
}
