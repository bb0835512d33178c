fn main() {
    println!("cargo:rerun-if-changed=csrc/dec.c");
    cc::Build::new().file("csrc/dec.c").opt_level(2).warnings(false).compile("vdec");
    println!("cargo:rustc-link-lib=dav1d");
    println!("cargo:rustc-link-lib=aom");
}
