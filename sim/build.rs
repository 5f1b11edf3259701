// two releases of neutron-sdk are linked (the contracts depend on both); each exports the same marker symbol
fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-link-arg-bins=-Wl,--allow-multiple-definition");
}
