fn main() {
    let dir = std::env::var("SIMRT_DIR").expect("SIMRT_DIR: use /verif/run.sh");
    println!("cargo:rustc-link-search=native={dir}");
    println!("cargo:rustc-link-lib=dylib=simrt");
    println!("cargo:rustc-link-arg=-Wl,-rpath,{dir}");
    println!("cargo:rerun-if-env-changed=SIMRT_DIR");
}
