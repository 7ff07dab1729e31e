fn main() {
    println!("cargo:rustc-link-search={}", std::env::var("PC_SHIM").unwrap());
    println!("cargo:rustc-link-lib=static=pcshim");
    println!("cargo:rustc-link-lib=dylib=protobuf");
    println!("cargo:rustc-link-lib=dylib=stdc++");
}
