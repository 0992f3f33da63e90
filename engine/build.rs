use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    println!("cargo:rerun-if-changed=src/shim.cc");
    let ok = |c: &mut Command| assert!(c.status().unwrap().success());
    ok(Command::new("g++").args(["-O3", "-std=c++11", "-w", "-fPIC", "-c", "src/shim.cc", "-o"]).arg(format!("{out}/shim.o")));
    ok(Command::new("ar").arg("crs").arg(format!("{out}/libvxshim.a")).arg(format!("{out}/shim.o")));
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-search=native=/usr/lib");
    println!("cargo:rustc-link-lib=static=vxshim");
    println!("cargo:rustc-link-lib=static=minisat");
    println!("cargo:rustc-link-lib=dylib=stdc++");
    println!("cargo:rustc-link-lib=dylib=z");
}
