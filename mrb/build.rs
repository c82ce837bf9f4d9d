//! Where the interpreter finds its Ruby-level start-up files: links into the sources under test.
use std::os::unix::fs::symlink;
use std::path::PathBuf;

fn main() {
    let root = PathBuf::from(std::env::var("OUT_DIR").unwrap()).join("root");
    let _ = std::fs::remove_dir_all(&root);
    std::fs::create_dir_all(&root).unwrap();
    for (name, from) in [("builtins", "builtins"), ("lib", "vendor/ruby-stdlib"), ("stub", "stdlib")] {
        symlink(format!("/repo/monoruby/{from}"), root.join(name)).unwrap();
    }
    println!("cargo:rustc-env=MONORUBY_INSTALL_ROOT={}", root.display());
    println!("cargo:rustc-env=MONORUBY_RUBY_VERSION=4.0.0");
    println!("cargo:rerun-if-changed=build.rs");
}
