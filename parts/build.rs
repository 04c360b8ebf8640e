//! Compiles the library's vector searches a second time as a CPU with other features would run them.
//! If the file stops being self-contained the arms that need it are left out.
use std::path::PathBuf;
use std::process::Command;

const FILE: &str = "/repo/src/ksearch/simd.rs";

fn main() {
    println!("cargo::rustc-check-cfg=cfg(other_cpus)");
    println!("cargo::rerun-if-changed=build.rs");
    println!("cargo::rerun-if-changed={FILE}");
    let out = PathBuf::from(std::env::var("OUT_DIR").unwrap());
    let one = |name: &str, has: bool| {
        format!(
            "pub mod {name} {{\n    #[allow(unused_macros)]\n    macro_rules! is_x86_feature_detected {{ (\"sse4.1\") => {{ {has} }}; ($x:tt) => {{ false }}; }}\n    #[path = \"{FILE}\"]\n    #[allow(warnings)]\n    pub mod simd;\n}}\n"
        )
    };
    let text = one("sse41", true) + &one("baseline", false);
    std::fs::write(out.join("cpus.rs"), &text).unwrap();
    let probe = out.join("probe.rs");
    let need = "pub fn need() -> (fn(&[u64], u64) -> Option<usize>, fn(&[u64], usize, u64) -> usize, fn(&[u64], usize, u64) -> u32) {\n    (sse41::simd::find_exact_u64, baseline::simd::count_le_u64, sse41::simd::find_all_matches_u64)\n}\n";
    std::fs::write(&probe, text + need).unwrap();
    let ok = Command::new(std::env::var("RUSTC").unwrap())
        .args(["--edition", "2024", "--crate-type", "lib", "--emit", "metadata", "--out-dir"])
        .arg(&out)
        .arg(&probe)
        .output()
        .is_ok_and(|o| {
            if !o.status.success() {
                println!("cargo::warning={}", String::from_utf8_lossy(&o.stderr).lines().next().unwrap_or(""));
            }
            o.status.success()
        });
    if ok {
        println!("cargo::rustc-cfg=other_cpus");
    }
}
