use std::path::{Path, PathBuf};
use std::process::Command;

fn run(c: &mut Command) -> String {
    let o = c.output().unwrap_or_else(|e| panic!("{c:?}: {e}"));
    assert!(o.status.success(), "{c:?}: {}", String::from_utf8_lossy(&o.stderr));
    String::from_utf8_lossy(&o.stdout).to_string()
}

/// Calls of the code under test that end in the simulator.
const SHIMS: &[&str] = &[
    "malloc", "free", "calloc", "realloc", "aligned_alloc", "posix_memalign", "exit", "_Exit", "abort", "__assert_fail", "__stack_chk_fail",
    "getrandom", "getentropy", "syscall", "open", "open64", "openat", "read", "close", "ioctl", "poll", "fopen", "fopen64", "fclose",
    "rewind", "fscanf", "__isoc99_fscanf", "__isoc23_fscanf",
];

/// Compiles the files into a library whose own symbols carry a prefix and whose way to the system leads to the shims.
fn library(name: &str, prefix: &str, files: &[PathBuf], setup: impl Fn(&mut cc::Build)) {
    let out = PathBuf::from(std::env::var("OUT_DIR").unwrap()).join(name);
    std::fs::create_dir_all(&out).unwrap();
    let mut b = cc::Build::new();
    b.files(files).out_dir(&out).opt_level(1).warnings(false).flag("-U_FORTIFY_SOURCE").flag("-fno-builtin-malloc").flag("-fsanitize-coverage=trace-pc");
    setup(&mut b);
    let objs = b.compile_intermediates();
    let mut own: Vec<String> = vec![];
    for o in &objs {
        own.extend(run(Command::new("nm").args(["-g", "--defined-only", "-P"]).arg(o)).lines().map(|l| l.split(' ').next().unwrap().to_string()));
    }
    let map: String = own
        .iter()
        .map(|s| format!("{s} {prefix}{s}\n"))
        .chain(SHIMS.iter().filter(|s| !own.iter().any(|o| o == *s)).map(|s| format!("{s} sim_shim_{s}\n")))
        .collect();
    let mf = out.join("symbols");
    std::fs::write(&mf, map).unwrap();
    let lib = out.join(format!("lib{name}.a"));
    let _ = std::fs::remove_file(&lib);
    for o in &objs {
        run(Command::new("objcopy").arg(format!("--redefine-syms={}", mf.display())).arg(o));
    }
    run(Command::new("ar").arg("crs").arg(&lib).args(&objs));
    println!("cargo:rustc-link-search=native={}", out.display());
    println!("cargo:rustc-link-lib=static:+whole-archive={name}");
}

fn main() {
    println!("cargo:rerun-if-env-changed=CFLAGS");
    // meant for the code under test only
    std::env::remove_var("CFLAGS");
    println!("cargo:rerun-if-changed=csrc");
    cc::Build::new().file("csrc/entropy.c").opt_level(2).warnings(true).compile("sim_entropy_c");
    // The seam overrides libc symbols: it must always be part of the link.
    println!("cargo:rustc-link-arg=-Wl,--undefined=sim_set_active");

    let pq = Path::new("/repo/pqcrypto");
    let copies = [("pc_", pq.join("pqclean/common"), pq.join("pqclean/common")), ("pi_", pq.join("pqcrypto-internals/cfiles"), pq.join("pqcrypto-internals/include"))];
    for (pre, src, inc) in &copies {
        println!("cargo:rerun-if-changed={}", src.display());
        println!("cargo:rerun-if-changed={}", inc.display());
        let mut files: Vec<PathBuf> = std::fs::read_dir(src)
            .unwrap()
            .map(|e| e.unwrap().path())
            .filter(|p| p.extension().is_some_and(|e| e == "c") && p.file_name().unwrap() != "randombytes.c")
            .collect();
        files.sort();
        let x4 = src.join("keccak4x");
        let pname = pre.trim_end_matches('_');
        library(&format!("{pname}common"), pre, &files, |b| {
            b.include(inc);
        });
        library(&format!("{pname}x4"), pre, &[x4.join("KeccakP-1600-times4-SIMD256.c")], |b| {
            b.include(&x4).flag("-mavx2").opt_level(2);
        });
        // the entry points, against the headers of this copy and its prefixed symbols
        let out = PathBuf::from(std::env::var("OUT_DIR").unwrap()).join(format!("{pname}entry"));
        std::fs::create_dir_all(&out).unwrap();
        let mut b = cc::Build::new();
        b.file("csrc/hash.c").include("csrc").include(inc).include(&x4).out_dir(&out).opt_level(1).define("PRE", Some(format!("sim_{pname}_").as_str())).define("WITH_X4", None);
        let objs = b.compile_intermediates();
        // undefined symbols of the libraries above
        let base = PathBuf::from(std::env::var("OUT_DIR").unwrap());
        let mut map = String::new();
        for l in ["common", "x4"] {
            for line in std::fs::read_to_string(base.join(format!("{pname}{l}")).join("symbols")).unwrap().lines() {
                if line.contains(&format!(" {pre}")) {
                    map += line;
                    map.push('\n');
                }
            }
        }
        std::fs::write(out.join("symbols"), map).unwrap();
        let lib = out.join(format!("lib{pname}entry.a"));
        let _ = std::fs::remove_file(&lib);
        for o in &objs {
            run(Command::new("objcopy").arg(format!("--redefine-syms={}", out.join("symbols").display())).arg(o));
        }
        run(Command::new("ar").arg("crs").arg(&lib).args(&objs));
        println!("cargo:rustc-link-search=native={}", out.display());
        println!("cargo:rustc-link-lib=static:+whole-archive={pname}entry");
        for (v, no_glibc, no_sys) in [("glibc", false, false), ("sys", true, false), ("dev", true, true)] {
            if *pre == "pi_" && v == "glibc" {
                continue;
            }
            library(&format!("{pname}rb{v}"), &format!("{pre}{v}_"), &[PathBuf::from("csrc/rb.c")], |b| {
                b.include(inc).define("RB_FILE", Some(format!("\"{}\"", src.join("randombytes.c").display()).as_str()));
                if no_glibc {
                    b.define("RB_NO_GLIBC", None);
                }
                if no_sys {
                    b.define("RB_NO_SYSCALL", None);
                }
            });
        }
    }
    cc::Build::new().file("csrc/shim.c").include("csrc").opt_level(1).warnings(true).link_lib_modifier("+whole-archive").compile("sim_shim_c");
}
