//! Takes the sources of the command line tools into the simulator, each as a
//! module with an entry point, so that they run on the simulated machine.
use std::path::Path;
use std::{env, fs};

fn copy(from: &Path, to: &Path, module: &str) {
    fs::create_dir_all(to).unwrap();
    for e in fs::read_dir(from).unwrap() {
        let e = e.unwrap().path();
        let t = to.join(e.file_name().unwrap());
        if e.is_dir() {
            copy(&e, &t, module);
        } else if let Ok(mut s) = fs::read_to_string(&e) {
            s = s.replace("crate::", &format!("crate::{module}::"));
            if to.ends_with(module) && e.file_name().unwrap() == "main.rs" {
                s.push_str("\npub fn simulated_main() -> bool {\n    std::process::Termination::report(main()) == std::process::ExitCode::SUCCESS\n}\n");
            }
            fs::write(&t, s).unwrap();
        }
    }
}
fn main() {
    let out = env::var("OUT_DIR").unwrap();
    let mut mods = String::new();
    for (module, dir) in [("ls", "/repo/oxyroot-ls/src"), ("dump", "/repo/oxyroot-dump/src")] {
        println!("cargo:rerun-if-changed={dir}");
        let to = Path::new(&out).join(module);
        let _ = fs::remove_dir_all(&to);
        copy(Path::new(dir), &to, module);
        mods += &format!("#[path = {:?}]\n#[allow(warnings)]\npub mod {module};\n", to.join("main.rs").to_str().unwrap());
    }
    println!("cargo:rerun-if-changed=build.rs");
    fs::write(Path::new(&out).join("tools.rs"), mods).unwrap();
}
