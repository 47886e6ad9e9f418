//! The command line tools as programs on the simulated machine: each run is a
//! forked process with its own arguments, standard output and exit status.
use crate::engine::guard;
use crate::json::J;
use crate::simos::{self, real};
use std::ffi::CString;
use std::sync::atomic::{AtomicI32, AtomicPtr, Ordering::SeqCst};

use simtools::{dump, ls};

static ARGV: AtomicPtr<*mut libc::c_char> = AtomicPtr::new(std::ptr::null_mut());
static ARGC: AtomicI32 = AtomicI32::new(0);
extern "C" fn init(argc: i32, argv: *mut *mut libc::c_char) {
    ARGC.store(argc, SeqCst);
    ARGV.store(argv, SeqCst);
}
#[used]
#[link_section = ".init_array"]
static INIT: extern "C" fn(i32, *mut *mut libc::c_char) = init;

pub struct ToolOut {
    pub code: i32,
    pub out: String,
    pub err: String,
}

static PIPE: AtomicI32 = AtomicI32::new(-1);
extern "C" fn at_exit() {
    let fd = PIPE.swap(-1, SeqCst);
    if fd >= 0 {
        let j = format!("{}", simos::export());
        let (out, err) = simos::console();
        let mut d = vec![];
        for part in [j.as_bytes(), &out, &err] {
            d.extend_from_slice(&(part.len() as u64).to_le_bytes());
            d.extend_from_slice(part);
        }
        real::write_all(fd, &d);
    }
}

/// `oxyroot-ls -f PATH` or `oxyroot-dump -f PATH`; the calls it makes belong to `phase`
pub fn run(tool: &str, path: &str, phase: u32) -> ToolOut {
    assert!(ARGC.load(SeqCst) >= 3, "harness: too few arguments of its own");
    let (rd, wr) = match real::pipe() {
        Some(p) => p,
        None => panic!("harness: no pipe"),
    };
    let pid = unsafe { libc::fork() };
    if pid < 0 {
        panic!("harness: no process");
    }
    if pid == 0 {
        real::close(rd);
        PIPE.store(wr, SeqCst);
        unsafe {
            libc::atexit(at_exit);
            // fewer arguments than the simulator itself was started with, ended by a null pointer
            let argv = ARGV.load(SeqCst);
            let args = [format!("oxyroot-{tool}"), "-f".to_string(), path.to_string()];
            for (i, a) in args.iter().enumerate() {
                *argv.add(i) = CString::new(a.as_str()).unwrap().into_raw();
            }
            if ARGC.load(SeqCst) > 3 {
                *argv.add(3) = std::ptr::null_mut();
            }
        }
        simos::capture_console();
        simos::set_phase(phase);
        let code = match guard(|| if tool == "ls" { ls::simulated_main() } else { dump::simulated_main() }) {
            Ok(true) => 0,
            Ok(false) => 1,
            Err(_) => 101,
        };
        std::process::exit(code);
    }
    real::close(wr);
    let d = real::read_all(rd);
    real::close(rd);
    let (code, sig) = real::wait(pid);
    if code == 77 {
        // the reason is already on its way
        simos::exit_now(77);
    }
    let mut parts = vec![];
    let mut p = 0usize;
    while p + 8 <= d.len() {
        let n = u64::from_le_bytes(d[p..p + 8].try_into().unwrap()) as usize;
        parts.push(d.get(p + 8..p + 8 + n).unwrap_or(&[]).to_vec());
        p += 8 + n;
    }
    if sig != 0 || parts.len() != 3 {
        return ToolOut { code: 1000 + sig, out: String::new(), err: String::new() };
    }
    let text = |v: &[u8]| String::from_utf8_lossy(v).into_owned();
    if let Ok(j) = J::parse(&text(&parts[0])) {
        simos::import(&j);
    }
    ToolOut { code, out: text(&parts[1]), err: text(&parts[2]) }
}
