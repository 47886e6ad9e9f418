//! The command line tools as modules (see build.rs).
include!(concat!(env!("OUT_DIR"), "/tools.rs"));
