//! One module per group of properties.
use crate::engine::Prop;
mod bigfile;
pub mod clitools;
mod compressed;
mod damage;
mod derived;
mod files;
pub mod fixtures;
mod histories;
mod layouts;
mod outofturn;
pub mod reading;
mod resources;
mod rows;
mod structure;
mod roundtrip;
mod threads;
mod types;
mod writing;

pub fn all() -> Vec<&'static dyn Prop> {
    vec![&roundtrip::C01, &writing::C02, &writing::C03, &writing::C04, &reading::C05, &reading::C06, &reading::C07, &fixtures::C16, &histories::C08, &threads::C09, &rows::C10, &derived::C11, &structure::C12, &files::C13, &files::C14, &files::C17, &bigfile::C18, &files::C19, &resources::C15, &types::C20, &compressed::C21, &clitools::C23, &outofturn::C24, &layouts::C25, &damage::C26]
}
