//! The properties, one check each.

pub mod common;
pub mod back;
pub mod fwd;
pub mod cli;
pub mod files;
pub mod hyph;
pub mod meta;
pub mod total;
pub mod trace;

use crate::engine::Prop;

pub static ALL: &[Prop] = &[total::C01, total::C02, total::C03, total::C04, total::C05, fwd::C06, fwd::C07, fwd::C08, fwd::C09, fwd::C10, fwd::C11, fwd::C12, fwd::C13, fwd::C14, hyph::C15, back::C16, meta::C17, meta::C18, meta::C19, files::C20, cli::C21, cli::C22, cli::C23, cli::C24, fwd::C25, fwd::C26, back::C27, trace::C28];

