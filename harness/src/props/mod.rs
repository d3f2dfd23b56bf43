use crate::run::Check;

mod beyond;
mod cli;
mod clip;
pub mod decode;
mod frame;
mod memory;
mod rel;
pub mod video;

const CHECKS: &[(&str, Check)] = &[
    ("C01", frame::c01),
    ("C02", frame::c02),
    ("C03", frame::c03),
    ("C04", frame::c04),
    ("C05", frame::c05),
    ("C06", frame::c06),
    ("C07", clip::c07),
    ("C08", clip::c08),
    ("C09", clip::c09),
    ("C10", clip::c10),
    ("C11", rel::c11),
    ("C12", rel::c12),
    ("C13", rel::c13),
    ("C14", rel::c14),
    ("C15", decode::c15),
    ("C16", decode::c16),
    ("C17", decode::c17),
    ("C18", decode::c18),
    ("C19", cli::c19),
    ("C20", cli::c20),
    ("C21", video::c21),
    ("C22", video::c22),
    ("C24", video::c24),
    ("C25", memory::c25),
    ("C26", cli::c26),
    ("C27", beyond::c27),
];

pub fn find(id: &str) -> Option<(&'static str, Check)> {
    CHECKS.iter().find(|c| c.0 == id).copied()
}
