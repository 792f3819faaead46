//! Analysis roots of the options module of scc, read from /repo.  Nothing in this crate is ever executed.
#![allow(clippy::all, dead_code, unused)]
#![feature(try_trait_v2)]
pub mod model;
#[path = "/repo/scc/cli/src/opts.rs"]
pub mod opts;
use opts::*;

pub fn opts_fix_args(args: Vec<String>) -> Vec<String> { fix_args(args) }
pub fn opts_parser() -> bpaf::Tree { Opts::get_parser().tree }
pub fn opts_load(a: &[&str]) -> Result<Opts, bpaf::ParseFailure> { Opts::load(a) }
pub fn opts_defaults() -> (bool, bool, bool, bool, bool, bool, u8) {
    (Opts::DEFAULT_NO_BREAKPOINT, Opts::DEFAULT_NO_DEBUG, Opts::DEFAULT_NO_EXEC, Opts::DEFAULT_NO_PROFILE, Opts::DEFAULT_NO_TESTONLY, Opts::DEFAULT_OPTIMIZE, Opts::DEFAULT_THREADS)
}
