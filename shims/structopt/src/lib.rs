//! Stand-in for structopt: the program's settings come from a command line the harness lays out.
use std::fmt::Debug;
use std::str::FromStr;
pub use sx_macros::StructOpt;

pub trait StructOpt {
    fn from_args() -> Self;
}

static mut LINE: Vec<(&'static str, String)> = Vec::new();

/// Options by their long names, the positional argument by the empty one.
#[allow(static_mut_refs)]
pub fn command_line(line: Vec<(&'static str, String)>) {
    unsafe { LINE = line }
}

#[allow(static_mut_refs)]
fn text(option: &str) -> Option<&'static str> {
    unsafe { LINE.iter().find(|(n, _)| *n == option).map(|(_, v)| v.as_str()) }
}

pub fn value<T: FromStr>(option: &str, default: Option<&str>) -> T
where
    T::Err: Debug,
{
    let t = text(option).or(default).expect("a required argument is missing");
    t.parse().expect("an argument is invalid")
}

pub fn optional<T: FromStr>(option: &str, default: Option<&str>) -> Option<T>
where
    T::Err: Debug,
{
    text(option).or(default).map(|t| t.parse().expect("an argument is invalid"))
}
