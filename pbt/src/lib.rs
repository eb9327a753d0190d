//! A small property-based testing engine, in the style of Hypothesis: a generated case is a pure
//! function of a *choice sequence*; random cases draw it from a seeded PRNG, a replay reads it from
//! a file, shrinking edits the sequence and reruns the case in a fresh process.
#[cfg(pbt_cov)]
mod guide;
pub mod runner;
pub mod src;
pub mod track;

pub use runner::{fatal, undecided};
pub use src::{catch, catch_quiet, Src};

pub type R = Result<(), String>;

/// One executable check: a generator plus oracle.
#[derive(Clone, Copy)]
pub struct Sub {
    pub name: &'static str,
    /// Cases in the quick and in the thorough tier.
    pub cases: (u64, u64),
    pub run: fn(&mut Src) -> R,
    /// How cases are made and what counts as non-trivial.
    pub rule: &'static str,
    /// Run the case under the tracking allocator, with a leak check at its end.
    pub track: bool,
}

pub struct Prop {
    pub id: &'static str,
    pub subs: Vec<Sub>,
    pub assumptions: Vec<&'static str>,
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)+) => {
        if !$cond { return Err(format!($($arg)+)); }
    };
    ($cond:expr) => {
        if !$cond { return Err(format!("check failed: {} ({}:{})", stringify!($cond), file!(), line!())); }
    };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)+) => {{
        let (a, b) = (&$a, &$b);
        if !(*a == *b) { return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)+), a, b)); }
    }};
    ($a:expr, $b:expr) => { $crate::ensure_eq!($a, $b, "{} == {} ({}:{})", stringify!($a), stringify!($b), file!(), line!()) };
}
