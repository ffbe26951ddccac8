//! The real clap, except that `Parser::parse` reads the simulated process's arguments.
pub use real_clap::*;
use std::cell::RefCell;
use std::ffi::OsString;

thread_local! { static ARGV: RefCell<Option<Vec<OsString>>> = const { RefCell::new(None) }; }
pub fn sim_set_args<I: IntoIterator<Item = S>, S: Into<OsString>>(a: I) {
    let v = a.into_iter().map(|s| s.into()).collect();
    ARGV.with(|c| *c.borrow_mut() = Some(v));
}
pub fn sim_args() -> Vec<OsString> {
    ARGV.with(|c| c.borrow().clone()).unwrap_or_else(|| std::env::args_os().collect())
}

/// Same provided methods as the original trait.
pub trait Parser: FromArgMatches + CommandFactory + Sized {
    fn parse() -> Self {
        Self::parse_from(sim_args())
    }
    fn try_parse() -> Result<Self, Error> {
        Self::try_parse_from(sim_args())
    }
    fn parse_from<I, T>(itr: I) -> Self
    where
        I: IntoIterator<Item = T>,
        T: Into<OsString> + Clone,
    {
        match Self::try_parse_from(itr) {
            Ok(s) => s,
            Err(e) => e.exit(),
        }
    }
    fn try_parse_from<I, T>(itr: I) -> Result<Self, Error>
    where
        I: IntoIterator<Item = T>,
        T: Into<OsString> + Clone,
    {
        let mut m = <Self as CommandFactory>::command().try_get_matches_from(itr)?;
        <Self as FromArgMatches>::from_arg_matches_mut(&mut m).map_err(|e| {
            let mut cmd = <Self as CommandFactory>::command();
            e.format(&mut cmd)
        })
    }
}
