//! Verification stand-in for `eyre`: same interface as far as posy uses it, but error *messages* are
//! never formatted (formatting symbolic text would fork on every character).  The wrapped error value is
//! kept, so `downcast_ref`/`is` behave as in the real crate.
use std::error::Error as StdError;
use std::fmt::{self, Debug, Display};

pub struct Report {
    inner: Option<Box<dyn StdError + Send + Sync + 'static>>,
}
pub type Result<T, E = Report> = core::result::Result<T, E>;

impl Report {
    pub fn adhoc() -> Report { Report { inner: None } }
    pub fn msg<M: Display + Debug + Send + Sync + 'static>(_m: M) -> Report { Report { inner: None } }
    pub fn new<E: StdError + Send + Sync + 'static>(e: E) -> Report { Report { inner: Some(Box::new(e)) } }
    pub fn is<E: Display + Debug + Send + Sync + 'static>(&self) -> bool where E: StdError { self.downcast_ref::<E>().is_some() }
    pub fn downcast_ref<E: StdError + Send + Sync + 'static>(&self) -> Option<&E> {
        self.inner.as_ref().and_then(|b| b.downcast_ref::<E>())
    }
    pub fn downcast<E: StdError + Send + Sync + 'static>(self) -> Result<E, Report> {
        match self.inner {
            Some(b) => match b.downcast::<E>() { Ok(x) => Ok(*x), Err(b) => Err(Report { inner: Some(b) }) },
            None => Err(self),
        }
    }
    pub fn wrap_err<D: Display + Send + Sync + 'static>(self, _m: D) -> Report { self }
    pub fn root_cause(&self) -> &(dyn StdError + 'static) {
        match &self.inner { Some(b) => { let mut e: &(dyn StdError + 'static) = &**b; while let Some(s) = e.source() { e = s } e } None => &ADHOC }
    }
}
#[derive(Debug)]
struct Adhoc;
static ADHOC: Adhoc = Adhoc;
impl Display for Adhoc { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("error") } }
impl StdError for Adhoc {}
impl<E: StdError + Send + Sync + 'static> From<E> for Report { fn from(e: E) -> Report { Report::new(e) } }
impl Display for Report { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("error") } }
impl Debug for Report { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("error") } }
impl From<Report> for Box<dyn StdError + Send + Sync + 'static> {
    fn from(r: Report) -> Self { match r.inner { Some(b) => b, None => Box::new(Adhoc) } }
}
impl From<Report> for Box<dyn StdError + 'static> {
    fn from(r: Report) -> Self { match r.inner { Some(b) => b, None => Box::new(Adhoc) } }
}
impl AsRef<dyn StdError + Send + Sync> for Report {
    fn as_ref(&self) -> &(dyn StdError + Send + Sync + 'static) { match &self.inner { Some(b) => &**b, None => &ADHOC } }
}

pub trait EyreHandler: core::any::Any + Send + Sync {
    fn debug(&self, error: &(dyn StdError + 'static), f: &mut fmt::Formatter<'_>) -> fmt::Result;
    fn display(&self, _error: &(dyn StdError + 'static), _f: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) }
    fn track_caller(&mut self, _location: &'static std::panic::Location<'static>) {}
}
pub type ErrorHook = Box<dyn Fn(&(dyn StdError + 'static)) -> Box<dyn EyreHandler> + Sync + Send + 'static>;
pub fn set_hook(_h: ErrorHook) -> Result<(), Report> { Ok(()) }

pub trait WrapErr<T, E> {
    fn wrap_err<D: Display + Send + Sync + 'static>(self, msg: D) -> Result<T, Report>;
    fn wrap_err_with<D: Display + Send + Sync + 'static, F: FnOnce() -> D>(self, f: F) -> Result<T, Report>;
    fn context<D: Display + Send + Sync + 'static>(self, msg: D) -> Result<T, Report>;
    fn with_context<D: Display + Send + Sync + 'static, F: FnOnce() -> D>(self, f: F) -> Result<T, Report>;
}
impl<T, E: Into<Report>> WrapErr<T, E> for core::result::Result<T, E> {
    fn wrap_err<D: Display + Send + Sync + 'static>(self, _m: D) -> Result<T, Report> { match self { Ok(x) => Ok(x), Err(e) => Err(e.into()) } }
    fn wrap_err_with<D: Display + Send + Sync + 'static, F: FnOnce() -> D>(self, _f: F) -> Result<T, Report> { match self { Ok(x) => Ok(x), Err(e) => Err(e.into()) } }
    fn context<D: Display + Send + Sync + 'static>(self, _m: D) -> Result<T, Report> { match self { Ok(x) => Ok(x), Err(e) => Err(e.into()) } }
    fn with_context<D: Display + Send + Sync + 'static, F: FnOnce() -> D>(self, _f: F) -> Result<T, Report> { match self { Ok(x) => Ok(x), Err(e) => Err(e.into()) } }
}
pub use WrapErr as Context;
pub trait ContextCompat<T> {
    fn wrap_err<D: Display + Send + Sync + 'static>(self, msg: D) -> Result<T, Report>;
    fn wrap_err_with<D: Display + Send + Sync + 'static, F: FnOnce() -> D>(self, f: F) -> Result<T, Report>;
    fn context<D: Display + Send + Sync + 'static>(self, msg: D) -> Result<T, Report>;
    fn with_context<D: Display + Send + Sync + 'static, F: FnOnce() -> D>(self, f: F) -> Result<T, Report>;
}
impl<T> ContextCompat<T> for Option<T> {
    fn wrap_err<D: Display + Send + Sync + 'static>(self, _m: D) -> Result<T, Report> { self.ok_or_else(Report::adhoc) }
    fn wrap_err_with<D: Display + Send + Sync + 'static, F: FnOnce() -> D>(self, _f: F) -> Result<T, Report> { self.ok_or_else(Report::adhoc) }
    fn context<D: Display + Send + Sync + 'static>(self, _m: D) -> Result<T, Report> { self.ok_or_else(Report::adhoc) }
    fn with_context<D: Display + Send + Sync + 'static, F: FnOnce() -> D>(self, _f: F) -> Result<T, Report> { self.ok_or_else(Report::adhoc) }
}

pub mod private {
    use super::*;
    pub use core::format_args;
    pub use core::result::Result::Err;
    pub mod kind {
        use super::*;
        pub struct Adhoc;
        pub trait AdhocKind: Sized { #[inline] fn eyre_kind(&self) -> Adhoc { Adhoc } }
        impl<T: ?Sized + Display + Debug + Send + Sync + 'static> AdhocKind for &T {}
        impl Adhoc { pub fn new<M>(self, _m: M) -> Report { Report::adhoc() } }
        pub struct Trait;
        pub trait TraitKind: Sized { #[inline] fn eyre_kind(&self) -> Trait { Trait } }
        impl<E: Into<Report>> TraitKind for E {}
        impl Trait { pub fn new<E: Into<Report>>(self, e: E) -> Report { e.into() } }
    }
}
#[macro_export]
macro_rules! eyre {
    ($msg:literal $(,)?) => ({ if false { let _ = $crate::private::format_args!($msg).to_string(); } $crate::Report::adhoc() });
    ($err:expr $(,)?) => ({ use $crate::private::kind::*; let error = match $err { error => (&error).eyre_kind().new(error) }; error });
    ($fmt:expr, $($arg:tt)*) => ({ if false { let _ = $crate::private::format_args!($fmt, $($arg)*).to_string(); } $crate::Report::adhoc() });
}
#[macro_export]
macro_rules! bail {
    ($msg:literal $(,)?) => { return $crate::private::Err($crate::eyre!($msg)) };
    ($err:expr $(,)?) => { return $crate::private::Err($crate::eyre!($err)) };
    ($fmt:expr, $($arg:tt)*) => { return $crate::private::Err($crate::eyre!($fmt, $($arg)*)) };
}
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($t:tt)*) => { if !$cond { $crate::bail!($($t)*) } };
}
pub use eyre as format_err;
