//! Type-erased access to the library: every call into the code under test goes through `guard`, so that a panic of the
//! library is an observed outcome and a panic of the harness is a harness error.
use crate::dispatch;
use crate::types::{TestPoint, Ty};
use ros_pointcloud2::iterator::PointCloudIterator;
use ros_pointcloud2::{MsgConversionError, PointCloud2Msg, PointConvertible};
#[cfg(feature = "full")]
use rayon::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum ErrRepr {
    InvalidFieldFormat,
    UnsupportedFieldType(String),
    DataLengthMismatch,
    FieldsNotFound(Vec<String>),
    UnsupportedFieldCount,
    NumberConversion,
    ExhaustedSource,
}

impl From<MsgConversionError> for ErrRepr {
    fn from(e: MsgConversionError) -> Self {
        match e {
            MsgConversionError::InvalidFieldFormat => ErrRepr::InvalidFieldFormat,
            #[cfg(feature = "full")]
            MsgConversionError::UnsupportedFieldType(s) => ErrRepr::UnsupportedFieldType(s),
            MsgConversionError::DataLengthMismatch => ErrRepr::DataLengthMismatch,
            MsgConversionError::FieldsNotFound(v) => ErrRepr::FieldsNotFound(v),
            MsgConversionError::UnsupportedFieldCount => ErrRepr::UnsupportedFieldCount,
            MsgConversionError::NumberConversion => ErrRepr::NumberConversion,
            MsgConversionError::ExhaustedSource => ErrRepr::ExhaustedSource,
            // its payload exists only with the std feature
            #[cfg(not(feature = "full"))]
            #[allow(unreachable_patterns)]
            _ => ErrRepr::UnsupportedFieldType(String::new()),
        }
    }
}

thread_local! {
    static IN_LIB: Cell<u32> = const { Cell::new(0) };
}

pub fn install_quiet_hook() {
    let verbose = std::env::var_os("HARNESS_VERBOSE").is_some();
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if verbose {
            default(info);
        } else if std::thread::current().name() == Some("main") && IN_LIB.with(|c| c.get()) == 0 {
            eprintln!("harness panic: {info}");
        }
    }));
}

/// Runs library code; a panic becomes Err(message).
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    IN_LIB.with(|c| c.set(c.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_LIB.with(|c| c.set(c.get() - 1));
    r.map_err(|p| {
        if let Some(s) = p.downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}

pub type Rows = Vec<Vec<u64>>;

/// What a reader did with a message.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Outcome<R = Rows> {
    Ok(R),
    Err(ErrRepr),
    Panic(String),
}

impl<R> Outcome<R> {
    fn of(r: Result<Result<R, MsgConversionError>, String>) -> Self {
        match r {
            Ok(Ok(v)) => Outcome::Ok(v),
            Ok(Err(e)) => Outcome::Err(e.into()),
            Err(p) => Outcome::Panic(p),
        }
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Outcome::Ok(_))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Writer {
    Iter,
    Vec,
    Par,
}
impl Writer {
    pub const ALL: [Writer; 3] = [Writer::Iter, Writer::Vec, Writer::Par];
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Reader {
    Iter,
    /// the public iterator type, used directly
    Cursor,
    Vec,
    Par,
}
impl Reader {
    // bounded readers first: a bug that makes reading endless shows there as a wrong count
    pub const ALL: [Reader; 4] = [Reader::Iter, Reader::Cursor, Reader::Par, Reader::Vec];
}

pub fn points_of<T: TestPoint>(rows: &[Vec<u64>]) -> Vec<T> {
    rows.iter().map(|w| T::from_words(w)).collect()
}

pub fn write_t<const N: usize, T>(w: Writer, pts: Vec<T>) -> Outcome<PointCloud2Msg>
where
    T: TestPoint + PointConvertible<N>,
{
    Outcome::of(guard(|| match w {
        Writer::Iter => write_iter(pts),
        Writer::Vec => PointCloud2Msg::try_from_vec(pts),
        #[cfg(feature = "full")]
        Writer::Par => PointCloud2Msg::try_from_par_iter(pts.into_par_iter()),
        #[cfg(not(feature = "full"))]
        Writer::Par => unreachable!("built without the parallel writer"),
    }))
}

/// Reports any bounds it likes around the truth, as iterators may.
struct Hinted<I> {
    inner: I,
    left: usize,
    low: bool,
    high: Option<usize>,
}

impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        let x = self.inner.next();
        if x.is_some() {
            self.left -= 1;
        }
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (if self.low { self.left } else { 0 }, self.high.map(|h| self.left.saturating_add(h)))
    }
}

/// The iterator writer, fed by one of several kinds of iterators (which one depends on the points alone).
fn write_iter<const N: usize, T>(pts: Vec<T>) -> Result<PointCloud2Msg, MsgConversionError>
where
    T: TestPoint + PointConvertible<N>,
{
    let n = pts.len();
    let kind = (n as u64).wrapping_add(pts.first().map_or(0, |p| p.to_words().iter().fold(0u64, |h, w| h.wrapping_mul(31).wrapping_add(*w))));
    let hinted = |low, high| Hinted { inner: pts.clone().into_iter(), left: n, low, high };
    match kind % 9 {
        0 => PointCloud2Msg::try_from_iter(hinted(false, None)),
        1 => PointCloud2Msg::try_from_iter(hinted(false, Some(usize::MAX))),
        2 => PointCloud2Msg::try_from_iter(hinted(true, Some(1 + n / 2))),
        3 => {
            // twice as many candidates as points
            let mut keep = false;
            let doubled: Vec<T> = pts.iter().flat_map(|p| [p.clone(), p.clone()]).collect();
            PointCloud2Msg::try_from_iter(doubled.into_iter().filter(move |_| {
                keep = !keep;
                keep
            }))
        }
        4 => {
            let mut it = pts.into_iter();
            PointCloud2Msg::try_from_iter(std::iter::from_fn(move || it.next()))
        }
        5 => {
            let tail = pts[n / 2..].to_vec();
            PointCloud2Msg::try_from_iter(pts.into_iter().take(n / 2).chain(tail))
        }
        6 => {
            // more of them available than are written
            let mut it = pts.clone().into_iter().cycle().skip(n).take(n);
            PointCloud2Msg::try_from_iter(it.by_ref())
        }
        _ => PointCloud2Msg::try_from_iter(pts),
    }
}

/// Reads at most `limit` points (an endless reader must not hang the harness).
pub fn read_t<const N: usize, T>(r: Reader, msg: PointCloud2Msg, limit: usize) -> Outcome<Vec<T>>
where
    T: TestPoint + PointConvertible<N>,
{
    Outcome::of(guard(|| match r {
        Reader::Iter => Ok(msg.try_into_iter()?.take(limit).collect()),
        Reader::Cursor => {
            let it: PointCloudIterator<N, T> = PointCloudIterator::try_from(msg)?;
            let mut v = Vec::new();
            for p in Iterator::take(it, limit) {
                v.push(p);
            }
            Ok(v)
        }
        Reader::Vec => msg.try_into_vec(),
        #[cfg(feature = "full")]
        Reader::Par => Ok(msg.try_into_par_iter()?.collect()),
        #[cfg(not(feature = "full"))]
        Reader::Par => unreachable!("built without the parallel reader"),
    }))
}

pub fn write(ty: Ty, w: Writer, rows: &[Vec<u64>]) -> Outcome<PointCloud2Msg> {
    dispatch!(ty, T, N => write_t::<N, T>(w, points_of::<T>(rows)))
}

pub fn read(ty: Ty, r: Reader, msg: PointCloud2Msg, limit: usize) -> Outcome {
    dispatch!(ty, T, N => match read_t::<N, T>(r, msg, limit) {
        Outcome::Ok(v) => Outcome::Ok(v.iter().map(|p| p.to_words()).collect()),
        Outcome::Err(e) => Outcome::Err(e),
        Outcome::Panic(p) => Outcome::Panic(p),
    })
}
