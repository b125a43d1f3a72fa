use crate::api::{guard, read, ErrRepr, Outcome, Reader, Rows, Writer};
use crate::engine::{splitmix, Class, Prop};
use crate::gen::{self, Source};
use crate::msg::{brief, conforms, diff, get_scalar, view, MsgSpec};
use crate::types::reexport::*;
use crate::types::{Dt, TestPoint, Ty};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use rayon::prelude::*;
use ros_pointcloud2::iterator::PointCloudIterator;
use ros_pointcloud2::ros::PointFieldMsg;
use ros_pointcloud2::{CloudDimensions, Endian, MsgConversionError, PointCloud2Msg, PointCloud2MsgBuilder, PointConvertible};
use serde::{Deserialize, Serialize};
use std::sync::OnceLock;

pub struct C20;

/// What happens to the points between a reader and a writer.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Flow {
    Whole,
    Rev,
    /// skip, take, step
    Slice(u16, u16, u8),
    /// keep some by their values
    Keep(u8),
    Twice(u8),
    /// alter one field
    Change(u8, u64),
    /// another cloud's points (its index) follow
    Append(u8),
    /// the two halves of a split, exchanged
    Swap(u16),
    /// alternately from the front and the back
    Ends,
    /// what is left after some were taken from either end
    Rest(u8, u8),
    /// alternating with the points of another cloud (its index) as long as both have some
    Weave(u8),
    /// looking one point ahead
    Peek,
}

/// What a user (or the transport) does to a message itself.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Edit {
    Json,
    Compact,
    Rebuild,
    Reshape(u8),
    Truncate(u16),
    DropFront(u16),
    /// bytes after and before every point
    Pad(u8, u8),
    /// the points of another cloud of the same layout appended as bytes
    Glue(u8),
    Swab,
    Alias(u8),
    Shuffle(u32),
    Header(u32),
    RowStep(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Step {
    Through { ty: Ty, reader: Reader, flow: Flow, writer: Writer, threads: u8 },
    Edit(Edit),
    /// go on with an earlier cloud
    Pick(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub ty: Ty,
    pub src: Source,
    pub steps: Vec<Step>,
}

/// What a cloud holds, whoever wrote it.
#[derive(Clone)]
struct Model {
    fields: Vec<(String, Dt)>,
    rows: Rows,
}

impl Model {
    /// The points as a type asks for them. Err(true): a reader must refuse. Err(false): the statement leaves it open.
    fn as_type(&self, ty: Ty) -> Result<Rows, bool> {
        let mut ix = Vec::new();
        let mut refuse = false;
        for w in ty.fields() {
            match self.fields.iter().position(|f| f.0 == w.name) {
                Some(i) if self.fields[i].1 == w.dt => ix.push(i),
                Some(i) if w.rgb && matches!(self.fields[i].1, Dt::U32 | Dt::I32) => return Err(false),
                _ => refuse = true,
            }
        }
        if refuse {
            return Err(true);
        }
        Ok(self.rows.iter().map(|r| ix.iter().map(|i| r[*i]).collect()).collect())
    }
}

fn model_of(m: &MsgSpec) -> Model {
    let data = m.data.bytes();
    let known: Vec<(String, Dt, usize)> = m
        .fields
        .iter()
        .filter(|f| f.count == 1)
        .filter_map(|f| Dt::from_code(f.datatype).map(|d| (f.name.clone(), d, f.offset as usize)))
        .filter(|f| f.2 + f.1.size() <= m.point_step as usize)
        .collect();
    Model {
        rows: (0..m.points() as usize)
            .map(|i| known.iter().map(|f| get_scalar(&data, i * m.point_step as usize + f.2, f.1, m.big)).collect())
            .collect(),
        fields: known.into_iter().map(|f| (f.0, f.1)).collect(),
    }
}

fn mix(r: &[u64]) -> u64 {
    r.iter().fold(0x9E37u64, |h, w| (h ^ w).wrapping_mul(0x100000001b3).rotate_left(17))
}

fn kept(r: &[u64], mask: u8) -> bool {
    (mix(r) >> 8) as u8 & mask != mask
}

fn copies(r: &[u64], k: u8) -> usize {
    ((mix(r) >> 4) as usize + k as usize) % 3
}

fn changed(ty: Ty, r: &[u64], field: u8, x: u64) -> Vec<u64> {
    let mut r = r.to_vec();
    let k = field as usize % r.len();
    r[k] ^= x;
    ty.canon(&mut r);
    r
}

fn changed_point<T: TestPoint>(p: T, field: u8, x: u64) -> T {
    let mut r = p.to_words();
    let k = field as usize % r.len();
    r[k] ^= x;
    T::canon(&mut r);
    T::from_words(&r)
}

fn weave<X>(mut a: impl Iterator<Item = X>, mut b: impl Iterator<Item = X>) -> impl Iterator<Item = X> {
    let mut turn = false;
    std::iter::from_fn(move || {
        turn = !turn;
        if turn {
            a.next()
        } else {
            b.next()
        }
    })
    .fuse()
}

fn ends<X>(mut a: impl DoubleEndedIterator<Item = X>) -> impl Iterator<Item = X> {
    let mut turn = false;
    std::iter::from_fn(move || {
        turn = !turn;
        if turn {
            a.next()
        } else {
            a.next_back()
        }
    })
}

/// Drops the points whose successor is equal to them in the first field's low bit.
fn peeking<X>(it: impl Iterator<Item = X>, bit: impl Fn(&X) -> bool) -> impl Iterator<Item = X> {
    let mut it = it.peekable();
    std::iter::from_fn(move || loop {
        let p = it.next()?;
        match it.peek() {
            Some(q) if bit(q) == bit(&p) => {}
            _ => return Some(p),
        }
    })
}

fn slice_of(step: u32, a: u16, b: u16, c: u8) -> (usize, usize, usize) {
    (gen::amount(a, step), gen::amount(b, step), c as usize % 4 + 1)
}

/// The reference: the same flow over plain rows.
fn flow_rows(ty: Ty, flow: Flow, rows: Rows, other: Rows, step: u32) -> Rows {
    match flow {
        Flow::Whole => rows,
        Flow::Rev => rows.into_iter().rev().collect(),
        Flow::Slice(a, b, c) => {
            let (a, b, c) = slice_of(step, a, b, c);
            rows.into_iter().skip(a).take(b).step_by(c).collect()
        }
        Flow::Keep(m) => rows.into_iter().filter(|r| kept(r, m)).collect(),
        Flow::Twice(k) => rows.into_iter().flat_map(|r| vec![r.clone(); copies(&r, k)]).collect(),
        Flow::Change(f, x) => rows.iter().map(|r| changed(ty, r, f, x)).collect(),
        Flow::Append(_) => rows.into_iter().chain(other).collect(),
        Flow::Swap(k) => {
            let mut rows = rows;
            let k = k as usize % (rows.len() + 1);
            rows.rotate_left(k);
            rows
        }
        Flow::Ends => ends(rows.into_iter()).collect(),
        Flow::Rest(a, b) => {
            let a = (a as usize).min(rows.len());
            let b = (b as usize).min(rows.len() - a);
            rows[a..rows.len() - b].to_vec()
        }
        Flow::Weave(_) => weave(rows.into_iter(), other.into_iter()).collect(),
        Flow::Peek => peeking(rows.into_iter(), |r| r[0] & 1 == 1).collect(),
    }
}

pub(super) fn pool(threads: u8) -> &'static rayon::ThreadPool {
    static P: [OnceLock<rayon::ThreadPool>; 3] = [OnceLock::new(), OnceLock::new(), OnceLock::new()];
    let i = threads as usize % P.len();
    P[i].get_or_init(|| rayon::ThreadPoolBuilder::new().num_threads([1, 3, 8][i]).build().expect("thread pool"))
}

/// The common end of most flows (type-erased: the writers' own handling of particular iterators is met by the direct flows).
fn put<const N: usize, T: TestPoint + PointConvertible<N>>(w: Writer, it: Boxed<T>) -> Result<PointCloud2Msg, MsgConversionError> {
    match w {
        Writer::Iter => PointCloud2Msg::try_from_iter(it),
        w => put_vec(w, it.collect()),
    }
}

fn put_vec<const N: usize, T: TestPoint + PointConvertible<N>>(w: Writer, v: Vec<T>) -> Result<PointCloud2Msg, MsgConversionError> {
    match w {
        Writer::Iter => PointCloud2Msg::try_from_iter(v),
        Writer::Vec => PointCloud2Msg::try_from_vec(v),
        Writer::Par => PointCloud2Msg::try_from_par_iter(v.into_par_iter()),
    }
}

type Boxed<T> = Box<dyn Iterator<Item = T>>;

/// Flows over any double-ended iterator.
fn forward<T: TestPoint>(it: Box<dyn DoubleEndedIterator<Item = T>>, other: Option<Boxed<T>>, flow: Flow, step: u32) -> Boxed<T> {
    match flow {
        Flow::Rev => Box::new(it.rev()),
        Flow::Ends => Box::new(ends(it)),
        Flow::Slice(a, b, c) => {
            let (a, b, c) = slice_of(step, a, b, c);
            Box::new(it.skip(a).take(b).step_by(c))
        }
        Flow::Keep(m) => Box::new(it.filter(move |p| kept(&p.to_words(), m))),
        Flow::Twice(k) => Box::new(it.flat_map(move |p| {
            let n = copies(&p.to_words(), k);
            vec![p; n]
        })),
        Flow::Change(f, x) => Box::new(it.map(move |p| changed_point(p, f, x))),
        Flow::Append(_) => Box::new(it.chain(other.expect("another cloud"))),
        Flow::Weave(_) => Box::new(weave(it, other.expect("another cloud"))),
        Flow::Peek => Box::new(peeking(it, |p| p.to_words()[0] & 1 == 1)),
        _ => it,
    }
}

pub(super) fn cursor<const N: usize, T: TestPoint + PointConvertible<N>>(m: PointCloud2Msg) -> Result<PointCloudIterator<N, T>, MsgConversionError> {
    PointCloudIterator::try_from(m)
}

/// Streams one cloud (and points of another) into a new one.
fn through<const N: usize, T: TestPoint + PointConvertible<N>>(
    msg: PointCloud2Msg,
    other: Option<PointCloud2Msg>,
    reader: Reader,
    flow: Flow,
    writer: Writer,
) -> Result<PointCloud2Msg, MsgConversionError> {
    let step = msg.point_step;
    let boxed = |m: Option<PointCloud2Msg>| -> Result<Option<Boxed<T>>, MsgConversionError> {
        Ok(match (m, reader) {
            (None, _) => None,
            (Some(m), Reader::Vec) => Some(Box::new(m.try_into_vec::<N, T>()?.into_iter())),
            (Some(m), _) => Some(Box::new(cursor::<N, T>(m)?)),
        })
    };
    match reader {
        Reader::Par => {
            let it = || cursor::<N, T>(msg.clone());
            let v: Vec<T> = match flow {
                Flow::Rev => IndexedParallelIterator::rev(it()?).collect(),
                Flow::Slice(a, b, c) => {
                    let (a, b, c) = slice_of(step, a, b, c);
                    IndexedParallelIterator::step_by(IndexedParallelIterator::take(IndexedParallelIterator::skip(it()?, a), b), c).collect()
                }
                Flow::Keep(m) if writer == Writer::Par => {
                    return PointCloud2Msg::try_from_par_iter(ParallelIterator::filter(msg.try_into_par_iter::<N, T>()?, move |p: &T| kept(&p.to_words(), m)))
                }
                Flow::Append(_) => {
                    let joined = ParallelIterator::chain(it()?, cursor::<N, T>(other.expect("another cloud"))?);
                    if writer == Writer::Par {
                        return PointCloud2Msg::try_from_par_iter(joined);
                    }
                    joined.collect()
                }
                Flow::Swap(k) => {
                    let it = it()?;
                    let n = ExactSizeIterator::len(&it);
                    let (a, b) = it.split_at(k as usize % (n + 1));
                    ParallelIterator::chain(b, a).collect()
                }
                Flow::Rest(a, b) => {
                    let mut it = it()?;
                    (0..a).for_each(|_| drop(it.next()));
                    (0..b).for_each(|_| drop(it.next_back()));
                    if writer == Writer::Par {
                        return PointCloud2Msg::try_from_par_iter(it);
                    }
                    ParallelIterator::collect(it)
                }
                Flow::Whole if writer == Writer::Par => return PointCloud2Msg::try_from_par_iter(msg.try_into_par_iter::<N, T>()?),
                Flow::Change(f, x) => msg.try_into_par_iter::<N, T>()?.map(move |p| changed_point(p, f, x)).collect(),
                _ => {
                    let other = boxed(other)?;
                    return put(writer, forward(Box::new(msg.try_into_par_iter::<N, T>()?.collect::<Vec<T>>().into_iter()), other, flow, step));
                }
            };
            put_vec(writer, v)
        }
        Reader::Vec => {
            let other = boxed(other)?;
            let mut v = msg.try_into_vec::<N, T>()?;
            match flow {
                Flow::Rev => v.reverse(),
                Flow::Whole => {}
                Flow::Keep(m) => v.retain(|p| kept(&p.to_words(), m)),
                Flow::Append(_) => v.extend(other.expect("another cloud")),
                Flow::Swap(k) => {
                    let k = k as usize % (v.len() + 1);
                    v.rotate_left(k);
                }
                Flow::Rest(a, b) => {
                    let a = (a as usize).min(v.len());
                    let b = (b as usize).min(v.len() - a);
                    v.truncate(v.len() - b);
                    v.drain(..a);
                }
                _ => return put(writer, forward(Box::new(v.into_iter()), other, flow, step)),
            }
            put_vec(writer, v)
        }
        Reader::Iter | Reader::Cursor => {
            let other = boxed(other)?;
            match flow {
                Flow::Whole if reader == Reader::Iter => match writer {
                    Writer::Iter => PointCloud2Msg::try_from_iter(msg.try_into_iter::<N, T>()?),
                    w => put_vec(w, msg.try_into_iter::<N, T>()?.collect::<Vec<T>>()),
                },
                Flow::Change(f, x) if reader == Reader::Iter && writer == Writer::Iter => {
                    PointCloud2Msg::try_from_iter(msg.try_into_iter::<N, T>()?.map(move |p| changed_point(p, f, x)))
                }
                Flow::Swap(k) => {
                    let it = cursor::<N, T>(msg)?;
                    let n = it.size_hint().0;
                    let (a, b) = it.split_at(k as usize % (n + 1));
                    put(writer, Box::new(Iterator::chain(b, a)))
                }
                Flow::Rest(a, b) => {
                    let mut it = cursor::<N, T>(msg)?;
                    (0..a).for_each(|_| drop(it.next()));
                    (0..b).for_each(|_| drop(it.next_back()));
                    match writer {
                        Writer::Iter => PointCloud2Msg::try_from_iter(it.by_ref()),
                        w => put_vec(w, Iterator::collect(it)),
                    }
                }
                _ => put(writer, forward(Box::new(cursor::<N, T>(msg)?), other, flow, step)),
            }
        }
    }
}

macro_rules! on_type {
    ($ty:expr, $f:ident ( $($a:expr),* )) => {
        match $ty {
            Ty::XYZ => $f::<3, PointXYZ>($($a),*),
            Ty::Zyx => $f::<3, Zyx>($($a),*),
            Ty::Mixed => $f::<8, Mixed>($($a),*),
            Ty::MixedSub => $f::<4, MixedSub>($($a),*),
            #[cfg(feature = "c20")]
            Ty::XYZRGBNormal => $f::<7, PointXYZRGBNormal>($($a),*),
            #[cfg(feature = "c20")]
            Ty::PackedPt => $f::<5, PackedPt>($($a),*),
            #[cfg(feature = "c20")]
            Ty::Ouster => $f::<9, Ouster>($($a),*),
            #[cfg(feature = "c20")]
            Ty::Dyn(g) => {
                let _description = crate::dynamic::enter(g);
                match g.combo() {
                    1 => $f::<1, crate::dynamic::Dyn1>($($a),*),
                    5 => $f::<3, crate::dynamic::Dyn5>($($a),*),
                    9 => $f::<6, crate::dynamic::Dyn9>($($a),*),
                    _ => unreachable!("type not generated"),
                }
            }
            _ => unreachable!("type not generated"),
        }
    };
}

#[cfg(feature = "c20")]
const TYPES: &[Ty] = &[Ty::XYZ, Ty::XYZRGBNormal, Ty::Mixed, Ty::MixedSub, Ty::PackedPt, Ty::Zyx, Ty::Ouster];
/// C21 uses the histories with these only
#[cfg(not(feature = "c20"))]
const TYPES: &[Ty] = &[Ty::XYZ, Ty::Zyx, Ty::Mixed, Ty::MixedSub];
const COMBOS: &[u8] = &[9, 5, 1];

fn types() -> BoxedStrategy<Ty> {
    let generated = (select(COMBOS), any::<u16>(), any::<u32>()).prop_map(|(combo, universe, pick)| Ty::Dyn(crate::dynamic::Gen { combo, universe, pick }));
    prop_oneof![1 => select(TYPES), 1 => generated].boxed()
}

fn covers(from: Ty, to: Ty) -> bool {
    let src = from.fields();
    to.fields().iter().all(|w| src.iter().any(|f| f.name == w.name && f.dt == w.dt))
}

/// A type that can be read from clouds of `from`, mostly.
fn next_type(from: Ty, pick: u32) -> Ty {
    let mut s = pick as u64;
    let mut candidates: Vec<Ty> = TYPES.iter().copied().filter(|t| *t != from && (pick % 16 == 15 || covers(from, *t))).collect();
    if let Ty::Dyn(g) = from {
        for _ in 0..16 {
            let r = splitmix(&mut s);
            let h = crate::dynamic::Gen { combo: COMBOS[r as usize % COMBOS.len()], universe: g.universe, pick: (r >> 32) as u32 };
            if pick % 16 == 15 || covers(from, Ty::Dyn(h)) {
                candidates.push(Ty::Dyn(h));
            }
        }
    }
    if pick % 4 == 0 || candidates.is_empty() {
        from
    } else {
        candidates[splitmix(&mut s) as usize % candidates.len()]
    }
}

#[derive(Clone, Debug)]
enum RawStep {
    Through(u32, Reader, Flow, Writer, u8),
    Edit(Edit),
    Pick(u8),
}

fn flow() -> BoxedStrategy<Flow> {
    let k = || prop_oneof![6 => 0u16..6, 3 => 0u16..40, 1 => 0xFF80u16..=0xFFFF];
    prop_oneof![
        6 => Just(Flow::Whole),
        2 => Just(Flow::Rev),
        2 => (k(), prop_oneof![2 => Just(300u16), 1 => k()], any::<u8>()).prop_map(|(a, b, c)| Flow::Slice(a, b, c)),
        2 => select(&[1u8, 3, 128, 7][..]).prop_map(Flow::Keep),
        1 => any::<u8>().prop_map(Flow::Twice),
        2 => (any::<u8>(), gen::word()).prop_map(|(f, x)| Flow::Change(f, x)),
        2 => any::<u8>().prop_map(Flow::Append),
        2 => any::<u16>().prop_map(Flow::Swap),
        1 => Just(Flow::Ends),
        2 => (0u8..5, 0u8..5).prop_map(|(a, b)| Flow::Rest(a, b)),
        1 => any::<u8>().prop_map(Flow::Weave),
        1 => Just(Flow::Peek),
    ]
    .boxed()
}

fn edit() -> BoxedStrategy<Edit> {
    prop_oneof![
        1 => Just(Edit::Json),
        1 => Just(Edit::Compact),
        1 => Just(Edit::Rebuild),
        3 => (1u8..8).prop_map(Edit::Reshape),
        2 => any::<u16>().prop_map(Edit::Truncate),
        2 => any::<u16>().prop_map(Edit::DropFront),
        4 => (prop_oneof![Just(0u8), 1u8..20], prop_oneof![2 => Just(0u8), 1 => 1u8..9]).prop_map(|(a, b)| Edit::Pad(a, b)),
        2 => any::<u8>().prop_map(Edit::Glue),
        3 => Just(Edit::Swab),
        1 => any::<u8>().prop_map(Edit::Alias),
        3 => any::<u32>().prop_map(Edit::Shuffle),
        1 => any::<u32>().prop_map(Edit::Header),
        1 => any::<u32>().prop_map(Edit::RowStep),
    ]
    .boxed()
}

fn resolve(ty: Ty, raw: Vec<RawStep>) -> Vec<Step> {
    let mut pool = vec![ty];
    let mut cur = 0;
    raw.into_iter()
        .map(|r| match r {
            RawStep::Edit(e) => {
                pool.push(pool[cur]);
                cur = pool.len() - 1;
                Step::Edit(e)
            }
            RawStep::Pick(k) => {
                cur = k as usize % pool.len();
                Step::Pick(cur as u8)
            }
            RawStep::Through(pick, reader, flow, writer, threads) => {
                let ty = next_type(pool[cur], pick);
                // mostly a cloud that has the fields
                let partner = |k: u8| {
                    let fit: Vec<u8> = (0..pool.len() as u8).filter(|i| covers(pool[*i as usize], ty)).collect();
                    if fit.is_empty() || k % 16 == 15 {
                        k % pool.len() as u8
                    } else {
                        fit[k as usize % fit.len()]
                    }
                };
                let flow = match flow {
                    Flow::Append(k) => Flow::Append(partner(k)),
                    Flow::Weave(k) => Flow::Weave(partner(k)),
                    f => f,
                };
                if covers(pool[cur], ty) {
                    pool.push(ty);
                    cur = pool.len() - 1;
                }
                Step::Through { ty, reader, flow, writer, threads }
            }
        })
        .collect()
}

/// Applies an edit to a message and to what it holds. None: the edit does not apply to this message.
fn apply(e: Edit, m: &PointCloud2Msg, model: &Model, pool: &[(PointCloud2Msg, Model)]) -> Result<Option<(PointCloud2Msg, Model)>, String> {
    let mut out = m.clone();
    let mut held = model.clone();
    let n = held.rows.len();
    let step = m.point_step as usize;
    let flat = |out: &mut PointCloud2Msg, n: usize| {
        out.dimensions = CloudDimensions { width: n as u32, height: 1 };
        out.row_step = (n * out.point_step as usize) as u32;
    };
    match e {
        Edit::Json => {
            let text = guard(|| serde_json::to_string(m)).map_err(|p| format!("serialising panicked: {p}"))?;
            let Ok(text) = text else { return Ok(None) };
            match guard(|| serde_json::from_str(&text)) {
                Ok(Ok(b)) => out = b,
                o => return Err(format!("JSON of a message does not come back: {:?}", o.map(|r: Result<PointCloud2Msg, _>| r.map(|_| ())))),
            }
        }
        Edit::Compact => {
            let bytes = guard(|| bincode::serialize(m)).map_err(|p| format!("serialising panicked: {p}"))?;
            let Ok(bytes) = bytes else { return Ok(None) };
            match guard(|| bincode::deserialize(&bytes)) {
                Ok(Ok(b)) => out = b,
                o => return Err(format!("bincode of a message does not come back: {:?}", o.map(|r: Result<PointCloud2Msg, _>| r.map(|_| ())))),
            }
        }
        Edit::Rebuild => {
            let r = guard(|| {
                PointCloud2MsgBuilder::new()
                    .header(m.header.clone())
                    .data(m.data.clone())
                    .width(n as u32)
                    .row_step((n * step) as u32)
                    .point_step(m.point_step)
                    .fields(m.fields.clone())
                    .endian(m.endian == Endian::Big)
                    .dense(m.dense == ros_pointcloud2::Denseness::Dense)
                    .build()
            });
            // which input the builder accepts is another property
            match r {
                Ok(Ok(b)) => out = b,
                _ => return Ok(None),
            }
        }
        Edit::Reshape(h) => {
            let h = h as usize;
            if n % h != 0 {
                return Ok(None);
            }
            out.dimensions = CloudDimensions { width: (n / h) as u32, height: h as u32 };
            out.row_step = (n / h * step) as u32;
        }
        Edit::Truncate(k) => {
            let k = k as usize % (n + 1);
            out.data.truncate(k * step);
            held.rows.truncate(k);
            flat(&mut out, k);
        }
        Edit::DropFront(k) => {
            let k = k as usize % (n + 1);
            out.data.drain(..k * step);
            held.rows.drain(..k);
            flat(&mut out, n - k);
        }
        Edit::Pad(after, before) => {
            let (a, b) = (after as usize, before as usize);
            let mut data = Vec::with_capacity((step + a + b) * n);
            for p in 0..n {
                data.extend((0..b).map(|i| (p * 7 + i) as u8 | 1));
                data.extend_from_slice(&m.data[p * step..][..step]);
                data.extend((0..a).map(|i| (p * 5 + i) as u8 | 0x80));
            }
            out.data = data;
            out.point_step += (a + b) as u32;
            for f in &mut out.fields {
                f.offset += b as u32;
            }
            out.row_step = (out.dimensions.width as usize * out.point_step as usize) as u32;
        }
        Edit::Glue(k) => {
            let (o, h) = &pool[k as usize % pool.len()];
            if view(o).fields != view(m).fields || o.point_step != m.point_step || o.endian != m.endian || h.fields != model.fields {
                return Ok(None);
            }
            out.data.extend_from_slice(&o.data);
            held.rows.extend(h.rows.iter().cloned());
            flat(&mut out, n + h.rows.len());
        }
        Edit::Swab => {
            // only for messages whose fields neither overlap nor have a type this does not know
            let mut spans = Vec::new();
            for f in &m.fields {
                match Dt::from_code(f.datatype) {
                    Some(d) if f.count == 1 && f.offset as usize + d.size() <= step => spans.push((f.offset as usize, f.offset as usize + d.size())),
                    _ => return Ok(None),
                }
            }
            spans.sort();
            if spans.windows(2).any(|p| p[0].1 > p[1].0) {
                return Ok(None);
            }
            for p in 0..n {
                for (a, b) in &spans {
                    out.data[p * step + a..p * step + b].reverse();
                }
            }
            out.endian = if m.endian == Endian::Big { Endian::Little } else { Endian::Big };
        }
        Edit::Alias(k) => {
            if model.fields.is_empty() {
                return Ok(None);
            }
            let (name, dt) = model.fields[k as usize % model.fields.len()].clone();
            let alias = format!("{name}#{k}");
            if m.fields.iter().any(|f| f.name == alias) {
                return Ok(None);
            }
            let Some(f) = m.fields.iter().find(|f| f.name == name) else { return Ok(None) };
            let at = k as usize % (m.fields.len() + 1);
            out.fields.insert(at, PointFieldMsg { name: alias.clone(), offset: f.offset, datatype: f.datatype, count: f.count });
            held.fields.push((alias, dt));
            let i = k as usize % model.fields.len();
            for r in &mut held.rows {
                let x = r[i];
                r.push(x);
            }
        }
        Edit::Shuffle(seed) => {
            let mut s = seed as u64;
            for i in (1..out.fields.len()).rev() {
                let j = splitmix(&mut s) as usize % (i + 1);
                out.fields.swap(i, j);
            }
        }
        Edit::Header(x) => {
            out.header.frame_id = format!("frame {x}");
            out.header.stamp.sec = x as i32;
            out.header.stamp.nanosec = !x;
        }
        Edit::RowStep(x) => out.row_step = x,
    }
    Ok(Some((out, held)))
}

const LIMIT: usize = 3000;

/// The first cloud and its points.
#[cfg(feature = "c21")]
pub(super) fn first(c: &Case) -> Option<(PointCloud2Msg, Rows)> {
    let spec = c.src.spec()?;
    let rows = model_of(&spec).as_type(c.ty).ok()?;
    Some((spec.build(), rows))
}

pub(super) fn run(c: &Case, mut trace: impl FnMut(&'static str)) -> Result<(), String> {
    let Some(spec) = c.src.spec() else { return Ok(()) };
    let mut pool: Vec<(PointCloud2Msg, Model)> = vec![(spec.build(), model_of(&spec))];
    let mut cur = 0;
    let mut last = c.ty;
    for (i, s) in c.steps.iter().enumerate() {
        let (msg, model) = pool[cur].clone();
        match *s {
            Step::Pick(k) => cur = k as usize % pool.len(),
            Step::Edit(e) => {
                let r = apply(e, &msg, &model, &pool).map_err(|m| format!("step {i}, {e:?}: {m}"))?;
                if r.is_some() {
                    trace("edit applied");
                }
                pool.push(r.unwrap_or((msg, model)));
                cur = pool.len() - 1;
            }
            Step::Through { ty, reader, flow, writer, threads } => {
                let partner = match flow {
                    Flow::Append(k) | Flow::Weave(k) => Some(pool[k as usize % pool.len()].clone()),
                    _ => None,
                };
                let rows = model.as_type(ty);
                let others = partner.as_ref().map_or(Ok(vec![]), |p| p.1.as_type(ty));
                if rows == Err(false) || others == Err(false) {
                    continue;
                }
                let want = match (rows, others) {
                    (Ok(r), Ok(o)) => Some(flow_rows(ty, flow, r, o, msg.point_step)),
                    _ => None,
                };
                if want.as_ref().is_some_and(|w| w.len() > LIMIT) {
                    continue;
                }
                let other = partner.map(|p| p.0);
                let got = guard(|| self::pool(threads).install(|| on_type!(ty, through(msg, other, reader, flow, writer))));
                let what = || format!("step {i}, {ty:?} read by {reader:?}, {flow:?}, written by {writer:?}");
                match (got, want) {
                    (Err(p), _) => return Err(format!("{}: panic: {p}", what())),
                    (Ok(Err(_)), None) => trace("refused"),
                    (Ok(Ok(m)), None) => {
                        return Err(format!("{}: {} points although the cloud lacks a field of that name and datatype", what(), m.dimensions.width))
                    }
                    (Ok(Err(e)), Some(w)) => return Err(format!("{}: {:?} for {} points", what(), ErrRepr::from(e), w.len())),
                    (Ok(Ok(m)), Some(w)) => {
                        conforms(&ty.fields(), ty.plain(), &view(&m), &w).map_err(|e| format!("{}: {e}", what()))?;
                        trace(if i == 0 { "first stage" } else { "later stage" });
                        let fields = ty.fields().iter().map(|f| (f.name.to_string(), f.dt)).collect();
                        pool.push((m, Model { fields, rows: w }));
                        cur = pool.len() - 1;
                        last = ty;
                    }
                }
            }
        }
    }
    let (msg, model) = &pool[cur];
    if let Ok(want) = model.as_type(last) {
        for r in Reader::ALL {
            match read(last, r, msg.clone(), want.len() + 3) {
                Outcome::Ok(got) => {
                    if let Some(d) = diff(&got, &want, &last.fields()) {
                        return Err(format!("the last cloud read as {last:?} by {r:?}: {d}"));
                    }
                }
                o => return Err(format!("the last cloud read as {last:?} by {r:?}: {}", brief(&o))),
            }
        }
    }
    Ok(())
}

pub(super) fn histories(types: BoxedStrategy<Ty>) -> BoxedStrategy<Case> {
    let raw = prop_oneof![
        12 => (any::<u32>(), select(&Reader::ALL[..]), flow(), gen::any_writer(), any::<u8>()).prop_map(|(a, b, c, d, e)| RawStep::Through(a, b, c, d, e)),
        6 => edit().prop_map(RawStep::Edit),
        1 => any::<u8>().prop_map(RawStep::Pick),
    ];
    types
        .prop_flat_map(move |ty| {
            let src = prop_oneof![
                2 => gen::foreign(ty, false).prop_map(Source::Spec),
                3 => (gen::any_writer(), gen::points(ty, false)).prop_map(move |(writer, points)| Source::Written { from: ty, writer, points, alter: vec![] }),
            ];
            (src, vec(raw.clone(), 1..=7)).prop_map(move |(src, raw)| Case { ty, src, steps: resolve(ty, raw) })
        })
        .boxed()
}

impl Prop for C20 {
    type Case = Case;
    const ID: &'static str = "C20";
    const RULE: &'static str = "A case is a history: a first cloud (foreign or library-written) and 1 to 7 steps, each streaming the current cloud as some point type from a reader through an adaptor \
        flow (possibly joined by the points of an earlier cloud) into a writer, or editing the message (serialise and back, rebuild, reshape, crop, pad, swap byte order, reorder or alias fields), \
        or going back to an earlier cloud; a model holds what each cloud must contain. Non-trivial: at least two streaming stages and a first cloud with at least 2 points.";

    fn strategy() -> BoxedStrategy<Case> {
        histories(types())
    }

    fn check(c: &Case) -> Result<(), String> {
        run(c, |_| {})
    }

    fn classify(c: &Case) -> Class {
        let n = match &c.src {
            Source::Spec(m) => m.points(),
            Source::Written { points, .. } => points.len() as u64,
        };
        let stages = c.steps.iter().filter(|s| matches!(s, Step::Through { .. })).count();
        let edits = c.steps.iter().filter(|s| matches!(s, Step::Edit(_))).count();
        let mut labels = vec![
            match stages {
                0 => "no stage",
                1 => "1 stage",
                2..=3 => "2..3 stages",
                _ => "4 or more stages",
            },
            match edits {
                0 => "no edits",
                1..=2 => "1..2 edits",
                _ => "3 or more edits",
            },
            c.src.label(),
        ];
        let types: Vec<Ty> = c.steps.iter().filter_map(|s| if let Step::Through { ty, .. } = s { Some(*ty) } else { None }).collect();
        if types.iter().any(|t| *t != c.ty) {
            labels.push("changes type");
        }
        if c.steps.iter().any(|s| matches!(s, Step::Through { flow: Flow::Append(_) | Flow::Weave(_), .. })) {
            labels.push("joins clouds");
        }
        if c.steps.iter().any(|s| matches!(s, Step::Through { reader: Reader::Par, writer: Writer::Par, .. })) {
            labels.push("parallel from end to end");
        }
        Class { nontrivial: stages >= 2 && n >= 2, labels }
    }
}
