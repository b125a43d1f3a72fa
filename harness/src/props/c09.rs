use crate::api::{guard, points_of, read, write_t, ErrRepr, Outcome, Reader, Rows, Writer};
use crate::engine::{Class, Prop};
use crate::gen::{self, Points, Source};
use crate::msg::{decode_with, diff, view, MsgSpec};
use crate::types::reexport::*;
use crate::types::{TestPoint, Ty};
use proptest::prelude::*;
use proptest::sample::select;
use rayon::prelude::*;
use ros_pointcloud2::iterator::PointCloudIterator;
use ros_pointcloud2::{MsgConversionError, PointCloud2Msg, PointConvertible};
use serde::{Deserialize, Serialize};
use std::sync::OnceLock;

pub struct C09;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Pipe {
    Collect,
    Rev,
    SkipTake(u16, u16),
    StepBy(u8),
    Chunks(u8),
    Enumerate,
    ZipRev(u16),
    RevSkipTakeStep(u16, u16, u8),
    ChainRev,
    Interleave,
    MinLen(u16),
    MaxLen(u16),
    MinMax(u16, u16),
    Reduce,
    CountSum,
    Filter,
    FlatMap,
    FoldConcat,
    Find(u16),
    Positions(u16),
    IntoVec,
    Unzip,
    AfterConsuming(u8, u8),
    SkipAfterSplit(u16),
    Compare,
    MapInit,
    TakeRevChunks(u16, u8),
    PartitionOdd,
    TryFold,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    Read { ty: Ty, src: Source, pipe: Pipe, threads: u8 },
    Write { ty: Ty, points: Points, shape: u8, threads: u8 },
}

const TYPES: &[Ty] = &[Ty::XYZ, Ty::XYZRGBA, Ty::Mixed, Ty::PackedPt, Ty::Xy, Ty::Ouster, Ty::OneU8];

fn types() -> BoxedStrategy<Ty> {
    let generated = (select(&[5u8, 8][..]), any::<u16>(), any::<u32>()).prop_map(|(combo, universe, pick)| Ty::Dyn(crate::dynamic::Gen { combo, universe, pick }));
    prop_oneof![7 => select(TYPES), 4 => generated].boxed()
}

fn pool(threads: u8) -> &'static rayon::ThreadPool {
    static P: [OnceLock<rayon::ThreadPool>; 5] = [OnceLock::new(), OnceLock::new(), OnceLock::new(), OnceLock::new(), OnceLock::new()];
    let i = threads as usize % P.len();
    P[i].get_or_init(|| rayon::ThreadPoolBuilder::new().num_threads([1, 2, 3, 4, 8][i]).build().expect("thread pool"))
}

type Row = Vec<u64>;

fn tag(i: usize) -> Row {
    vec![0xFEED_0000 + i as u64]
}

fn mix(r: &Row) -> u64 {
    r.iter().fold(0x9E37u64, |h, w| (h ^ w).wrapping_mul(0x100000001b3).rotate_left(17))
}

/// The iterator as nothing but a parallel one (it is also a sequential iterator, whose methods have the same names).
fn par<const N: usize, T: TestPoint + PointConvertible<N>>(msg: &PointCloud2Msg) -> Result<impl IndexedParallelIterator<Item = T>, MsgConversionError> {
    PointCloudIterator::<N, T>::try_from(msg.clone())
}

/// (parallel result, sequential result) of one pipeline; both are plain row lists.
fn both<const N: usize, T: TestPoint + PointConvertible<N>>(msg: &PointCloud2Msg, rows: &Rows, pipe: Pipe) -> Result<(Rows, Rows), MsgConversionError> {
    let amount = |k: u16| gen::amount(k, msg.point_step);
    let raw = || PointCloudIterator::<N, T>::try_from(msg.clone());
    let it = || par::<N, T>(msg);
    let w = |p: T| p.to_words();
    let n = rows.len();
    Ok(match pipe {
        Pipe::Collect => (msg.clone().try_into_par_iter::<N, T>()?.map(w).collect(), rows.clone()),
        Pipe::Rev => (IndexedParallelIterator::rev(it()?).map(w).collect(), rows.iter().rev().cloned().collect()),
        Pipe::SkipTake(a, b) => {
            let (a, b) = (amount(a), amount(b));
            (
                IndexedParallelIterator::take(IndexedParallelIterator::skip(it()?, a), b).map(w).collect(),
                rows.iter().skip(a).take(b).cloned().collect(),
            )
        }
        Pipe::StepBy(k) => {
            let k = if k >= 0xF0 { amount(0xFF00 | k as u16) } else { k as usize % 7 + 1 };
            (IndexedParallelIterator::step_by(it()?, k).map(w).collect(), rows.iter().step_by(k).cloned().collect())
        }
        Pipe::Chunks(k) => {
            let k = if k >= 0xF0 { n + 1 + k as usize } else { k as usize % 9 + 1 };
            let cat = |c: Vec<Row>| {
                let mut r = vec![c.len() as u64];
                r.extend(c.into_iter().flatten());
                r
            };
            (
                it()?.chunks(k).map(|c| cat(c.into_iter().map(w).collect())).collect(),
                rows.chunks(k).map(|c| cat(c.to_vec())).collect(),
            )
        }
        Pipe::Enumerate => {
            let f = |i: usize, mut r: Row| {
                r.push(i as u64);
                r
            };
            (
                IndexedParallelIterator::enumerate(it()?).map(|(i, p)| f(i, w(p))).collect(),
                rows.iter().cloned().enumerate().map(|(i, r)| f(i, r)).collect(),
            )
        }
        Pipe::ZipRev(k) => {
            let m = k as usize % (n + 3);
            let f = |mut a: Row, b: usize| {
                a.push(b as u64);
                a
            };
            (
                IndexedParallelIterator::zip(it()?, (0..m).into_par_iter().rev()).map(|(p, i)| f(w(p), i)).collect(),
                rows.iter().cloned().zip((0..m).rev()).map(|(r, i)| f(r, i)).collect(),
            )
        }
        Pipe::RevSkipTakeStep(a, b, c) => {
            let (a, b, c) = (amount(a), amount(b), c as usize % 4 + 1);
            (
                IndexedParallelIterator::step_by(IndexedParallelIterator::take(IndexedParallelIterator::skip(IndexedParallelIterator::rev(it()?), a), b), c)
                    .map(w)
                    .collect(),
                rows.iter().rev().skip(a).take(b).step_by(c).cloned().collect(),
            )
        }
        Pipe::ChainRev => (
            ParallelIterator::chain(it()?, IndexedParallelIterator::rev(it()?)).map(w).collect(),
            rows.iter().chain(rows.iter().rev()).cloned().collect(),
        ),
        Pipe::Interleave => {
            let other: Vec<Row> = (0..n / 2).map(tag).collect();
            let mut seq = Vec::new();
            let (mut a, mut b) = (rows.iter().cloned(), other.iter().cloned());
            loop {
                let (x, y) = (a.next(), b.next());
                if x.is_none() && y.is_none() {
                    break;
                }
                seq.extend(x);
                seq.extend(y);
            }
            (it()?.map(w).interleave(other.into_par_iter()).collect(), seq)
        }
        Pipe::MinLen(k) => (it()?.with_min_len(k as usize % 50 + 1).map(w).collect(), rows.clone()),
        Pipe::MaxLen(k) => (it()?.with_max_len(k as usize % 5 + 1).map(w).collect(), rows.clone()),
        Pipe::MinMax(a, b) => (
            IndexedParallelIterator::rev(it()?.with_min_len(a as usize % 4 + 1).with_max_len(b as usize % 8 + 1)).map(w).collect(),
            rows.iter().rev().cloned().collect(),
        ),
        Pipe::Reduce => {
            let id = || (0u64, 1u64);
            // composition of affine maps: associative, not commutative, so order matters
            let op = |a: (u64, u64), b: (u64, u64)| (a.0.wrapping_mul(b.1).wrapping_add(b.0), a.1.wrapping_mul(b.1));
            let p = it()?.map(w).map(|r| (mix(&r), mix(&r) | 1)).reduce(id, op);
            let s = rows.iter().map(|r| (mix(r), mix(r) | 1)).fold(id(), op);
            (vec![vec![p.0, p.1]], vec![vec![s.0, s.1]])
        }
        Pipe::CountSum => {
            let p = msg.clone().try_into_par_iter::<N, T>()?.map(w).map(|r| mix(&r) >> 20).sum::<u64>();
            let c = ParallelIterator::count(it()?);
            (
                vec![vec![p, c as u64]],
                vec![vec![rows.iter().map(|r| mix(r) >> 20).sum::<u64>(), n as u64]],
            )
        }
        Pipe::Filter => (
            ParallelIterator::filter(it()?.map(w), |r| mix(r) & 1 == 0).collect(),
            rows.iter().filter(|r| mix(r) & 1 == 0).cloned().collect(),
        ),
        Pipe::FlatMap => {
            let f = |r: Row| {
                let k = (mix(&r) % 3) as usize;
                vec![r; k]
            };
            (it()?.map(w).flat_map_iter(f).collect(), rows.iter().cloned().flat_map(f).collect())
        }
        Pipe::FoldConcat => (
            ParallelIterator::fold(it()?.map(w), Vec::new, |mut v: Rows, r| {
                v.push(r);
                v
            })
            .reduce(Vec::new, |mut a, b| {
                a.extend(b);
                a
            }),
            rows.clone(),
        ),
        Pipe::Find(k) => {
            let m = k as u64 % 5 + 1;
            let p = it()?.map(w).find_first(|r| mix(r) % m == 0);
            let q = it()?.map(w).find_last(|r| mix(r) % m == 0);
            let all = ParallelIterator::all(it()?.map(w), |r| mix(&r) % m != 0);
            (
                vec![p.unwrap_or_default(), q.unwrap_or_default(), vec![all as u64]],
                vec![
                    rows.iter().find(|r| mix(r) % m == 0).cloned().unwrap_or_default(),
                    rows.iter().rev().find(|r| mix(r) % m == 0).cloned().unwrap_or_default(),
                    vec![rows.iter().all(|r| mix(r) % m != 0) as u64],
                ],
            )
        }
        Pipe::Positions(k) => {
            let m = k as u64 % 4 + 1;
            (
                vec![it()?.map(w).positions(|r| mix(&r) % m == 0).map(|i| i as u64).collect()],
                vec![rows.iter().enumerate().filter(|(_, r)| mix(r) % m == 0).map(|(i, _)| i as u64).collect()],
            )
        }
        Pipe::IntoVec => {
            let mut v: Vec<T> = Vec::new();
            it()?.collect_into_vec(&mut v);
            (v.into_iter().map(w).collect(), rows.clone())
        }
        Pipe::Unzip => {
            let (mut a, mut b): (Vec<Row>, Vec<usize>) = (vec![], vec![]);
            IndexedParallelIterator::enumerate(it()?).map(|(i, p)| (w(p), i)).unzip_into_vecs(&mut a, &mut b);
            let ok = b == (0..n).collect::<Vec<_>>();
            a.push(vec![ok as u64]);
            let mut s = rows.clone();
            s.push(vec![1]);
            (a, s)
        }
        Pipe::AfterConsuming(f, b) => {
            let (f, b) = (f as usize % 5, b as usize % 5);
            let mut i = raw()?;
            for _ in 0..f {
                Iterator::next(&mut i);
            }
            for _ in 0..b {
                i.next_back();
            }
            let mut s: Vec<Row> = rows.iter().skip(f).cloned().collect();
            s.truncate(s.len().saturating_sub(b));
            (ParallelIterator::map(IndexedParallelIterator::with_max_len(i, 2), w).collect(), s)
        }
        Pipe::SkipAfterSplit(k) => {
            let k = k as usize % (n + 1);
            let (a, b) = raw()?.split_at(k);
            (
                ParallelIterator::chain(IndexedParallelIterator::rev(a), IndexedParallelIterator::skip(b, 1)).map(w).collect(),
                rows[..k].iter().rev().chain(rows[k..].iter().skip(1)).cloned().collect(),
            )
        }
        Pipe::Compare => {
            let same = it()?.map(w).eq(rows.par_iter().cloned());
            let mut shorter = rows.clone();
            shorter.pop();
            let cmp = it()?.map(w).cmp(shorter.clone().into_par_iter());
            let seq = rows.cmp(&shorter);
            (vec![vec![same as u64], vec![cmp as i8 as u64]], vec![vec![1], vec![seq as i8 as u64]])
        }
        Pipe::MapInit => (it()?.map_init(|| 0u8, |_, p| w(p)).collect(), rows.clone()),
        Pipe::TakeRevChunks(a, k) => {
            let (a, k) = (amount(a), k as usize % 4 + 1);
            let mut taken: Vec<Row> = rows.iter().take(a).cloned().collect();
            taken.reverse();
            (
                IndexedParallelIterator::rev(IndexedParallelIterator::take(it()?, a)).chunks(k).flat_map_iter(|c| c.into_iter().map(w).collect::<Vec<_>>()).collect(),
                taken,
            )
        }
        Pipe::PartitionOdd => {
            let (a, b): (Vec<Row>, Vec<Row>) = ParallelIterator::partition(it()?.map(w), |r| mix(r) & 2 == 0);
            let (c, d): (Vec<Row>, Vec<Row>) = rows.iter().cloned().partition(|r| mix(r) & 2 == 0);
            ([a, b].concat(), [c, d].concat())
        }
        Pipe::TryFold => {
            let limit = (n as u64).max(1);
            let r: Option<Vec<Row>> = IndexedParallelIterator::enumerate(it()?.map(w)).map(|(i, r)| if (i as u64) < limit { Some(r) } else { None }).collect();
            (r.unwrap_or_default(), rows.clone())
        }
    })
}

fn pipe() -> BoxedStrategy<Pipe> {
    let k = || prop_oneof![4 => 0u16..8, 3 => 0u16..80, 1 => any::<u16>(), 1 => 0xFF80u16..=0xFFFF];
    prop_oneof![
        3 => Just(Pipe::Collect),
        3 => Just(Pipe::Rev),
        3 => (k(), k()).prop_map(|(a, b)| Pipe::SkipTake(a, b)),
        2 => any::<u8>().prop_map(Pipe::StepBy),
        2 => any::<u8>().prop_map(Pipe::Chunks),
        2 => Just(Pipe::Enumerate),
        2 => any::<u16>().prop_map(Pipe::ZipRev),
        3 => (k(), k(), any::<u8>()).prop_map(|(a, b, c)| Pipe::RevSkipTakeStep(a, b, c)),
        1 => Just(Pipe::ChainRev),
        1 => Just(Pipe::Interleave),
        2 => any::<u16>().prop_map(Pipe::MinLen),
        3 => any::<u16>().prop_map(Pipe::MaxLen),
        2 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Pipe::MinMax(a, b)),
        1 => Just(Pipe::Reduce),
        1 => Just(Pipe::CountSum),
        1 => Just(Pipe::Filter),
        1 => Just(Pipe::FlatMap),
        1 => Just(Pipe::FoldConcat),
        1 => any::<u16>().prop_map(Pipe::Find),
        1 => any::<u16>().prop_map(Pipe::Positions),
        1 => Just(Pipe::IntoVec),
        1 => Just(Pipe::Unzip),
        3 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Pipe::AfterConsuming(a, b)),
        2 => any::<u16>().prop_map(Pipe::SkipAfterSplit),
        1 => Just(Pipe::Compare),
        1 => Just(Pipe::MapInit),
        2 => (k(), any::<u8>()).prop_map(|(a, b)| Pipe::TakeRevChunks(a, b)),
        1 => Just(Pipe::PartitionOdd),
        1 => Just(Pipe::TryFold),
    ]
    .boxed()
}

fn check_read<const N: usize, T: TestPoint + PointConvertible<N>>(ty: Ty, spec: &MsgSpec, pipe: Pipe, threads: u8) -> Result<(), String> {
    let msg = spec.build();
    let limit = msg.data.len() + 3;
    let seq = read(ty, Reader::Iter, msg.clone(), limit);
    let pool = pool(threads);
    let par_open = match guard(|| pool.install(|| msg.clone().try_into_par_iter::<N, T>().map(|_| ()))) {
        Ok(Ok(())) => Outcome::Ok(()),
        Ok(Err(e)) => Outcome::Err(ErrRepr::from(e)),
        Err(p) => Outcome::Panic(p),
    };
    match (seq, par_open) {
        (Outcome::Ok(rows), Outcome::Ok(())) => {
            if rows.len() >= limit {
                return Ok(()); // an endless sequential iterator is another property's finding
            }
            match guard(|| pool.install(|| both::<N, T>(&msg, &rows, pipe))) {
                Err(p) => Err(format!("{ty:?}: {pipe:?} on {} points panicked: {p}", rows.len())),
                Ok(Err(e)) => Err(format!("{ty:?}: {pipe:?}: accepted sequentially, then {e:?}")),
                Ok(Ok((p, s))) => {
                    if p == s {
                        Ok(())
                    } else {
                        let k = p.iter().zip(&s).position(|(a, b)| a != b).unwrap_or(p.len().min(s.len()));
                        Err(format!("{ty:?}: {pipe:?} on {} points: {} results instead of {}, first difference at {k}", rows.len(), p.len(), s.len()))
                    }
                }
            }
        }
        (Outcome::Err(a), Outcome::Err(b)) if a == b => Ok(()),
        (Outcome::Err(a), Outcome::Err(b)) => Err(format!("{ty:?}: sequential reader fails with {a:?}, parallel reader with {b:?}")),
        (Outcome::Ok(_), o) => Err(format!("{ty:?}: sequential reader accepts, parallel reader: {o:?}")),
        (o, Outcome::Ok(())) => Err(format!("{ty:?}: parallel reader accepts, sequential reader: {}", crate::msg::brief(&o))),
        _ => Ok(()),
    }
}

fn check_write<const N: usize, T: TestPoint + PointConvertible<N>>(ty: Ty, points: &Points, shape: u8, threads: u8) -> Result<(), String> {
    let rows = points.rows(ty);
    let pts: Vec<T> = points_of(&rows);
    let seq = write_t::<N, T>(Writer::Vec, pts.clone());
    let pool = pool(threads);
    let par = match guard(|| {
        pool.install(|| match shape % 6 {
            0 => PointCloud2Msg::try_from_par_iter(pts.clone().into_par_iter()),
            1 => PointCloud2Msg::try_from_par_iter(pts.clone().into_par_iter().with_max_len(1)),
            2 => PointCloud2Msg::try_from_par_iter(pts.clone().into_par_iter().filter(|_| true)),
            3 => PointCloud2Msg::try_from_par_iter(pts.clone().into_par_iter().chunks(3).flat_map_iter(|c| c)),
            4 => PointCloud2Msg::try_from_par_iter(rows.par_iter().map(|r| T::from_words(r))),
            _ => PointCloud2Msg::try_from_par_iter(pts.par_iter().rev().rev().cloned().map(|p| p)),
        })
    }) {
        Ok(Ok(m)) => Outcome::Ok(m),
        Ok(Err(e)) => Outcome::Err(ErrRepr::from(e)),
        Err(p) => Outcome::Panic(p),
    };
    match (seq, par) {
        (Outcome::Ok(a), Outcome::Ok(b)) => {
            let (va, vb) = (view(&a), view(&b));
            let strip = |v: &crate::msg::View| {
                let mut v = v.clone();
                v.data = vec![];
                v
            };
            if strip(&va) != strip(&vb) || va.data.len() != vb.data.len() {
                return Err(format!("{ty:?}: parallel writer describes {} points as {:?}, vector writer as {:?}", rows.len(), strip(&vb), strip(&va)));
            }
            let dec = |v: &crate::msg::View| decode_with(ty, &v.fields, v.big, v.point_step as usize, v.width as usize * v.height as usize, &v.data);
            match diff(&dec(&vb), &dec(&va), &ty.fields()) {
                None => Ok(()),
                Some(d) => Err(format!("{ty:?}: parallel writer: {d}")),
            }
        }
        (Outcome::Err(a), Outcome::Err(b)) if a == b => Ok(()),
        (Outcome::Panic(_), Outcome::Panic(_)) => Ok(()),
        (a, b) => Err(format!("{ty:?}: vector writer ok: {}, parallel writer ok: {} ({b:?})", a.is_ok(), b.is_ok()).chars().take(400).collect()),
    }
}

macro_rules! on_type {
    ($ty:expr, $f:ident ( $($a:expr),* )) => {
        match $ty {
            Ty::XYZ => $f::<3, PointXYZ>($($a),*),
            Ty::XYZRGBA => $f::<5, PointXYZRGBA>($($a),*),
            Ty::Mixed => $f::<8, Mixed>($($a),*),
            Ty::PackedPt => $f::<5, PackedPt>($($a),*),
            Ty::Xy => $f::<2, Xy>($($a),*),
            Ty::Ouster => $f::<9, Ouster>($($a),*),
            Ty::OneU8 => $f::<1, OneU8>($($a),*),
            Ty::Dyn(g) => {
                let _description = crate::dynamic::enter(g);
                match g.combo() {
                    5 => $f::<3, crate::dynamic::Dyn5>($($a),*),
                    8 => $f::<5, crate::dynamic::Dyn8>($($a),*),
                    _ => unreachable!("type not generated"),
                }
            }
            _ => unreachable!("type not generated"),
        }
    };
}

impl Prop for C09 {
    type Case = Case;
    const ID: &'static str = "C09";
    const RULE: &'static str = "A case is a message (well-formed foreign, malformed or library-written), one of 29 parallel pipelines of indexed and unindexed adaptors with \
        generated parameters and a thread count (1,2,3,4,8), compared with the same pipeline over the sequentially read points; or a point list written through 6 parallel \
        iterator shapes and compared with the vector writer. Non-trivial: at least 2 points.";

    fn strategy() -> BoxedStrategy<Case> {
        let reads = (types(), pipe(), any::<u8>())
            .prop_flat_map(|(ty, pipe, threads)| {
                prop_oneof![
                    4 => gen::foreign(ty, true).prop_map(Source::Spec),
                    1 => gen::malformed(ty).prop_map(Source::Spec),
                    4 => (gen::any_writer(), gen::points(ty, true))
                        .prop_map(move |(writer, points)| Source::Written { from: ty, writer, points, alter: vec![] }),
                ]
                .prop_map(move |src| Case::Read { ty, src, pipe, threads })
            })
            .boxed();
        let writes = (types(), any::<u8>(), any::<u8>())
            .prop_flat_map(|(ty, shape, threads)| gen::points(ty, true).prop_map(move |points| Case::Write { ty, points, shape, threads }))
            .boxed();
        prop_oneof![5 => reads, 1 => writes].boxed()
    }

    fn check(c: &Case) -> Result<(), String> {
        match c {
            Case::Read { ty, src, pipe, threads } => {
                let Some(spec) = src.spec() else { return Ok(()) };
                on_type!(*ty, check_read(*ty, &spec, *pipe, *threads))
            }
            Case::Write { ty, points, shape, threads } => on_type!(*ty, check_write(*ty, points, *shape, *threads)),
        }
    }

    fn classify(c: &Case) -> Class {
        let (n, what) = match c {
            Case::Read { src: Source::Spec(m), ty, .. } => {
                (if crate::msg::judge(*ty, m).must_accept() { m.points() } else { 0 }, "read, message described directly")
            }
            Case::Read { src: Source::Written { points, .. }, .. } => (points.len() as u64, "read, library-written message"),
            Case::Write { points, .. } => (points.len() as u64, "write"),
        };
        Class {
            nontrivial: n >= 2,
            labels: vec![
                what,
                match n {
                    0 => "0 points or unreadable",
                    1 => "1 point",
                    2..=12 => "2..12 points",
                    13..=300 => "13..300 points",
                    _ => "more than 300 points",
                },
            ],
        }
    }
}
