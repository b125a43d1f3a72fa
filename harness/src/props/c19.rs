use crate::alloc;
use crate::api::{guard, points_of, write_t, Outcome, Reader, Rows, Writer};
use crate::dispatch;
use crate::engine::{Class, Prop};
use crate::gen::{self, Points, Source};
use crate::msg::judge;
use crate::types::{TestPoint, Ty};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use rayon::iter::ParallelIterator;
use ros_pointcloud2::iterator::PointCloudIterator;
use ros_pointcloud2::{PointCloud2Msg, PointConvertible};
use serde::{Deserialize, Serialize};

pub struct C19;

/// One use of the library whose memory is accounted for.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Use {
    /// read the message completely
    Read(Reader),
    /// take some points from the front and the back, then drop the iterator
    Partial { front: u16, back: u16 },
    /// split repeatedly (which piece, where), then drop the pieces in an order
    Pieces { splits: Vec<(u8, u16)>, order: u8, drain: bool },
    /// drive a parallel read whose consumer stops early
    Stop(u16),
    /// write points
    Write(Writer, Points),
    /// read with one reader and write what was read
    Again(Reader, Writer),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub ty: Ty,
    pub src: Source,
    pub uses: Vec<Use>,
}

fn parallel(u: &Use) -> bool {
    matches!(u, Use::Read(Reader::Par) | Use::Stop(_) | Use::Write(Writer::Par, _) | Use::Again(Reader::Par, _) | Use::Again(_, Writer::Par))
}

/// What went in and came out, for the bound on memory.
#[derive(Clone, Copy, Default)]
struct Sizes {
    points: usize,
    bytes: usize,
}

fn read_all<const N: usize, T: TestPoint + PointConvertible<N>>(r: Reader, m: PointCloud2Msg, limit: usize) -> Option<Vec<T>> {
    match crate::api::read_t::<N, T>(r, m, limit) {
        Outcome::Ok(v) => Some(v),
        _ => None,
    }
}

/// Performs one use, leaving nothing behind by itself. Returns None if the library panicked (another property's business).
fn perform<const N: usize, T: TestPoint + PointConvertible<N>>(u: &Use, m: PointCloud2Msg, rows: &Rows, limit: usize) -> Option<Sizes> {
    let bytes = m.data.len();
    let r = guard(move || match u {
        Use::Read(Reader::Iter) => match m.try_into_iter::<N, T>() {
            Ok(it) => Sizes { points: it.take(limit).count(), bytes },
            Err(_) => Sizes { points: 0, bytes },
        },
        Use::Read(Reader::Cursor) => match PointCloudIterator::<N, T>::try_from(m) {
            Ok(it) => Sizes { points: Iterator::take(it, limit).count(), bytes },
            Err(_) => Sizes { points: 0, bytes },
        },
        Use::Read(r) => Sizes { points: read_all::<N, T>(*r, m, limit).map_or(0, |v| v.len()), bytes },
        Use::Partial { front, back } => {
            if let Ok(mut it) = PointCloudIterator::<N, T>::try_from(m) {
                for _ in 0..*front {
                    if it.next().is_none() {
                        break;
                    }
                }
                for _ in 0..*back {
                    if it.next_back().is_none() {
                        break;
                    }
                }
            }
            Sizes { points: 0, bytes }
        }
        Use::Pieces { splits, order, drain } => {
            if let Ok(it) = PointCloudIterator::<N, T>::try_from(m) {
                let mut live = Vec::with_capacity(splits.len() + 1);
                live.push(it);
                for (which, at) in splits {
                    let k = *which as usize % live.len();
                    let it = live.swap_remove(k);
                    let n = ExactSizeIterator::len(&it);
                    let (a, b) = it.split_at(*at as usize % (n + 1));
                    live.push(a);
                    live.push(b);
                }
                let mut o = *order as usize;
                while !live.is_empty() {
                    let it = live.swap_remove(o % live.len());
                    o /= 2;
                    if *drain && o % 3 == 0 {
                        Iterator::take(it, limit).for_each(drop);
                    }
                }
            }
            Sizes { points: 0, bytes }
        }
        Use::Stop(at) => {
            if let Ok(it) = m.try_into_par_iter::<N, T>() {
                let first = std::sync::atomic::AtomicUsize::new(0);
                // results of large points would not fit the workers' stacks
                let _ = it.map(drop).find_any(|()| first.fetch_add(1, std::sync::atomic::Ordering::Relaxed) >= *at as usize).is_some();
            }
            Sizes { points: 0, bytes }
        }
        Use::Write(w, _) => {
            drop(m);
            match write_t::<N, T>(*w, points_of::<T>(rows)) {
                Outcome::Ok(out) => Sizes { points: rows.len(), bytes: bytes + out.data.len() },
                _ => Sizes { points: rows.len(), bytes },
            }
        }
        Use::Again(r, w) => match read_all::<N, T>(*r, m, limit) {
            Some(v) => {
                let n = v.len();
                match write_t::<N, T>(*w, v) {
                    Outcome::Ok(out) => Sizes { points: n, bytes: bytes + out.data.len() },
                    _ => Sizes { points: n, bytes },
                }
            }
            None => Sizes { points: 0, bytes },
        },
    });
    r.ok()
}

fn account<const N: usize, T: TestPoint + PointConvertible<N>>(u: &Use, ty: Ty, msg: &PointCloud2Msg) -> Result<(), String> {
    let limit = msg.data.len() + 3;
    let rows = match u {
        Use::Write(_, p) => p.rows(ty),
        _ => Vec::new(),
    };
    let size = std::mem::size_of::<T>();
    let names: usize = msg.fields.iter().map(|f| f.name.len()).sum::<usize>() + msg.header.frame_id.len();
    let about = format!("{u:?} of {ty:?}").chars().take(300).collect::<String>();
    if !parallel(u) {
        let mut growth = 0;
        for _ in 0..2 {
            let m = msg.clone();
            let mut sizes = None;
            let ((), g, peak) = alloc::measured(|| sizes = perform::<N, T>(u, m, &rows, limit));
            let Some(s) = sizes else { return Ok(()) };
            // the message's own memory was held before and is gone now
            growth = g + held_by(msg);
            let bound = 4096 + 16 * names + 512 * (msg.fields.len() + N) + 8 * s.points * size + 6 * s.bytes;
            if peak > bound as isize {
                return Err(format!("{about}: needed {peak} bytes at a time for {} points of {size} bytes and {} bytes of messages", s.points, s.bytes));
            }
            if growth == 0 {
                break;
            }
        }
        if growth != 0 {
            return Err(format!("{about}: {growth} bytes are still held after everything was dropped"));
        }
    } else {
        let work = match u {
            Use::Write(..) => rows.len() * size,
            _ => msg.data.len(),
        };
        // the thread pool keeps some memory of its own for a while
        if work < 1 << 16 {
            perform::<N, T>(u, msg.clone(), &rows, limit);
            return Ok(());
        }
        let mut ok = perform::<N, T>(u, msg.clone(), &rows, limit).is_some();
        let ((), growth, _) = alloc::measured_total(|| {
            for _ in 0..6 {
                ok &= perform::<N, T>(u, msg.clone(), &rows, limit).is_some();
            }
        });
        if ok && growth > 2 * work as isize {
            return Err(format!("{about}: {growth} bytes are still held after six times of {work} bytes each"));
        }
    }
    Ok(())
}

/// Heap bytes of a clone of the message.
fn held_by(m: &PointCloud2Msg) -> isize {
    let before = alloc::held();
    let copy = m.clone();
    let g = alloc::held() - before;
    drop(copy);
    g
}

impl Prop for C19 {
    type Case = Case;
    const ID: &'static str = "C19";
    const RULE: &'static str = "A case is a point type, a message (foreign, malformed or library-written) and uses of it: complete reads, abandoned reads, repeated splits dropped in any \
        order, writes, rewrites; each is run under a counting allocator. Non-trivial: at least one use has points to read or write, or a message with a fault.";

    fn strategy() -> BoxedStrategy<Case> {
        (gen::plain_ty(), 0u8..10)
            .prop_flat_map(|(ty, how)| {
                let src = match how {
                    0..=3 => gen::foreign(ty, true).prop_map(Source::Spec).boxed(),
                    4..=7 => gen::malformed(ty).prop_map(Source::Spec).boxed(),
                    _ => gen::written(ty, 0..=2),
                };
                let reader = || select(&Reader::ALL[..]);
                let one = prop_oneof![
                    4 => reader().prop_map(Use::Read),
                    2 => (0u16..20, 0u16..20).prop_map(|(front, back)| Use::Partial { front, back }),
                    2 => (vec(any::<(u8, u16)>(), 1..8), any::<u8>(), any::<bool>()).prop_map(|(splits, order, drain)| Use::Pieces { splits, order, drain }),
                    1 => (0u16..40).prop_map(Use::Stop),
                    3 => (gen::any_writer(), gen::points(ty, true)).prop_map(|(w, p)| Use::Write(w, p)),
                    2 => (reader(), gen::any_writer()).prop_map(|(r, w)| Use::Again(r, w)),
                ];
                (src, vec(one, 1..=3)).prop_map(move |(src, uses)| Case { ty, src, uses })
            })
            .boxed()
    }

    fn check(c: &Case) -> Result<(), String> {
        if !alloc::ACTIVE {
            return Ok(());
        }
        let Some(spec) = c.src.spec() else { return Ok(()) };
        let msg = spec.build();
        dispatch!(c.ty, T, N => {
            for u in &c.uses {
                account::<N, T>(u, c.ty, &msg)?;
            }
            Ok(())
        })
    }

    fn classify(c: &Case) -> Class {
        let mut labels = vec![c.src.label()];
        let mut nontrivial = false;
        if let Source::Spec(m) = &c.src {
            if judge(c.ty, m).must_accept() {
                labels.push(if m.points() == 0 { "empty cloud" } else { "readable message" });
                nontrivial |= m.points() > 0;
            } else {
                labels.push("faulty message");
                nontrivial = true;
            }
        } else {
            nontrivial = true;
        }
        for u in &c.uses {
            labels.push(match u {
                Use::Read(_) => "complete read",
                Use::Partial { .. } => "abandoned read",
                Use::Pieces { .. } => "split pieces dropped",
                Use::Stop(_) => "parallel read stopped early",
                Use::Write(..) => "write",
                Use::Again(..) => "rewrite",
            });
            if let Use::Write(_, p) = u {
                nontrivial |= !p.is_empty();
                if p.len() > 60000 {
                    labels.push("large write");
                }
            }
        }
        Class { nontrivial, labels }
    }
}
