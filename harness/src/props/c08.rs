use crate::api::guard;
use crate::dispatch;
use crate::engine::{Class, Prop};
use crate::gen::{self, Source};
use crate::msg::{decode, judge, MsgSpec};
use crate::types::{TestPoint, Ty};
use proptest::collection::vec;
use proptest::prelude::*;
use rayon::iter::{IndexedParallelIterator, ParallelIterator};
use ros_pointcloud2::iterator::PointCloudIterator;
use ros_pointcloud2::PointConvertible;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;

pub struct C08;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Op {
    Next,
    NextBack,
    Nth(u16),
    NthBack(u16),
    /// take k from the front through `by_ref().take(k)`
    Take(u16),
    /// skip k from the front through `by_ref().skip(k).next()`
    SkipNext(u16),
    /// split the selected iterator at (a fraction of the remaining length, then `+ over`)
    Split { at: u16, over: u8 },
    Len,
    SizeHint,
    Find(u16),
    RFind(u16),
    Position(u16),
    RPosition(u16),
    Any(u16),
    /// every point but one satisfies the predicate
    All(u16),
    FindMap(u16),
    /// give up in the middle of a fold
    TryFold(u16),
    TryRFold(u16),
    /// take_while consumes the first point that does not satisfy it
    TakeWhile(u16),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum End {
    Forward,
    Backward,
    Alternate,
    Count,
    Last,
    Fold,
    RFold,
    StepBy(u8),
    Zip,
    Parallel,
    ParallelRev,
    // the iterator's own methods, which may be overridden, rather than those of an adaptor around it
    OwnCount,
    OwnLast,
    OwnFold,
    OwnRFold,
    OwnForEach,
    OwnCollect,
    OwnReduce,
    OwnPartition,
    OwnMinMax,
    OwnCompare,
    RevCollect,
    Peekable(u8),
    Chunked(u8),
    ParallelCount,
    ParallelForEach,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub ty: Ty,
    pub src: Source,
    /// (which of the live iterators, operation)
    pub ops: Vec<(u8, Op)>,
    pub ends: Vec<End>,
}

type Row = Vec<u64>;

fn beyond(over: u8, len: usize, step: u32) -> usize {
    match over {
        0..=31 => len + over as usize,
        32..=255 => gen::amount(0xFF00 | over as u16, step).max(len + 1),
    }
}

fn same(what: &str, got: Option<Row>, want: Option<Row>) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: got {got:x?}, expected {want:x?}"))
    }
}

fn check_len<const N: usize, T: TestPoint + PointConvertible<N>>(it: &PointCloudIterator<N, T>, n: usize, when: &str) -> Result<(), String> {
    let h = Iterator::size_hint(it);
    if h != (n, Some(n)) {
        return Err(format!("size_hint {h:?} with {n} points remaining ({when})"));
    }
    let l = ExactSizeIterator::len(it);
    if l != n {
        return Err(format!("len {l} with {n} points remaining ({when})"));
    }
    let l = IndexedParallelIterator::len(it);
    if l != n {
        return Err(format!("parallel len {l} with {n} points remaining ({when})"));
    }
    let l = ParallelIterator::opt_len(it);
    if l != Some(n) {
        return Err(format!("parallel opt_len {l:?} with {n} points remaining ({when})"));
    }
    Ok(())
}

/// Ok(false): a split beyond the end panicked or was otherwise refused, which ends the history.
fn drive<const N: usize, T: TestPoint + PointConvertible<N>>(c: &Case, m: &MsgSpec, rows: Vec<Row>) -> Result<(), String> {
    let it = match guard(|| PointCloudIterator::<N, T>::try_from(m.build())) {
        Ok(Ok(it)) => it,
        Ok(Err(e)) => return Err(format!("readable message rejected: {e:?}")),
        Err(p) => return Err(format!("conversion panicked: {p}")),
    };
    let mut live: Vec<(Option<PointCloudIterator<N, T>>, VecDeque<Row>)> = vec![(Some(it), rows.into_iter().collect())];
    for (step, (which, op)) in c.ops.iter().enumerate() {
        let k = *which as usize % live.len();
        let when = format!("step {step}, {op:?}");
        let r: Result<Result<Option<(PointCloudIterator<N, T>, VecDeque<Row>)>, String>, String> = guard(|| {
            let (slot, model) = &mut live[k];
            let it = slot.as_mut().expect("live iterator");
            match op {
                Op::Next => same("next", it.next().map(|p| p.to_words()), model.pop_front())?,
                Op::NextBack => same("next_back", it.next_back().map(|p| p.to_words()), model.pop_back())?,
                Op::Nth(n) => {
                    let n = gen::amount(*n, m.point_step);
                    let want = if n < model.len() { model.drain(..n + 1).last() } else { model.clear(); None };
                    same("nth", Iterator::nth(it, n).map(|p| p.to_words()), want)?;
                }
                Op::NthBack(n) => {
                    let n = gen::amount(*n, m.point_step);
                    let want = if n < model.len() {
                        let keep = model.len() - n - 1;
                        let w = model[keep].clone();
                        model.truncate(keep);
                        Some(w)
                    } else {
                        model.clear();
                        None
                    };
                    same("nth_back", it.nth_back(n).map(|p| p.to_words()), want)?;
                }
                Op::Take(n) => {
                    let n = gen::amount(*n, m.point_step);
                    let got: Vec<Row> = Iterator::take(it.by_ref(), n).map(|p| p.to_words()).collect();
                    let want: Vec<Row> = model.drain(..n.min(model.len())).collect();
                    if got != want {
                        return Err(format!("take({n}): {} points, expected {}", got.len(), want.len()));
                    }
                }
                Op::SkipNext(n) => {
                    let n = gen::amount(*n, m.point_step);
                    let got = Iterator::skip(it.by_ref(), n).next().map(|p| p.to_words());
                    let want = if n < model.len() { model.drain(..n + 1).last() } else { model.clear(); None };
                    same("skip", got, want)?;
                }
                Op::Find(n) => {
                    if let Some(t) = model.get(*n as usize % model.len().max(1)).cloned() {
                        let got = Iterator::find(it, |p| p.to_words() == t).map(|p| p.to_words());
                        while let Some(x) = model.pop_front() {
                            if x == t {
                                break;
                            }
                        }
                        same("find", got, Some(t))?;
                    }
                }
                Op::RFind(n) => {
                    if let Some(t) = model.get(*n as usize % model.len().max(1)).cloned() {
                        let got = it.rfind(|p| p.to_words() == t).map(|p| p.to_words());
                        while let Some(x) = model.pop_back() {
                            if x == t {
                                break;
                            }
                        }
                        same("rfind", got, Some(t))?;
                    }
                }
                Op::Position(n) | Op::Any(n) | Op::All(n) | Op::FindMap(n) | Op::TryFold(n) | Op::TakeWhile(n) => {
                    let t = model.get(*n as usize % model.len().max(1)).cloned();
                    let at = t.as_ref().and_then(|t| model.iter().position(|x| x == t));
                    let seen = model.len();
                    // a bug that never ends is cut short
                    let mut left = seen + 5;
                    let mut is = |p: &T| {
                        left = left.checked_sub(1).expect("more points than remained");
                        Some(p.to_words()) == t
                    };
                    let (got, want) = match op {
                        Op::Position(_) => (it.position(|p| is(&p)), at),
                        Op::Any(_) => (it.any(|p| is(&p)).then_some(0), at.map(|_| 0)),
                        Op::All(_) => ((!it.all(|p| !is(&p))).then_some(0), at.map(|_| 0)),
                        Op::FindMap(_) => (it.find_map(|p| is(&p).then_some(0)), at.map(|_| 0)),
                        Op::TryFold(_) => {
                            let r = it.try_fold(0usize, |k, p| if is(&p) { Err(k) } else { Ok(k + 1) });
                            (r.err(), at)
                        }
                        _ => (Some(Iterator::take_while(it.by_ref(), |p| !is(p)).count()), Some(at.unwrap_or(seen))),
                    };
                    if got != want {
                        return Err(format!("{got:?}, expected {want:?}, with {seen} points remaining"));
                    }
                    model.drain(..at.map_or(seen, |k| k + 1));
                }
                Op::RPosition(n) | Op::TryRFold(n) => {
                    let t = model.get(*n as usize % model.len().max(1)).cloned();
                    let at = t.as_ref().and_then(|t| model.iter().rposition(|x| x == t));
                    let seen = model.len();
                    let mut left = seen + 5;
                    let mut is = |p: &T| {
                        left = left.checked_sub(1).expect("more points than remained");
                        Some(p.to_words()) == t
                    };
                    let (got, want) = match op {
                        Op::RPosition(_) => (it.rposition(|p| is(&p)), at),
                        _ => (it.try_rfold(0usize, |k, p| if is(&p) { Err(k) } else { Ok(k + 1) }).err(), at.map(|k| seen - 1 - k)),
                    };
                    if got != want {
                        return Err(format!("{got:?}, expected {want:?}, with {seen} points remaining"));
                    }
                    model.truncate(at.unwrap_or(0));
                }
                Op::Len => check_len(it, model.len(), &when)?,
                Op::SizeHint => {
                    let h = it.size_hint();
                    if h != (model.len(), Some(model.len())) {
                        return Err(format!("size_hint {h:?} with {} points remaining", model.len()));
                    }
                }
                Op::Split { at, over } => {
                    let len = model.len();
                    let at = if *over > 0 { beyond(*over, len, m.point_step) } else { *at as usize % (len + 1) };
                    let it = slot.take().expect("live iterator");
                    let beyond = at > len;
                    if beyond {
                        // refused by a panic, or nothing but remaining points comes out
                        let remaining: Vec<Row> = model.iter().cloned().collect();
                        match guard(|| it.split_at(at)) {
                            Err(_) => {}
                            Ok((a, b)) => {
                                let drained = guard(|| {
                                    let mut v: Vec<Row> = Iterator::take(a, len + 5).map(|p| p.to_words()).collect();
                                    v.extend(Iterator::take(b, len + 5).map(|p| p.to_words()));
                                    v
                                });
                                if let Ok(v) = drained {
                                    let mut src = remaining.iter();
                                    if !v.iter().all(|x| src.any(|y| y == x)) {
                                        return Err(format!("split at {at} of {len} exposes points that were not remaining"));
                                    }
                                }
                            }
                        }
                        model.clear();
                    } else {
                        let (a, b) = it.split_at(at);
                        let right: VecDeque<Row> = model.split_off(at);
                        check_len(&a, at, &format!("{when}: left of split at {at} of {len}"))?;
                        check_len(&b, right.len(), &format!("{when}: right of split at {at} of {len}"))?;
                        *slot = Some(a);
                        return Ok(Some((b, right)));
                    }
                }
            }
            Ok(None)
        });
        match r {
            Err(p) => return Err(format!("{when}: panicked: {p}")),
            Ok(Err(e)) => return Err(format!("{when}: {e}")),
            Ok(Ok(Some((b, right)))) => live.push((Some(b), right)),
            Ok(Ok(None)) => {}
        }
        live.retain(|(s, _)| s.is_some());
        if live.is_empty() {
            return Ok(());
        }
        if let Some((Some(it), model)) = live.get(k) {
            guard(|| check_len(it, model.len(), &when)).map_err(|p| format!("{when}: asking for the length panicked: {p}"))??;
        }
    }
    for (i, (slot, model)) in live.into_iter().enumerate() {
        let mut it = slot.expect("live iterator");
        let end = c.ends[i % c.ends.len()];
        let n = model.len();
        let want: Vec<Row> = model.into_iter().collect();
        let rev: Vec<Row> = want.iter().rev().cloned().collect();
        let lim = n + 5;
        let got: Result<Result<(), String>, String> = guard(|| {
            let (g, w): (Vec<Row>, Vec<Row>) = match end {
                End::Forward => {
                    let g: Vec<Row> = Iterator::take(it.by_ref(), lim).map(|p| p.to_words()).collect();
                    for _ in 0..3 {
                        if it.next().is_some() || it.next_back().is_some() {
                            return Err("an exhausted iterator produced another point".into());
                        }
                        check_len(&it, 0, "after exhaustion")?;
                    }
                    (g, want)
                }
                End::Backward => {
                    let mut g = Vec::new();
                    while let Some(p) = it.next_back() {
                        g.push(p.to_words());
                        if g.len() > lim {
                            break;
                        }
                    }
                    for _ in 0..3 {
                        if it.next_back().is_some() || it.next().is_some() {
                            return Err("an exhausted iterator produced another point".into());
                        }
                        check_len(&it, 0, "after exhaustion")?;
                    }
                    (g, rev)
                }
                End::Alternate => {
                    let mut g = Vec::new();
                    let mut w = Vec::new();
                    let mut m: VecDeque<Row> = want.into_iter().collect();
                    for turn in 0..lim {
                        let (a, b) = if turn % 2 == 0 { (it.next(), m.pop_front()) } else { (it.next_back(), m.pop_back()) };
                        g.extend(a.map(|p| p.to_words()));
                        w.extend(b);
                        check_len(&it, m.len(), "while alternating")?;
                    }
                    (g, w)
                }
                End::Count => {
                    let k = Iterator::take(it, lim).count();
                    if k != n {
                        return Err(format!("count {k} with {n} points remaining"));
                    }
                    return Ok(());
                }
                End::Last => {
                    let g = Iterator::take(it, lim).last().map(|p| p.to_words());
                    return same("last", g, want.last().cloned());
                }
                End::Fold => {
                    let g = Iterator::take(it, lim).fold(Vec::new(), |mut v, p| {
                        v.push(p.to_words());
                        v
                    });
                    (g, want)
                }
                End::RFold => {
                    // bounded by the forward drain elsewhere: a bounded copy through try_rfold
                    let mut v = Vec::new();
                    let _ = it.try_rfold((), |(), p: T| {
                        v.push(p.to_words());
                        if v.len() > lim {
                            None
                        } else {
                            Some(())
                        }
                    });
                    (v, rev)
                }
                End::StepBy(k) => {
                    let k = (k as usize % 5) + 1;
                    let g = Iterator::take(Iterator::step_by(it, k), lim).map(|p| p.to_words()).collect();
                    (g, want.into_iter().step_by(k).collect())
                }
                End::Zip => {
                    let g: Vec<Row> = Iterator::zip(Iterator::take(it, lim), 0..lim).map(|(p, _)| p.to_words()).collect();
                    (g, want)
                }
                End::OwnCount => {
                    let k = Iterator::count(it);
                    return if k == n { Ok(()) } else { Err(format!("count {k} with {n} points remaining")) };
                }
                End::OwnLast => return same("last", it.last().map(|p| p.to_words()), want.last().cloned()),
                End::OwnFold | End::OwnRFold | End::OwnForEach => {
                    let mut g = Vec::new();
                    let mut put = |p: T| {
                        assert!(g.len() <= lim, "more points than remained");
                        g.push(p.to_words());
                    };
                    match end {
                        End::OwnFold => Iterator::fold(it, (), |(), p| put(p)),
                        End::OwnRFold => it.rfold((), |(), p| put(p)),
                        _ => Iterator::for_each(it, put),
                    }
                    (g, if end == End::OwnRFold { rev } else { want })
                }
                End::OwnCollect => {
                    let v: Vec<T> = Iterator::collect(it);
                    (v.into_iter().map(|p| p.to_words()).collect(), want)
                }
                End::RevCollect => {
                    let v: Vec<T> = Iterator::collect(Iterator::rev(it));
                    (v.into_iter().map(|p| p.to_words()).collect(), rev)
                }
                End::OwnReduce => {
                    let g = Iterator::reduce(it, |a, b| if mix(&a.to_words()) <= mix(&b.to_words()) { a } else { b }).map(|p| p.to_words());
                    return same("reduce", g, want.into_iter().reduce(|a, b| if mix(&a) <= mix(&b) { a } else { b }));
                }
                End::OwnPartition => {
                    let (a, b): (Vec<T>, Vec<T>) = Iterator::partition(it, |p| mix(&p.to_words()) & 1 == 0);
                    let (x, y): (Vec<Row>, Vec<Row>) = want.into_iter().partition(|r| mix(r) & 1 == 0);
                    (Iterator::chain(a.into_iter(), b).map(|p| p.to_words()).collect(), [x, y].concat())
                }
                End::OwnMinMax => {
                    let key = |p: &T| mix(&p.to_words()) & 7;
                    let g = if c.ops.len() % 2 == 0 { Iterator::max_by_key(it, key) } else { Iterator::min_by_key(it, key) };
                    let w = if c.ops.len() % 2 == 0 { want.into_iter().max_by_key(|r| mix(r) & 7) } else { want.into_iter().min_by_key(|r| mix(r) & 7) };
                    return same("min or max by key", g.map(|p| p.to_words()), w);
                }
                End::OwnCompare => {
                    let mut words = want.iter();
                    let mut equal = 0;
                    let all = Iterator::all(&mut it, |p| {
                        let e = words.next() == Some(&p.to_words());
                        equal += e as usize;
                        e
                    });
                    return if all && equal == n { Ok(()) } else { Err(format!("first difference at {equal} of {n}")) };
                }
                End::Peekable(k) => {
                    let mut g = Vec::new();
                    let mut p = Iterator::peekable(it);
                    while let Some(x) = p.peek() {
                        let (seen, left) = (x.to_words(), p.len());
                        if left != n - g.len().min(n) {
                            return Err(format!("peekable len {left} after {} of {n}", g.len()));
                        }
                        let x = if (g.len() + k as usize) % 3 == 0 { p.next_if(|_| true) } else { p.next() };
                        same("peeked", x.map(|x| x.to_words()), Some(seen.clone()))?;
                        g.push(seen);
                        if g.len() > lim {
                            break;
                        }
                    }
                    (g, want)
                }
                End::Chunked(k) => {
                    let k = k as usize % 5 + 1;
                    let mut g: Vec<Row> = Vec::new();
                    loop {
                        let before = g.len();
                        g.extend(Iterator::take(it.by_ref(), k).map(|p| p.to_words()));
                        check_len(&it, n - g.len().min(n), "while taking chunks")?;
                        if g.len() == before || g.len() > lim {
                            break;
                        }
                    }
                    (g, want)
                }
                End::ParallelCount => {
                    let k = pool().install(|| ParallelIterator::count(it));
                    return if k == n { Ok(()) } else { Err(format!("parallel count {k} with {n} points remaining")) };
                }
                End::ParallelForEach => {
                    let all = std::sync::Mutex::new(Vec::new());
                    pool().install(|| ParallelIterator::for_each(it, |p| all.lock().expect("rows").push(p.to_words())));
                    let mut g = all.into_inner().expect("rows");
                    let mut w = want;
                    g.sort();
                    w.sort();
                    (g, w)
                }
                End::Parallel => (pool().install(|| ParallelIterator::map(it, |p| p.to_words()).collect()), want),
                End::ParallelRev => (pool().install(|| ParallelIterator::map(IndexedParallelIterator::rev(it), |p| p.to_words()).collect()), rev),
            };
            if g == w {
                return Ok(());
            }
            let k = g.iter().zip(&w).position(|(a, b)| a != b).unwrap_or(g.len().min(w.len()));
            Err(format!("{} points, expected {}, first difference at {k}", g.len(), w.len()))
        });
        match got {
            Err(p) => return Err(format!("draining iterator {i} with {end:?} ({n} remaining) panicked: {p}")),
            Ok(Err(e)) => return Err(format!("draining iterator {i} with {end:?} ({n} remaining): {e}")),
            Ok(Ok(())) => {}
        }
    }
    Ok(())
}

fn mix(r: &Row) -> u64 {
    let h = r.iter().fold(0x9E37u64, |h, w| (h ^ w).wrapping_mul(0x100000001b3).rotate_left(17));
    h ^ h >> 32
}

pub fn pool() -> &'static rayon::ThreadPool {
    static P: std::sync::OnceLock<rayon::ThreadPool> = std::sync::OnceLock::new();
    P.get_or_init(|| rayon::ThreadPoolBuilder::new().num_threads(3).build().expect("thread pool"))
}

fn op() -> BoxedStrategy<Op> {
    let small = || prop_oneof![12 => 0u16..4, 4 => 0u16..20, 1 => any::<u16>(), 3 => 0xFF80u16..=0xFFFF];
    prop_oneof![
        6 => Just(Op::Next),
        6 => Just(Op::NextBack),
        2 => small().prop_map(Op::Nth),
        2 => small().prop_map(Op::NthBack),
        1 => small().prop_map(Op::Take),
        1 => small().prop_map(Op::SkipNext),
        5 => (prop_oneof![2 => Just(0u16), 5 => any::<u16>()], prop_oneof![24 => Just(0u8), 1 => 1u8..5, 1 => 0x80u8..=0xFF]).prop_map(|(at, over)| Op::Split { at, over }),
        1 => Just(Op::Len),
        1 => Just(Op::SizeHint),
        1 => small().prop_map(Op::Find),
        1 => small().prop_map(Op::RFind),
        1 => small().prop_map(Op::Position),
        1 => small().prop_map(Op::RPosition),
        1 => prop_oneof![small().prop_map(Op::Any), small().prop_map(Op::All), small().prop_map(Op::FindMap)],
        1 => prop_oneof![small().prop_map(Op::TryFold), small().prop_map(Op::TryRFold), small().prop_map(Op::TakeWhile)],
    ]
    .boxed()
}

fn end() -> BoxedStrategy<End> {
    prop_oneof![
        Just(End::Forward),
        Just(End::Backward),
        Just(End::Alternate),
        Just(End::Count),
        Just(End::Last),
        Just(End::Fold),
        Just(End::RFold),
        any::<u8>().prop_map(End::StepBy),
        Just(End::Zip),
        Just(End::Parallel),
        Just(End::ParallelRev),
        Just(End::OwnCount),
        Just(End::OwnLast),
        Just(End::OwnFold),
        Just(End::OwnRFold),
        Just(End::OwnForEach),
        Just(End::OwnCollect),
        Just(End::OwnReduce),
        Just(End::OwnPartition),
        Just(End::OwnMinMax),
        Just(End::OwnCompare),
        Just(End::RevCollect),
        any::<u8>().prop_map(End::Peekable),
        any::<u8>().prop_map(End::Chunked),
        Just(End::ParallelCount),
        Just(End::ParallelForEach),
    ]
    .boxed()
}

impl Prop for C08 {
    type Case = Case;
    const ID: &'static str = "C08";
    const RULE: &'static str = "A case is a readable message, a history of up to 14 operations (next, next_back, nth, nth_back, take, take_while, skip, split, len, size_hint, find and position from \
        either end, any, all, folds given up midway) over a growing set of live iterators, and how each is finally drained; a deque per iterator is the model and lengths are compared after every step. \
        Non-trivial: at least 2 points and at least one operation.";

    fn strategy() -> BoxedStrategy<Case> {
        (gen::any_ty(), vec((any::<u8>(), op()), 0..=14), vec(end(), 4..=4))
            .prop_flat_map(|(ty, ops, ends)| {
                if gen::heavy() {
                    return gen::giant(ty).prop_map(Source::Spec).prop_map(move |src| Case { ty, src, ops: ops.clone(), ends: ends.clone() }).boxed();
                }
                prop_oneof![
                    3 => gen::foreign(ty, true).prop_map(Source::Spec),
                    3 => (gen::any_writer(), gen::points(ty, true))
                        .prop_map(move |(writer, points)| Source::Written { from: ty, writer, points, alter: vec![] }),
                ]
                .prop_map(move |src| Case { ty, src, ops: ops.clone(), ends: ends.clone() })
                .boxed()
            })
            .boxed()
    }

    fn check(c: &Case) -> Result<(), String> {
        let Some(spec) = c.src.spec() else { return Ok(()) };
        if !judge(c.ty, &spec).must_accept() {
            // only reachable when the library wrote a message that does not conform, which is another property's finding
            return Ok(());
        }
        let rows = decode(c.ty, &spec);
        dispatch!(c.ty, T, N => drive::<N, T>(c, &spec, rows)).map_err(|e| format!("{:?}: {e}", c.ty))
    }

    fn classify(c: &Case) -> Class {
        let n = match &c.src {
            Source::Spec(m) => m.points(),
            Source::Written { points, .. } => points.len() as u64,
        };
        let has = |f: fn(&Op) -> bool| c.ops.iter().any(|(_, o)| f(o));
        let mut labels = vec![match n {
            0 => "0 points",
            1 => "1 point",
            2..=12 => "2..12 points",
            _ => "more than 12 points",
        }];
        if has(|o| matches!(o, Op::Split { over: 0, .. })) {
            labels.push("has a split");
        }
        if has(|o| matches!(o, Op::Split { over: 1.., .. })) {
            labels.push("has a split beyond the end");
        }
        let first_split = c.ops.iter().position(|(_, o)| matches!(o, Op::Split { .. }));
        if first_split.is_some_and(|i| c.ops[..i].iter().any(|(_, o)| matches!(o, Op::Next | Op::NextBack | Op::Nth(_)))) {
            labels.push("split after consuming");
        }
        if has(|o| matches!(o, Op::Next)) && has(|o| matches!(o, Op::NextBack)) {
            labels.push("both ends used");
        }
        Class { nontrivial: n >= 2 && !c.ops.is_empty(), labels }
    }
}
