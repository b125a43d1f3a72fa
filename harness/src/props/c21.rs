//! Conversions that run at the same time. The histories of C20 (whose module has the operations and the model) in several threads.
use super::c20;
use crate::engine::{Class, Prop};

use crate::types::reexport::*;
use crate::types::{TestPoint, Ty};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use ros_pointcloud2::{PointCloud2Msg, PointConvertible};
use serde::{Deserialize, Serialize};
use std::sync::Barrier;

pub struct C21;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum How {
    /// a thread for each history
    Threads,
    /// jobs of one rayon pool
    Jobs(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub histories: Vec<c20::Case>,
    pub how: How,
    /// every history is run this often in a row
    pub rounds: u8,
    /// an iterator that one thread begins and another one ends, next to the histories: the cloud of this history, points taken at first
    pub handover: Option<(u8, u8)>,
}

/// One thread takes points from the front, another the rest.
fn handover<const N: usize, T: TestPoint + PointConvertible<N> + Send>(msg: PointCloud2Msg, k: usize) -> Result<Vec<Vec<u64>>, String> {
    let mut it = c20::cursor::<N, T>(msg).map_err(|e| format!("{e:?}"))?;
    let mut out: Vec<Vec<u64>> = (0..k).map_while(|_| it.next()).map(|p| p.to_words()).collect();
    let rest = std::thread::scope(|s| s.spawn(move || it.map(|p| p.to_words()).collect::<Vec<_>>()).join());
    out.extend(rest.map_err(|_| "panic".to_string())?);
    Ok(out)
}

fn handed_over(c: &c20::Case, k: u8) -> Result<(), String> {
    let Some((msg, want)) = c20::first(c) else { return Ok(()) };
    let got = match c.ty {
        Ty::XYZ => handover::<3, PointXYZ>(msg, k as usize),
        Ty::Zyx => handover::<3, Zyx>(msg, k as usize),
        Ty::Mixed => handover::<8, Mixed>(msg, k as usize),
        Ty::MixedSub => handover::<4, MixedSub>(msg, k as usize),
        _ => return Ok(()),
    };
    match got {
        Ok(g) if g == want => Ok(()),
        Ok(g) => Err(format!("an iterator handed to another thread after {k} points: {} points, expected {}; they differ", g.len(), want.len())),
        Err(e) => Err(format!("an iterator handed to another thread after {k} points: {e}")),
    }
}

fn repeated(c: &c20::Case, rounds: u8, k: usize) -> Result<(), String> {
    for r in 0..rounds.max(1) {
        c20::run(c, |_| {}).map_err(|e| format!("history {k}, round {r}, while others run: {e}"))?;
    }
    Ok(())
}

fn joined(cases: &[c20::Case], rounds: u8, first: usize) -> Result<(), String> {
    match cases {
        [] => Ok(()),
        [c] => repeated(c, rounds, first),
        _ => {
            let (a, b) = cases.split_at(cases.len() / 2);
            let (x, y) = rayon::join(|| joined(a, rounds, first), || joined(b, rounds, first + a.len()));
            x.and(y)
        }
    }
}

impl Prop for C21 {
    type Case = Case;
    const ID: &'static str = "C21";
    const RULE: &'static str = "A case is 2 to 4 histories (see C20) with clouds of their own, run at the same time in threads or as jobs of a rayon pool, several times in a row, possibly next to \
        an iterator that one thread begins and another one ends; each must produce exactly what its model says, as it does alone. Non-trivial: at least two histories stream points.";

    fn strategy() -> BoxedStrategy<Case> {
        let types = select(&[Ty::XYZ, Ty::Zyx, Ty::Mixed, Ty::MixedSub][..]).boxed();
        let how = prop_oneof![3 => Just(How::Threads), 1 => any::<u8>().prop_map(How::Jobs)];
        (vec(c20::histories(types), 2..=4), how, 1u8..=6, proptest::option::of((any::<u8>(), prop_oneof![3 => 0u8..5, 1 => any::<u8>()])))
            .prop_map(|(histories, how, rounds, handover)| Case { histories, how, rounds, handover })
            .boxed()
    }

    fn check(c: &Case) -> Result<(), String> {
        let results: Vec<Result<(), String>> = match c.how {
            How::Threads => {
                let gate = Barrier::new(c.histories.len());
                std::thread::scope(|s| {
                    let running: Vec<_> = c
                        .histories
                        .iter()
                        .enumerate()
                        .map(|(k, h)| {
                            let gate = &gate;
                            s.spawn(move || {
                                gate.wait();
                                let r = repeated(h, c.rounds, k);
                                match c.handover {
                                    Some((of, n)) if of as usize % c.histories.len() == k => r.and_then(|_| handed_over(h, n)),
                                    _ => r,
                                }
                            })
                        })
                        .collect();
                    running.into_iter().map(|t| t.join().unwrap_or_else(|_| Err("panic in the harness".into()))).collect()
                })
            }
            How::Jobs(threads) => vec![c20::pool(threads).install(|| joined(&c.histories, c.rounds, 0))],
        };
        results.into_iter().collect()
    }

    fn classify(c: &Case) -> Class {
        let streaming = c.histories.iter().filter(|h| h.steps.iter().any(|s| matches!(s, c20::Step::Through { .. }))).count();
        let mut labels = vec![
            match c.histories.len() {
                0..=2 => "2 histories",
                3 => "3 histories",
                _ => "4 histories",
            },
            match c.how {
                How::Threads => "threads",
                How::Jobs(_) => "jobs of a pool",
            },
        ];
        if c.histories.iter().any(|h| h.ty != c.histories[0].ty) {
            labels.push("different types");
        }
        if c.handover.is_some() && c.how == How::Threads {
            labels.push("iterator handed over");
        }
        Class { nontrivial: streaming >= 2, labels }
    }
}
