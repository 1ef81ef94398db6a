//! C02: crash at every file system operation (and in the middle of every write) of update histories.
use crate::faultfs::*;
use crate::model::*;
use crate::run::*;
use crate::updates::{is_derived, no_skip};
use graphannis::model::AnnotationComponentType;
use graphannis_core::graph::Graph;
use graphannis_core::graph::update::UpdateEvent;
use graphannis_core::types::{ComponentType, DefaultComponentType};
use serde_json::json;
use std::path::Path;
use std::str::FromStr;
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
pub enum Op {
    Upd(u8),
    UpdKeep(u8),
    Sync,
    Reopen,
    Opt(bool),
}
fn ops() -> Vec<Op> {
    use Op::*;
    vec![Upd(1), Upd(2), Upd(3), UpdKeep(2), Sync, Reopen, Opt(false), Opt(true)]
}

fn batch(i: u8, t1: &str, t2: &str) -> Vec<UpdateEvent> {
    match i {
        0 | 1 | 2 => crate::persist::batch(i, t1, t2),
        // longer than the write buffers
        3 => vec![add_label("a", "long", "k", &"v".repeat(9000)), add_label("b", "long", "k", "")],
        // used after a recovery
        _ => vec![add_node("after", "node"), add_label("a", "ns", "k", "after"), del_node("c/ü"), add_edge("a", "after", &comp(t1, "", "x")), add_label("after", "", "order", "1")],
    }
}

type Skip<'a> = &'a (dyn Fn(&str, &str, &str) -> bool + Sync);

struct Sys<'a, CT: ComponentType> {
    run: &'a Run,
    t1: &'a str,
    t2: &'a str,
    skip: Skip<'a>,
    torn: Torn,
    g: std::marker::PhantomData<CT>,
}

/// Replace random parts of names
fn norm(img: &Image) -> u64 {
    let mut v: Vec<(Vec<String>, &Option<Arc<Vec<u8>>>)> = img
        .iter()
        .map(|(p, c)| {
            (
                p.components()
                    .map(|x| {
                        let x = x.as_os_str().to_string_lossy().to_string();
                        if x.starts_with(".tmp") {
                            ".tmp".into()
                        } else if x.starts_with("temporary-graphannis-backup") {
                            "temporary-graphannis-backup".into()
                        } else {
                            x
                        }
                    })
                    .collect(),
                c,
            )
        })
        .collect();
    v.sort();
    hash64(&v)
}

fn listing(img: &Image) -> String {
    img.iter().map(|(p, c)| format!("{}{}", p.display(), c.as_ref().map(|c| format!("({})", c.len())).unwrap_or("/".into()))).collect::<Vec<_>>().join(" ")
}

type Points = Arc<Mutex<Vec<(String, Image)>>>;

/// Track an operation and collect the images at all points
fn collect(dir: &Path, torn: Torn) -> (Guard, Points) {
    let pts: Points = Default::default();
    let p2 = pts.clone();
    let mut f = Follow::new(dir);
    let g = track(
        dir,
        torn,
        Box::new(move |n, what, paths| {
            let changed = f.refresh(paths);
            if n == u64::MAX {
                if changed {
                    p2.lock().unwrap().push(("an operation which is not interposed".into(), f.img.clone()));
                }
            } else {
                p2.lock().unwrap().push((format!("{n} ({what})"), f.img.clone()));
            }
        }),
    );
    (g, pts)
}

impl<CT: ComponentType> Sys<'_, CT>
where
    <CT as FromStr>::Err: std::fmt::Debug,
{
    fn apply(&self, m: &Model, b: u8) -> Model {
        let mut m = m.clone();
        for e in batch(b, self.t1, self.t2) {
            m.apply(&e, &|t| CT::from_str(t).is_ok());
        }
        m
    }
    fn open(&self, dir: &Path) -> Result<Graph<CT>, String> {
        let mut g: Graph<CT> = es(Graph::new(false), "Graph::new")?;
        es(g.open(dir), "open")?;
        Ok(g)
    }
    fn read(&self, g: &mut Graph<CT>) -> Result<Model, String> {
        es(g.ensure_loaded_all(), "ensure_loaded_all")?;
        Ok(dump(g, self.skip)?.normal())
    }
    fn step(&self, g: &mut Graph<CT>, dir: &Path, op: Op) -> Result<(), String> {
        match op {
            Op::Upd(i) => es(g.apply_update(&mut update(&batch(i, self.t1, self.t2))?, |_| {}), "apply_update"),
            Op::UpdKeep(i) => es(g.apply_update_keep_statistics(&mut update(&batch(i, self.t1, self.t2))?, |_| {}), "apply_update_keep_statistics"),
            Op::Sync => es(g.background_sync_wal_updates(), "background_sync_wal_updates"),
            Op::Reopen => {
                *g = self.open(dir)?;
                Ok(())
            }
            Op::Opt(d) => es(g.optimize_impl(d), "optimize_impl"),
        }
    }

    /// The process died and left this image: recover
    fn crash(&self, img: &Image, allowed: &[Model], depth: usize, second: bool, life: bool, path: &str) -> Result<(), String> {
        if !self.run.state(&(norm(img), hash64(allowed), depth)) {
            return Ok(());
        }
        self.run.trans(1);
        let d = tmpdir("c");
        let dir = d.path();
        restore(img, dir);
        let fail = |e: String| format!("{e}\n  crash at {path}\n  files: {}", listing(img));
        let (guard, pts) = if second && depth == 1 { let (g, p) = collect(dir, Torn::None); (Some(g), p) } else { (None, Points::default()) };
        let mut g = self.open(dir).map_err(fail)?;
        let got = self.read(&mut g).map_err(fail)?;
        drop(guard);
        if !allowed.contains(&got) {
            let d: Vec<String> = allowed.iter().filter_map(|a| diff(&got, a)).collect();
            return Err(fail(format!("the recovered graph is none of the {} allowed states: {}", allowed.len(), d.join(" OR "))));
        }
        self.run.outcome(&(&got, depth));
        let pts = std::mem::take(&mut *pts.lock().unwrap());
        self.run.alive();
        if depth > 1 || !life {
            return Ok(());
        }
        // the recovered graph works as usual
        let m2 = self.apply(&got, 4);
        self.step(&mut g, dir, Op::Upd(4)).map_err(fail)?;
        same(&self.read(&mut g).map_err(fail)?, &m2, "graph after recovery and a further update").map_err(fail)?;
        let i2 = image(dir);
        drop(g);
        let e = tmpdir("c");
        restore(&i2, e.path());
        let mut h = self.open(e.path()).map_err(fail)?;
        same(&self.read(&mut h).map_err(fail)?, &m2, "opened again after recovery and a further update").map_err(fail)?;
        self.step(&mut h, e.path(), Op::Sync).map_err(fail)?;
        drop(h);
        let mut h = self.open(e.path()).map_err(fail)?;
        same(&self.read(&mut h).map_err(fail)?, &m2, "opened again after recovery, a further update and writing it").map_err(fail)?;
        // a crash during this recovery
        if second {
            for (what, i) in pts {
                // until the recovery has been finished, nobody has seen its result
                self.crash(&i, allowed, depth + 1, second, life, &format!("{path}, then during recovery at {what}"))?;
            }
        }
        Ok(())
    }

    fn setup(&self, disk: bool) -> Result<(Graph<CT>, tempfile::TempDir, Model), String> {
        let d = tmpdir("c");
        let mut g: Graph<CT> = es(Graph::with_default_graphstorages(disk), "new graph")?;
        self.step(&mut g, d.path(), Op::Upd(0))?;
        es(g.persist_to(d.path()), "persist_to")?;
        let g = self.open(d.path())?;
        let m = self.apply(&Model::default(), 0);
        Ok((g, d, m.normal()))
    }
    fn effect(&self, m: &Model, op: Op) -> Model {
        match op {
            Op::Upd(i) | Op::UpdKeep(i) => self.apply(m, i).normal(),
            _ => m.clone(),
        }
    }

    fn history(&self, disk: bool, h: &[Op], second: bool) -> Result<(), String> {
        let (mut g, d, mut m) = self.setup(disk)?;
        let dir = d.path();
        let (last, first) = h.split_last().unwrap();
        for op in first {
            self.step(&mut g, dir, *op)?;
            m = self.effect(&m, *op);
        }
        let m1 = self.effect(&m, *last);
        let (guard, pts) = collect(dir, self.torn);
        self.step(&mut g, dir, *last)?;
        drop(guard);
        let end = image(dir);
        let pts = std::mem::take(&mut *pts.lock().unwrap());
        if let Some((what, img)) = pts.last()
            && *img != end
        {
            return Err(format!("machinery: the directory changed after the last observed operation {what}: {} / {}", listing(img), listing(&end)));
        }
        let both = if m == m1 { vec![m1.clone()] } else { vec![m.clone(), m1.clone()] };
        for (what, img) in &pts {
            self.crash(img, &both, 1, second, h.len() == 1 || self.run.thorough, what)?;
        }
        // acknowledged
        self.crash(&end, &[m1.clone()], 1, second, true, "the end")?;
        same(&self.read(&mut g)?, &m1, "graph without crash")?;
        self.run.trans(h.len() as u64);
        Ok(())
    }

    /// An operation fails with I/O errors, the process goes on
    fn faults(&self, disk: bool, h: &[Op], all: bool) -> Result<(), String> {
        for k in 0.. {
            let (mut g, d, mut m) = self.setup(disk)?;
            let dir = d.path();
            let (last, first) = h.split_last().unwrap();
            for op in first {
                self.step(&mut g, dir, *op)?;
                m = self.effect(&m, *op);
            }
            let m1 = self.effect(&m, *last);
            let guard = track(dir, Torn::None, Box::new(|_, _, _| ()));
            guard.with(|t| {
                t.fail_from = Some(k);
                t.fail_all = all;
            });
            let r = self.step(&mut g, dir, *last);
            let n = guard.with(|t| t.ops);
            drop(guard);
            if n <= k {
                break;
            }
            self.run.trans(1);
            let allowed = if r.is_ok() { vec![m1.clone()] } else { vec![m.clone(), m1.clone()] };
            let fail = |e: String| format!("{e}\n  operation {k} of {last:?} failed, result {r:?}");
            self.crash(&image(dir), &allowed, 1, false, true, "directly after the failed operation").map_err(fail)?;
            // the next updates are acknowledged
            let next = self.step(&mut g, dir, Op::Upd(4));
            let mut a2: Vec<Model> = allowed.iter().map(|a| self.apply(a, 4).normal()).collect();
            if next.is_err() {
                a2.extend(allowed.clone());
            }
            let fail = |e: String| format!("{e}\n  operation {k} of {last:?} failed, result {r:?}, next update {next:?}");
            self.crash(&image(dir), &a2, 1, false, true, "after the next update").map_err(fail)?;
            let sync = self.step(&mut g, dir, Op::Sync);
            let fail = |e: String| format!("{e}\n  operation {k} of {last:?} failed, result {r:?}, next update {next:?}, then sync {sync:?}");
            self.crash(&image(dir), &a2, 1, false, true, "after the next update and write").map_err(fail)?;
            if sync.is_err() {
                return Err(fail("the pending changes could not be written, although there are no errors anymore".into()));
            }
        }
        Ok(())
    }
}

fn explore<CT: ComponentType>(run: &Run, name: &str, t1: &str, t2: &str, depth: usize, second: usize, skip: Skip)
where
    <CT as FromStr>::Err: std::fmt::Debug,
{
    let ops = ops();
    let n = ops.len() as u64;
    let s = Sys::<CT> { run, t1, t2, skip, torn: run.q(Torn::Half, Torn::Many), g: Default::default() };
    let s = &s;
    let ops = &ops;
    let hist = |depth: usize| {
        (1..=depth).flat_map(move |d| (0..n.pow(d as u32)).map(move |x| (d, x))).map(move |(d, mut x)| {
            let mut v = vec![0; d];
            for i in (0..d).rev() {
                v[i] = (x % n) as usize;
                x /= n;
            }
            v.into_iter().map(|i| ops[i]).collect::<Vec<Op>>()
        })
    };
    let id = |h: &[Op]| h.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>().join(",");
    run.par_n(8, 1, hist(depth).flat_map(|h| [(h.clone(), false), (h, true)]), |(h, disk)| {
        run.case(|| format!("{name}/{}/{}", if disk { "disk" } else { "mem" }, id(&h)), || s.history(disk, &h, h.len() <= second));
    });
    run.par_n(8, 1, hist(depth.min(run.q(1, 2))).flat_map(|h| [(h.clone(), false), (h, true)]), |(h, disk)| {
        for all in [false, true] {
            run.case(|| format!("{name}/{}/fault{}/{}", if disk { "disk" } else { "mem" }, if all { "s" } else { "" }, id(&h)), || s.faults(disk, &h, all));
        }
    });
}

pub fn check(run: &Run) {
    *run.rule.lock().unwrap() = "every history up to the depth over 4 updates (one longer than the buffers), background write, reopening and optimizing, for an in-memory and a disk-based graph; the process dies after each file system operation and in the middle of each write of the last operation of the history, and again at each point of the recovery; each operation fails once or from then on with an I/O error; states = distinct directory images with the set of allowed graphs".into();
    run.assume("the process dies, the operating system does not: completed system calls are kept");
    let d = run.q(2, 3);
    explore::<DefaultComponentType>(run, "core", "Edge", "Edge", d, run.q(1, 2), &no_skip);
    explore::<AnnotationComponentType>(run, "annis", "Pointing", "Ordering", d - 1, run.q(0, 1), &is_derived);
    run.note("bounds", json!({"operations": ops().len(), "depth": d, "crashes in a row": "2 for histories of length 1 (2 thorough), else 1"}));
}
