//! Scheduler which runs threads one at a time and enumerates all orders of their operations on
//! locks and the file system, up to a number of deviations
//! from the order in which each thread runs until it ends or has to wait (delay bounding).
use graphannis_core::mc::{Scheduler, set_scheduler};
use std::collections::HashMap;
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Step,
    Acquire(usize, bool),
    /// waiting for the notification of a condition variable, and the mutex to get back
    Wait(usize, usize),
    Join(Vec<usize>),
    Done,
}

struct Task {
    pending: Op,
    attempted: bool,
    what: String,
}

#[derive(Clone, Debug)]
pub struct Point {
    pub options: usize,
    pub chosen: usize,
}

#[derive(Default)]
struct Lock {
    readers: Vec<usize>,
    writer: Option<usize>,
}

#[derive(Default)]
struct St {
    tasks: Vec<Task>,
    running: Option<usize>,
    locks: HashMap<usize, Lock>,
    script: Vec<usize>,
    trace: Vec<Point>,
    deviations: usize,
    bound: usize,
    dead: Option<String>,
    steps: u64,
    fs: bool,
    /// the next decision is free
    free: bool,
}

pub static DIVERGED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

pub struct Sched {
    st: Mutex<St>,
    cv: Condvar,
}

impl St {
    fn available(&self, t: usize) -> bool {
        match &self.tasks[t].pending {
            Op::Step => true,
            Op::Acquire(l, exclusive) => {
                let Some(k) = self.locks.get(l) else { return true };
                if k.writer.is_some() {
                    return false;
                }
                if *exclusive {
                    k.readers.is_empty()
                } else {
                    // a waiting writer blocks new readers
                    !(0..self.tasks.len()).any(|o| o != t && self.tasks[o].attempted && self.tasks[o].pending == Op::Acquire(*l, true) && !k.readers.is_empty())
                }
            }
            Op::Wait(..) | Op::Done => false,
            Op::Join(ts) => ts.iter().all(|o| self.tasks[*o].pending == Op::Done),
        }
    }

    fn can_attempt(&self, t: usize) -> bool {
        !self.tasks[t].attempted && matches!(self.tasks[t].pending, Op::Acquire(l, true) if self.locks.get(&l).is_some_and(|k| k.writer.is_none() && !k.readers.is_empty()))
    }

    /// decide which thread continues
    fn pick(&mut self, from: usize) {
        self.running = None;
        loop {
            let mut options = vec![];
            let cont = self.available(from);
            if cont {
                options.push(from);
            }
            let free = std::mem::take(&mut self.free);
            if options.is_empty() || free || self.deviations < self.bound {
                for t in 0..self.tasks.len() {
                    if !options.is_empty() && !free && self.deviations >= self.bound {
                        // what continues is determined
                        break;
                    }
                    if (t != from || !cont) && (self.available(t) || self.can_attempt(t)) {
                        options.push(t);
                    }
                }
            }
            if options.is_empty() {
                if self.tasks.iter().any(|t| t.pending != Op::Done) {
                    let w: Vec<String> = self.tasks.iter().enumerate().filter(|(_, t)| t.pending != Op::Done).map(|(i, t)| format!("thread {i} ({}): {:?}", t.what, t.pending)).collect();
                    self.dead = Some(format!("deadlock: {}", w.join("; ")));
                }
                return;
            }
            let mut chosen = 0;
            if options.len() > 1 {
                chosen = self.script.get(self.trace.len()).copied().unwrap_or(0);
                if chosen >= options.len() {
                    // the execution is not the one for which the script has been made
                    DIVERGED.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    chosen = 0;
                }
                self.trace.push(Point { options: options.len(), chosen });
            }
            let t = options[chosen];
            if chosen > 0 && !free {
                self.deviations += 1;
            }
            if !self.available(t) {
                self.tasks[t].attempted = true;
                continue;
            }
            if let Op::Acquire(l, exclusive) = self.tasks[t].pending {
                let k = self.locks.entry(l).or_default();
                if exclusive {
                    k.writer = Some(t);
                } else {
                    k.readers.push(t);
                }
            }
            self.tasks[t].attempted = false;
            self.running = Some(t);
            self.steps += 1;
            return;
        }
    }
}

pub struct Outcome {
    pub trace: Vec<Point>,
    pub steps: u64,
    pub dead: Option<String>,
}

impl Sched {
    pub fn new(script: Vec<usize>, bound: usize, fs: bool) -> Arc<Sched> {
        Arc::new(Sched { st: Mutex::new(St { script, bound, fs, ..Default::default() }), cv: Condvar::new() })
    }

    fn add(&self, what: &str) -> usize {
        let mut s = self.st.lock().unwrap();
        s.tasks.push(Task { pending: Op::Step, attempted: false, what: what.to_string() });
        s.tasks.len() - 1
    }

    fn point(&self, t: usize, op: Op) {
        let mut s = self.st.lock().unwrap();
        if s.dead.is_some() {
            drop(s);
            return stop();
        }
        s.tasks[t].pending = op;
        s.pick(t);
        self.cv.notify_all();
        self.until_running(s, t);
    }

    fn until_running(&self, mut s: std::sync::MutexGuard<St>, t: usize) {
        while s.running != Some(t) {
            if s.dead.is_some() {
                drop(s);
                return stop();
            }
            s = self.cv.wait(s).unwrap();
        }
    }

    pub fn step(&self, t: usize) {
        self.point(t, Op::Step);
    }

    /// Any other thread can continue here without counting as preemption
    pub fn boundary(&self, t: usize) {
        self.st.lock().unwrap().free = true;
        self.point(t, Op::Step);
    }

    pub fn now(&self) -> u64 {
        self.st.lock().unwrap().steps
    }

    /// Run the functions as threads under this scheduler, and the last one after all of them
    /// returned (but not threads they started).
    pub fn run(self: &Arc<Self>, fs: Vec<Box<dyn FnOnce(usize) + Send>>, last: Box<dyn FnOnce(usize) + Send>) -> Outcome {
        let n = fs.len();
        for i in 0..=n {
            self.add(if i < n { "client" } else { "end" });
        }
        self.st.lock().unwrap().tasks[n].pending = Op::Join((0..n).collect());
        let mut hs = vec![];
        for (i, f) in fs.into_iter().chain(std::iter::once(last)).enumerate() {
            let me = self.clone();
            let b = std::thread::Builder::new().stack_size(4 << 20);
            hs.push(
                b.spawn(move || {
                    set_scheduler(Some((me.clone() as Arc<dyn Scheduler>, i)));
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        let s = me.st.lock().unwrap();
                        me.until_running(s, i);
                        f(i)
                    }));
                    set_scheduler(None);
                    me.finish(i);
                    let _ = r;
                })
                .unwrap(),
            );
        }
        {
            let mut s = self.st.lock().unwrap();
            s.pick(0);
            self.cv.notify_all();
        }
        for h in hs {
            let _ = h.join();
        }
        // threads of the library
        let mut s = self.st.lock().unwrap();
        while s.dead.is_none() && s.tasks.iter().any(|t| t.pending != Op::Done) {
            s = self.cv.wait(s).unwrap();
        }
        Outcome { trace: s.trace.clone(), steps: s.steps, dead: s.dead.clone() }
    }
}

fn stop() {
    if !std::thread::panicking() {
        std::panic::resume_unwind(Box::new("stopped by the scheduler"));
    }
}

impl Scheduler for Sched {
    fn acquire(&self, t: usize, lock: usize, exclusive: bool) {
        self.point(t, Op::Acquire(lock, exclusive));
    }
    fn release(&self, t: usize, lock: usize, exclusive: bool) {
        let mut s = self.st.lock().unwrap();
        if let Some(k) = s.locks.get_mut(&lock) {
            if exclusive {
                k.writer = None;
            } else if let Some(i) = k.readers.iter().position(|r| *r == t) {
                k.readers.remove(i);
            }
            if k.writer.is_none() && k.readers.is_empty() {
                s.locks.remove(&lock);
            }
        }
    }
    fn wait(&self, t: usize, condvar: usize, mutex: usize) {
        self.release(t, mutex, true);
        self.point(t, Op::Wait(condvar, mutex));
    }
    fn notify_all(&self, _: usize, condvar: usize) {
        let mut s = self.st.lock().unwrap();
        for t in s.tasks.iter_mut() {
            if let Op::Wait(c, m) = t.pending
                && c == condvar
            {
                t.pending = Op::Acquire(m, true);
            }
        }
    }
    fn spawn(&self, _: usize) -> usize {
        self.add("background")
    }
    fn start(&self, t: usize) {
        let s = self.st.lock().unwrap();
        self.until_running(s, t);
    }
    fn finish(&self, t: usize) {
        let mut s = self.st.lock().unwrap();
        s.tasks[t].pending = Op::Done;
        // locks of a thread that panicked have been released by its guards
        if s.dead.is_none() {
            s.pick(t);
        }
        self.cv.notify_all();
    }
    fn file_system(&self, t: usize) {
        if self.st.lock().unwrap().fs {
            self.point(t, Op::Step);
        }
    }
}

/// Enumerate all schedules. `f` runs one and returns its trace; ends early with its error.
pub fn explore(mut f: impl FnMut(Vec<usize>) -> Result<Vec<Point>, String>) -> Result<u64, String> {
    let mut script = vec![];
    let mut n = 0;
    loop {
        let trace = f(script.clone())?;
        n += 1;
        let Some(i) = trace.iter().rposition(|p| p.chosen + 1 < p.options) else { return Ok(n) };
        script = trace[..i].iter().map(|p| p.chosen).collect();
        script.push(trace[i].chosen + 1);
    }
}
