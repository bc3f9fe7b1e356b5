//! Explorer of thread interleavings: real threads, one running at a time, stopped at every
//! scheduling point; depth-first over the choices at those points, up to a number of preemptions.
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St { Ready, Blocked, TimedOut, Done }

struct Inner {
    st: Vec<St>,
    started: usize,
    current: Option<usize>,
    prefix: Vec<usize>,
    /// (number of options, chosen)
    trace: Vec<(usize, usize)>,
    path: Vec<(usize, String)>,
    preemptions: usize,
    bound: usize,
    steps: u64,
    deadlocks: u64,
}
pub struct Sched { m: Mutex<Inner>, cv: Condvar }

/// One thread's handle on the scheduler.
#[derive(Clone)]
pub struct Handle { s: Arc<Sched>, id: usize }

impl Sched {
    fn choose(&self, i: &mut Inner, from: Option<usize>) {
        // options: the running thread first if it can go on, then the others in order
        let mut opts: Vec<(usize, bool)> = vec![];
        let cont = from.filter(|f| i.st[*f] == St::Ready);
        if let Some(f) = cont { opts.push((f, false)) }
        if cont.is_none() || i.preemptions < i.bound {
            for t in 0..i.st.len() { if Some(t) != cont && i.st[t] == St::Ready { opts.push((t, cont.is_some())) } }
        }
        let mut wake = false;
        if opts.is_empty() {
            // everybody waits for a lock: one of them times out
            for t in 0..i.st.len() { if i.st[t] == St::Blocked { opts.push((t, false)) } }
            if opts.is_empty() { i.current = None; self.cv.notify_all(); return; }
            i.deadlocks += 1;
            wake = true;
        }
        let k = i.trace.len();
        let c = i.prefix.get(k).copied().unwrap_or(0);
        assert!(c < opts.len(), "the code under test behaved differently under the same schedule");
        i.trace.push((opts.len(), c));
        let (t, pre) = opts[c];
        if pre { i.preemptions += 1 }
        if wake { i.st[t] = St::TimedOut }
        i.current = Some(t);
        i.steps += 1;
        self.cv.notify_all();
    }
    fn wait(&self, id: usize) {
        let mut i = self.m.lock().unwrap();
        while i.current != Some(id) { i = self.cv.wait(i).unwrap(); }
    }
}
impl Handle {
    /// a scheduling point
    pub fn point(&self, label: impl FnOnce() -> String) {
        {
            let mut i = self.s.m.lock().unwrap();
            if i.path.len() < 4000 { let l = label(); i.path.push((self.id, l)); }
            self.s.choose(&mut i, Some(self.id));
            if i.current == Some(self.id) { return; }
        }
        self.s.wait(self.id);
    }
    /// waits for somebody to release something; false when it timed out
    pub fn blocked(&self) -> bool {
        {
            let mut i = self.s.m.lock().unwrap();
            i.st[self.id] = St::Blocked;
            self.s.choose(&mut i, Some(self.id));
        }
        self.s.wait(self.id);
        let mut i = self.s.m.lock().unwrap();
        let timed_out = i.st[self.id] == St::TimedOut;
        i.st[self.id] = St::Ready;
        !timed_out
    }
    pub fn released(&self) {
        let mut i = self.s.m.lock().unwrap();
        for s in i.st.iter_mut() { if *s == St::Blocked { *s = St::Ready } }
    }
    pub fn id(&self) -> usize { self.id }
}

pub struct Outcome<R> { pub results: Vec<Result<R, String>>, pub path: Vec<(usize, String)>, pub deadlocks: u64 }
#[derive(Default, Debug, Clone, Copy)]
pub struct Stats { pub schedules: u64, pub steps: u64, pub deadlocks: u64, pub complete: bool }

/// Runs every schedule of the threads that `make` builds (a new instance for each schedule), with
/// at most `bound` preemptions; `check` sees each outcome and stops the exploration with false.
pub fn explore<R: Send>(bound: usize, limit: u64, mut make: impl FnMut() -> Vec<Box<dyn FnOnce(Handle) -> R + Send>>, mut check: impl FnMut(Outcome<R>) -> bool) -> Stats {
    let mut prefix: Vec<usize> = vec![];
    let mut stats = Stats::default();
    loop {
        let bodies = make();
        let n = bodies.len();
        let s = Arc::new(Sched { m: Mutex::new(Inner { st: vec![St::Ready; n], started: 0, current: None, prefix: prefix.clone(), trace: vec![], path: vec![], preemptions: 0, bound, steps: 0, deadlocks: 0 }), cv: Condvar::new() });
        let results: Vec<Result<R, String>> = std::thread::scope(|sc| {
            let hs: Vec<_> = bodies.into_iter().enumerate().map(|(id, b)| {
                let s = s.clone();
                std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(sc, move || {
                    {
                        let mut i = s.m.lock().unwrap();
                        i.started += 1;
                        if i.started == n { s.choose(&mut i, None); }
                    }
                    s.wait(id);
                    let h = Handle { s: s.clone(), id };
                    let r = crate::guard(|| b(h));
                    let mut i = s.m.lock().unwrap();
                    i.st[id] = St::Done;
                    for x in i.st.iter_mut() { if *x == St::Blocked { *x = St::Ready } }
                    s.choose(&mut i, Some(id));
                    r
                }).unwrap()
            }).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("scheduler".into()))).collect()
        });
        let i = s.m.lock().unwrap();
        stats.schedules += 1;
        stats.steps += i.steps;
        stats.deadlocks += i.deadlocks;
        let go = check(Outcome { results, path: i.path.clone(), deadlocks: i.deadlocks });
        if !go { return stats; }
        let mut p: Vec<usize> = i.trace.iter().map(|t| t.1).collect();
        let opts: Vec<usize> = i.trace.iter().map(|t| t.0).collect();
        loop {
            match p.pop() {
                None => { stats.complete = true; return stats; }
                Some(c) => if c + 1 < opts[p.len()] { p.push(c + 1); break; }
            }
        }
        prefix = p;
        if stats.schedules >= limit { return stats; }
    }
}
