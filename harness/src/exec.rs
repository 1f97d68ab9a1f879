//! Seeded random-scheduling executor with exact quiescence detection and virtual time.
//!
//! Every poll is a scheduling decision drawn from the case's seed. Nothing here polls a task that
//! was not woken, so only interleavings that a real executor may produce are generated.
use crate::rng::Rng;
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

type LocalFut = Pin<Box<dyn Future<Output = ()>>>;
type SendFut = Pin<Box<dyn Future<Output = ()> + Send>>;

struct Flag {
    ready: AtomicBool,
    outer: Arc<Mutex<Option<Waker>>>,
}

impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref();
    }
    fn wake_by_ref(self: &Arc<Self>) {
        if !self.ready.swap(true, Ordering::SeqCst) {
            let w = self.outer.lock().unwrap().clone();
            if let Some(w) = w {
                w.wake();
            }
        }
    }
}

/// Completion handle of a task
#[derive(Clone)]
pub struct Join {
    done: Arc<AtomicBool>,
    kill: Arc<AtomicBool>,
    pub name: &'static str,
}
impl Join {
    pub fn done(&self) -> bool {
        self.done.load(Ordering::SeqCst)
    }
    /// ask the executor to drop the task (cancellation) at the next scheduling point
    pub fn abort(&self) {
        self.kill.store(true, Ordering::SeqCst);
    }
}

struct Slot {
    fut: Option<LocalFut>,
    flag: Arc<Flag>,
    join: Join,
    prio: u64,
}

struct Pending {
    fut: SendFut,
    join: Join,
}

/// Lets library code (through its spawn traits) and tasks spawn onto the executor.
#[derive(Clone)]
pub struct Spawner {
    q: Arc<Mutex<Vec<Pending>>>,
    pub joins: Arc<Mutex<Vec<Join>>>,
}
impl Spawner {
    pub fn spawn(&self, name: &'static str, fut: impl Future<Output = ()> + Send + 'static) -> Join {
        let join = Join { done: Arc::new(AtomicBool::new(false)), kill: Arc::new(AtomicBool::new(false)), name };
        self.q.lock().unwrap().push(Pending { fut: Box::pin(fut), join: join.clone() });
        self.joins.lock().unwrap().push(join.clone());
        join
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Strategy {
    Uniform,
    /// run the highest priority ready task; priorities change now and then
    Priority { change_every: usize },
    /// first-in-first-out over slots
    RoundRobin,
}

pub struct Sched {
    slots: Vec<Slot>,
    spawner: Spawner,
    rng: Rng,
    strat: Strategy,
    outer: Arc<Mutex<Option<Waker>>>,
    rr: usize,
    pub polls: u64,
    pub switch_sig: u64,
    last: usize,
    /// let virtual time pass after this many polls without it (tasks may legally busy-wait)
    pub spin: Option<u64>,
    since: u64,
}

/// Why the executor stopped
#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Stop {
    /// every task finished
    AllDone,
    /// no task can make progress any more (no wake-up outstanding, no timer)
    Quiescent,
    /// poll limit exceeded: something is spinning
    Livelock,
    /// caller's condition became true
    Cond,
}

thread_local! {
    static VT: RefCell<Vt> = const { RefCell::new(Vt { now: 0, wakes: Vec::new() }) };
}
struct Vt {
    now: u64,
    wakes: Vec<(u64, Waker)>,
}
/// virtual time in microseconds
pub fn vt_now() -> u64 {
    VT.with(|v| v.borrow().now)
}
pub fn vt_reset() {
    let old = VT.with(|v| {
        let mut v = v.borrow_mut();
        v.now = 0;
        std::mem::take(&mut v.wakes)
    });
    drop(old);
}
pub fn vt_schedule(at: u64, w: &Waker) {
    let immediate = VT.with(|v| {
        let mut v = v.borrow_mut();
        if at <= v.now {
            return true;
        }
        if let Some(e) = v.wakes.iter_mut().find(|(_, x)| x.will_wake(w)) {
            // one entry per waker (the earliest), like embassy's queue
            if at < e.0 {
                e.0 = at;
            }
        } else {
            v.wakes.push((at, w.clone()));
        }
        false
    });
    if immediate {
        w.wake_by_ref();
    }
}
/// advance to the next scheduled wake-up; false if there is none
fn vt_advance() -> bool {
    let due = VT.with(|v| {
        let mut v = v.borrow_mut();
        let Some(t) = v.wakes.iter().map(|x| x.0).min() else { return vec![] };
        v.now = v.now.max(t);
        let now = v.now;
        let mut due = vec![];
        let mut i = 0;
        while i < v.wakes.len() {
            if v.wakes[i].0 <= now {
                due.push(v.wakes.swap_remove(i).1);
            } else {
                i += 1;
            }
        }
        due
    });
    let any = !due.is_empty();
    for w in due {
        w.wake();
    }
    any
}
pub struct VtSleep {
    at: u64,
}
pub fn vt_sleep(us: u64) -> VtSleep {
    VtSleep { at: vt_now() + us }
}
impl Future for VtSleep {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if vt_now() >= self.at {
            Poll::Ready(())
        } else {
            vt_schedule(self.at, cx.waker());
            Poll::Pending
        }
    }
}

/// Suspend once (the waker fires immediately)
pub struct YieldNow(bool);
pub fn yield_now() -> YieldNow {
    YieldNow(false)
}
impl Future for YieldNow {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            Poll::Ready(())
        } else {
            self.0 = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
}

impl Sched {
    pub fn new(mut rng: Rng) -> Self {
        let strat = match rng.below(6) {
            0..=2 => Strategy::Uniform,
            3 | 4 => Strategy::Priority { change_every: rng.range(3, 40) },
            _ => Strategy::RoundRobin,
        };
        Sched {
            slots: vec![],
            spawner: Spawner { q: Arc::new(Mutex::new(vec![])), joins: Arc::new(Mutex::new(vec![])) },
            rng,
            strat,
            outer: Arc::new(Mutex::new(None)),
            rr: 0,
            polls: 0,
            switch_sig: 0,
            last: usize::MAX,
            spin: None,
            since: 0,
        }
    }
    pub fn spawner(&self) -> Spawner {
        self.spawner.clone()
    }
    pub fn spawn(&mut self, name: &'static str, fut: impl Future<Output = ()> + 'static) -> Join {
        let join = Join { done: Arc::new(AtomicBool::new(false)), kill: Arc::new(AtomicBool::new(false)), name };
        self.add(Box::pin(fut), join.clone());
        join
    }
    fn add(&mut self, fut: LocalFut, join: Join) {
        let prio = self.rng.u64();
        self.slots.push(Slot {
            // tokio's cooperative budget belongs to tokio's scheduler, not to ours
            fut: Some(Box::pin(tokio::task::unconstrained(fut))),
            flag: Arc::new(Flag { ready: AtomicBool::new(true), outer: self.outer.clone() }),
            join,
            prio,
        });
    }
    fn drain_spawned(&mut self) {
        let new: Vec<Pending> = std::mem::take(&mut *self.spawner.q.lock().unwrap());
        for p in new {
            self.add(p.fut, p.join);
        }
    }
    fn reap_killed(&mut self) {
        for s in self.slots.iter_mut() {
            if s.fut.is_some() && s.join.kill.load(Ordering::SeqCst) {
                s.fut = None;
                s.join.done.store(true, Ordering::SeqCst);
            }
        }
    }
    pub fn unfinished(&self) -> Vec<&'static str> {
        self.slots.iter().filter(|s| s.fut.is_some()).map(|s| s.join.name).collect()
    }
    /// Drop every task that is still there (tasks may hold the transport)
    pub fn drop_all(&mut self) {
        self.drain_spawned();
        self.slots.clear();
    }
    /// one scheduling step; false if nothing is ready
    pub fn step(&mut self) -> bool {
        self.drain_spawned();
        self.reap_killed();
        let ready: Vec<usize> = (0..self.slots.len())
            .filter(|&i| self.slots[i].fut.is_some() && self.slots[i].flag.ready.load(Ordering::SeqCst))
            .collect();
        if ready.is_empty() {
            return false;
        }
        let i = match self.strat {
            Strategy::Uniform => *self.rng.pick(&ready),
            Strategy::Priority { change_every } => {
                if self.rng.below(change_every) == 0 {
                    let j = self.rng.below(self.slots.len());
                    self.slots[j].prio = self.rng.u64();
                }
                // a self-waking task must not starve the others for ever
                if self.rng.below(16) == 0 {
                    *self.rng.pick(&ready)
                } else {
                    *ready.iter().max_by_key(|&&i| self.slots[i].prio).unwrap()
                }
            }
            Strategy::RoundRobin => {
                let i = ready.iter().copied().find(|&i| i >= self.rr).unwrap_or(ready[0]);
                self.rr = i + 1;
                i
            }
        };
        self.polls += 1;
        if i != self.last {
            self.switch_sig = crate::rng::mix(self.switch_sig ^ i as u64);
            self.last = i;
        }
        let slot = &mut self.slots[i];
        slot.flag.ready.store(false, Ordering::SeqCst);
        let waker = Waker::from(slot.flag.clone());
        let mut cx = Context::from_waker(&waker);
        let fut = slot.fut.as_mut().unwrap();
        if fut.as_mut().poll(&mut cx).is_ready() {
            slot.fut = None;
            slot.join.done.store(true, Ordering::SeqCst);
        }
        true
    }
    /// Run until nothing can progress (virtual time included)
    pub fn run(&mut self, max_polls: u64) -> Stop {
        self.run_until(max_polls, || false)
    }
    pub fn run_until(&mut self, max_polls: u64, mut cond: impl FnMut() -> bool) -> Stop {
        let lim = self.polls + max_polls;
        loop {
            if cond() {
                return Stop::Cond;
            }
            if self.polls >= lim {
                return Stop::Livelock;
            }
            if self.step() {
                self.since += 1;
                if self.spin.is_some_and(|n| self.since >= n) {
                    self.since = 0;
                    vt_advance();
                }
                continue;
            }
            self.since = 0;
            if vt_advance() {
                continue;
            }
            self.drain_spawned();
            return if self.slots.iter().all(|s| s.fut.is_none()) { Stop::AllDone } else { Stop::Quiescent };
        }
    }
    /// Run inside a paused-clock tokio runtime, so that tokio timers are virtual time.
    pub fn run_tokio(&mut self, rt: &tokio::runtime::Runtime, max_polls: u64) -> Stop {
        let lim = self.polls + max_polls;
        let outer = self.outer.clone();
        let res = rt.block_on(async {
            let mut idle = Box::pin(tokio::time::sleep(std::time::Duration::from_secs(3600)));
            let mut last_polls = u64::MAX;
            std::future::poll_fn(|cx| {
                *outer.lock().unwrap() = Some(cx.waker().clone());
                for _ in 0..8 {
                    if self.polls >= lim {
                        return Poll::Ready(Stop::Livelock);
                    }
                    if !self.step() {
                        self.drain_spawned();
                        if self.slots.iter().all(|s| s.fut.is_none()) {
                            return Poll::Ready(Stop::AllDone);
                        }
                        // nothing ready: let tokio run its own tasks / advance its clock
                        if self.polls != last_polls {
                            last_polls = self.polls;
                            idle.as_mut().reset(tokio::time::Instant::now() + std::time::Duration::from_secs(3600));
                        }
                        if idle.as_mut().poll(cx).is_ready() {
                            return Poll::Ready(Stop::Quiescent);
                        }
                        return Poll::Pending;
                    }
                }
                cx.waker().wake_by_ref();
                Poll::Pending
            })
            .await
        });
        *self.outer.lock().unwrap() = None;
        res
    }
}

pub fn paused_rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap()
}

/// Shared counter for unique ids
pub static NEXT_ID: AtomicU32 = AtomicU32::new(1);
