//! Strict scheduling: a task is polled only when its waker was called (plus rare, explicitly
//! chosen spurious polls), so a lost wakeup shows up as a task stuck at quiescence.
//! Time is tokio's paused clock; when nothing is runnable it jumps to the next timer.
use super::case::Case;
use super::rng::Rng;
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

/// Run an async scenario in a fresh single-threaded runtime with a paused clock.
pub fn sim<F: Future>(f: F) -> F::Output {
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .expect("runtime");
    rt.block_on(tokio::task::unconstrained(f))
}

/// Milliseconds of virtual time since `t0`.
pub fn ms_since(t0: tokio::time::Instant) -> u64 {
    t0.elapsed().as_millis() as u64
}

pub async fn advance(ms: u64) {
    tokio::time::advance(Duration::from_millis(ms)).await;
}

/// Let tasks spawned on the runtime run until they are idle (no time passes).
pub async fn settle() {
    for _ in 0..12 {
        tokio::task::yield_now().await;
    }
}

/// Waker that counts how often it was woken.
#[derive(Default)]
pub struct Flag {
    wakes: AtomicUsize,
}
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.wakes.fetch_add(1, SeqCst);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.wakes.fetch_add(1, SeqCst);
    }
}

/// A caller's task for hand-driven polling.
#[derive(Clone)]
pub struct Tk {
    flag: Arc<Flag>,
}
impl Tk {
    pub fn new() -> Tk {
        Tk {
            flag: Arc::new(Flag::default()),
        }
    }
    /// Poll; the woken flag is cleared first.
    pub fn poll<T>(&self, f: impl FnOnce(&mut Context<'_>) -> Poll<T>) -> Poll<T> {
        self.flag.wakes.store(0, SeqCst);
        let w = Waker::from(self.flag.clone());
        let mut cx = Context::from_waker(&w);
        f(&mut cx)
    }
    pub fn woken(&self) -> bool {
        self.flag.wakes.load(SeqCst) > 0
    }
}

/// A future with its own task, polled by hand.
pub struct Fut<F: Future> {
    pub fut: Pin<Box<F>>,
    pub tk: Tk,
    pub polled: bool,
    pub done: bool,
}
impl<F: Future> Fut<F> {
    pub fn new(f: F) -> Self {
        Fut {
            fut: Box::pin(f),
            tk: Tk::new(),
            polled: false,
            done: false,
        }
    }
    pub fn poll(&mut self) -> Poll<F::Output> {
        self.polled = true;
        let fut = self.fut.as_mut();
        let r = self.tk.poll(|cx| fut.poll(cx));
        if r.is_ready() {
            self.done = true;
        }
        r
    }
    /// Poll only if this is the first time or the task was woken (what an executor would do).
    pub fn poll_if_woken(&mut self) -> Poll<F::Output> {
        if self.done || (self.polled && !self.tk.woken()) {
            return Poll::Pending;
        }
        self.poll()
    }
}

struct TaskFlag {
    woken: AtomicBool,
    wakes: AtomicUsize,
    root: Arc<Mutex<Option<Waker>>>,
}
impl Wake for TaskFlag {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.wakes.fetch_add(1, SeqCst);
        if !self.woken.swap(true, SeqCst) {
            let root = self.root.lock().unwrap().clone();
            if let Some(w) = root {
                w.wake();
            }
        }
    }
}

type Local = Pin<Box<dyn Future<Output = ()>>>;

struct Slot {
    name: String,
    fut: Option<Local>,
    flag: Arc<TaskFlag>,
    daemon: bool,
    live: bool,
}

struct SchedInner {
    slots: Vec<Slot>,
    root: Arc<Mutex<Option<Waker>>>,
    rng: Rng,
    spurious_pct: u64,
    yield_pct: u64,
    polls: u64,
}

/// Randomised strict scheduler for the tasks of one case.
#[derive(Clone)]
pub struct Sched(Rc<RefCell<SchedInner>>);

impl Sched {
    pub fn new(c: &Case) -> Sched {
        Sched(Rc::new(RefCell::new(SchedInner {
            slots: Vec::new(),
            root: Arc::new(Mutex::new(None)),
            spurious_pct: *c.rng.pick(&[0, 0, 5, 20]),
            yield_pct: *c.rng.pick(&[0, 10, 40]),
            rng: c.rng.fork(),
            polls: 0,
        })))
    }
    pub fn spawn(&self, name: impl Into<String>, f: impl Future<Output = ()> + 'static) -> usize {
        self.add(name.into(), Box::pin(f), false)
    }
    /// A task that need not finish.
    pub fn daemon(&self, name: impl Into<String>, f: impl Future<Output = ()> + 'static) -> usize {
        self.add(name.into(), Box::pin(f), true)
    }
    fn add(&self, name: String, fut: Local, daemon: bool) -> usize {
        let mut i = self.0.borrow_mut();
        let flag = Arc::new(TaskFlag {
            woken: AtomicBool::new(true),
            wakes: AtomicUsize::new(0),
            root: i.root.clone(),
        });
        i.slots.push(Slot {
            name,
            fut: Some(fut),
            flag,
            daemon,
            live: true,
        });
        let w = i.root.lock().unwrap().clone();
        if let Some(w) = w {
            w.wake();
        }
        i.slots.len() - 1
    }
    /// Drop a task's future where it stands.
    pub fn abort(&self, id: usize) -> bool {
        let f = {
            let mut i = self.0.borrow_mut();
            let s = &mut i.slots[id];
            s.live = false;
            s.fut.take()
        };
        f.is_some()
    }
    pub fn finished(&self, id: usize) -> bool {
        !self.0.borrow().slots[id].live
    }
    pub fn polls(&self) -> u64 {
        self.0.borrow().polls
    }
    /// Run until every non-daemon task finished or nothing can make progress any more within
    /// `horizon` of virtual time. Returns the names of unfinished non-daemon tasks.
    pub async fn run(&self, horizon: Duration) -> Vec<String> {
        let mut limit = Box::pin(tokio::time::sleep(horizon));
        let mut idle_polls = 0u32;
        std::future::poll_fn(|cx| {
            *self.0.borrow().root.lock().unwrap() = Some(cx.waker().clone());
            if limit.as_mut().poll(cx).is_ready() {
                return Poll::Ready(());
            }
            loop {
                // choose
                let (id, mut fut, flag) = {
                    let mut i = self.0.borrow_mut();
                    if i.slots.iter().all(|s| s.daemon || !s.live) {
                        return Poll::Ready(());
                    }
                    let woken: Vec<usize> = (0..i.slots.len())
                        .filter(|&k| i.slots[k].live && i.slots[k].flag.woken.load(SeqCst))
                        .collect();
                    let id = if woken.is_empty() {
                        return Poll::Pending;
                    } else {
                        let live: Vec<usize> =
                            (0..i.slots.len()).filter(|&k| i.slots[k].live).collect();
                        let sp = i.spurious_pct;
                        if sp > 0 && i.rng.pct(sp) {
                            *i.rng.pick(&live)
                        } else {
                            *i.rng.pick(&woken)
                        }
                    };
                    i.polls += 1;
                    let s = &mut i.slots[id];
                    s.flag.woken.store(false, SeqCst);
                    match s.fut.take() {
                        Some(f) => (id, f, s.flag.clone()),
                        None => continue,
                    }
                };
                let w = Waker::from(flag);
                let mut tcx = Context::from_waker(&w);
                let r = fut.as_mut().poll(&mut tcx);
                let mut dead = None;
                {
                    let mut i = self.0.borrow_mut();
                    let s = &mut i.slots[id];
                    if r.is_ready() || !s.live {
                        s.live = false;
                        dead = Some(fut);
                    } else {
                        s.fut = Some(fut);
                    }
                }
                drop(dead);
                idle_polls += 1;
                if idle_polls > 200_000 {
                    // livelock: tasks keep waking themselves
                    return Poll::Ready(());
                }
                let i = self.0.borrow();
                if i.yield_pct > 0 && i.rng.pct(i.yield_pct) {
                    cx.waker().wake_by_ref();
                    return Poll::Pending;
                }
            }
        })
        .await;
        let i = self.0.borrow();
        *i.root.lock().unwrap() = None;
        i.slots
            .iter()
            .filter(|s| s.live && !s.daemon)
            .map(|s| s.name.clone())
            .collect()
    }
    /// Drop all remaining tasks.
    pub fn clear(&self) {
        let futs: Vec<Local> = {
            let mut i = self.0.borrow_mut();
            i.slots
                .iter_mut()
                .filter_map(|s| {
                    s.live = false;
                    s.fut.take()
                })
                .collect()
        };
        drop(futs);
    }
}

pub async fn sleep_ms(ms: u64) {
    if ms > 0 {
        tokio::time::sleep(Duration::from_millis(ms)).await
    } else {
        let mut done = false;
        std::future::poll_fn(move |cx| {
            if done {
                Poll::Ready(())
            } else {
                done = true;
                cx.waker().wake_by_ref();
                Poll::Pending
            }
        })
        .await
    }
}
