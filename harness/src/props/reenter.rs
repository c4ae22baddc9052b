//! P32: user code run by tower may use tower.
use super::panics::{at_rest, judge, over, Cl, Hub, Leaf, Rq, Rs, KINDS};
use crate::kit::*;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex, Weak};
use std::task::{Context, Poll, Wake, Waker};
use tower::Service;

pub fn p32() -> Prop {
    Prop {
        id: "P32",
        rule: "user code of every kind (readiness checks, calls, futures, clones and drops of the wrapped service, of requests, answers and futures, policies, predicates, pickers, mappings, hooks, wakers) that uses the same stack again while tower runs it: clones it, asks for readiness, makes requests, polls or drops responses of other requests, drops clones, runs or drops the woken task at once; non-trivial: user code did so at least five times and requests were answered",
        assumptions: &["a task is not polled again while it is being polled"],
        scenarios: vec![
            Scenario::new("stacks", 2500, stacks),
            Scenario::new("mocks", 4000, mocks),
            Scenario::new("parts", 3000, parts),
            Scenario::threaded("mock_locks", 1, mock_locks),
        ],
    }
}

type Job = Pin<Box<dyn Future<Output = ()> + Send>>;

/// An executor whose wakers run the task at once.
struct Exec {
    owned: Mutex<Vec<Arc<Task>>>,
    /// how many tasks were started, and finished or were dropped as told
    started: AtomicU64,
    ended: Arc<AtomicU64>,
    /// wakers drop the task instead of running it
    down: Arc<AtomicBool>,
    keep: bool,
    inline: Arc<AtomicU64>,
    /// woken tasks are run by `drain`, not by their wakers
    later: Option<Queue>,
}
type Queue = Arc<Mutex<std::collections::VecDeque<Arc<Task>>>>;
struct Task {
    job: Mutex<Option<Job>>,
    running: AtomicBool,
    again: AtomicBool,
    down: Arc<AtomicBool>,
    /// the task went while nobody had finished it
    ended: Arc<AtomicU64>,
    inline: Arc<AtomicU64>,
    later: Option<Queue>,
}
impl Task {
    fn woken(self: &Arc<Self>) {
        self.inline.fetch_add(1, SeqCst);
        match &self.later {
            Some(q) => q.lock().unwrap().push_back(self.clone()),
            None => self.run(),
        }
    }
    fn run(self: &Arc<Self>) {
        self.again.store(true, SeqCst);
        if self.running.swap(true, SeqCst) {
            return;
        }
        while self.again.swap(false, SeqCst) {
            let job = self.job.lock().unwrap().take();
            let Some(mut job) = job else { break };
            if self.down.load(SeqCst) {
                self.ended.fetch_add(1, SeqCst);
                drop(job);
                break;
            }
            let w = Waker::from(self.clone());
            match job.as_mut().poll(&mut Context::from_waker(&w)) {
                Poll::Ready(()) => {
                    self.ended.fetch_add(1, SeqCst);
                    drop(job);
                    break;
                }
                Poll::Pending => *self.job.lock().unwrap() = Some(job),
            }
        }
        self.running.store(false, SeqCst);
    }
}
impl Wake for Task {
    fn wake(self: Arc<Self>) {
        self.woken()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.woken()
    }
}
impl Exec {
    /// With `keep`, the executor has a handle of each task; else only the wakers have.
    fn new(keep: bool) -> Arc<Exec> {
        Arc::new(Exec {
            owned: Default::default(),
            started: Default::default(),
            ended: Default::default(),
            down: Default::default(),
            keep,
            inline: Default::default(),
            later: None,
        })
    }
    fn patient(keep: bool) -> Exec {
        let x = Exec::new(keep);
        Exec { later: Some(Default::default()), ..Arc::into_inner(x).unwrap() }
    }
    fn drain(&self) {
        let Some(q) = &self.later else { return };
        loop {
            let t = q.lock().unwrap().pop_front();
            let Some(t) = t else { break };
            t.run();
        }
    }
    fn spawn(&self, job: Job) {
        let t = Arc::new(Task {
            job: Mutex::new(Some(job)),
            running: Default::default(),
            again: Default::default(),
            down: self.down.clone(),
            ended: self.ended.clone(),
            inline: self.inline.clone(),
            later: self.later.clone(),
        });
        self.started.fetch_add(1, SeqCst);
        if self.keep {
            self.owned.lock().unwrap().push(t.clone());
        }
        t.run();
    }
    fn left(&self) -> u64 {
        self.started.load(SeqCst) - self.ended.load(SeqCst)
    }
    fn spurious(&self, r: &Rng) {
        let t = {
            let o = self.owned.lock().unwrap();
            (!o.is_empty()).then(|| o[r.us(o.len())].clone())
        };
        if let Some(t) = t {
            t.run();
        }
    }
}

thread_local!(static DEPTH: Cell<u32> = const { Cell::new(0) });
fn deeper(f: impl FnOnce()) {
    if DEPTH.get() >= 2 || std::thread::panicking() {
        return;
    }
    DEPTH.set(DEPTH.get() + 1);
    f();
    DEPTH.set(DEPTH.get() - 1);
}

type Got = Pin<Box<dyn Future<Output = Result<Rs, BoxError>> + Send>>;
/// What user code has at hand.
struct World {
    h: Hub,
    base: Mutex<Option<Cl>>,
    spare: Mutex<Vec<Cl>>,
    bag: Mutex<Vec<(u64, Got)>>,
    next: AtomicU64,
    acts: AtomicU64,
    polled: AtomicU64,
    answered: AtomicU64,
    driver: Mutex<Option<Waker>>,
    closing: AtomicBool,
    share: u64,
    exec: Option<Arc<Exec>>,
    /// requests may fail (too late, too many)
    lenient: bool,
}
impl World {
    fn clone_base(&self) -> Option<Cl> {
        let b = self.base.lock().unwrap().take()?;
        let c = b.clone();
        *self.base.lock().unwrap() = Some(b);
        Some(c)
    }
    fn call_driver(&self) {
        let w = self.driver.lock().unwrap().take();
        if let Some(w) = w {
            w.wake();
        }
    }
    fn take(&self) -> Option<(u64, Got)> {
        let mut b = self.bag.lock().unwrap();
        let n = b.len();
        (n > 0).then(|| b.swap_remove(self.h.r.us(n)))
    }
    fn answered(&self, id: u64, x: Result<Rs, BoxError>) {
        self.answered.fetch_add(1, SeqCst);
        let lenient = self.lenient || self.h.i.lock().unwrap().failing;
        judge(&self.h, id, None, &Ok(x), lenient, false);
    }
    /// Some use of the stack.
    fn act(&self, at: &'static str) {
        let r = &self.h.r;
        let k = r.below(8);
        ev!(self.h.c, "  during {}: action {}", at, k);
        self.acts.fetch_add(1, SeqCst);
        match k {
            0 => drop(self.clone_base()),
            1 => {
                let x = self.clone_base();
                if let Some(x) = x {
                    self.spare.lock().unwrap().push(x);
                }
            }
            2 => {
                let x = self.spare.lock().unwrap().pop();
                drop(x);
            }
            3 | 4 => {
                let Some(mut s) = self.clone_base() else { return };
                let tk = Tk::new();
                match tk.poll(|cx| s.poll_ready(cx)) {
                    Poll::Pending => {}
                    Poll::Ready(Err(_)) if self.h.i.lock().unwrap().failing => {}
                    Poll::Ready(Err(e)) => self.h.c.fail(format!("asked for readiness during {}: {}", at, e)),
                    Poll::Ready(Ok(())) if k == 3 || self.closing.load(SeqCst) => {}
                    Poll::Ready(Ok(())) => {
                        let id = self.next.fetch_add(1, SeqCst);
                        let mut f: Got = s.call(self.h.rq(id, None));
                        ev!(self.h.c, "  request {} made", id);
                        if r.pct(50) {
                            if let Poll::Ready(x) = tk.poll(|cx| f.as_mut().poll(cx)) {
                                return self.answered(id, x);
                            }
                        }
                        self.bag.lock().unwrap().push((id, f));
                        self.call_driver();
                    }
                }
            }
            5 | 6 => {
                let Some((id, mut f)) = self.take() else { return };
                self.polled.fetch_add(1, SeqCst);
                match Tk::new().poll(|cx| f.as_mut().poll(cx)) {
                    Poll::Ready(x) => {
                        self.answered(id, x);
                        self.call_driver();
                    }
                    Poll::Pending => {
                        self.bag.lock().unwrap().push((id, f));
                        self.call_driver();
                    }
                }
            }
            _ => match (&self.exec, r.pct(50)) {
                (Some(x), true) => x.spurious(r),
                _ => {
                    let x = self.take();
                    drop(x);
                    self.call_driver();
                }
            },
        }
    }
    /// Finishes what was started inside.
    async fn drive(self: Arc<Self>) {
        std::future::poll_fn(move |cx| {
            loop {
                *self.driver.lock().unwrap() = Some(cx.waker().clone());
                let all = std::mem::take(&mut *self.bag.lock().unwrap());
                let mut fresh = false;
                for (id, mut f) in all {
                    match f.as_mut().poll(cx) {
                        Poll::Ready(x) => {
                            fresh = true;
                            self.answered(id, x)
                        }
                        Poll::Pending => self.bag.lock().unwrap().push((id, f)),
                    }
                }
                if !fresh {
                    break;
                }
            }
            if self.closing.load(SeqCst) && self.bag.lock().unwrap().is_empty() {
                return Poll::Ready(());
            }
            Poll::Pending
        })
        .await
    }
}

fn stacks(c: &Case) {
    sim(async {
        let r = c.rng.fork();
        let inline = r.pct(60);
        let exec = Exec::new(r.pct(60));
        let wexec = Exec::new(r.pct(60));
        let mut h = Hub::new(c);
        h.drops = true;
        if inline {
            let e = wexec.clone();
            h.spawn = Some(Arc::new(move |f| e.spawn(f)));
        }
        // the workers are kept by their executor or by their wakers
        let (mut names, mut lenient) = (vec![], false);
        let mut s = Cl::new(h.lazy_leaf(r.pct(50)));
        for _ in 0..r.range(1, 4) {
            let k = r.below(KINDS + 5);
            let k = if k > KINDS { 99 + k - KINDS } else { k };
            lenient |= k == 101 || k == 102;
            s = over(k, s, &h, &mut names);
        }
        names.reverse();
        let name = names.join(" over ");
        ev!(c, "{} ({})", name, if inline { "wakers run the task" } else { "scheduled" });
        let w = Arc::new(World {
            h: h.clone(),
            base: Mutex::new(Some(s.clone())),
            spare: Default::default(),
            bag: Default::default(),
            next: AtomicU64::new(1_000_000),
            acts: Default::default(),
            polled: Default::default(),
            answered: Default::default(),
            driver: Default::default(),
            closing: Default::default(),
            share: *r.pick(&[2u64, 10, 30]),
            exec: inline.then(|| exec.clone()),
            lenient,
        });
        let w2: Weak<World> = Arc::downgrade(&w);
        h.set_hook(Box::new(move |_, at| {
            deeper(|| {
                let Some(w) = w2.upgrade() else { return };
                if w.h.r.pct(w.share) {
                    w.act(at.name());
                }
            })
        }));
        let sc = Sched::new(c);
        let next = Arc::new(AtomicU64::new(1));
        // the wrapped service may fail for good (a balancer would wait for others)
        if r.pct(25) && !name.contains("balance") {
            let (h, ms) = (h.clone(), r.below(12));
            tokio::spawn(async move {
                tokio::time::sleep(Duration::from_millis(ms)).await;
                ev!(h.c, "the wrapped service is out of service");
                h.i.lock().unwrap().failing = true;
            });
        }
        let (mut callers, mut asked) = (vec![], 0);
        for _ in 0..r.range(1, 4) {
            let n = r.range(1, 6);
            asked += n;
            let (h, r, next, mut s, w) = (h.clone(), r.fork(), next.clone(), s.clone(), w.clone());
            let f: Job = Box::pin(async move {
                for _ in 0..n {
                    let id = next.fetch_add(1, SeqCst);
                    let q = h.rq(id, None);
                    let x = async {
                        std::future::poll_fn(|cx| s.poll_ready(cx)).await?;
                        s.call(q).await
                    }
                    .await;
                    ev!(h.c, "request {}: {}", id, if x.is_ok() { "answered" } else { "failed" });
                    w.answered(id, x);
                    if r.pct(30) {
                        tokio::time::sleep(Duration::from_millis(r.below(4))).await;
                    }
                }
            });
            callers.push(f);
        }
        drop(s);
        if inline {
            exec.spawn(Box::pin(w.clone().drive()));
            for f in callers {
                exec.spawn(f);
                if r.pct(50) {
                    settle().await;
                }
            }
            let mut left = u64::MAX;
            for _ in 0..4000 {
                settle().await;
                left = exec.left();
                if left == 1 {
                    break;
                }
                advance(r.range(1, 3)).await;
            }
            chk!(c, left == 1, "{}: {} of the callers wait for ever", name, left as i64 - 1);
        } else {
            sc.daemon("driver", w.clone().drive());
            for (k, f) in callers.into_iter().enumerate() {
                sc.spawn(format!("caller {}", k), f);
            }
            let left = sc.run(Duration::from_secs(50_000)).await;
            chk!(c, left.is_empty(), "{}: {:?} wait for ever", name, left);
        }
        w.closing.store(true, SeqCst);
        w.call_driver();
        if inline {
            for _ in 0..2000 {
                settle().await;
                if exec.left() == 0 {
                    break;
                }
                advance(r.range(1, 3)).await;
            }
            chk!(c, exec.left() == 0, "{}: requests made by user code wait for ever", name);
        } else {
            sc.clear();
            sc.spawn("driver", w.clone().drive());
            let left = sc.run(Duration::from_secs(50_000)).await;
            chk!(c, left.is_empty(), "{}: requests made by user code wait for ever: {:?}", name, left);
            chk!(c, w.bag.lock().unwrap().is_empty(), "{}: requests made by user code wait for ever", name);
        }
        let (acts, ans) = (w.acts.load(SeqCst), w.answered.load(SeqCst));
        chk!(c, ans >= asked, "{}: {} of {} requests were answered", name, ans, asked);
        c.count("uses from inside", acts);
        c.count("responses polled from inside", w.polled.load(SeqCst));
        c.count("tasks run by their waker", exec.inline.load(SeqCst));
        if acts >= 5 && ans > 0 {
            c.nontrivial();
        }
        // all goes
        for _ in 0..4 {
            let x = w.base.lock().unwrap().take();
            drop(x);
            let x = std::mem::take(&mut *w.spare.lock().unwrap());
            drop(x);
            let x = std::mem::take(&mut *w.bag.lock().unwrap());
            drop(x);
            sc.clear();
            settle().await;
            advance(10).await;
            settle().await;
        }
        drop(w);
        settle().await;
        chk!(c, wexec.left() == 0, "{}: {} workers are alive at the end", name, wexec.left());
        wexec.owned.lock().unwrap().clear();
        exec.owned.lock().unwrap().clear();
        at_rest(&h, &name);
    });
}

// ---- mocks, whose handles are used by tests in every way ----

type Mk = tower_test::mock::Mock<Rq, Rs>;
type Hd = tower_test::mock::Handle<Rq, Rs>;

fn mocks(c: &Case) {
    sim(async {
        let r = c.rng.fork();
        let h = Hub::new(c);
        let exec = Exec::patient(r.pct(50));
        let (mock, handle): (Mk, Hd) = tower_test::mock::pair();
        let base = Arc::new(Mutex::new(Some(mock)));
        let b2 = Arc::downgrade(&base);
        let (r2, acts) = (r.fork(), Arc::new(AtomicU64::new(0)));
        let (a2, c2) = (acts.clone(), c.clone());
        // requests, answers and errors that use the mock when they go
        h.set_hook(Box::new(move |id, at| {
            deeper(|| {
                let Some(b) = b2.upgrade() else { return };
                if !r2.pct(30) {
                    return;
                }
                let m = b.lock().unwrap().take();
                let Some(m) = m else { return };
                a2.fetch_add(1, SeqCst);
                ev!(c2, "  request {}, {}: uses the mock", id, at.name());
                let mut x = m.clone();
                if r2.pct(50) {
                    let _ = Tk::new().poll(|cx| x.poll_ready(cx).map(|_| ()));
                }
                drop(x);
                *b.lock().unwrap() = Some(m);
            })
        }));
        let served = Arc::new(Mutex::new(BTreeMap::<u64, bool>::new()));
        let failed = Arc::new(AtomicU64::new(0));
        let mut id = 0;
        let mut callers = vec![];
        for _ in 0..r.range(1, 5) {
            let n = r.range(1, 5);
            let ids: Vec<u64> = (id + 1..=id + n).collect();
            id += n;
            let mut m = base.lock().unwrap().as_ref().unwrap().clone();
            let (h, served, failed) = (h.clone(), served.clone(), failed.clone());
            let f: Job = Box::pin(async move {
                for id in ids {
                    let q = h.rq(id, None);
                    let x = async {
                        std::future::poll_fn(|cx| m.poll_ready(cx)).await?;
                        ev!(h.c, "call {}", id);
                        m.call(q).await
                    }
                    .await;
                    match x {
                        Ok(x) => {
                            chk!(h.c, x.id == id, "request {} got the answer to {}", id, x.id);
                            served.lock().unwrap().insert(id, true);
                        }
                        Err(e) => {
                            ev!(h.c, "request {}: {}", id, e);
                            failed.fetch_add(1, SeqCst);
                            served.lock().unwrap().insert(id, false);
                        }
                    }
                }
            });
            callers.push(f);
        }
        let all = id;
        let tasks = callers.len() as u64;
        let auto = r.pct(50);
        let mut handle = Some(handle);
        let mut pend = vec![];
        let mut errors = 0;
        if auto {
            // the handle's task runs when a request comes in, and allows and answers at once
            let mut hd = handle.take().unwrap();
            let (h2, r2) = (h.clone(), r.fork());
            let answers = all;
            exec.spawn(Box::pin(async move {
                hd.allow(r2.range(1, 3));
                let mut kept: Vec<(Rq, tower_test::mock::SendResponse<Rs>)> = vec![];
                for _ in 0..answers {
                    let x = match hd.poll_request() {
                        Poll::Ready(x) => x,
                        Poll::Pending => {
                            for (q, tx) in kept.drain(..) {
                                tx.send_response(h2.rs(q.id));
                            }
                            hd.next_request().await
                        }
                    };
                    let Some((q, tx)) = x else { break };
                    ev!(h2.c, "got {}", q.id);
                    if r2.pct(60) {
                        hd.allow(r2.range(1, 3));
                    }
                    if r2.pct(30) {
                        kept.push((q, tx));
                    } else {
                        tx.send_response(h2.rs(q.id));
                    }
                    if r2.pct(60) || kept.len() > 1 {
                        for (q, tx) in kept.drain(..) {
                            tx.send_response(h2.rs(q.id));
                        }
                    }
                    hd.allow(r2.range(1, 3));
                }
                for (q, tx) in kept.drain(..) {
                    tx.send_response(h2.rs(q.id));
                }
            }));
        }
        for f in callers {
            exec.spawn(f);
        }
        // the same by hand
        let (mut allowed, mut got) = (u64::MAX, 0u64);
        let down_at = if r.pct(15) { r.range(1, 20) } else { u64::MAX };
        for step in 0..60 {
            if r.pct(70) {
                exec.drain();
            }
            if step == down_at {
                ev!(c, "the executor stops: its wakers drop the tasks");
                exec.down.store(true, SeqCst);
            }
            if let Some(hd) = &mut handle {
                match r.below(7) {
                    0 | 1 => {
                        let n = r.below(4);
                        ev!(c, "allow {}", n);
                        allowed = n;
                        got = 0;
                        // what was called before is not part of this
                        while let Poll::Ready(Some(x)) = hd.poll_request() {
                            pend.push(x);
                        }
                        hd.allow(n);
                    }
                    2 | 3 => {
                        while let Poll::Ready(Some(x)) = hd.poll_request() {
                            got += 1;
                            ev!(c, "got {}", x.0.id);
                            pend.push(x);
                        }
                        chk!(c, got <= allowed, "{} requests came with {} allowed", got, allowed);
                    }
                    4 | 5 if !pend.is_empty() => {
                        let (q, tx) = pend.swap_remove(r.us(pend.len()));
                        match r.below(8) {
                            0 => {
                                errors += 1;
                                tx.send_error("refused")
                            }
                            1 => {
                                errors += 1;
                                drop(tx)
                            }
                            _ => tx.send_response(h.rs(q.id)),
                        }
                    }
                    6 if r.pct(10) => {
                        errors += 1;
                        ev!(c, "error for the next readiness check");
                        hd.send_error("not today");
                    }
                    6 if r.pct(8) => {
                        ev!(c, "the handle goes");
                        errors += 1000;
                        handle = None;
                    }
                    _ => settle().await,
                }
            } else {
                settle().await;
                if pend.is_empty() {
                    break;
                }
                let (q, tx) = pend.pop().unwrap();
                tx.send_response(h.rs(q.id));
            }
        }
        // to the end
        for (q, tx) in pend.drain(..) {
            tx.send_response(h.rs(q.id));
        }
        if let Some(hd) = &mut handle {
            for _ in 0..2 * all + 4 {
                hd.allow(3);
                while let Poll::Ready(Some(x)) = hd.poll_request() {
                    pend.push(x);
                }
                for (q, tx) in pend.drain(..) {
                    tx.send_response(h.rs(q.id));
                }
                exec.drain();
                settle().await;
            }
        }
        exec.drain();
        if exec.down.load(SeqCst) {
            // the tasks that were never woken since
            exec.owned.lock().unwrap().clear();
        } else {
            let n = exec.left();
            chk!(c, n == 0, "{} of {} tasks wait for ever", n, tasks + auto as u64);
            let served = served.lock().unwrap();
            chk!(c, served.len() as u64 == all, "{} of {} requests came to an end", served.len(), all);
            let f = failed.load(SeqCst);
            chk!(c, f <= errors, "{} requests failed, {} errors were given", f, errors);
            if exec.inline.load(SeqCst) >= 3 && served.values().any(|x| *x) {
                c.nontrivial();
            }
        }
        c.count("tasks woken by a mock", exec.inline.load(SeqCst));
        c.count("uses from inside", acts.load(SeqCst));
        drop(handle);
        drop(pend);
        let x = base.lock().unwrap().take();
        drop(x);
        settle().await;
        if !exec.down.load(SeqCst) {
            at_rest(&h, "mock");
        }
    });
}

/// What a mock's or handle's lock is held for while user code runs: seen by a use of the mock
/// from another thread that does not get through.
fn mock_locks(c: &Case) {
    use std::sync::mpsc::{channel, Sender};
    type Bell = Arc<Mutex<Option<Box<dyn FnOnce() + Send>>>>;
    /// Rings when it is woken or goes.
    struct Ring(Bell, bool);
    fn ring(b: &Bell) {
        let f = b.lock().unwrap().take();
        if let Some(f) = f {
            f();
        }
    }
    impl Wake for Ring {
        fn wake(self: Arc<Self>) {
            if self.1 {
                ring(&self.0);
            }
        }
    }
    impl Drop for Ring {
        fn drop(&mut self) {
            if !self.1 {
                ring(&self.0);
            }
        }
    }
    struct Err2(#[allow(dead_code)] Ring);
    impl std::fmt::Debug for Err2 {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("error")
        }
    }
    impl std::fmt::Display for Err2 {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("error")
        }
    }
    impl std::error::Error for Err2 {}
    type M = tower_test::mock::Mock<u64, u64>;
    fn site(k: usize, out: Sender<(usize, bool)>) {
        let (mock, mut handle): (M, tower_test::mock::Handle<u64, u64>) = tower_test::mock::pair();
        let other = Arc::new(mock.clone());
        let mut m = mock;
        let (o2, tell) = (other.clone(), out.clone());
        let bell: Bell = Arc::new(Mutex::new(Some(Box::new(move || {
            let (a, b) = channel();
            std::thread::spawn(move || {
                let _ = a.send(());
                drop((*o2).clone());
                let _ = a.send(());
            });
            let _ = b.recv();
            let _ = tell.send((k, b.recv_timeout(Duration::from_secs(4)).is_ok()));
        }))));
        // a waker that rings when woken, or when dropped
        let w = |woken| Waker::from(Arc::new(Ring(bell.clone(), woken)));
        let plain = || Waker::from(Arc::new(Ring(Default::default(), true)));
        handle.allow(0);
        let wait = |m: &mut M, w: Waker| m.poll_ready(&mut Context::from_waker(&w)).is_pending();
        match k {
            0 => {
                wait(&mut m, w(true));
                handle.allow(1);
            }
            1 => {
                wait(&mut m, w(true));
                handle.send_error("e");
            }
            2 => {
                wait(&mut m, w(true));
                drop(handle);
            }
            3 => {
                wait(&mut m, w(false));
                wait(&mut m, plain());
            }
            4 => {
                wait(&mut m, w(false));
                drop(m);
            }
            5 => {
                handle.send_error(Err2(Ring(bell.clone(), false)));
                handle.send_error("f");
            }
            6 => {
                handle.allow(1);
                let w = w(true);
                let mut next = Box::pin(handle.next_request());
                let _ = next.as_mut().poll(&mut Context::from_waker(&w));
                wait(&mut m, plain());
                drop(m.call(1));
            }
            _ => {
                handle.allow(1);
                wait(&mut m, plain());
                let mut f = Box::pin(m.call(1));
                let w = w(true);
                let _ = f.as_mut().poll(&mut Context::from_waker(&w));
                if let Poll::Ready(Some((_, tx))) = handle.poll_request() {
                    match k {
                        7 => tx.send_response(1),
                        8 => tx.send_error("e"),
                        _ => drop(tx),
                    }
                }
            }
        }
        drop(bell);
        let _ = out;
    }
    const NAMES: [&str; 10] = [
        "Handle::allow (waker)",
        "Handle::send_error (waker)",
        "the drop of the handle (waker)",
        "poll_ready (a replaced waker)",
        "the drop of a mock (its waker)",
        "Handle::send_error (a replaced error)",
        "call (the handle's waker)",
        "send_response (waker)",
        "SendResponse::send_error (waker)",
        "the drop of a responder (waker)",
    ];
    let (tx, rx) = channel();
    let threads: Vec<_> = (0..NAMES.len())
        .map(|k| {
            let tx = tx.clone();
            std::thread::spawn(move || site(k, tx))
        })
        .collect();
    drop(tx);
    let mut free: BTreeMap<usize, bool> = BTreeMap::new();
    while let Ok((k, x)) = rx.recv_timeout(Duration::from_secs(30)) {
        free.insert(k, x);
    }
    for t in threads {
        let _ = t.join();
    }
    for (k, n) in NAMES.iter().enumerate() {
        ev!(c, "{}: {:?}", n, free.get(&k));
        chk!(c, free.contains_key(&k), "the user's code was not run in {}", n);
    }
    let held: Vec<&str> = free.iter().filter(|x| !*x.1).map(|x| NAMES[*x.0]).collect();
    chk!(c, held.is_empty(), "a mock's lock is held while user code runs in: {}.", held.join(", "));
    c.fp(held.len() as u64);
    c.nontrivial();
}

// ---- parts that cannot be cloned: what their own futures and services do ----

fn parts(c: &Case) {
    let r = c.rng.fork();
    let k = r.below(4);
    c.fp(k);
    sim(async {
        let h = Hub::new(c);
        match k {
            3 => failing_buffer(c, &r).await,
            0 => held(c, &r, &h, "hedge").await,
            1 => held(c, &r, &h, "loads").await,
            _ => budget(c, &r).await,
        }
        settle().await;
        advance(50).await;
        settle().await;
        at_rest(&h, "at last");
    });
}

/// A buffer's service fails, and whoever is woken by that runs at once: all of them see that
/// failure, and see it again.
async fn failing_buffer(c: &Case, r: &Rng) {
    #[derive(Debug)]
    struct Broken(u64);
    impl std::fmt::Display for Broken {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "broken {}", self.0)
        }
    }
    impl std::error::Error for Broken {}
    #[derive(Default)]
    struct Ctl {
        left: u64,
        fail: bool,
        waker: Option<Waker>,
        open: Vec<tokio::sync::oneshot::Sender<()>>,
    }
    struct Sv(Arc<Mutex<Ctl>>, u64);
    impl Service<u64> for Sv {
        type Response = u64;
        type Error = BoxError;
        type Future = Pin<Box<dyn Future<Output = Result<u64, BoxError>> + Send>>;
        fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), BoxError>> {
            let mut i = self.0.lock().unwrap();
            if i.left > 0 {
                return Poll::Ready(Ok(()));
            }
            if i.fail {
                return Poll::Ready(Err(Box::new(Broken(self.1))));
            }
            i.waker = Some(cx.waker().clone());
            Poll::Pending
        }
        fn call(&mut self, q: u64) -> Self::Future {
            let (tx, rx) = tokio::sync::oneshot::channel::<()>();
            let mut i = self.0.lock().unwrap();
            i.left -= 1;
            i.open.push(tx);
            Box::pin(async move {
                let _ = rx.await;
                Ok(q)
            })
        }
    }
    fn verdict(e: &BoxError, which: u64) -> bool {
        let mut x: Option<&(dyn std::error::Error + 'static)> = Some(&**e);
        if !e.is::<tower::buffer::error::ServiceError>() {
            return false;
        }
        while let Some(y) = x {
            if y.downcast_ref::<Broken>().is_some_and(|b| b.0 == which) {
                return true;
            }
            x = y.source();
        }
        false
    }
    ev!(c, "failing buffer");
    let exec = Exec::new(true);
    let ctl: Arc<Mutex<Ctl>> = Default::default();
    let which = r.below(1000);
    let (bound, n) = (r.us(3) + 1, r.range(2, 7));
    let (buf, worker) = tower::buffer::Buffer::pair(Sv(ctl.clone(), which), bound);
    ctl.lock().unwrap().left = r.below(3);
    let first = r.pct(50);
    let mut worker: Option<Job> = Some(Box::pin(worker));
    if first {
        exec.spawn(worker.take().unwrap());
    }
    let counts = Arc::new((AtomicU64::new(0), AtomicU64::new(0)));
    for k in 0..n {
        let mut b = buf.clone();
        let (c, r, counts) = (c.clone(), r.fork(), counts.clone());
        let each = r.range(1, 4);
        exec.spawn(Box::pin(async move {
            let mut failed = 0;
            for j in 0..8u64 {
                let id = k * 100 + j;
                if (j >= each && failed == 0) || failed > 2 {
                    break;
                }
                if r.pct(30) {
                    b = b.clone();
                }
                let x: Result<u64, BoxError> = async {
                    std::future::poll_fn(|cx| b.poll_ready(cx)).await?;
                    b.call(id).await
                }
                .await;
                match x {
                    Ok(x) => {
                        chk!(c, failed == 0 && x == id, "request {} got {} after {} failures", id, x, failed);
                        counts.0.fetch_add(1, SeqCst);
                    }
                    Err(e) => {
                        failed += 1;
                        ev!(c, "request {} fails: {}", id, e);
                        counts.1.fetch_add(1, SeqCst);
                        chk!(c, verdict(&e, which), "request {} fails with {:?}, which is not the failure of the service", id, e);
                    }
                }
            }
        }));
    }
    if let Some(w) = worker.take() {
        exec.spawn(w);
    }
    for _ in 0..r.below(12) {
        match r.below(3) {
            0 => settle().await,
            1 => {
                let x = {
                    let mut i = ctl.lock().unwrap();
                    let n = i.open.len();
                    (n > 0).then(|| i.open.swap_remove(r.us(n)))
                };
                drop(x);
            }
            _ => {
                let w = {
                    let mut i = ctl.lock().unwrap();
                    i.left += r.below(2);
                    i.waker.take()
                };
                if let Some(w) = w {
                    w.wake();
                }
            }
        }
    }
    ev!(c, "the service fails");
    let w = {
        let mut i = ctl.lock().unwrap();
        i.left = 0;
        i.fail = true;
        i.waker.take()
    };
    if let Some(w) = w {
        w.wake();
    }
    settle().await;
    for _ in 0..100 {
        let x = std::mem::take(&mut ctl.lock().unwrap().open);
        if x.is_empty() {
            break;
        }
        drop(x);
        settle().await;
    }
    drop(buf);
    settle().await;
    let left = exec.left();
    chk!(c, left == 0, "{} of {} tasks wait for ever after the failure", left, n + 1);
    let (ok, bad) = (counts.0.load(SeqCst), counts.1.load(SeqCst));
    c.count("tasks run by their waker", exec.inline.load(SeqCst));
    c.fp(ok * 64 + bad);
    if bad >= 3 {
        c.nontrivial();
    }
    exec.owned.lock().unwrap().clear();
}

/// The responses of one service are polled and dropped while it is called.
async fn held(c: &Case, r: &Rng, h: &Hub, what: &str) {
    ev!(c, "{}", what);
    let bag: Arc<Mutex<Vec<(u64, Got)>>> = Default::default();
    let acts = Arc::new(AtomicU64::new(0));
    let answered = Arc::new(AtomicU64::new(0));
    {
        let (bag, r, acts, answered, h2) = (bag.clone(), r.fork(), acts.clone(), answered.clone(), h.clone());
        let share = *r.pick(&[10u64, 40]);
        let weak = Arc::downgrade(&bag);
        drop(bag);
        let c = h2.c.clone();
        h.set_hook(Box::new(move |_, at| {
            deeper(|| {
                let Some(bag) = weak.upgrade() else { return };
                if !r.pct(share) {
                    return;
                }
                let x = {
                    let mut b = bag.lock().unwrap();
                    let n = b.len();
                    (n > 0).then(|| b.swap_remove(r.us(n)))
                };
                let Some((id, mut f)) = x else { return };
                acts.fetch_add(1, SeqCst);
                ev!(c, "  during {}: response {}", at.name(), id);
                if r.pct(30) {
                    return;
                }
                match Tk::new().poll(|cx| f.as_mut().poll(cx)) {
                    Poll::Ready(x) => {
                        answered.fetch_add(1, SeqCst);
                        chk!(c, matches!(&x, Ok(x) if x.id == id), "request {} is answered {:?}", id, x);
                    }
                    Poll::Pending => bag.lock().unwrap().push((id, f)),
                }
            })
        }));
    }
    enum S {
        Hedge(tower::hedge::Hedge<Leaf, super::panics::HPol>),
        Count(tower::load::PendingRequests<Leaf, super::panics::Comp>),
        Peak(tower::load::PeakEwma<Leaf, super::panics::Comp>),
    }
    let mut s = match (what, r.pct(50)) {
        ("hedge", _) => S::Hedge(tower::hedge::Hedge::new_with_mock_latencies(
            h.leaf(),
            super::panics::HPol(h.clone()),
            1,
            0.5,
            Duration::from_secs(100),
            &[1, 1, 2],
        )),
        (_, true) => S::Count(tower::load::PendingRequests::new(h.leaf(), super::panics::Comp(h.clone()))),
        _ => S::Peak(tower::load::PeakEwma::new(h.leaf(), Duration::from_millis(5), 1e9, super::panics::Comp(h.clone()))),
    };
    let n = r.range(5, 40);
    for id in 1..=n {
        let tk = Tk::new();
        let ready = tk.poll(|cx| match &mut s {
            S::Hedge(s) => s.poll_ready(cx),
            S::Count(s) => s.poll_ready(cx),
            S::Peak(s) => s.poll_ready(cx),
        });
        if !chk!(c, matches!(ready, Poll::Ready(Ok(()))), "the service is not ready") {
            return;
        }
        let q = h.rq(id, None);
        let f: Got = match &mut s {
            S::Hedge(s) => Box::pin(s.call(q)),
            S::Count(s) => Box::pin(s.call(q)),
            S::Peak(s) => Box::pin(s.call(q)),
        };
        bag.lock().unwrap().push((id, f));
        if let (S::Count(s), true) = (&s, true) {
            use tower::load::Load;
            let out = bag.lock().unwrap().len();
            let x = format!("{:?}", s.load());
            chk!(c, x == format!("Count({})", out), "the load is {} with {} requests out", x, out);
        }
        if r.pct(40) {
            advance(r.below(4)).await;
        }
        if r.pct(50) {
            let x = bag.lock().unwrap().pop();
            if let Some((id, mut f)) = x {
                match tk.poll(|cx| f.as_mut().poll(cx)) {
                    Poll::Ready(x) => {
                        answered.fetch_add(1, SeqCst);
                        chk!(c, matches!(&x, Ok(x) if x.id == id), "request {} is answered {:?}", id, x);
                    }
                    Poll::Pending => bag.lock().unwrap().push((id, f)),
                }
            }
        }
    }
    for _ in 0..200 {
        let x = bag.lock().unwrap().pop();
        let Some((id, f)) = x else { break };
        match tokio::time::timeout(Duration::from_secs(50), f).await {
            Ok(x) => {
                answered.fetch_add(1, SeqCst);
                chk!(c, matches!(&x, Ok(x) if x.id == id), "request {} is answered {:?}", id, x);
            }
            Err(_) => c.fail(format!("request {} waits for ever", id)),
        }
    }
    c.count("uses from inside", acts.load(SeqCst));
    if acts.load(SeqCst) >= 5 && answered.load(SeqCst) > 0 {
        c.nontrivial();
    }
}

/// A budget shown while it is used.
async fn budget(c: &Case, r: &Rng) {
    use tower::retry::budget::{Budget, TpsBudget};
    let b = Arc::new(TpsBudget::new(Duration::from_secs(r.range(1, 10)), r.below(3) as u32, *r.pick(&[0.5f32, 1.0, 2.0])));
    struct Shown(Arc<TpsBudget>);
    impl std::fmt::Display for Shown {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            self.0.deposit();
            let x = self.0.withdraw();
            write!(f, "{:?} {}", self.0, x)
        }
    }
    for _ in 0..r.range(5, 40) {
        match r.below(4) {
            0 => b.deposit(),
            1 => {
                let _ = b.withdraw();
            }
            2 => {
                let s = format!("{} {:?}", Shown(b.clone()), b);
                chk!(c, s.contains("Budget"), "the budget is shown as {}", s);
            }
            _ => advance(r.below(2000)).await,
        }
    }
    c.nontrivial();
}
