//! P01, P02, P03: buffer.
use super::concurrency::as_fail;
use crate::kit::run::Planned;
use crate::kit::*;
use std::collections::{HashMap, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use tower::buffer::{
    error::{Closed, ServiceError},
    future::ResponseFuture,
    Buffer, BufferLayer,
};
use tower_layer::Layer;

const ASSUME: &[&str] = &[
    "tokio's channels and clock behave as documented",
    "a woken task is polled again or dropped",
];

pub fn p01() -> Prop {
    Prop {
        id: "P01",
        rule: "seeded random histories of clones, calls, cancellations, inner readiness and worker steps; hand-driven against a queue model, strictly scheduled, or on real threads; non-trivial: at least three requests were dispatched and one was queued behind another or cancelled",
        assumptions: ASSUME,
        scenarios: vec![
            Scenario::new("machine", 5000, |c| machine(c, M_DISPATCH, 0)),
            Scenario::new("machine_spawned", 1500, |c| machine(c, M_DISPATCH, 1)),
            Scenario::new("scheduled", 1500, |c| scheduled(c, M_DISPATCH, false)),
            Scenario::new("large", 25, |c| super::large::buffer(c, super::large::DISPATCH)),
            Scenario::threaded("threads", 8, |c| threads(c, 0)),
        ],
    }
}
pub fn p02() -> Prop {
    Prop {
        id: "P02",
        rule: "the buffer machine with an inner readiness failure, worker drop or worker panic injected at a random step; every outstanding and later operation is then driven to its end; non-trivial: something was queued, waiting or reserved when the fault struck",
        assumptions: ASSUME,
        scenarios: vec![
            Scenario::new("fail", 4000, |c| machine(c, M_FAIL, 2)),
            Scenario::new("worker_drop", 3000, |c| machine(c, M_FAIL, 3)),
            Scenario::new("worker_panic", 3000, |c| machine(c, M_FAIL, 4)),
            Scenario::new("spawned_fail", 1500, |c| machine(c, M_FAIL, 5)),
            Scenario::new("scheduled", 1500, |c| scheduled(c, M_FAIL, true)),
            Scenario::new("large", 25, |c| super::large::buffer(c, super::large::FAULT)),
            Scenario::threaded("threads_fail", 8, |c| threads(c, 1)),
            Scenario::threaded("threads_abort", 8, |c| threads(c, 2)),
            Scenario::threaded("slow_wakers", 14, slow_wakers),
            Scenario::threaded("last_calls", 16, last_calls),
        ],
    }
}
pub fn p03() -> Prop {
    Prop {
        id: "P03",
        rule: "the buffer machine judged on capacity: readiness against an exact count of queued and reserved places, lost wakeups at quiescence, all capacity back at the end; non-trivial: capacity was exhausted, a caller waited and was later admitted",
        assumptions: ASSUME,
        scenarios: vec![
            Scenario::new("machine", 6000, |c| machine(c, M_CAP, 0)),
            Scenario::new("machine_spawned", 1500, |c| machine(c, M_CAP, 1)),
            Scenario::new("scheduled", 1500, |c| scheduled(c, M_CAP, false)),
            Scenario::new("large", 25, |c| super::large::buffer(c, super::large::CAPACITY)),
            Scenario::threaded("threads", 6, |c| threads(c, 0)),
        ],
    }
}

const M_DISPATCH: u8 = 1;
const M_FAIL: u8 = 2;
const M_CAP: u8 = 4;
const ANY: u8 = 7;

struct Mon<'a> {
    c: &'a Case,
    want: u8,
    /// a judgement failed that belongs to another property: stop without a verdict
    off: bool,
}
impl Mon<'_> {
    #[track_caller]
    fn ck(&mut self, tags: u8, ok: bool, msg: impl FnOnce() -> String) {
        if self.off {
            return;
        }
        if tags & self.want != 0 {
            self.c.check(ok, msg);
        } else if !ok {
            self.off = true;
        }
    }
    fn stop(&self) -> bool {
        self.off || self.c.violated()
    }
}

type Svc = Buffer<Req, RespFut>;

struct Cl {
    svc: Option<Svc>,
    tk: Tk,
    ready: bool,
    waiting: bool,
    dead: bool,
}
struct Rq {
    id: u64,
    fut: Option<Fut<ResponseFuture<RespFut>>>,
    cancelled: bool,
    must_not_dispatch: bool,
    /// call index once dispatched
    call: Option<usize>,
    resolved: bool,
    span: Option<u64>,
    /// called after the fault: must fail
    late: bool,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Health {
    Ok,
    Failed,
    Dead,
}

struct St<'a> {
    m: Mon<'a>,
    c: Case,
    w: World,
    n: usize,
    inner: usize,
    worker: Option<std::pin::Pin<Box<dyn std::future::Future<Output = ()>>>>,
    worker_tk: Tk,
    worker_polled: bool,
    worker_done: bool,
    spawned: bool,
    cls: Vec<Cl>,
    rqs: Vec<Rq>,
    queue: VecDeque<usize>,
    held: Option<usize>,
    dispatched: usize,
    health: Health,
    waits: u64,
    admitted: u64,
    overlap: bool,
    /// the spawned worker has been given a reason to run
    spawn_wake: bool,
    spans: Option<tracing::Dispatch>,
    kept_spans: Vec<tracing::Span>,
}

impl St<'_> {
    fn set_gate(&mut self, g: Gate) {
        self.w.gate(self.inner, g);
        self.spawn_wake |= g != Gate::Closed && self.held.is_some();
    }
    fn gate(&self) -> Gate {
        self.w.lock().insts[self.inner].gate
    }
    fn used(&self) -> usize {
        self.queue.len() + self.cls.iter().filter(|x| x.ready).count()
    }
    fn waiting_others(&self, k: usize) -> usize {
        self.cls
            .iter()
            .enumerate()
            .filter(|(i, x)| *i != k && x.waiting && x.svc.is_some())
            .count()
    }
    /// Bring the model forward as the worker is expected to have done, then compare.
    fn model_worker(&mut self) {
        let calls_now = self.w.ncalls();
        loop {
            if self.health != Health::Ok {
                break;
            }
            let next = match self.held.take() {
                Some(h) if !self.rqs[h].cancelled => Some(h),
                _ => {
                    let mut x = None;
                    while let Some(q) = self.queue.pop_front() {
                        if self.rqs[q].cancelled {
                            continue;
                        }
                        x = Some(q);
                        break;
                    }
                    x
                }
            };
            let q = match next {
                Some(q) => q,
                None => break,
            };
            match self.gate() {
                Gate::Open | Gate::Auto => {
                    let k = self.dispatched;
                    let id = self.rqs[q].id;
                    let got = self.w.lock().calls.get(k).map(|x| (x.id, x.span));
                    let sp = self.rqs[q].span;
                    self.m.ck(M_DISPATCH | M_CAP, got.is_some(), || {
                        format!("request {} waits although the inner service is ready and the worker ran", id)
                    });
                    self.m.ck(M_DISPATCH, got.map_or(true, |g| g.0 == id), || {
                        format!("dispatch {} was request {}, expected {} (order of calls)", k, got.unwrap().0, id)
                    });
                    if sp.is_some() {
                        self.m.ck(M_DISPATCH, got.map_or(true, |g| g.1 == sp), || {
                            format!("request {} was dispatched in span {:?}, but called in {:?}", id, got.unwrap().1, sp)
                        });
                    }
                    if self.m.stop() {
                        return;
                    }
                    self.rqs[q].call = Some(k);
                    self.dispatched += 1;
                }
                Gate::Closed => {
                    self.held = Some(q);
                    break;
                }
                Gate::Err => {
                    self.health = Health::Failed;
                    self.held = Some(q);
                }
            }
        }
        let d = self.dispatched;
        let extra = (calls_now > d).then(|| self.w.lock().calls[d].id);
        let health = self.health;
        self.m.ck(
            if health == Health::Ok { M_DISPATCH } else { M_FAIL | M_DISPATCH },
            extra.is_none(),
            || format!("request {} reached the inner service unexpectedly (twice, cancelled, not ready or after a failure: {:?})", extra.unwrap(), health),
        );
    }
    async fn worker_step(&mut self, spurious: bool) {
        if self.spawned {
            settle().await;
            if self.spawn_wake {
                self.spawn_wake = false;
                if self.health == Health::Ok {
                    self.note_panic();
                }
                self.model_worker();
            }
            return;
        }
        if self.worker_done || self.worker.is_none() {
            return;
        }
        if self.worker_polled && !self.worker_tk.woken() && !spurious {
            return;
        }
        self.worker_polled = true;
        ev!(self.c, "worker polled");
        let tk = self.worker_tk.clone();
        let wk = self.worker.as_mut().unwrap();
        // a worker may pause in between and wake itself
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let mut got = tk.poll(|cx| wk.as_mut().poll(cx));
            for _ in 0..1000 {
                if got.is_ready() || !tk.woken() {
                    break;
                }
                got = tk.poll(|cx| wk.as_mut().poll(cx));
            }
            got
        }));
        match r {
            Ok(Poll::Ready(())) => {
                self.worker_done = true;
                self.worker = None;
                ev!(self.c, "worker finished");
            }
            Ok(Poll::Pending) => {}
            Err(p) => {
                if !p.is::<Planned>() {
                    std::panic::resume_unwind(p);
                }
                ev!(self.c, "worker panicked");
                self.note_panic();
                // what a runtime does with a panicked task
                self.worker = None;
                self.worker_done = true;
            }
        }
        self.model_worker();
    }
    /// If the injected panic struck, dispatches before it are as modelled, the rest is dead.
    fn note_panic(&mut self) {
        let armed = self.w.lock().insts[self.inner].panic;
        if armed == 0 {
            return;
        }
        // did the model let the worker reach the inner service?
        let any = self.held.map_or(false, |h| !self.rqs[h].cancelled)
            || self.queue.iter().any(|&q| !self.rqs[q].cancelled);
        let reach = any && (armed == 1 || self.gate() == Gate::Open);
        if reach || self.w.lock().insts[self.inner].dropped {
            self.health = Health::Dead;
        }
    }
    fn poll_client(&mut self, k: usize) {
        let used = self.used();
        let others = self.waiting_others(k);
        let n = self.n;
        let health = self.health;
        let cl = &mut self.cls[k];
        let tk = cl.tk.clone();
        let svc = match cl.svc.as_mut() {
            Some(s) => s,
            None => return,
        };
        let got = tk.poll(|cx| svc.poll_ready(cx));
        ev!(self.c, "client {} poll_ready -> {}", k, match &got { Poll::Ready(Ok(())) => "ready".to_string(), Poll::Ready(Err(e)) => format!("err {}", e), Poll::Pending => "pending".into() });
        let (was_ready, was_waiting) = (cl.ready, cl.waiting);
        match got {
            Poll::Ready(Ok(())) => {
                cl.ready = true;
                cl.waiting = false;
                // one that was told so before the fault may repeat it: its call then fails
                self.m.ck(M_FAIL, health == Health::Ok || was_ready, || {
                    format!("a clone becomes ready although the service is {:?}", health)
                });
                if !was_ready {
                    self.m.ck(M_CAP, used < n, || {
                        format!("a clone became ready although {} of {} places are queued or reserved", used, n)
                    });
                    if was_waiting {
                        self.admitted += 1;
                    }
                }
            }
            Poll::Ready(Err(e)) => {
                cl.dead = true;
                cl.ready = false;
                cl.waiting = false;
                self.check_fault_error(&*e, "readiness");
            }
            Poll::Pending => {
                cl.waiting = true;
                cl.ready = false;
                self.waits += 1;
                self.m.ck(M_FAIL, health == Health::Ok, || {
                    format!("a clone waits for capacity although the service is {:?}", health)
                });
                self.m.ck(M_CAP, !was_ready, || "a ready clone became not ready without being called".into());
                self.m.ck(M_CAP, health != Health::Ok || used + others >= n, || {
                    format!("not ready although only {} of {} places are taken and {} others wait", used, n, others)
                });
            }
        }
    }
    fn check_fault_error(&mut self, e: &(dyn std::error::Error + 'static), what: &str) {
        let health = self.health;
        match health {
            Health::Ok => self.m.ck(ANY, false, || format!("{} failed although the service is healthy: {}", what, e)),
            Health::Failed => {
                let f = find_fail(e);
                let ok = f.as_ref().map_or(false, |f| f.call.is_none()) && has_err::<ServiceError>(e);
                self.m.ck(M_FAIL, ok, || {
                    format!("{} does not carry the inner service's failure: {} (source {:?})", what, e, f)
                });
            }
            Health::Dead => {
                let ok = has_err::<Closed>(e);
                self.m.ck(M_FAIL, ok, || format!("{} is not a closed error: {}", what, e));
            }
        }
    }
    fn call(&mut self, k: usize) {
        let req = self.w.req();
        let id = req.id;
        let mut span = None;
        ev!(self.c, "client {} calls request {}", k, id);
        let svc = self.cls[k].svc.as_mut().unwrap();
        let fut = if let Some(d) = &self.spans {
            tracing::dispatcher::with_default(d, || {
                let s = tracing::info_span!("caller", id);
                let g = s.enter();
                span = s.id().map(|i| i.into_u64());
                let f = svc.call(req);
                drop(g);
                self.kept_spans.push(s);
                f
            })
        } else {
            svc.call(req)
        };
        self.cls[k].ready = false;
        let late = self.health != Health::Ok;
        self.rqs.push(Rq {
            id,
            fut: Some(Fut::new(fut)),
            cancelled: false,
            must_not_dispatch: false,
            call: None,
            resolved: false,
            span,
            late,
        });
        if !late {
            if !self.queue.is_empty() || self.held.is_some() {
                self.overlap = true;
            }
            self.queue.push_back(self.rqs.len() - 1);
            self.spawn_wake |= self.held.is_none();
        }
    }
    fn poll_response(&mut self, q: usize) {
        let done = match self.rqs[q].call {
            Some(k) => self.w.lock().calls[k].set,
            None => None,
        };
        let id = self.rqs[q].id;
        let call = self.rqs[q].call;
        let health = self.health;
        let late = self.rqs[q].late;
        let f = match self.rqs[q].fut.as_mut() {
            Some(f) => f,
            None => return,
        };
        let got = f.poll();
        ev!(self.c, "poll response {} -> {}", id, match &got { Poll::Pending => "pending".to_string(), Poll::Ready(Ok(r)) => format!("{:?}", r), Poll::Ready(Err(e)) => format!("err {}", e) });
        match got {
            Poll::Pending => {
                self.m.ck(M_DISPATCH | M_CAP, done.is_none(), || {
                    format!("request {} got no answer although its inner response is complete", id)
                });
            }
            Poll::Ready(out) => {
                self.rqs[q].resolved = true;
                self.rqs[q].fut = None;
                match (call, out) {
                    (Some(k), Ok(r)) => self.m.ck(M_DISPATCH | M_FAIL, done == Some(true) && r.id == id && r.call == k, || {
                        format!("request {} (call {}) received {:?}", id, k, r)
                    }),
                    (Some(k), Err(e)) => {
                        let f = find_fail(&*e);
                        self.m.ck(M_DISPATCH | M_FAIL, done == Some(false) && f.as_ref().map_or(false, |f| f.call == Some(k) && f.id == id), || {
                            format!("request {} (call {}) received error {} / {:?}", id, k, e, f)
                        })
                    }
                    (None, Ok(r)) => self.m.ck(ANY, false, || format!("request {} was never dispatched but answered {:?}", id, r)),
                    (None, Err(e)) => {
                        if health == Health::Ok {
                            self.m.ck(ANY, false, || format!("request {} failed although the service is healthy: {}", id, e));
                        } else {
                            self.check_fault_error(&*e, if late { "a call after the fault" } else { "a queued request's error" });
                        }
                    }
                }
            }
        }
    }
    fn cancel(&mut self, q: usize) {
        ev!(self.c, "cancel request {}", self.rqs[q].id);
        self.rqs[q].fut = None;
        self.rqs[q].cancelled = true;
        if self.rqs[q].call.is_none() && self.held != Some(q) {
            self.rqs[q].must_not_dispatch = true;
        }
    }
    /// Run everything that is runnable (worker, woken waiters, woken responses).
    async fn drain(&mut self) {
        for _ in 0..200 {
            if self.m.stop() {
                return;
            }
            let mut moved = false;
            if self.spawned || (!self.worker_done && self.worker.is_some() && (!self.worker_polled || self.worker_tk.woken())) {
                let before = self.w.ncalls();
                let was = (self.queue.len(), self.health);
                self.worker_step(false).await;
                moved |= !self.spawned || self.w.ncalls() != before || was != (self.queue.len(), self.health);
            }
            for k in 0..self.cls.len() {
                if self.cls[k].svc.is_some() && self.cls[k].waiting && self.cls[k].tk.woken() {
                    self.poll_client(k);
                    moved = true;
                }
            }
            for q in 0..self.rqs.len() {
                let go = self.rqs[q].fut.as_ref().map_or(false, |f| f.polled && f.tk.woken());
                if go {
                    self.poll_response(q);
                    moved = true;
                }
            }
            if !moved {
                break;
            }
        }
        self.quiescent();
    }
    fn quiescent(&mut self) {
        if self.m.stop() {
            return;
        }
        let used = self.used();
        let n = self.n;
        let waiting: Vec<usize> = (0..self.cls.len())
            .filter(|&k| self.cls[k].svc.is_some() && self.cls[k].waiting)
            .collect();
        match self.health {
            Health::Ok => {
                self.m.ck(M_CAP, waiting.is_empty() || used >= n, || {
                    format!("clients {:?} wait without having been woken although only {} of {} places are taken", waiting, used, n)
                });
                if self.gate() == Gate::Open {
                    let left = self.rqs.iter().filter(|r| r.call.is_none() && !r.cancelled).count();
                    self.m.ck(M_CAP | M_DISPATCH, left == 0, || {
                        format!("{} requests are stuck although the inner service is ready and everything woken was run", left)
                    });
                }
                // answers that are complete must have woken their callers
                for r in &self.rqs {
                    if let (Some(k), Some(f)) = (r.call, r.fut.as_ref()) {
                        let set = self.w.lock().calls[k].set.is_some();
                        let id = r.id;
                        let bad = set && f.polled && !r.resolved;
                        if bad {
                            self.m.ck(M_DISPATCH, false, || format!("request {}: caller not woken for its response", id));
                            return;
                        }
                    }
                }
            }
            h => {
                self.m.ck(M_FAIL, waiting.is_empty(), || {
                    format!("clients {:?} still wait for capacity after the fault ({:?}) and were not woken", waiting, h)
                });
                let hung: Vec<u64> = self
                    .rqs
                    .iter()
                    .filter(|r| r.call.is_none() && r.fut.as_ref().map_or(false, |f| f.polled))
                    .map(|r| r.id)
                    .collect();
                self.m.ck(M_FAIL, hung.is_empty(), || {
                    format!("requests {:?} were never answered nor woken after the fault ({:?})", hung, h)
                });
            }
        }
    }
}

/// mode 0: manual worker, 1: spawned worker, 2: inner failure, 3: worker drop, 4: worker panic,
/// 5: spawned worker with failure or panic
fn machine(c: &Case, want: u8, mode: u8) {
    sim(async {
        let r = c.rng.clone();
        // now and then a crowd: many handles on a large or a small buffer
        let crowd = r.pct(6);
        let n = if crowd {
            *r.pick(&[1usize, 5, 17, 32, 33, 48, 64, 100])
        } else {
            *r.pick(&[1usize, 1, 2, 3, 4, 6])
        };
        let most = if crowd { 120 } else { 10 };
        let w = World::new(c, Plan::manual(if r.pct(50) { Gate::Open } else { Gate::Closed }));
        let spawned = mode == 1 || mode == 5;
        let p = w.svc(0);
        let inner = p.id;
        let (svc, worker): (Svc, Option<std::pin::Pin<Box<dyn std::future::Future<Output = ()>>>>) = if spawned {
            (
                match r.below(3) {
                    0 => Buffer::new(p, n),
                    1 => BufferLayer::new(n).clone().layer(p),
                    _ => tower::ServiceBuilder::new().buffer(n).service(p),
                },
                None,
            )
        } else {
            let (s, wk) = Buffer::pair(p, n);
            (s, Some(Box::pin(wk)))
        };
        ev!(c, "bound {} mode {}", n, mode);
        let spans = (want & M_DISPATCH != 0 && r.pct(40))
            .then(|| tracing::Dispatch::new(tracing_subscriber::registry()));
        let _sub = spans.as_ref().map(tracing::dispatcher::set_default);
        let mut st = St {
            m: Mon { c, want, off: false },
            c: c.clone(),
            w: w.clone(),
            n,
            inner,
            worker,
            worker_tk: Tk::new(),
            worker_polled: false,
            worker_done: false,
            spawned,
            cls: vec![Cl { svc: Some(svc), tk: Tk::new(), ready: false, waiting: false, dead: false }],
            rqs: vec![],
            queue: VecDeque::new(),
            held: None,
            dispatched: 0,
            health: Health::Ok,
            waits: 0,
            admitted: 0,
            overlap: false,
            spawn_wake: false,
            spans,
            kept_spans: vec![],
        };
        let steps = if crowd { r.range(100, 700) } else { r.range(15, 90) };
        let fault_at = if mode >= 2 { r.range(3, steps) } else { u64::MAX };
        let grow = if crowd { 24 } else { 4 };
        let greedy = r.pct(30); // drain after every step
        let wstep = *r.pick(&[3u64, 8, 20]);
        let mut fault_load = 0usize;
        let mut cancelled_one = false;
        for step in 0..steps {
            if st.m.stop() {
                break;
            }
            if step == fault_at {
                if spawned {
                    st.worker_step(false).await;
                }
                fault_load = st.queue.len()
                    + st.held.iter().count()
                    + st.cls.iter().filter(|x| x.ready || x.waiting).count();
                match mode {
                    2 => st.set_gate(Gate::Err),
                    3 => {
                        ev!(c, "worker dropped");
                        st.worker = None;
                        st.worker_done = true;
                        st.health = Health::Dead;
                    }
                    4 => w.lock().insts[inner].panic = 1 + r.below(2) as u8,
                    5 => {
                        if r.pct(50) {
                            st.set_gate(Gate::Err)
                        } else {
                            w.lock().insts[inner].panic = 1 + r.below(2) as u8;
                        }
                    }
                    _ => {}
                }
            }
            let live: Vec<usize> = (0..st.cls.len()).filter(|&k| st.cls[k].svc.is_some()).collect();
            match r.weighted(&[grow, 24, 24, wstep, 10, 8, 4, 8, 4, 3]) {
                0 if st.cls.len() < most && !live.is_empty() => {
                    let k = *r.pick(&live);
                    let svc = st.cls[k].svc.clone();
                    ev!(c, "client {} cloned from {}", st.cls.len(), k);
                    st.cls.push(Cl { svc, tk: Tk::new(), ready: false, waiting: false, dead: false });
                }
                1 if !live.is_empty() => {
                    // polling a waiting clone again without a wakeup is legal too
                    let k = *r.pick(&live);
                    if spawned {
                        st.worker_step(false).await;
                    }
                    st.poll_client(k);
                }
                2 => {
                    let rd: Vec<usize> = live.iter().copied().filter(|&k| st.cls[k].ready).collect();
                    if !rd.is_empty() {
                        let k = *r.pick(&rd);
                        st.call(k);
                        if spawned && r.pct(50) {
                            st.worker_step(false).await;
                        }
                        if r.pct(60) && !st.m.stop() {
                            let q = st.rqs.len() - 1;
                            if !spawned || st.health != Health::Ok {
                                st.poll_response(q);
                            } else {
                                st.worker_step(false).await;
                                st.poll_response(q);
                            }
                        }
                    }
                }
                3 => st.worker_step(r.pct(15)).await,
                4 => {
                    let open = st.rqs.iter().enumerate().filter(|(_, x)| x.fut.is_some()).map(|(i, _)| i).collect::<Vec<_>>();
                    if !open.is_empty() {
                        let q = *r.pick(&open);
                        if let Some(k) = st.rqs[q].call {
                            if r.pct(70) {
                                w.finish(k, r.pct(65));
                            }
                        }
                        if spawned {
                            st.worker_step(false).await;
                        }
                        st.poll_response(q);
                    }
                }
                5 => {
                    let open = st.rqs.iter().enumerate().filter(|(_, x)| x.fut.is_some()).map(|(i, _)| i).collect::<Vec<_>>();
                    if !open.is_empty() {
                        if spawned {
                            st.worker_step(false).await;
                        }
                        let q = *r.pick(&open);
                        if st.rqs[q].fut.is_some() {
                            st.cancel(q);
                            cancelled_one = true;
                        }
                    }
                }
                6 if live.len() > 1 || (!live.is_empty() && r.pct(12)) => {
                    let k = *r.pick(&live);
                    ev!(c, "client {} dropped (ready {}, waiting {})", k, st.cls[k].ready, st.cls[k].waiting);
                    st.cls[k].svc = None;
                    st.cls[k].ready = false;
                    st.cls[k].waiting = false;
                }
                7 => {
                    if spawned {
                        st.worker_step(false).await;
                    }
                    if st.gate() != Gate::Err && !w.lock().insts[inner].errored {
                        st.set_gate(if r.pct(60) { Gate::Open } else { Gate::Closed });
                    }
                }
                8 => st.drain().await,
                _ => advance(r.range(1, 5)).await,
            }
            if greedy {
                st.drain().await;
            }
        }
        // wind down: let everything finish
        if !st.m.stop() {
            if st.gate() != Gate::Err && !w.lock().insts[inner].errored {
                st.set_gate(Gate::Open);
            }
            st.drain().await;
        }
        if mode >= 2 && !st.m.stop() && st.health == Health::Ok {
            // the armed fault has not been met yet: make the worker meet it
            for k in 0..st.cls.len() {
                if st.cls[k].svc.is_some() {
                    st.poll_client(k);
                    if st.cls[k].ready {
                        st.call(k);
                        let q = st.rqs.len() - 1;
                        fault_load += 1;
                        if !spawned {
                            st.poll_response(q);
                        }
                        break;
                    }
                }
            }
            st.drain().await;
        }
        if !st.m.stop() {
            // every open response is polled at least once, then everything must be decided
            for q in 0..st.rqs.len() {
                if let Some(k) = st.rqs[q].call {
                    if st.rqs[q].fut.is_some() {
                        w.finish(k, r.pct(70));
                    }
                }
                if st.rqs[q].fut.is_some() {
                    st.poll_response(q);
                }
            }
            st.drain().await;
        }
        if !st.m.stop() {
            match st.health {
                Health::Ok => {
                    let open = st.rqs.iter().filter(|q| q.fut.is_some()).count();
                    st.m.ck(M_DISPATCH | M_CAP, open == 0, || format!("{} calls never resolved", open));
                    let dup = {
                        let i = w.lock();
                        let mut seen = HashMap::new();
                        for x in &i.calls {
                            *seen.entry(x.id).or_insert(0) += 1;
                        }
                        seen.into_iter().find(|x| x.1 > 1)
                    };
                    st.m.ck(M_DISPATCH, dup.is_none(), || format!("request {:?} dispatched more than once", dup));
                    let bad: Vec<u64> = st.rqs.iter().filter(|q| q.must_not_dispatch && w.lock().calls.iter().any(|x| x.id == q.id)).map(|q| q.id).collect();
                    st.m.ck(M_DISPATCH, bad.is_empty(), || format!("requests {:?} were cancelled while queued but dispatched", bad));
                    // all capacity is back
                    let base = st.cls.iter().find_map(|x| x.svc.clone());
                    if let Some(base) = base {
                        st.cls.clear();
                        if spawned {
                            settle().await;
                        }
                        let mut v: Vec<Svc> = (0..n + 1).map(|_| base.clone()).collect();
                        drop(base);
                        for (i, s) in v.iter_mut().enumerate() {
                            let tk = Tk::new();
                            let got = tk.poll(|cx| s.poll_ready(cx));
                            let ok = if i < n { matches!(got, Poll::Ready(Ok(()))) } else { got.is_pending() };
                            st.m.ck(M_CAP, ok, || format!("with the buffer idle, clone {} of bound {} gets {:?}", i + 1, n, got));
                        }
                    }
                }
                _ => {
                    // all clones, old and new, fail from now on
                    let ks: Vec<usize> = (0..st.cls.len()).filter(|&k| st.cls[k].svc.is_some()).collect();
                    let mut late = vec![];
                    for k in ks {
                        if st.cls[k].ready && r.pct(60) {
                            // told ready before the fault: the call itself must fail
                            st.call(k);
                            let q = st.rqs.len() - 1;
                            st.poll_response(q);
                            late.push(q);
                        }
                        if r.pct(50) {
                            let svc = st.cls[k].svc.clone();
                            st.cls.push(Cl { svc, tk: Tk::new(), ready: false, waiting: false, dead: false });
                        }
                    }
                    st.drain().await;
                    for k in 0..st.cls.len() {
                        if st.cls[k].svc.is_some() {
                            st.poll_client(k);
                            if st.cls[k].ready {
                                st.call(k);
                                let q = st.rqs.len() - 1;
                                st.poll_response(q);
                            }
                        }
                    }
                    st.drain().await;
                    let open: Vec<u64> = st.rqs.iter().filter(|q| q.fut.is_some()).map(|q| q.id).collect();
                    st.m.ck(M_FAIL, open.is_empty(), || format!("calls {:?} never resolved after the fault", open));
                }
            }
        }
        let ncalls = w.ncalls() as u64;
        c.count("inner calls", ncalls);
        c.count("waits for capacity", st.waits);
        c.count("waiters admitted", st.admitted);
        match want {
            M_DISPATCH => {
                if ncalls >= 3 && (st.overlap || cancelled_one) {
                    c.nontrivial();
                }
            }
            M_FAIL => {
                c.count(match st.health { Health::Ok => "faults not met", Health::Failed => "inner failures met", Health::Dead => "worker deaths met" }, 1);
                if st.health != Health::Ok && fault_load > 0 {
                    c.nontrivial();
                }
            }
            _ => {
                if st.admitted > 0 {
                    c.nontrivial();
                }
            }
        }
        let St { cls, rqs, worker, m, .. } = st;
        let quiet = !m.stop();
        drop((cls, rqs));
        if let Some(mut wk) = worker {
            let tk = Tk::new();
            let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let mut got = tk.poll(|cx| wk.as_mut().poll(cx));
                for _ in 0..1000 {
                    if got.is_ready() || !tk.woken() {
                        break;
                    }
                    got = tk.poll(|cx| wk.as_mut().poll(cx));
                }
                got
            }));
            if quiet && want & (M_DISPATCH | M_FAIL) != 0 {
                if let Ok(got) = got {
                    chk!(c, got.is_ready(), "the worker does not stop although all handles are gone");
                }
            }
            drop(wk);
        }
        settle().await;
        if quiet {
            w.check_no_leak("buffer");
        }
    });
}

/// Strictly scheduled clients with timers; worker is a task of the same scheduler.
fn scheduled(c: &Case, want: u8, faulty: bool) {
    sim(async {
        let r = c.rng.clone();
        let n = *r.pick(&[1usize, 2, 3, 8]);
        let mut plan = Plan::random(&r);
        if faulty && r.pct(60) {
            plan.ready_err_pct = *r.pick(&[3, 10]);
        }
        let w = World::new(c, plan);
        let s = Sched::new(c);
        let p = w.svc(0);
        let inner = p.id;
        let (base, worker) = Buffer::pair(p, n);
        let dead = Arc::new(AtomicBool::new(false));
        let wid = s.daemon("worker", worker);
        if faulty && r.pct(50) {
            let at = r.range(0, 40);
            let (s2, dead) = (s.clone(), dead.clone());
            s.spawn("killer", async move {
                sleep_ms(at).await;
                dead.store(true, SeqCst);
                s2.abort(wid);
            });
        }
        let waits = Arc::new(AtomicU64::new(0));
        let accepted: Arc<Mutex<Vec<u64>>> = Arc::new(Mutex::new(vec![]));
        let kept: Arc<Mutex<Vec<u64>>> = Arc::new(Mutex::new(vec![]));
        let tasks = r.range(2, 8);
        ev!(c, "bound {} tasks {} faulty {}", n, tasks, faulty);
        let failed_after = Arc::new(AtomicU64::new(0));
        for t in 0..tasks {
            let mut svc = base.clone();
            let (w, c, r) = (w.clone(), c.clone(), r.fork());
            let (waits, accepted, kept, dead, failed_after) = (waits.clone(), accepted.clone(), kept.clone(), dead.clone(), failed_after.clone());
            s.spawn(format!("client {}", t), async move {
                for _ in 0..r.range(1, 8) {
                    if r.pct(50) {
                        sleep_ms(r.range(0, 12)).await;
                    }
                    let mut first = true;
                    let give_up = r.pct(12).then(|| r.range(0, 8));
                    let rd = {
                        let p = std::future::poll_fn(|cx| {
                            let x = svc.poll_ready(cx);
                            if x.is_pending() && first {
                                first = false;
                                waits.fetch_add(1, SeqCst);
                            }
                            x
                        });
                        match give_up {
                            Some(ms) => tokio::select! { biased; x = p => Some(x), _ = sleep_ms(ms) => None },
                            None => Some(p.await),
                        }
                    };
                    let rd = match rd {
                        None => {
                            let f = svc.clone();
                            svc = f;
                            continue;
                        }
                        Some(x) => x,
                    };
                    if let Err(e) = rd {
                        let closed = dead.load(SeqCst) && has_err::<Closed>(&*e);
                        let failed = w.lock().insts[inner].errored && find_fail(&*e).map_or(false, |f| f.call.is_none());
                        if want & M_FAIL != 0 || !faulty {
                            chk!(c, closed || failed, "readiness error {} without a matching fault", e);
                        }
                        failed_after.fetch_add(1, SeqCst);
                        return;
                    }
                    if r.pct(8) {
                        sleep_ms(r.range(0, 6)).await;
                        let f = svc.clone();
                        svc = f;
                        continue;
                    }
                    let req = w.req();
                    let id = req.id;
                    let fut = svc.call(req);
                    accepted.lock().unwrap().push(id);
                    let limit = if r.pct(20) { Some(r.range(0, 10)) } else { None };
                    let out = match limit {
                        Some(ms) => tokio::select! { biased; x = fut => Some(x), _ = sleep_ms(ms) => None },
                        None => Some(fut.await),
                    };
                    match out {
                        None => c.count("cancelled calls", 1),
                        Some(Ok(x)) => {
                            kept.lock().unwrap().push(id);
                            if want & (M_DISPATCH | M_FAIL) != 0 {
                                chk!(c, x.id == id, "request {} received the response of {}", id, x.id);
                            }
                        }
                        Some(Err(e)) => {
                            let f = find_fail(&*e);
                            let own = f.as_ref().map_or(false, |f| f.call.is_some() && f.id == id);
                            if own {
                                kept.lock().unwrap().push(id);
                            }
                            let closed = dead.load(SeqCst) && has_err::<Closed>(&*e);
                            let failed = w.lock().insts[inner].errored && f.as_ref().map_or(false, |f| f.call.is_none());
                            if !own {
                                failed_after.fetch_add(1, SeqCst);
                            }
                            if want & (M_DISPATCH | M_FAIL) != 0 {
                                chk!(c, own || closed || failed, "request {} received error {} ({:?}) without a matching cause", id, e, f);
                            }
                        }
                    }
                }
            });
        }
        drop(base);
        let stuck = s.run(Duration::from_secs(3600)).await;
        let tag = if faulty { M_FAIL } else { M_CAP | M_DISPATCH };
        if want & tag != 0 {
            chk!(c, stuck.is_empty(), "tasks hang: {:?}", stuck);
        }
        if want & M_DISPATCH != 0 {
            let i = w.lock();
            let acc = accepted.lock().unwrap();
            // dispatch order is a subsequence of the call order, each at most once
            let mut pos = 0;
            for x in &i.calls {
                match acc[pos..].iter().position(|a| *a == x.id) {
                    Some(k) => pos += k + 1,
                    None => {
                        chk!(c, false, "request {} dispatched out of call order or twice (order of calls {:?})", x.id, acc);
                        break;
                    }
                }
            }
            let seen: std::collections::HashSet<u64> = i.calls.iter().map(|x| x.id).collect();
            let lost: Vec<_> = kept.lock().unwrap().iter().copied().filter(|k| !seen.contains(k)).collect();
            chk!(c, lost.is_empty(), "requests answered without being dispatched: {:?}", lost);
        }
        s.clear();
        c.count("inner calls", w.ncalls() as u64);
        c.count("waits for capacity", waits.load(SeqCst));
        c.count("failures seen by callers", failed_after.load(SeqCst));
        let nt = match want {
            M_FAIL => failed_after.load(SeqCst) > 0,
            _ => w.ncalls() > 2 && waits.load(SeqCst) > 0,
        };
        if nt {
            c.nontrivial();
        }
        if !c.violated() {
            settle().await;
            w.check_no_leak("buffer");
        }
    });
}

struct ThInner {
    sh: Arc<ThShared>,
    ready: bool,
    n: u64,
    fail_at: u64,
    prod: HashMap<u64, u64>,
    spin: u64,
}
#[derive(Default)]
struct ThShared {
    calls: AtomicU64,
    dup: AtomicU64,
    order: AtomicU64,
    noready: AtomicU64,
    after: AtomicU64,
    failed: AtomicBool,
    dispatched: AtomicU64,
    max_ahead: AtomicU64,
    accepted: AtomicU64,
}
#[derive(Debug, Clone)]
struct Boom;
impl std::fmt::Display for Boom {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("boom")
    }
}
impl std::error::Error for Boom {}

impl Service<(u64, u64)> for ThInner {
    type Response = (u64, u64);
    type Error = Boom;
    type Future = std::pin::Pin<Box<dyn std::future::Future<Output = Result<(u64, u64), Boom>> + Send>>;
    fn poll_ready(&mut self, cx: &mut std::task::Context<'_>) -> Poll<Result<(), Boom>> {
        self.spin = self.spin.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        if self.n >= self.fail_at {
            self.sh.failed.store(true, SeqCst);
            return Poll::Ready(Err(Boom));
        }
        if !self.ready && (self.spin >> 33) % 4 == 0 {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        self.ready = true;
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, (p, k): (u64, u64)) -> Self::Future {
        self.n += 1;
        self.sh.calls.fetch_add(1, SeqCst);
        if !self.ready {
            self.sh.noready.fetch_add(1, SeqCst);
        }
        if self.sh.failed.load(SeqCst) {
            self.sh.after.fetch_add(1, SeqCst);
        }
        self.ready = false;
        let last = self.prod.entry(p).or_insert(0);
        if k == *last {
            self.sh.dup.fetch_add(1, SeqCst);
        } else if k < *last {
            self.sh.order.fetch_add(1, SeqCst);
        }
        *last = k;
        Box::pin(async move {
            for _ in 0..k % 3 {
                tokio::task::yield_now().await;
            }
            if k % 7 == 0 {
                Err(Boom)
            } else {
                Ok((p, k))
            }
        })
    }
}

/// Real threads. kind 0: healthy; 1: inner failure midway; 2: worker aborted midway.
fn threads(c: &Case, kind: u8) {
    let r = c.rng.clone();
    let n = *r.pick(&[1usize, 2, 5, 16]);
    let tasks = 16u64;
    let per = if c.thorough { 4000u64 } else { 500 };
    let sh = Arc::new(ThShared::default());
    let total = tasks * per;
    let fail_at = if kind == 1 { r.range(1, total / 2) } else { u64::MAX };
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(8).enable_time().build().unwrap();
    let inner = ThInner { sh: sh.clone(), ready: false, n: 0, fail_at, prod: HashMap::new(), spin: r.u64() };
    let (base, worker) = Buffer::pair(inner, n);
    let bad: Arc<Mutex<Vec<String>>> = Arc::default();
    let answered = Arc::new(AtomicU64::new(0));
    let errs = Arc::new(AtomicU64::new(0));
    let waits = Arc::new(AtomicU64::new(0));
    let left = Arc::new(AtomicUsize::new(tasks as usize));
    let seeds: Vec<Rng> = (0..tasks).map(|_| r.fork()).collect();
    let kill_after = r.range(1, total / 3);
    let ok = rt.block_on(async {
        let wh = tokio::spawn(worker);
        if kind == 2 {
            let sh = sh.clone();
            tokio::spawn(async move {
                while sh.calls.load(SeqCst) < kill_after {
                    tokio::task::yield_now().await;
                }
                wh.abort();
            });
        }
        let mut hs = vec![];
        for (p, r) in seeds.into_iter().enumerate() {
            let p = p as u64;
            let mut svc = Some(base.clone());
            let (sh, bad, answered, errs, waits, left) = (sh.clone(), bad.clone(), answered.clone(), errs.clone(), waits.clone(), left.clone());
            hs.push(tokio::spawn(async move {
                let mut pending = vec![];
                for k in 1..=per {
                    let s = svc.as_mut().unwrap();
                    let mut w = false;
                    let rd = std::future::poll_fn(|cx| {
                        let x = s.poll_ready(cx);
                        w |= x.is_pending();
                        x
                    })
                    .await;
                    if w {
                        waits.fetch_add(1, SeqCst);
                    }
                    if let Err(e) = rd {
                        errs.fetch_add(1, SeqCst);
                        let good = match kind {
                            1 => has_err::<Boom>(&*e) && has_err::<ServiceError>(&*e),
                            2 => has_err::<Closed>(&*e),
                            _ => false,
                        };
                        if !good {
                            bad.lock().unwrap().push(format!("readiness error {}", e));
                        }
                        break;
                    }
                    let a = sh.accepted.fetch_add(1, SeqCst) + 1;
                    let _ = a;
                    let f = s.call((p, k));
                    if r.pct(10) {
                        continue; // cancelled
                    }
                    pending.push((k, f));
                    if pending.len() > 3 || r.pct(50) {
                        // the aborted-worker race can only be decided once all handles are gone
                        if kind != 2 {
                            for (k, f) in pending.drain(..) {
                                judge(kind, p, k, f.await, &bad, &answered, &errs);
                            }
                        } else if pending.len() > 3 {
                            let (k, f) = pending.remove(0);
                            match tokio::time::timeout(Duration::from_secs(1), f).await {
                                Ok(x) => judge(kind, p, k, x, &bad, &answered, &errs),
                                Err(_) => {
                                    // decided below, once nobody holds the queue
                                    break;
                                }
                            }
                        }
                    }
                    if r.pct(3) {
                        svc = svc.clone();
                    }
                }
                drop(svc);
                left.fetch_sub(1, SeqCst);
                for (k, f) in pending {
                    judge(kind, p, k, f.await, &bad, &answered, &errs);
                }
            }));
        }
        drop(base);
        tokio::time::timeout(Duration::from_secs(90), futures::future::join_all(hs)).await.is_ok()
    });
    let g = |x: &AtomicU64| x.load(SeqCst);
    ev!(c, "threads kind {} bound {} calls {} errs {}", kind, n, g(&sh.calls), g(&errs));
    c.count("threaded calls", g(&sh.calls));
    c.count("threaded waits", g(&waits));
    c.count("threaded answers", g(&answered));
    c.count("threaded faults seen", g(&errs));
    chk!(c, ok, "callers hang: {} tasks unfinished after 90 s", left.load(SeqCst));
    chk!(c, g(&sh.dup) == 0, "{} requests dispatched twice", g(&sh.dup));
    chk!(c, g(&sh.order) == 0, "{} requests of one producer dispatched out of order", g(&sh.order));
    chk!(c, g(&sh.noready) == 0, "{} inner calls without readiness", g(&sh.noready));
    chk!(c, g(&sh.after) == 0, "{} inner calls after the service failed", g(&sh.after));
    let b = bad.lock().unwrap();
    chk!(c, b.is_empty(), "wrong outcomes: {:?}", &b[..b.len().min(5)]);
    if (kind == 0 && g(&waits) > 0) || (kind > 0 && g(&errs) > 0) {
        c.nontrivial();
    }
    c.fp(g(&waits) ^ g(&sh.calls) << 20);
    drop(b);
    rt.shutdown_background();
}

fn judge(
    kind: u8,
    p: u64,
    k: u64,
    x: Result<(u64, u64), BoxError>,
    bad: &Mutex<Vec<String>>,
    answered: &AtomicU64,
    errs: &AtomicU64,
) {
    answered.fetch_add(1, SeqCst);
    let good = match &x {
        Ok(v) => *v == (p, k) && k % 7 != 0,
        Err(e) => {
            let own = k % 7 == 0 && has_err::<Boom>(&**e) && !has_err::<ServiceError>(&**e);
            if !own {
                errs.fetch_add(1, SeqCst);
            }
            own || match kind {
                1 => has_err::<Boom>(&**e) && has_err::<ServiceError>(&**e),
                2 => has_err::<Closed>(&**e),
                _ => false,
            }
        }
    };
    if !good {
        bad.lock().unwrap().push(format!("request ({}, {}) got {:?}", p, k, x));
    }
}

/// A waker that takes its time: whoever wakes it is held up, so that the window between two of the
/// waking thread's steps is wide open to the threads that look on.
struct SlowWaker(AtomicU64, AtomicU64);
impl std::task::Wake for SlowWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref();
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.fetch_add(1, SeqCst);
        let t = std::time::Instant::now();
        let us = self.1.load(SeqCst);
        while t.elapsed() < Duration::from_micros(us) {
            std::hint::spin_loop();
        }
    }
}

struct FailsOnce(Arc<AtomicBool>);
/// Fails once told to; before that, never ready, or always.
struct FailsOr(Arc<AtomicBool>, bool);
impl Service<u64> for FailsOr {
    type Response = u64;
    type Error = Boom;
    type Future = std::future::Ready<Result<u64, Boom>>;
    fn poll_ready(&mut self, _: &mut std::task::Context<'_>) -> Poll<Result<(), Boom>> {
        match (self.0.load(SeqCst), self.1) {
            (true, _) => Poll::Ready(Err(Boom)),
            (_, true) => Poll::Ready(Ok(())),
            _ => Poll::Pending,
        }
    }
    fn call(&mut self, r: u64) -> Self::Future {
        std::future::ready(Ok(r))
    }
}
impl Service<u64> for FailsOnce {
    type Response = u64;
    type Error = Boom;
    type Future = std::future::Ready<Result<u64, Boom>>;
    fn poll_ready(&mut self, _: &mut std::task::Context<'_>) -> Poll<Result<(), Boom>> {
        match self.0.load(SeqCst) {
            true => Poll::Ready(Err(Boom)),
            false => Poll::Pending,
        }
    }
    fn call(&mut self, r: u64) -> Self::Future {
        std::future::ready(Ok(r))
    }
}

/// Threads look at the buffer at every moment of its failure: whoever sees it gone sees why.
fn slow_wakers(c: &Case) {
    let r = c.rng.clone();
    let rounds = if c.thorough { 1500 } else { 150 };
    let observers = r.range(2, 5) as usize;
    let waiters = r.range(1, 6);
    let us = *r.pick(&[5u64, 20, 60]);
    let kill = r.pct(25);
    let barrier = Arc::new(std::sync::Barrier::new(observers + 1));
    type B = Buffer<u64, std::future::Ready<Result<u64, Boom>>>;
    let slots: Arc<Vec<Mutex<Option<(B, B)>>>> = Arc::new((0..observers).map(|_| Mutex::new(None)).collect());
    let bad: Arc<Mutex<Vec<String>>> = Arc::default();
    let early = Arc::new(AtomicU64::new(0));
    let during = Arc::new(AtomicBool::new(false));
    let ths: Vec<_> = (0..observers)
        .map(|k| {
            let (barrier, slots, bad, early, during) = (barrier.clone(), slots.clone(), bad.clone(), early.clone(), during.clone());
            std::thread::spawn(move || {
                for _ in 0..rounds {
                    barrier.wait();
                    let (mut a, ready) = slots[k].lock().unwrap().take().unwrap();
                    let wk = futures::task::noop_waker();
                    let mut cx = std::task::Context::from_waker(&wk);
                    let t = std::time::Instant::now();
                    let mut saw: Vec<(&str, BoxError)> = vec![];
                    loop {
                        match a.poll_ready(&mut cx) {
                            Poll::Ready(Err(e)) => {
                                if during.load(SeqCst) {
                                    early.fetch_add(1, SeqCst);
                                }
                                saw.push(("readiness", e));
                                break;
                            }
                            Poll::Ready(Ok(())) => {
                                bad.lock().unwrap().push("ready with a full queue and no worker".into());
                                break;
                            }
                            Poll::Pending if t.elapsed() > Duration::from_secs(20) => {
                                bad.lock().unwrap().push("a caller still waits 20 s after the fault".into());
                                break;
                            }
                            Poll::Pending => std::hint::spin_loop(),
                        }
                    }
                    let mut b = ready.clone();
                    match b.poll_ready(&mut cx) {
                        Poll::Ready(Err(e)) => saw.push(("readiness of a new clone", e)),
                        x => bad.lock().unwrap().push(format!("a new clone after the fault is {:?}", x)),
                    }
                    for (what, e) in saw {
                        let good = match kill {
                            false => has_err::<ServiceError>(&*e) && has_err::<Boom>(&*e),
                            true => has_err::<Closed>(&*e),
                        };
                        if !good {
                            bad.lock().unwrap().push(format!("{} failed with {:?}", what, e));
                        }
                    }
                    barrier.wait();
                }
            })
        })
        .collect();
    for _ in 0..rounds {
        let flag = Arc::new(AtomicBool::new(false));
        let (base, worker) = Buffer::pair(FailsOnce(flag.clone()), 1);
        let mut worker = Box::pin(worker);
        let wk = futures::task::noop_waker();
        let mut cx = std::task::Context::from_waker(&wk);
        // one request held by the worker, one queued, everybody else waits
        let mut futs = vec![];
        let mut first = base.clone();
        for id in 0..2 {
            chk!(c, matches!(first.poll_ready(&mut cx), Poll::Ready(Ok(()))), "no place for request {}", id);
            futs.push(Box::pin(first.call(id)));
            let _ = std::future::Future::poll(worker.as_mut(), &mut cx);
        }
        let slow = Arc::new(SlowWaker(AtomicU64::new(0), AtomicU64::new(us)));
        let swk = std::task::Waker::from(slow.clone());
        let mut scx = std::task::Context::from_waker(&swk);
        for f in futs.iter_mut() {
            let _ = std::future::Future::poll(f.as_mut(), &mut scx);
        }
        let mut ws: Vec<B> = (0..waiters).map(|_| base.clone()).collect();
        for w in ws.iter_mut() {
            chk!(c, w.poll_ready(&mut scx).is_pending(), "ready with a full queue");
        }
        for s in slots.iter() {
            *s.lock().unwrap() = Some((base.clone(), base.clone()));
        }
        barrier.wait();
        std::thread::sleep(Duration::from_micros(20));
        during.store(true, SeqCst);
        if kill {
            drop(worker);
        } else {
            flag.store(true, SeqCst);
            let _ = std::future::Future::poll(worker.as_mut(), &mut cx);
        }
        during.store(false, SeqCst);
        barrier.wait();
        let woken = slow.0.load(SeqCst);
        chk!(c, woken >= waiters, "{} waiters, but only {} wakeups at the fault", waiters, woken);
        for (i, f) in futs.iter_mut().enumerate() {
            let got = std::future::Future::poll(f.as_mut(), &mut cx);
            let ok = match &got {
                Poll::Ready(Err(e)) if kill => has_err::<Closed>(&**e),
                Poll::Ready(Err(e)) => has_err::<ServiceError>(&**e) && has_err::<Boom>(&**e),
                _ => false,
            };
            chk!(c, ok, "request {} after the fault: {:?}", i, got);
        }
        if c.violated() || !bad.lock().unwrap().is_empty() {
            break;
        }
    }
    // unblock observers of rounds that were skipped
    if c.violated() || !bad.lock().unwrap().is_empty() {
        let b = bad.lock().unwrap();
        chk!(c, b.is_empty(), "wrong outcomes seen by other threads: {:?}", &b[..b.len().min(3)]);
        c.fail("stopped early");
        return;
    }
    for t in ths {
        let _ = t.join();
    }
    let e = early.load(SeqCst);
    ev!(c, "observers {} waiters {} delay {} us: {} looks while the fault was in progress", observers, waiters, us, e);
    c.count("looks during the fault", e);
    if e > 0 {
        c.nontrivial();
    }
    c.fp(e);
}

/// Several threads use the places they hold at the very moment the worker goes: each of them is
/// answered, while another clone lives on.
fn last_calls(c: &Case) {
    let r = c.rng.clone();
    let rounds = if c.thorough { 60_000 } else { 8_000 };
    let callers = r.range(2, 6) as usize;
    let fails = r.pct(30);
    let polled = r.pct(60);
    let serves = !fails && r.pct(60);
    type B = Buffer<u64, std::future::Ready<Result<u64, Boom>>>;
    type F = ResponseFuture<std::future::Ready<Result<u64, Boom>>>;
    struct Shared {
        go: AtomicUsize,
        done: AtomicUsize,
        stop: AtomicBool,
        slots: Vec<Mutex<(Option<B>, Option<F>, u64)>>,
    }
    let sh = Arc::new(Shared {
        go: AtomicUsize::new(0),
        done: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        slots: (0..callers).map(|_| Mutex::new((None, None, 0))).collect(),
    });
    fn spin(mut until: impl FnMut() -> bool) {
        let mut n = 0u32;
        while !until() {
            n += 1;
            match n % 4096 {
                0 => std::thread::yield_now(),
                _ => std::hint::spin_loop(),
            }
        }
    }
    let ths: Vec<_> = (0..callers)
        .map(|k| {
            let sh = sh.clone();
            std::thread::spawn(move || {
                for round in 1.. {
                    spin(|| sh.go.load(SeqCst) >= round || sh.stop.load(SeqCst));
                    if sh.stop.load(SeqCst) {
                        return;
                    }
                    {
                        let mut g = sh.slots[k].lock().unwrap();
                        let (mut b, wait) = (g.0.take().unwrap(), g.2);
                        for _ in 0..wait {
                            std::hint::spin_loop();
                        }
                        g.1 = Some(b.call(k as u64));
                    }
                    sh.done.fetch_add(1, SeqCst);
                }
            })
        })
        .collect();
    let wk = futures::task::noop_waker();
    let mut cx = std::task::Context::from_waker(&wk);
    let (mut answered, mut refused) = (0u64, 0u64);
    for round in 1..=rounds {
        let flag = Arc::new(AtomicBool::new(false));
        let (base, worker) = Buffer::pair(FailsOr(flag.clone(), serves), callers + 1);
        let mut worker = Box::pin(worker);
        for s in sh.slots.iter() {
            let mut b = base.clone();
            chk!(c, matches!(b.poll_ready(&mut cx), Poll::Ready(Ok(()))), "no place in an empty queue");
            let mut g = s.lock().unwrap();
            g.0 = Some(b);
            g.2 = r.below(160);
        }
        let first = if fails {
            // what makes the worker ask for readiness, and fail
            let mut b = base.clone();
            chk!(c, matches!(b.poll_ready(&mut cx), Poll::Ready(Ok(()))), "no place in an empty queue");
            flag.store(true, SeqCst);
            Some(b.call(99))
        } else {
            None
        };
        let wait = r.below(300);
        sh.done.store(0, SeqCst);
        sh.go.store(round, SeqCst);
        for _ in 0..wait {
            std::hint::spin_loop();
        }
        if fails {
            spin(|| std::future::Future::poll(worker.as_mut(), &mut cx).is_ready());
        } else if polled {
            for _ in 0..1 + round % 3 {
                let _ = std::future::Future::poll(worker.as_mut(), &mut cx);
            }
        }
        drop(worker);
        spin(|| sh.done.load(SeqCst) == callers);
        let fs: Vec<(u64, F)> = sh.slots.iter().enumerate().map(|(k, s)| (k as u64, s.lock().unwrap().1.take().unwrap())).chain(first.map(|f| (99, f))).collect();
        for (k, f) in fs {
            let mut f = Box::pin(f);
            match std::future::Future::poll(f.as_mut(), &mut cx) {
                Poll::Pending => c.fail(format!("the worker is gone, but the request of caller {} of {} (round {}) is not answered", k, callers, round)),
                Poll::Ready(Ok(_)) => {
                    chk!(c, polled && serves, "caller {} was answered by a service that was not called", k);
                    answered += 1;
                }
                Poll::Ready(Err(e)) => {
                    let good = match fails {
                        true => has_err::<ServiceError>(&*e) && has_err::<Boom>(&*e),
                        false => has_err::<Closed>(&*e),
                    };
                    chk!(c, good, "caller {} failed with {:?}", k, e);
                    refused += 1;
                }
            }
        }
        drop(base);
        if c.violated() {
            break;
        }
    }
    sh.stop.store(true, SeqCst);
    for t in ths {
        let _ = t.join();
    }
    ev!(c, "{} callers, {} answered, {} refused", callers, answered, refused);
    c.count("last calls answered", answered);
    c.count("last calls refused", refused);
    if refused > 0 {
        c.nontrivial();
    }
    c.fp(answered);
}

#[allow(dead_code)]
fn unused(e: Fail) -> Option<Fail> {
    as_fail(e)
}
