//! Instrumented innermost services: scripted readiness and responses, unique request ids,
//! drop-counted tokens, and the readiness-contract automaton (a monitor, one per instance).
use super::case::Case;
use super::rng::Rng;
use crate::ev;
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex, MutexGuard};
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use tokio::time::{Instant, Sleep};
use tower_service::Service;

/// Live objects of each kind; all must be zero when everything is torn down.
#[derive(Default)]
pub struct Live {
    pub reqs: AtomicI64,
    pub resps: AtomicI64,
    pub futs: AtomicI64,
    pub svcs: AtomicI64,
    pub created: AtomicU64,
    copies: AtomicU64,
}

pub struct Req {
    pub id: u64,
    /// 0 for the original, unique nonzero numbers for copies
    pub tag: u64,
    /// scribbled on by the middleware's user code under test
    pub mark: u64,
    live: Arc<Live>,
}
impl Clone for Req {
    fn clone(&self) -> Req {
        self.live.reqs.fetch_add(1, SeqCst);
        self.live.created.fetch_add(1, SeqCst);
        Req {
            id: self.id,
            tag: self.live.copies.fetch_add(1, SeqCst) + 1,
            mark: self.mark,
            live: self.live.clone(),
        }
    }
}
impl Drop for Req {
    fn drop(&mut self) {
        self.live.reqs.fetch_sub(1, SeqCst);
    }
}
impl fmt::Debug for Req {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "r{}.{}", self.id, self.tag)?;
        if self.mark != 0 {
            write!(f, "+{}", self.mark)?;
        }
        Ok(())
    }
}

pub struct Resp {
    pub id: u64,
    pub tag: u64,
    pub inst: usize,
    pub call: usize,
    pub mark: u64,
    live: Arc<Live>,
}
impl Drop for Resp {
    fn drop(&mut self) {
        self.live.resps.fetch_sub(1, SeqCst);
    }
}
impl fmt::Debug for Resp {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "resp(r{}.{} by s{})", self.id, self.tag, self.inst)
    }
}

/// Error of the instrumented service; `call` is the index of the failed call, or none for a
/// readiness failure.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Fail {
    pub inst: usize,
    pub call: Option<usize>,
    pub id: u64,
}
impl fmt::Display for Fail {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "fail(s{} call {:?})", self.inst, self.call)
    }
}
impl std::error::Error for Fail {}

/// Find a `Fail` in an error or its sources.
pub fn find_fail(e: &(dyn std::error::Error + 'static)) -> Option<Fail> {
    let mut cur = Some(e);
    while let Some(x) = cur {
        if let Some(f) = x.downcast_ref::<Fail>() {
            return Some(f.clone());
        }
        cur = x.source();
    }
    None
}

pub fn find_err<T: std::error::Error + Clone + 'static>(
    e: &(dyn std::error::Error + 'static),
) -> Option<T> {
    let mut cur = Some(e);
    while let Some(x) = cur {
        if let Some(f) = x.downcast_ref::<T>() {
            return Some(f.clone());
        }
        cur = x.source();
    }
    None
}

pub fn has_err<T: std::error::Error + 'static>(e: &(dyn std::error::Error + 'static)) -> bool {
    let mut cur = Some(e);
    while let Some(x) = cur {
        if x.is::<T>() {
            return true;
        }
        cur = x.source();
    }
    false
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Gate {
    /// decided by the plan at random
    Auto,
    Open,
    Closed,
    Err,
}

#[derive(Clone, Debug)]
pub struct Plan {
    /// weights: ready at once, pending with immediate self-wake, pending for a delay
    pub ready: [u64; 3],
    pub ready_delay: (u64, u64),
    pub ready_err_pct: u64,
    /// weights: resolve at once, after self-wake, after a delay, never
    pub resp: [u64; 4],
    pub resp_delay: (u64, u64),
    pub resp_err_pct: u64,
    /// responses are completed by `World::finish`
    pub manual_resp: bool,
    /// initial gate of new instances
    pub gate: Gate,
}
impl Default for Plan {
    fn default() -> Plan {
        Plan {
            ready: [1, 0, 0],
            ready_delay: (1, 10),
            ready_err_pct: 0,
            resp: [1, 0, 0, 0],
            resp_delay: (1, 20),
            resp_err_pct: 0,
            manual_resp: false,
            gate: Gate::Auto,
        }
    }
}
impl Plan {
    /// everything driven by the harness
    pub fn manual(gate: Gate) -> Plan {
        Plan {
            manual_resp: true,
            gate,
            ..Plan::default()
        }
    }
    /// a random healthy plan
    pub fn random(r: &Rng) -> Plan {
        Plan {
            ready: *r.pick(&[[1, 0, 0], [2, 1, 1], [1, 1, 2], [4, 0, 1], [0, 1, 1]]),
            ready_delay: *r.pick(&[(1, 3), (1, 20), (5, 50)]),
            ready_err_pct: 0,
            resp: *r.pick(&[[1, 0, 0, 0], [1, 1, 2, 0], [0, 1, 3, 0], [0, 0, 1, 0]]),
            resp_delay: *r.pick(&[(1, 3), (1, 30), (10, 100)]),
            resp_err_pct: *r.pick(&[0, 0, 15, 40]),
            manual_resp: false,
            gate: Gate::Auto,
        }
    }
}

#[derive(Debug)]
pub struct Inst {
    pub group: u32,
    pub parent: Option<usize>,
    pub gate: Gate,
    pub ready: bool,
    pub errored: bool,
    pub dropped: bool,
    pub calls: u32,
    pub polls: u32,
    pub pending_polls: u32,
    pub ready_polls: u32,
    /// inject a panic: 1 in the next poll_ready, 2 in the next call
    pub panic: u8,
    /// span of the last readiness poll
    pub poll_span: Option<u64>,
    waker: Option<Waker>,
}

impl Inst {
    /// (ready, failed)
    pub fn clone_state(&self) -> (bool, bool) {
        (self.ready, self.errored)
    }
}

pub struct CallRec {
    pub id: u64,
    pub tag: u64,
    pub mark: u64,
    pub inst: usize,
    pub group: u32,
    pub t: Duration,
    /// position in the world's total order of noted events
    pub seq: u64,
    pub done_seq: u64,
    pub drop_seq: u64,
    pub polls: u32,
    /// (ok, time) when the response future resolved
    pub done: Option<(bool, Duration)>,
    pub fut_dropped: bool,
    pub set: Option<bool>,
    pub span: Option<u64>,
    waker: Option<Waker>,
}

pub struct WorldInner {
    pub plan: Plan,
    pub insts: Vec<Inst>,
    pub calls: Vec<CallRec>,
    pub inflight: i64,
    pub max_inflight: i64,
    /// readiness polls of all instances, and the instance polled last
    pub npolls: u64,
    pub last_polled: usize,
    next_req: u64,
    next_seq: u64,
    rng: Rng,
    t0: Instant,
    /// report contract violations
    pub contract: bool,
    /// report readiness checks of an instance that already failed one
    pub once_failed: bool,
}

#[derive(Clone)]
pub struct World {
    pub c: Case,
    pub live: Arc<Live>,
    inner: Arc<Mutex<WorldInner>>,
}

impl World {
    pub fn new(c: &Case, plan: Plan) -> World {
        World {
            c: c.clone(),
            live: Arc::new(Live::default()),
            inner: Arc::new(Mutex::new(WorldInner {
                plan,
                insts: Vec::new(),
                calls: Vec::new(),
                inflight: 0,
                max_inflight: 0,
                npolls: 0,
                last_polled: usize::MAX,
                next_req: 1,
                next_seq: 0,
                rng: c.rng.fork(),
                t0: Instant::now(),
                contract: true,
                once_failed: true,
            })),
        }
    }
    /// For cases that run outside a runtime.
    pub fn new_plain(c: &Case) -> World {
        World::new(c, Plan::default())
    }
    pub fn lock(&self) -> MutexGuard<'_, WorldInner> {
        self.inner.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn now(&self) -> Duration {
        self.lock().t0.elapsed()
    }
    /// Take the next number of the total order of noted events.
    pub fn seq(&self) -> u64 {
        let mut i = self.lock();
        i.next_seq += 1;
        i.next_seq
    }
    pub fn req(&self) -> Req {
        let id = {
            let mut i = self.lock();
            i.next_req += 1;
            i.next_req - 1
        };
        self.live.reqs.fetch_add(1, SeqCst);
        self.live.created.fetch_add(1, SeqCst);
        Req {
            id,
            tag: 0,
            mark: 0,
            live: self.live.clone(),
        }
    }
    pub fn resp(&self, id: u64, tag: u64) -> Resp {
        self.live.resps.fetch_add(1, SeqCst);
        Resp {
            id,
            tag,
            inst: usize::MAX,
            call: usize::MAX,
            mark: 0,
            live: self.live.clone(),
        }
    }
    pub fn svc(&self, group: u32) -> Probe {
        self.mk(group, None)
    }
    fn mk(&self, group: u32, parent: Option<usize>) -> Probe {
        let mut i = self.lock();
        let gate = match parent {
            Some(p) => i.insts[p].gate,
            None => i.plan.gate,
        };
        i.insts.push(Inst {
            group,
            parent,
            gate,
            ready: false,
            errored: false,
            dropped: false,
            calls: 0,
            polls: 0,
            pending_polls: 0,
            ready_polls: 0,
            panic: 0,
            poll_span: None,
            waker: None,
        });
        let id = i.insts.len() - 1;
        drop(i);
        self.live.svcs.fetch_add(1, SeqCst);
        match parent {
            Some(p) => ev!(self.c, "s{} clone of s{}", id, p),
            None => ev!(self.c, "s{} new group {}", id, group),
        }
        Probe {
            w: self.clone(),
            id,
            wait: None,
            spun: false,
        }
    }
    /// Change the gate of an instance, waking whoever polled it.
    pub fn gate(&self, inst: usize, g: Gate) {
        let w = {
            let mut i = self.lock();
            i.insts[inst].gate = g;
            if g != Gate::Closed {
                i.insts[inst].waker.take()
            } else {
                None
            }
        };
        ev!(self.c, "s{} gate {:?}", inst, g);
        if let Some(w) = w {
            w.wake();
        }
    }
    /// Take back an instance's readiness (as a lost connection would).
    pub fn revoke(&self, inst: usize, g: Gate) {
        {
            let mut i = self.lock();
            i.insts[inst].ready = false;
            i.insts[inst].gate = g;
        }
        ev!(self.c, "s{} readiness lost, gate {:?}", inst, g);
    }
    /// Gate of all live instances and of future ones.
    pub fn gate_all(&self, g: Gate) {
        let n = {
            let mut i = self.lock();
            i.plan.gate = g;
            i.insts.len()
        };
        for k in 0..n {
            self.gate(k, g);
        }
    }
    /// Complete a manual response.
    pub fn finish(&self, call: usize, ok: bool) {
        let w = {
            let mut i = self.lock();
            if i.calls[call].set.is_none() {
                i.calls[call].set = Some(ok);
            }
            i.calls[call].waker.take()
        };
        ev!(self.c, "finish call {} ok={}", call, ok);
        if let Some(w) = w {
            w.wake();
        }
    }
    /// Calls whose response future is still alive and unresolved.
    pub fn open_calls(&self) -> Vec<usize> {
        let i = self.lock();
        (0..i.calls.len())
            .filter(|&k| i.calls[k].done.is_none() && !i.calls[k].fut_dropped)
            .collect()
    }
    pub fn unset_calls(&self) -> Vec<usize> {
        let i = self.lock();
        (0..i.calls.len())
            .filter(|&k| {
                i.calls[k].done.is_none() && !i.calls[k].fut_dropped && i.calls[k].set.is_none()
            })
            .collect()
    }
    /// the instance created last of those that still live
    pub fn newest(&self) -> usize {
        self.lock().insts.iter().rposition(|i| !i.dropped).expect("no instance lives")
    }
    pub fn ncalls(&self) -> usize {
        self.lock().calls.len()
    }
    /// All tokens must be gone.
    pub fn check_no_leak(&self, what: &str) {
        let l = &self.live;
        for (k, v) in [
            ("requests", l.reqs.load(SeqCst)),
            ("responses", l.resps.load(SeqCst)),
            ("response futures", l.futs.load(SeqCst)),
            ("services", l.svcs.load(SeqCst)),
        ] {
            self.c
                .check(v == 0, || format!("{}: {} {} still alive after teardown", what, v, k));
        }
    }
}

/// The instrumented service.
pub struct Probe {
    pub w: World,
    pub id: usize,
    wait: Option<Pin<Box<Sleep>>>,
    spun: bool,
}
impl fmt::Debug for Probe {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "s{}", self.id)
    }
}
impl Clone for Probe {
    fn clone(&self) -> Probe {
        let g = self.w.lock().insts[self.id].group;
        self.w.mk(g, Some(self.id))
    }
}
impl Drop for Probe {
    fn drop(&mut self) {
        self.w.lock().insts[self.id].dropped = true;
        self.w.live.svcs.fetch_sub(1, SeqCst);
        ev!(self.w.c, "s{} dropped", self.id);
    }
}

impl Probe {
    fn decide(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Fail>> {
        let fail = Fail {
            inst: self.id,
            call: None,
            id: 0,
        };
        let (gate, plan, rng) = {
            let mut i = self.w.lock();
            let inst = &mut i.insts[self.id];
            inst.polls += 1;
            if inst.errored {
                return Poll::Ready(Err(fail));
            }
            if inst.ready {
                return Poll::Ready(Ok(()));
            }
            inst.waker = Some(cx.waker().clone());
            (inst.gate, i.plan.clone(), i.rng.clone())
        };
        match gate {
            Gate::Open => Poll::Ready(Ok(())),
            Gate::Closed => Poll::Pending,
            Gate::Err => Poll::Ready(Err(fail)),
            Gate::Auto => {
                if self.wait.is_none() {
                    if rng.pct(plan.ready_err_pct) {
                        return Poll::Ready(Err(fail));
                    }
                    if self.spun {
                        return Poll::Ready(Ok(()));
                    }
                    match rng.weighted(&plan.ready) {
                        0 => return Poll::Ready(Ok(())),
                        1 => {
                            self.spun = true;
                            cx.waker().wake_by_ref();
                            return Poll::Pending;
                        }
                        _ => {
                            let d = rng.range(plan.ready_delay.0, plan.ready_delay.1);
                            self.wait =
                                Some(Box::pin(tokio::time::sleep(Duration::from_millis(d))));
                        }
                    }
                }
                match self.wait.as_mut().unwrap().as_mut().poll(cx) {
                    Poll::Ready(()) => {
                        self.wait = None;
                        self.spun = true;
                        Poll::Ready(Ok(()))
                    }
                    Poll::Pending => Poll::Pending,
                }
            }
        }
    }
}

impl Service<Req> for Probe {
    type Response = Resp;
    type Error = Fail;
    type Future = RespFut;

    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Fail>> {
        if self.w.lock().insts[self.id].panic == 1 {
            ev!(self.w.c, "s{} panics in poll_ready", self.id);
            super::run::planned_panic();
        }
        let span = tracing::Span::current().id().map(|i| i.into_u64());
        let again = {
            let i = self.w.lock();
            i.once_failed && i.insts[self.id].errored
        };
        if again {
            self.w.c.check(false, || {
                format!("s{} is asked for readiness again after it failed", self.id)
            });
        }
        let r = self.decide(cx);
        {
            let mut i = self.w.lock();
            i.npolls += 1;
            i.last_polled = self.id;
            let inst = &mut i.insts[self.id];
            inst.poll_span = span;
            match &r {
                Poll::Ready(Ok(())) => {
                    inst.ready = true;
                    inst.ready_polls += 1;
                    inst.waker = None;
                }
                Poll::Ready(Err(_)) => {
                    inst.errored = true;
                    inst.ready = false;
                    inst.waker = None;
                }
                Poll::Pending => inst.pending_polls += 1,
            }
        }
        ev!(
            self.w.c,
            "s{} poll_ready {}",
            self.id,
            match &r {
                Poll::Ready(Ok(())) => "ready",
                Poll::Ready(Err(_)) => "err",
                Poll::Pending => "pending",
            }
        );
        r
    }

    fn call(&mut self, req: Req) -> RespFut {
        if self.w.lock().insts[self.id].panic == 2 {
            ev!(self.w.c, "s{} panics in call {:?}", self.id, req);
            super::run::planned_panic();
        }
        let span = tracing::Span::current().id().map(|i| i.into_u64());
        self.spun = false;
        self.wait = None;
        let (call, ready, errored, plan, rng) = {
            let mut i = self.w.lock();
            let t = i.t0.elapsed();
            i.next_seq += 1;
            let seq = i.next_seq;
            let inst = &mut i.insts[self.id];
            let ready = inst.ready;
            let errored = inst.errored;
            inst.ready = false;
            inst.calls += 1;
            let group = inst.group;
            i.calls.push(CallRec {
                id: req.id,
                tag: req.tag,
                mark: req.mark,
                inst: self.id,
                group,
                t,
                seq,
                done_seq: 0,
                drop_seq: 0,
                polls: 0,
                done: None,
                fut_dropped: false,
                set: None,
                span,
                waker: None,
            });
            i.inflight += 1;
            i.max_inflight = i.max_inflight.max(i.inflight);
            let contract = i.contract;
            (
                i.calls.len() - 1,
                ready || !contract,
                errored,
                i.plan.clone(),
                i.rng.clone(),
            )
        };
        ev!(self.w.c, "s{} call {} {:?}", self.id, call, req);
        if !ready {
            self.w.c.check(false, || {
                format!(
                    "inner service s{} was called for {:?} without having reported ready since it was created, cloned or last called{}",
                    self.id,
                    req,
                    if errored { " (it had failed)" } else { "" }
                )
            });
        }
        self.w.live.futs.fetch_add(1, SeqCst);
        let ok = !rng.pct(plan.resp_err_pct);
        let (mut spin, mut never, mut sleep) = (false, false, None);
        if !plan.manual_resp {
            match rng.weighted(&plan.resp) {
                0 => {}
                1 => spin = true,
                2 => {
                    let d = rng.range(plan.resp_delay.0, plan.resp_delay.1);
                    sleep = Some(Box::pin(tokio::time::sleep(Duration::from_millis(d))));
                }
                _ => never = true,
            }
        }
        RespFut {
            w: self.w.clone(),
            call,
            req: Some(req),
            ok,
            manual: plan.manual_resp,
            spin,
            never,
            sleep,
        }
    }
}

pub struct RespFut {
    w: World,
    pub call: usize,
    req: Option<Req>,
    ok: bool,
    manual: bool,
    spin: bool,
    never: bool,
    sleep: Option<Pin<Box<Sleep>>>,
}

impl Future for RespFut {
    type Output = Result<Resp, Fail>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let this = self.get_mut();
        let mut ok = this.ok;
        {
            let mut i = this.w.lock();
            i.calls[this.call].polls += 1;
            if this.manual {
                match i.calls[this.call].set {
                    Some(x) => ok = x,
                    None => {
                        i.calls[this.call].waker = Some(cx.waker().clone());
                        return Poll::Pending;
                    }
                }
            }
        }
        if this.never {
            return Poll::Pending;
        }
        if this.spin {
            this.spin = false;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if let Some(s) = this.sleep.as_mut() {
            if s.as_mut().poll(cx).is_pending() {
                return Poll::Pending;
            }
            this.sleep = None;
        }
        let req = match this.req.take() {
            Some(r) => r,
            None => {
                this.w
                    .c
                    .check(false, || format!("response of call {} polled after completion", this.call));
                return Poll::Pending;
            }
        };
        let inst = {
            let mut i = this.w.lock();
            let t = i.t0.elapsed();
            i.next_seq += 1;
            let seq = i.next_seq;
            i.calls[this.call].done = Some((ok, t));
            i.calls[this.call].done_seq = seq;
            i.calls[this.call].inst
        };
        ev!(this.w.c, "call {} resolves ok={}", this.call, ok);
        Poll::Ready(if ok {
            this.w.live.resps.fetch_add(1, SeqCst);
            Ok(Resp {
                id: req.id,
                tag: req.tag,
                inst,
                call: this.call,
                mark: req.mark,
                live: this.w.live.clone(),
            })
        } else {
            Err(Fail {
                inst,
                call: Some(this.call),
                id: req.id,
            })
        })
    }
}

impl Drop for RespFut {
    fn drop(&mut self) {
        let done = {
            let mut i = self.w.lock();
            i.next_seq += 1;
            let seq = i.next_seq;
            i.calls[self.call].fut_dropped = true;
            i.calls[self.call].drop_seq = seq;
            i.inflight -= 1;
            i.calls[self.call].done.is_some()
        };
        self.w.live.futs.fetch_sub(1, SeqCst);
        if !done {
            ev!(self.w.c, "call {} dropped unresolved", self.call);
        }
    }
}
