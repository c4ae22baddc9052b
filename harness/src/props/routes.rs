//! P17 filter, P18 reconnect, P19 steer.
use crate::kit::*;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::task::{Context, Waker};
use tower::filter::{AsyncFilter, AsyncFilterLayer, AsyncPredicate, Filter, FilterLayer, Predicate};
use tower::reconnect::Reconnect;
use tower::steer::{Picker, Steer};
use tower_layer::Layer;

pub fn p17() -> Prop {
    Prop {
        id: "P17",
        rule: "seeded random requests, verdicts, readiness, answers and cancellations through synchronous and asynchronous filters, every predicate call, inner call and answer compared with the verdicts; non-trivial: requests were accepted and rejected",
        assumptions: &[],
        scenarios: vec![Scenario::new("sync", 3000, sync_filter), Scenario::new("async", 4000, async_filter)],
    }
}
pub fn p18() -> Prop {
    Prop {
        id: "P18",
        rule: "seeded random connector and connection behaviour (readiness, failures, losses, slow and failing connects) against a state model of the reconnecting service, plus scheduled traffic; non-trivial: a connection was lost and rebuilt, or a connect failure was reported",
        assumptions: &["the connector's future is Unpin, as the type requires"],
        scenarios: vec![Scenario::new("model", 6000, reconnect_model), Scenario::new("traffic", 1500, reconnect_traffic), Scenario::new("large", 25, super::large::reconnects)],
    }
}
pub fn p19() -> Prop {
    Prop {
        id: "P19",
        rule: "seeded random readiness of several services, picks, calls, clones and failures against the set of services that are ready; non-trivial: at least two services were called and the steer waited for one that then became ready",
        assumptions: &["the picker returns an index in range"],
        scenarios: vec![Scenario::new("model", 6000, steer_model), Scenario::new("large", 25, super::large::steer)],
    }
}

// ---------------------------------------------------------------- P17

#[derive(Debug, Clone, PartialEq)]
struct Rejected(u64);
impl std::fmt::Display for Rejected {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "rejected r{}", self.0)
    }
}
impl std::error::Error for Rejected {}

fn verdict(seed: u64, id: u64) -> bool {
    rng::mix(seed ^ id) % 3 > 0
}

#[derive(Clone)]
struct Pred {
    w: World,
    seed: u64,
    asked: Arc<Mutex<Vec<u64>>>,
}
impl Predicate<Req> for Pred {
    type Request = Req;
    fn check(&mut self, mut r: Req) -> Result<Req, BoxError> {
        self.asked.lock().unwrap().push(r.id);
        let ok = verdict(self.seed, r.id);
        ev!(self.w.c, "predicate on {:?}: {}", r, ok);
        if ok {
            r.mark = r.id * 7 + 1;
            Ok(r)
        } else {
            Err(Rejected(r.id).into())
        }
    }
}

fn sync_filter(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let w = World::new(c, Plan::manual(Gate::Open));
        let seed = r.u64();
        let asked: Arc<Mutex<Vec<u64>>> = Default::default();
        let p = Pred { w: w.clone(), seed, asked: asked.clone() };
        let inner = w.svc(0);
        // Filter cannot be erased without losing clone and accessors, so it is driven by value
        if r.pct(70) {
            let svc = match r.below(5) {
                0 => Filter::new(inner, p),
                3 => tower::ServiceBuilder::new().filter(p).service(inner),
                4 => tower::ServiceExt::<Req>::filter(inner, p),
                1 => FilterLayer::new(p).layer(inner),
                _ => Filter::<Probe, Pred>::layer(p).clone().layer(inner),
            };
            drive_sync(c, &w, svc, seed, &asked);
        } else {
            let (a, w2) = (asked.clone(), w.clone());
            let f = move |mut r: Req| {
                a.lock().unwrap().push(r.id);
                let ok = verdict(seed, r.id);
                ev!(w2.c, "closure on {:?}: {}", r, ok);
                if ok {
                    r.mark = r.id * 7 + 1;
                    Ok(r)
                } else {
                    Err(Rejected(r.id))
                }
            };
            drive_sync(c, &w, Filter::new(inner, f), seed, &asked);
        }
        w.check_no_leak("filter");
    });
}

fn drive_sync<U>(c: &Case, w: &World, mut svc: Filter<Probe, U>, seed: u64, asked: &Arc<Mutex<Vec<u64>>>)
where
    U: Predicate<Req, Request = Req> + Clone,
{
    let r = c.rng.clone();
    let (mut acc, mut rej) = (0u64, 0u64);
    let mut open = vec![];
    for _ in 0..r.range(4, 40) {
        if c.violated() {
            return;
        }
        match r.below(8) {
            0 => {
                // the check helper
                let n = w.ncalls();
                let q = w.req();
                let id = q.id;
                let before = asked.lock().unwrap().len();
                let got = svc.check(q);
                match got {
                    Ok(q) => chk!(c, verdict(seed, id) && q.id == id && q.mark == id * 7 + 1, "check accepted {:?}", q),
                    Err(e) => chk!(c, !verdict(seed, id) && find_err::<Rejected>(&*e) == Some(Rejected(id)), "check refused r{}: {}", id, e),
                };
                chk!(c, w.ncalls() == n && asked.lock().unwrap().len() == before + 1, "check did more than ask");
            }
            1 => {
                let id = svc.get_ref().id;
                chk!(c, svc.get_mut().id == id, "get_mut");
                if r.pct(30) {
                    svc = svc.clone();
                    chk!(c, svc.get_ref().id != id, "a clone shares its service");
                }
            }
            2 | 3 if !open.is_empty() => {
                let (k, mut f): (usize, Fut<_>) = open.swap_remove(r.us(open.len()));
                if r.pct(30) {
                    drop(f);
                    chk!(c, w.lock().calls[k].fut_dropped, "dropping the response did not drop the wrapped one");
                    continue;
                }
                let ok = r.pct(60);
                if r.pct(50) {
                    chk!(c, f.poll().is_pending(), "answered before the wrapped service answered");
                    w.finish(k, ok);
                    chk!(c, f.tk.woken(), "not woken by the answer");
                }
                w.finish(k, ok);
                outcome(c, f.poll(), k, ok);
            }
            _ => {
                let i = svc.get_ref().id;
                let g = *r.pick(&[Gate::Open, Gate::Open, Gate::Open, Gate::Closed]);
                w.lock().insts[i].gate = g;
                let tk = Tk::new();
                let got = tk.poll(|cx| svc.poll_ready(cx));
                let ready = w.lock().insts[i].ready;
                chk!(c, matches!(got, Poll::Ready(Ok(()))) == ready && !matches!(got, Poll::Ready(Err(_))), "readiness changed to {:?}", got);
                if !ready {
                    w.gate(i, Gate::Open);
                    chk!(c, tk.woken(), "the waker did not reach the wrapped service");
                    continue;
                }
                let n = w.ncalls();
                let before = asked.lock().unwrap().len();
                let q = w.req();
                let id = q.id;
                let mut f = Fut::new(svc.call(q));
                let a: Vec<u64> = asked.lock().unwrap()[before..].to_vec();
                chk!(c, a == [id], "the predicate was asked about {:?} for request {}", a, id);
                if verdict(seed, id) {
                    acc += 1;
                    let good = w.ncalls() == n + 1 && {
                        let i = w.lock();
                        let x = &i.calls[n];
                        x.id == id && x.tag == 0 && x.mark == id * 7 + 1
                    };
                    if chk!(c, good, "the accepted request {} was not passed on once as transformed", id) {
                        open.push((n, f));
                    }
                } else {
                    rej += 1;
                    let got = f.poll();
                    let e = match &got {
                        Poll::Ready(Err(e)) => find_err::<Rejected>(&**e),
                        _ => None,
                    };
                    chk!(c, e == Some(Rejected(id)), "rejected request {} answered with {:?}", id, got.map(|x| x.map_err(|e| e.to_string())));
                    chk!(c, w.ncalls() == n, "the rejected request {} reached the wrapped service", id);
                    // the readiness was not used up
                    let got = tk.poll(|cx| svc.poll_ready(cx));
                    chk!(c, matches!(got, Poll::Ready(Ok(()))), "a rejection used up readiness");
                }
            }
        }
    }
    c.count("accepted", acc);
    c.count("rejected", rej);
    if acc > 0 && rej > 0 {
        c.nontrivial();
    }
    let i = svc.get_ref().id;
    if !w.lock().insts[i].ready && !c.violated() {
        w.lock().insts[i].gate = Gate::Err;
        let tk = Tk::new();
        let got = tk.poll(|cx| svc.poll_ready(cx));
        let ok = matches!(&got, Poll::Ready(Err(e)) if find_fail(&**e).map(|f| f.inst) == Some(i));
        chk!(c, ok, "readiness failure changed to {:?}", got);
    }
    let p = svc.into_inner();
    chk!(c, p.id == i, "into_inner gave another service");
}

fn outcome(c: &Case, got: Poll<Result<Resp, BoxError>>, k: usize, ok: bool) {
    match got {
        Poll::Ready(Ok(x)) => {
            chk!(c, ok && x.call == k, "call {} (ok {}) answered with {:?}", k, ok, x);
        }
        Poll::Ready(Err(e)) => {
            let f = find_fail(&*e);
            chk!(c, !ok && f.as_ref().and_then(|f| f.call) == Some(k), "call {} (ok {}) failed with {}", k, ok, e);
        }
        Poll::Pending => {
            chk!(c, false, "the answer of call {} was withheld", k);
        }
    }
}

/// A check decided by the harness.
#[derive(Default)]
struct Chk {
    verdict: Option<bool>,
    waker: Option<Waker>,
    polls: u32,
    dropped: bool,
    resolved: bool,
}
#[derive(Clone, Default)]
struct Checks(Arc<Mutex<Vec<(u64, Chk)>>>);
#[derive(Clone)]
struct APred {
    w: World,
    checks: Checks,
    auto: Option<u64>,
}
struct CheckFut {
    w: World,
    checks: Checks,
    idx: usize,
    req: Option<Req>,
}
impl Future for CheckFut {
    type Output = Result<Req, BoxError>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let checks = self.checks.clone();
        let mut g = checks.0.lock().unwrap();
        let x = &mut g[self.idx].1;
        x.polls += 1;
        let Some(mut q) = self.req.take() else {
            self.w.c.check(false, || "a check was polled after it completed".into());
            return Poll::Pending;
        };
        match x.verdict {
            None => {
                x.waker = Some(cx.waker().clone());
                self.req = Some(q);
                Poll::Pending
            }
            Some(v) => {
                x.resolved = true;
                ev!(self.w.c, "check {} of {:?}: {}", self.idx, q, v);
                Poll::Ready(if v {
                    q.mark = q.id * 7 + 1;
                    Ok(q)
                } else {
                    Err(Rejected(q.id).into())
                })
            }
        }
    }
}
impl Drop for CheckFut {
    fn drop(&mut self) {
        self.checks.0.lock().unwrap()[self.idx].1.dropped = true;
    }
}
impl AsyncPredicate<Req> for APred {
    type Request = Req;
    type Future = CheckFut;
    fn check(&mut self, r: Req) -> CheckFut {
        let mut g = self.checks.0.lock().unwrap();
        let v = self.auto.map(|s| verdict(s, r.id));
        g.push((r.id, Chk { verdict: v, ..Chk::default() }));
        ev!(self.w.c, "checking {:?}", r);
        CheckFut { w: self.w.clone(), checks: self.checks.clone(), idx: g.len() - 1, req: Some(r) }
    }
}

fn async_filter(c: &Case) {
    struct Fl<F: Future> {
        id: u64,
        check: usize,
        f: Fut<F>,
        call: Option<usize>,
        finished: Option<bool>,
    }
    sim(async {
        let r = c.rng.clone();
        let w = World::new(c, Plan::manual(Gate::Open));
        let checks = Checks::default();
        let auto = r.pct(25).then(|| r.u64());
        let p = APred { w: w.clone(), checks: checks.clone(), auto };
        let inner = w.svc(0);
        let mut svc = match r.below(4) {
            0 => AsyncFilter::new(inner, p),
            1 => tower::ServiceBuilder::new().filter_async(p).service(inner),
            2 => tower::ServiceExt::<Req>::filter_async(inner, p),
            _ => AsyncFilterLayer::new(p).layer(inner),
        };
        let mut open: Vec<Fl<_>> = vec![];
        let (mut acc, mut rej, mut cancelled) = (0u64, 0u64, 0u64);
        for _ in 0..r.range(8, 80) {
            if c.violated() {
                return;
            }
            match r.weighted(&[25, 22, 22, 8, 14, 4]) {
                0 => {
                    let i = svc.get_ref().id;
                    let g = *r.pick(&[Gate::Open, Gate::Open, Gate::Open, Gate::Closed]);
                    w.lock().insts[i].gate = g;
                    let tk = Tk::new();
                    let got = tk.poll(|cx| svc.poll_ready(cx));
                    let ready = w.lock().insts[i].ready;
                    chk!(c, matches!(got, Poll::Ready(Ok(()))) == ready && !matches!(got, Poll::Ready(Err(_))), "readiness changed to {:?}", got);
                    if !ready {
                        w.gate(i, Gate::Open);
                        chk!(c, tk.woken(), "the waker did not reach the wrapped service");
                        continue;
                    }
                    let n = w.ncalls();
                    let before = checks.0.lock().unwrap().len();
                    let q = w.req();
                    let id = q.id;
                    let f = Fut::new(svc.call(q));
                    let now = checks.0.lock().unwrap().len();
                    chk!(c, now == before + 1 && checks.0.lock().unwrap()[before].0 == id, "the predicate was not asked once about request {}", id);
                    chk!(c, w.ncalls() == n, "the wrapped service was called before the check finished");
                    open.push(Fl { id, check: before, f, call: None, finished: None });
                }
                1 => {
                    // decide a check
                    let und: Vec<usize> = (0..open.len()).filter(|&i| checks.0.lock().unwrap()[open[i].check].1.verdict.is_none()).collect();
                    if und.is_empty() {
                        continue;
                    }
                    let i = *r.pick(&und);
                    let v = r.pct(65);
                    let wk = {
                        let mut g = checks.0.lock().unwrap();
                        let x = &mut g[open[i].check].1;
                        x.verdict = Some(v);
                        x.waker.take()
                    };
                    if let Some(wk) = wk {
                        wk.wake();
                        chk!(c, open[i].f.tk.woken(), "the check finished and the caller's task was not woken");
                    }
                }
                2 => {
                    // poll a response (as woken, new or spurious)
                    if open.is_empty() {
                        continue;
                    }
                    let i = r.us(open.len());
                    let n = w.ncalls();
                    let got = open[i].f.poll();
                    let fl = &mut open[i];
                    let (v, resolved) = {
                        let g = checks.0.lock().unwrap();
                        (g[fl.check].1.verdict, g[fl.check].1.resolved)
                    };
                    chk!(c, resolved == v.is_some(), "the check of {} was not driven", fl.id);
                    if v == Some(true) && fl.call.is_none() {
                        acc += 1;
                        let good = w.ncalls() == n + 1 && {
                            let i = w.lock();
                            let x = &i.calls[n];
                            x.id == fl.id && x.tag == 0 && x.mark == fl.id * 7 + 1
                        };
                        if !chk!(c, good, "the accepted request {} was not passed on once as transformed", fl.id) {
                            return;
                        }
                        fl.call = Some(n);
                        chk!(c, got.is_pending() && w.lock().calls[n].polls == 1, "the wrapped response of {} was not polled", fl.id);
                        continue;
                    }
                    chk!(c, w.ncalls() == n, "polling the response of {} made a call", fl.id);
                    match v {
                        None => {
                            chk!(c, got.is_pending(), "request {} answered before its check finished", fl.id);
                        }
                        Some(false) => {
                            rej += 1;
                            let e = match &got {
                                Poll::Ready(Err(e)) => find_err::<Rejected>(&**e),
                                _ => None,
                            };
                            chk!(c, e == Some(Rejected(fl.id)), "rejected request {} answered with {:?}", fl.id, got.map(|x| x.map_err(|e| e.to_string())));
                            open.swap_remove(i);
                        }
                        Some(true) => match fl.finished {
                            None => {
                                chk!(c, got.is_pending(), "request {} answered before the wrapped service did", fl.id);
                            }
                            Some(ok) => {
                                outcome(c, got, fl.call.unwrap(), ok);
                                open.swap_remove(i);
                            }
                        },
                    }
                }
                3 => {
                    if open.is_empty() {
                        continue;
                    }
                    let fl = open.swap_remove(r.us(open.len()));
                    let n = w.ncalls();
                    let (ck, call, id) = (fl.check, fl.call, fl.id);
                    drop(fl);
                    cancelled += 1;
                    chk!(c, checks.0.lock().unwrap()[ck].1.dropped, "the check of the dropped request {} goes on", id);
                    chk!(c, w.ncalls() == n, "dropping a response made a call");
                    if let Some(k) = call {
                        chk!(c, w.lock().calls[k].fut_dropped, "the wrapped response of the dropped request {} goes on", id);
                    }
                }
                4 => {
                    let un: Vec<usize> = (0..open.len()).filter(|&i| open[i].call.is_some() && open[i].finished.is_none()).collect();
                    if un.is_empty() {
                        continue;
                    }
                    let i = *r.pick(&un);
                    let ok = r.pct(60);
                    open[i].finished = Some(ok);
                    w.finish(open[i].call.unwrap(), ok);
                    chk!(c, open[i].f.tk.woken(), "the answer came and the caller's task was not woken");
                }
                _ => {
                    svc = svc.clone();
                    if r.pct(30) {
                        let (q, n) = (w.req(), w.ncalls());
                        let id = q.id;
                        let mut k = Fut::new(svc.check(q));
                        let _ = k.poll();
                        let ix = checks.0.lock().unwrap().len() - 1;
                        checks.0.lock().unwrap()[ix].1.verdict = Some(true);
                        if !auto.is_some() {
                            let got = k.poll();
                            chk!(c, matches!(&got, Poll::Ready(Ok(q)) if q.id == id && q.mark == id * 7 + 1), "check helper gave {:?}", got);
                        }
                        chk!(c, w.ncalls() == n, "the check helper made a call");
                    }
                }
            }
        }
        c.count("accepted", acc);
        c.count("rejected", rej);
        c.count("cancelled", cancelled);
        if acc > 0 && rej > 0 {
            c.nontrivial();
        }
        drop(open);
        let p = svc.into_inner();
        drop(p);
        w.check_no_leak("async filter");
    });
}

// ---------------------------------------------------------------- P18

#[derive(Debug, Clone, PartialEq)]
struct ConnFail(usize);
impl std::fmt::Display for ConnFail {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "connect {} failed", self.0)
    }
}
impl std::error::Error for ConnFail {}
const BROKEN: usize = 999_999;

#[derive(Clone, Debug, PartialEq)]
struct Tgt(u64);

#[derive(Default)]
struct ConnState {
    gate_closed: bool,
    broken: bool,
    ready: bool,
    waker: Option<Waker>,
    /// per connect: outcome set by the harness, waker, dropped
    connects: Vec<(Option<bool>, Option<Waker>, bool)>,
    /// connection (instance) made by connect k
    made: Vec<Option<usize>>,
    live: Option<Arc<AtomicI64>>,
}
struct Connector {
    w: World,
    want: u64,
    auto: Option<Rng>,
    st: Arc<Mutex<ConnState>>,
}
struct Connecting {
    w: World,
    k: usize,
    st: Arc<Mutex<ConnState>>,
    auto: Option<Pin<Box<tokio::time::Sleep>>>,
    done: bool,
}
impl Service<Tgt> for Connector {
    type Response = Probe;
    type Error = ConnFail;
    type Future = Connecting;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), ConnFail>> {
        let mut s = self.st.lock().unwrap();
        if s.broken {
            return Poll::Ready(Err(ConnFail(BROKEN)));
        }
        if let Some(r) = &self.auto {
            if !s.ready && r.pct(30) {
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
        }
        if s.gate_closed && !s.ready {
            s.waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        s.ready = true;
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, t: Tgt) -> Connecting {
        let mut s = self.st.lock().unwrap();
        let c = &self.w.c;
        ev!(c, "connect {} to {:?}", s.connects.len(), t);
        chk!(c, s.ready, "the connector was called without being ready");
        chk!(c, t.0 == self.want, "connecting to {:?} instead of {}", t, self.want);
        let busy = s.connects.iter().filter(|x| !x.2).count();
        chk!(c, busy == 0, "a second connect was started while one is under way");
        let alive = {
            let i = self.w.lock();
            i.insts.iter().filter(|x| !x.dropped).count()
        };
        chk!(c, alive == 0, "a connect was started while a connection is still held");
        s.ready = false;
        s.connects.push((None, None, false));
        s.made.push(None);
        let k = s.connects.len() - 1;
        let mut auto = None;
        if let Some(r) = &self.auto {
            s.connects[k].0 = Some(r.pct(70));
            auto = Some(Box::pin(tokio::time::sleep(Duration::from_millis(r.below(20)))));
        }
        Connecting { w: self.w.clone(), k, st: self.st.clone(), auto, done: false }
    }
}
impl Future for Connecting {
    type Output = Result<Probe, ConnFail>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if self.done {
            self.w.c.check(false, || "a finished connect was polled again".into());
            return Poll::Pending;
        }
        if let Some(s) = self.auto.as_mut() {
            if s.as_mut().poll(cx).is_pending() {
                return Poll::Pending;
            }
        }
        let st = self.st.clone();
        let mut s = st.lock().unwrap();
        match s.connects[self.k].0 {
            None => {
                s.connects[self.k].1 = Some(cx.waker().clone());
                Poll::Pending
            }
            Some(ok) => {
                self.done = true;
                ev!(self.w.c, "connect {} ok={}", self.k, ok);
                if ok {
                    let p = self.w.svc(self.k as u32);
                    s.made[self.k] = Some(p.id);
                    Poll::Ready(Ok(p))
                } else {
                    Poll::Ready(Err(ConnFail(self.k)))
                }
            }
        }
    }
}
impl Drop for Connecting {
    fn drop(&mut self) {
        self.st.lock().unwrap().connects[self.k].2 = true;
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum RState {
    Idle,
    Connecting(usize),
    Connected(usize),
}

fn reconnect_model(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let w = World::new(c, Plan::manual(Gate::Open));
        let st: Arc<Mutex<ConnState>> = Default::default();
        let target = r.below(1000);
        let mk = Connector { w: w.clone(), want: target, auto: None, st: st.clone() };
        let (mut svc, mut m) = if r.pct(25) {
            let p = w.svc(77);
            let id = p.id;
            (Reconnect::with_connection(p, mk, Tgt(target)), RState::Connected(id))
        } else {
            (Reconnect::new(mk, Tgt(target)), RState::Idle)
        };
        // connect failure waiting to be reported
        let mut error: Option<usize> = None;
        let mut ready = false;
        let tk = Tk::new();
        let mut waiting = false;
        let mut open = vec![];
        let (mut rebuilt, mut reported, mut made) = (0u64, 0u64, 0u64);
        let mut connects = 0usize;
        for _ in 0..r.range(10, 90) {
            if c.violated() {
                return;
            }
            match r.weighted(&[34, 16, 20, 8, 10]) {
                0 => {
                    let again = r.pct(25) as u64 + 1;
                    for _ in 0..again {
                        let mut got = tk.poll(|cx| svc.poll_ready(cx));
                        // asking to be polled again at once is fine
                        for _ in 0..4 {
                            if got.is_pending() && tk.woken() {
                                got = tk.poll(|cx| svc.poll_ready(cx));
                            }
                        }
                        // what should have happened
                        let mut want = None;
                        while want.is_none() {
                            if error.is_some() {
                                want = Some("ready");
                                break;
                            }
                            match m {
                                RState::Idle => {
                                    let s = st.lock().unwrap();
                                    if s.broken {
                                        want = Some("err");
                                    } else if s.connects.len() == connects {
                                        want = Some("pending");
                                        chk!(c, s.gate_closed, "no connection and none was attempted");
                                    } else {
                                        m = RState::Connecting(connects);
                                        connects += 1;
                                    }
                                }
                                RState::Connecting(k) => {
                                    let s = st.lock().unwrap();
                                    match s.connects[k].0 {
                                        None => want = Some("pending"),
                                        Some(true) => match s.made[k] {
                                            Some(id) => {
                                                m = RState::Connected(id);
                                                made += 1;
                                            }
                                            None => {
                                                chk!(c, false, "the finished connect {} was not picked up", k);
                                                want = Some("?");
                                            }
                                        },
                                        Some(false) => {
                                            error = Some(k);
                                            m = RState::Idle;
                                        }
                                    }
                                }
                                RState::Connected(id) => {
                                    let i = w.lock();
                                    let x = &i.insts[id];
                                    if x.errored {
                                        drop(i);
                                        rebuilt += 1;
                                        m = RState::Idle;
                                        chk!(c, w.lock().insts[id].dropped, "the failed connection s{} was kept", id);
                                    } else if x.ready {
                                        want = Some("ready");
                                    } else {
                                        want = Some("pending");
                                        chk!(c, x.gate == Gate::Closed, "connection s{} is {:?} and was not asked", id, x.gate);
                                    }
                                }
                            }
                        }
                        let is = match &got {
                            Poll::Ready(Ok(())) => "ready",
                            Poll::Ready(Err(_)) => "err",
                            Poll::Pending => "pending",
                        };
                        ev!(c, "poll_ready {} (model {:?} error {:?})", is, m, error);
                        chk!(c, Some(is) == want, "poll_ready gave {} instead of {:?} in {:?}, connect failure to report {:?}", is, want, m, error);
                        chk!(c, st.lock().unwrap().connects.len() == connects, "{} connects instead of {}", st.lock().unwrap().connects.len(), connects);
                        ready = is == "ready";
                        waiting = is == "pending";
                        if let Poll::Ready(Err(e)) = &got {
                            chk!(c, find_err::<ConnFail>(&**e) == Some(ConnFail(BROKEN)), "the connector's failure became {}", e);
                            c.count("broken connectors", 1);
                            drop((open, svc));
                            w.check_no_leak("reconnect");
                            return;
                        }
                    }
                }
                1 => {
                    if !ready {
                        continue;
                    }
                    // a connection lost since makes a call on it the connection's business
                    let n = w.ncalls();
                    let q = w.req();
                    let id = q.id;
                    let mut f = Fut::new(svc.call(q));
                    ready = false;
                    match error.take() {
                        Some(k) => {
                            reported += 1;
                            chk!(c, w.ncalls() == n, "a call that has to report connect failure {} reached a connection", k);
                            let got = f.poll();
                            let e = match &got {
                                Poll::Ready(Err(e)) => find_err::<ConnFail>(&**e),
                                _ => None,
                            };
                            chk!(c, e == Some(ConnFail(k)), "connect failure {} not reported by the next call: {:?}", k, got.map(|x| x.map_err(|e| e.to_string())));
                        }
                        None => {
                            let good = w.ncalls() == n + 1 && {
                                let i = w.lock();
                                i.calls[n].id == id && RState::Connected(i.calls[n].inst) == m
                            };
                            chk!(c, good, "request {} did not go to the connection {:?} once", id, m);
                            open.push((n, f));
                        }
                    }
                }
                2 => {
                    // the outside world: connects
                    if let RState::Connecting(k) = m {
                        let ok = r.pct(60);
                        let wk = {
                            let mut s = st.lock().unwrap();
                            if s.connects[k].0.is_some() {
                                continue;
                            }
                            s.connects[k].0 = Some(ok);
                            s.connects[k].1.take()
                        };
                        w.lock().plan.gate = *r.pick(&[Gate::Open, Gate::Open, Gate::Closed, Gate::Err]);
                        if let Some(wk) = wk {
                            wk.wake();
                        }
                        if waiting {
                            chk!(c, tk.woken(), "the connect finished and the waiting task was not woken");
                        }
                    } else {
                        let mut s = st.lock().unwrap();
                        if s.gate_closed {
                            s.gate_closed = false;
                            let wk = s.waker.take();
                            drop(s);
                            if let Some(wk) = wk {
                                wk.wake();
                            }
                            if waiting && m == RState::Idle {
                                chk!(c, tk.woken(), "the connector became ready and the waiting task was not woken");
                            }
                        } else {
                            s.gate_closed = r.pct(30);
                            s.broken = r.pct(3);
                        }
                    }
                }
                3 => {
                    if let RState::Connected(id) = m {
                        let is_ready = w.lock().insts[id].ready;
                        if is_ready {
                            // lost while idle: only found out by the next readiness check
                            if r.pct(60) && error.is_none() {
                                w.revoke(id, *r.pick(&[Gate::Err, Gate::Err, Gate::Closed]));
                                ready = false;
                            }
                        } else {
                            let g = *r.pick(&[Gate::Open, Gate::Open, Gate::Closed, Gate::Err]);
                            let was = w.lock().insts[id].gate;
                            w.gate(id, g);
                            if waiting && was == Gate::Closed && g != Gate::Closed {
                                chk!(c, tk.woken(), "the connection changed to {:?} and the waiting task was not woken", g);
                            }
                        }
                    }
                }
                _ => {
                    if open.is_empty() {
                        continue;
                    }
                    let (k, mut f): (usize, Fut<_>) = open.swap_remove(r.us(open.len()));
                    if r.pct(25) {
                        drop(f);
                        chk!(c, w.lock().calls[k].fut_dropped, "dropping the response did not drop the wrapped one");
                        continue;
                    }
                    let ok = r.pct(60);
                    if r.pct(50) {
                        chk!(c, f.poll().is_pending(), "answered early");
                        w.finish(k, ok);
                        chk!(c, f.tk.woken(), "not woken by the answer");
                    }
                    w.finish(k, ok);
                    outcome(c, f.poll(), k, ok);
                }
            }
        }
        c.count("connections rebuilt", rebuilt);
        c.count("connect failures reported", reported);
        c.count("connections made", made);
        if (rebuilt > 0 && made > 1) || reported > 0 {
            c.nontrivial();
        }
        drop((open, svc));
        chk!(c, st.lock().unwrap().connects.iter().all(|x| x.2), "a connect outlives the service");
        w.check_no_leak("reconnect");
    });
}

/// Under a scheduler, with everything random: every request is answered, by the connection or
/// by the failed connect before it, and failures are reported exactly once each.
fn reconnect_traffic(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let mut plan = Plan::random(&r);
        plan.ready_err_pct = *r.pick(&[0, 5, 20, 40]);
        let w = World::new(c, plan);
        let st: Arc<Mutex<ConnState>> = Default::default();
        let mk = Connector { w: w.clone(), want: 5, auto: Some(r.fork()), st: st.clone() };
        let mut svc = Reconnect::new(mk, Tgt(5));
        let s = Sched::new(c);
        let n = r.range(3, 25);
        let reported: Rc<RefCell<Vec<usize>>> = Default::default();
        let answered = Rc::new(RefCell::new(0u64));
        let (c2, w2, s2, rep2, ans2, st2) = (c.clone(), w.clone(), s.clone(), reported.clone(), answered.clone(), st.clone());
        s.spawn("driver", async move {
            let (c, w, s) = (c2, w2, s2);
            for k in 0..n {
                let p = std::future::poll_fn(|cx| svc.poll_ready(cx));
                if p.await.is_err() {
                    c.fail("readiness failed with a working connector");
                    return;
                }
                if c.rng.pct(20) {
                    sleep_ms(c.rng.below(10)).await;
                    for _ in 0..2 {
                        // still ready
                        let failed = st2.lock().unwrap().connects.len();
                        let tk = Tk::new();
                        let got = tk.poll(|cx| svc.poll_ready(cx));
                        chk!(c, matches!(got, Poll::Ready(Ok(()))), "a ready service became {:?} without being called", got);
                        chk!(c, st2.lock().unwrap().connects.len() == failed, "a ready service connected");
                    }
                }
                let q = w.req();
                let id = q.id;
                let f = svc.call(q);
                let (c, rep, ans) = (c.clone(), rep2.clone(), ans2.clone());
                s.spawn(format!("call {}", k), async move {
                    match f.await {
                        Ok(x) => {
                            chk!(c, x.id == id, "request {} got {:?}", id, x);
                        }
                        Err(e) => {
                            if let Some(ConnFail(k)) = find_err::<ConnFail>(&*e) {
                                rep.borrow_mut().push(k);
                            } else {
                                chk!(c, find_fail(&*e).map(|f| f.id) == Some(id), "request {} failed with {}", id, e);
                            }
                        }
                    }
                    *ans.borrow_mut() += 1;
                });
            }
        });
        let stuck = s.run(Duration::from_secs(3600)).await;
        chk!(c, stuck.is_empty(), "hangs: {:?}", stuck);
        s.clear();
        if !c.violated() {
            let rep = reported.borrow();
            let failed: Vec<usize> = {
                let s = st.lock().unwrap();
                (0..s.connects.len()).filter(|&k| s.connects[k].0 == Some(false)).collect()
            };
            let mut got = rep.clone();
            got.sort_unstable();
            chk!(c, got == failed, "connect failures {:?} were reported as {:?}", failed, got);
            chk!(c, *answered.borrow() == n, "{} of {} requests answered", answered.borrow(), n);
            if !failed.is_empty() && st.lock().unwrap().connects.len() > failed.len() + 1 {
                c.nontrivial();
            }
            c.count("requests", n);
        }
        w.check_no_leak("reconnect");
    });
}

// ---------------------------------------------------------------- P19

#[derive(Clone)]
struct Pick {
    c: Case,
    next: Arc<AtomicU64>,
    /// (request, index returned, ids of the services shown)
    asked: Arc<Mutex<VecDeque<(u64, usize, Vec<usize>)>>>,
}
impl Picker<Probe, Req> for Pick {
    fn pick(&mut self, r: &Req, services: &[Probe]) -> usize {
        let i = rng::mix(r.id ^ self.next.load(SeqCst)) as usize % services.len();
        ev!(self.c, "picker: {:?} -> {}", r, i);
        self.asked.lock().unwrap().push_back((r.id, i, services.iter().map(|p| p.id).collect()));
        i
    }
}

fn steer_model(c: &Case) {
    struct St<T> {
        svc: T,
        insts: Vec<usize>,
        tk: Tk,
        ready: bool,
        dead: bool,
        waiting: bool,
    }
    sim(async {
        let r = c.rng.clone();
        let w = World::new(c, Plan::manual(Gate::Closed));
        let n = if r.pct(8) { r.range(7, 40) } else { r.range(1, 6) } as usize;
        let asked: Arc<Mutex<VecDeque<(u64, usize, Vec<usize>)>>> = Default::default();
        let pick = Pick { c: c.clone(), next: Arc::new(AtomicU64::new(r.u64())), asked: asked.clone() };
        let ps: Vec<Probe> = (0..n).map(|k| w.svc(k as u32)).collect();
        let insts: Vec<usize> = ps.iter().map(|p| p.id).collect();
        for i in &insts {
            w.lock().insts[*i].gate = *r.pick(&[Gate::Closed, Gate::Open]);
        }
        let mut sts = vec![St { svc: Steer::new(ps, pick), insts, tk: Tk::new(), ready: false, dead: false, waiting: false }];
        let mut open = vec![];
        let mut called: std::collections::BTreeSet<u32> = Default::default();
        let (mut waits, mut clones) = (0u64, 0u64);
        let may_err = r.pct(30);
        for _ in 0..r.range(10, 100) {
            if c.violated() {
                return;
            }
            let x = r.us(sts.len());
            match r.weighted(&[35, 30, 25, 4, 10]) {
                0 => {
                    let s = &mut sts[x];
                    if s.dead {
                        // it failed; whatever it says now, it is not ready
                        let svc = &mut s.svc;
                        w.lock().once_failed = false;
                        let got = s.tk.poll(|cx| svc.poll_ready(cx));
                        w.lock().once_failed = true;
                        chk!(c, !matches!(got, Poll::Ready(Ok(()))), "ready although one of its services failed");
                        continue;
                    }
                    let svc = &mut s.svc;
                    let was = s.ready;
                    let got = s.tk.poll(|cx| svc.poll_ready(cx));
                    let (unready, closed, err): (Vec<usize>, Vec<usize>, Vec<usize>) = {
                        let i = w.lock();
                        let f = |p: &dyn Fn(&Inst) -> bool| s.insts.iter().copied().filter(|k| p(&i.insts[*k])).collect();
                        (f(&|i| !i.ready), f(&|i| !i.ready && i.gate == Gate::Closed), f(&|i| !i.ready && (i.errored || i.gate == Gate::Err)))
                    };
                    ev!(c, "steer {} poll_ready {:?} unready {:?} closed {:?} failed {:?}", x, got, unready, closed, err);
                    match got {
                        Poll::Ready(Ok(())) => {
                            chk!(c, unready.is_empty(), "ready although {:?} of its services are not", unready);
                            if s.waiting {
                                waits += 1;
                            }
                            s.ready = true;
                            s.waiting = false;
                        }
                        Poll::Ready(Err(e)) => {
                            chk!(c, err.contains(&e.inst), "failed with {:?}, failing are {:?}", e, err);
                            s.dead = true;
                            s.ready = false;
                        }
                        Poll::Pending => {
                            chk!(c, !was, "a ready steer became not ready without being called");
                            chk!(c, !closed.is_empty() || s.tk.woken(), "not ready although every service is ready or open ({:?} failing)", err);
                            s.waiting = true;
                        }
                    }
                }
                1 => {
                    // a service changes
                    let s = &mut sts[x];
                    let un: Vec<usize> = {
                        let i = w.lock();
                        s.insts.iter().copied().filter(|k| !i.insts[*k].ready).collect()
                    };
                    if un.is_empty() || s.dead {
                        continue;
                    }
                    let k = *r.pick(&un);
                    if n > 6 {
                        // or most of them at once
                        for k in un.iter().filter(|x| **x != k) {
                            if r.pct(80) {
                                w.gate(*k, Gate::Open);
                            }
                        }
                    }
                    let g = if may_err && r.pct(5) { Gate::Err } else { *r.pick(&[Gate::Open, Gate::Open, Gate::Closed]) };
                    w.gate(k, g);
                    let all_open = {
                        let i = w.lock();
                        s.insts.iter().all(|k| i.insts[*k].ready || i.insts[*k].gate != Gate::Closed)
                    };
                    if s.waiting && all_open {
                        chk!(c, s.tk.woken(), "all services became ready and the waiting task was not woken");
                    }
                    // keep going as an executor would
                    while s.waiting && s.tk.woken() && !c.violated() {
                        let svc = &mut s.svc;
                        let got = s.tk.poll(|cx| svc.poll_ready(cx));
                        match got {
                            Poll::Ready(Ok(())) => {
                                let i = w.lock();
                                let un: Vec<usize> = s.insts.iter().copied().filter(|k| !i.insts[*k].ready).collect();
                                drop(i);
                                chk!(c, un.is_empty(), "ready although {:?} of its services are not", un);
                                s.waiting = false;
                                s.ready = true;
                                waits += 1;
                            }
                            Poll::Ready(Err(e)) => {
                                chk!(c, w.lock().insts[e.inst].gate == Gate::Err && s.insts.contains(&e.inst), "wrong failure {:?}", e);
                                s.waiting = false;
                                s.dead = true;
                            }
                            Poll::Pending => {
                                let i = w.lock();
                                let closed = s.insts.iter().any(|k| !i.insts[*k].ready && i.insts[*k].gate == Gate::Closed);
                                drop(i);
                                chk!(c, closed || s.tk.woken(), "not ready although every service is ready or open");
                            }
                        }
                    }
                }
                2 => {
                    let s = &mut sts[x];
                    if !s.ready {
                        continue;
                    }
                    // close some gates: services that stay ready are not asked for more
                    for k in &s.insts {
                        if r.pct(50) {
                            w.lock().insts[*k].gate = *r.pick(&[Gate::Closed, Gate::Open]);
                        }
                    }
                    let k = w.ncalls();
                    let q = w.req();
                    let id = q.id;
                    let f = Fut::new(s.svc.call(q));
                    s.ready = false;
                    let a: Vec<_> = asked.lock().unwrap().drain(..).collect();
                    let one = a.len() == 1 && a[0].0 == id && a[0].2 == s.insts;
                    if !chk!(c, one, "the picker was asked {:?} for request {} over {:?}", a, id, s.insts) {
                        return;
                    }
                    let to = s.insts[a[0].1];
                    let good = w.ncalls() == k + 1 && w.lock().calls[k].inst == to && w.lock().calls[k].id == id;
                    chk!(c, good, "request {} did not go to service {} once", id, a[0].1);
                    called.insert(w.lock().insts[to].group);
                    let others: Vec<usize> = {
                        let i = w.lock();
                        s.insts.iter().copied().filter(|k| *k != to && !i.insts[*k].ready).collect()
                    };
                    chk!(c, others.is_empty(), "others lost their readiness: {:?}", others);
                    open.push((k, f));
                }
                3 => {
                    if sts.len() < 4 && !sts[x].dead {
                        let first = w.lock().insts.len();
                        let svc = sts[x].svc.clone();
                        clones += 1;
                        let insts: Vec<usize> = (first..first + n).collect();
                        let parents: Vec<Option<usize>> = insts.iter().map(|k| w.lock().insts[*k].parent).collect();
                        let want: Vec<Option<usize>> = sts[x].insts.iter().map(|k| Some(*k)).collect();
                        chk!(c, parents == want, "a clone's services {:?} are not clones of {:?}", parents, want);
                        sts.push(St { svc, insts, tk: Tk::new(), ready: false, dead: false, waiting: false });
                    } else if sts.len() > 1 {
                        sts.swap_remove(x);
                    }
                }
                _ => {
                    if open.is_empty() {
                        continue;
                    }
                    let (k, mut f): (usize, Fut<_>) = open.swap_remove(r.us(open.len()));
                    let ok = r.pct(60);
                    w.finish(k, ok);
                    match f.poll() {
                        Poll::Ready(Ok(x)) => {
                            chk!(c, ok && x.call == k, "outcome changed");
                        }
                        Poll::Ready(Err(e)) => {
                            chk!(c, !ok && e.call == Some(k), "outcome changed");
                        }
                        Poll::Pending => c.fail("the answer was withheld"),
                    }
                }
            }
        }
        c.count("waits that ended", waits);
        c.count("clones", clones);
        if waits > 0 && (called.len() >= 2 || n == 1) {
            c.nontrivial();
        }
        drop((open, sts));
        // a plain closure is a picker too, and no services at all means ready at once
        let mut e: Steer<Probe, _, Req> = Steer::new(vec![], |_: &Req, _: &[Probe]| 0usize);
        let tk = Tk::new();
        let got = tk.poll(|cx| e.poll_ready(cx));
        chk!(c, matches!(got, Poll::Ready(Ok(()))), "a steer over nothing is not ready");
        drop(e);
        w.check_no_leak("steer");
    });
}
