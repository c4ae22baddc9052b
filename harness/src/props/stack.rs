//! P16 readiness contract and P24 accounting, over random stacks of middlewares with a monitor
//! between every two layers.
use crate::kit::rng::mix;
use crate::kit::run::take_panics;
use crate::kit::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::SeqCst};
use std::sync::Mutex;
use std::task::Context;
use tower::util::*;
use tower::{ServiceBuilder, ServiceExt};
use tower_layer::Layer;

pub fn p16() -> Prop {
    Prop {
        id: "P16",
        rule: "seeded random stacks of up to eight middlewares over scripted services with a contract monitor between every two layers, driven by several clones with cancelled waits, dropped and cloned ready handles and cancelled responses, every task polled only when woken; non-trivial: the monitors saw a not-ready result and at least three layers",
        assumptions: &["stacks are limited to those in which no layer may legitimately wait for a slot that an idle ready handle of another layer holds"],
        scenarios: vec![Scenario::new("stacks", 3000, contract), Scenario::new("single", 3000, single), Scenario::new("lost", 2000, lost), Scenario::new("unready", 1500, unready)],
    }
}
pub fn p24() -> Prop {
    Prop {
        id: "P24",
        rule: "the same random stacks and callers, with tokens in requests, responses, futures and services: single dispatch of every request object at every level, delivery of every response to its own request only and once, cancellation reaching the innermost future at once, every outcome explained, nothing left at the end; threads: callers of a random stack give up on several threads; non-trivial: at least one response was cancelled in flight and another answered",
        assumptions: &["stacks are limited to those in which no layer may legitimately wait for a slot that an idle ready handle of another layer holds"],
        scenarios: vec![Scenario::new("stacks", 3000, accounting), Scenario::new("crowd", 1500, crowd), Scenario::threaded("threads", 6, super::panics::crowd_threads)],
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub(super) enum Mode {
    Contract,
    Accounting,
    /// only a stack, no judgement between the layers
    Off,
}

#[derive(Default)]
struct WatchInst {
    level: usize,
    ready: bool,
    failed: bool,
    pend: u32,
}
#[derive(Default)]
pub(super) struct MonSt {
    names: Vec<String>,
    insts: Vec<WatchInst>,
    disp: HashSet<(usize, u64, u64)>,
    delivered: HashSet<(usize, usize)>,
    pendings: u64,
}
pub(super) struct Mon {
    c: Case,
    w: World,
    mode: Mode,
    /// readiness failures are injected
    faults: bool,
    /// a ready connection may be lost and rebuilt
    lossy: AtomicBool,
    live: AtomicI64,
    st: Mutex<MonSt>,
}
impl Mon {
    fn level(&self, name: &str) -> usize {
        let mut s = self.st.lock().unwrap();
        s.names.push(name.to_string());
        s.names.len() - 1
    }
    fn inst(&self, level: usize) -> usize {
        let mut s = self.st.lock().unwrap();
        s.insts.push(WatchInst { level, ..WatchInst::default() });
        self.live.fetch_add(1, SeqCst);
        s.insts.len() - 1
    }
    fn name(&self, idx: usize) -> String {
        let s = self.st.lock().unwrap();
        format!("{}#{}", s.names[s.insts[idx].level], idx)
    }
    fn contract(&self, ok: bool, msg: impl FnOnce() -> String) {
        if self.mode == Mode::Contract {
            self.c.check(ok, msg);
        }
    }
    fn account(&self, ok: bool, msg: impl FnOnce() -> String) {
        if self.mode == Mode::Accounting {
            self.c.check(ok, msg);
        }
    }
}

/// The monitor between two layers: it judges the layer below by what it answers and the layer
/// above by what it asks.
struct Watch<S> {
    m: Arc<Mon>,
    idx: usize,
    inner: S,
}
impl<S> Watch<S> {
    fn new(m: &Arc<Mon>, name: &str, inner: S) -> Self {
        let level = m.level(name);
        Watch { m: m.clone(), idx: m.inst(level), inner }
    }
}
impl<S: Clone> Clone for Watch<S> {
    fn clone(&self) -> Self {
        let level = self.m.st.lock().unwrap().insts[self.idx].level;
        let inner = self.inner.clone();
        Watch { m: self.m.clone(), idx: self.m.inst(level), inner }
    }
}
impl<S> Drop for Watch<S> {
    fn drop(&mut self) {
        self.m.live.fetch_sub(1, SeqCst);
    }
}
impl<S> Service<Req> for Watch<S>
where
    S: Service<Req, Response = Resp, Error = BoxError>,
{
    type Response = Resp;
    type Error = BoxError;
    type Future = WatchFut<S::Future>;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), BoxError>> {
        let (was, failed) = {
            let s = self.m.st.lock().unwrap();
            (s.insts[self.idx].ready, s.insts[self.idx].failed)
        };
        let m = self.m.clone();
        let idx = self.idx;
        m.contract(!failed, || format!("{} was polled again after it had failed", m.name(idx)));
        let r = self.inner.poll_ready(cx);
        {
            let mut s = m.st.lock().unwrap();
            if r.is_pending() {
                s.pendings += 1;
            }
            let i = &mut s.insts[idx];
            match &r {
                Poll::Ready(Ok(())) => i.ready = true,
                Poll::Ready(Err(_)) => {
                    i.failed = true;
                    i.ready = false;
                }
                Poll::Pending => i.pend += 1,
            }
        }
        if was {
            let ok = match &r {
                Poll::Ready(Ok(())) => true,
                Poll::Ready(Err(_)) => m.faults,
                Poll::Pending => m.lossy.load(SeqCst),
            };
            m.contract(ok, || format!("{} was ready, nothing was called, and now it is {:?}", m.name(idx), r));
        }
        if !m.faults {
            if let Poll::Ready(Err(e)) = &r {
                m.contract(false, || format!("{} failed ({}) although no service below did", m.name(idx), e));
            }
        }
        ev!(m.c, "{} ready {}", m.name(idx), match &r { Poll::Pending => "pending", Poll::Ready(Ok(())) => "ok", _ => "err" });
        r
    }
    fn call(&mut self, q: Req) -> Self::Future {
        let m = self.m.clone();
        let idx = self.idx;
        let (was, failed, level, fresh) = {
            let mut s = m.st.lock().unwrap();
            let i = &mut s.insts[idx];
            let (a, b, l) = (i.ready, i.failed, i.level);
            i.ready = false;
            let fresh = s.disp.insert((l, q.id, q.tag));
            (a, b, l, fresh)
        };
        m.contract(was, || {
            format!(
                "{} was called without having reported ready since it was created, cloned or last called{}",
                m.name(idx),
                if failed { " (it had failed)" } else { "" }
            )
        });
        m.account(fresh, || format!("{} got the request {:?} a second time", m.name(idx), q));
        let id = q.id;
        ev!(m.c, "{} call {:?}", m.name(idx), q);
        m.live.fetch_add(1, SeqCst);
        let fut = Box::pin(self.inner.call(q));
        WatchFut { m, idx, level, id, fut, done: false }
    }
}
struct WatchFut<F> {
    m: Arc<Mon>,
    idx: usize,
    level: usize,
    id: u64,
    fut: Pin<Box<F>>,
    done: bool,
}
impl<F: Future<Output = Result<Resp, BoxError>>> Future for WatchFut<F> {
    type Output = Result<Resp, BoxError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let this = self.get_mut();
        let m = this.m.clone();
        let idx = this.idx;
        if this.done {
            m.account(false, || format!("a response of {} was polled after it had been delivered", m.name(idx)));
            return Poll::Pending;
        }
        let r = this.fut.as_mut().poll(cx);
        if let Poll::Ready(x) = &r {
            this.done = true;
            if let Ok(x) = x {
                let id = this.id;
                m.account(x.id == id, || format!("{} answered request {} with the response to {}", m.name(idx), id, x.id));
                let fresh = m.st.lock().unwrap().delivered.insert((this.level, x.call));
                m.account(fresh, || format!("{} delivered the response of call {} again", m.name(idx), x.call));
            }
        }
        r
    }
}
impl<F> Drop for WatchFut<F> {
    fn drop(&mut self) {
        self.m.live.fetch_sub(1, SeqCst);
    }
}

pub(super) type Cs = BoxCloneService<Req, Resp, BoxError>;
pub(super) type Ps = BoxService<Req, Resp, BoxError>;
pub(super) enum Sv {
    C(Cs),
    P(Ps),
}
impl Service<Req> for Sv {
    type Response = Resp;
    type Error = BoxError;
    type Future = <Cs as Service<Req>>::Future;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), BoxError>> {
        match self {
            Sv::C(s) => s.poll_ready(cx),
            Sv::P(s) => s.poll_ready(cx),
        }
    }
    fn call(&mut self, q: Req) -> Self::Future {
        match self {
            Sv::C(s) => s.call(q),
            Sv::P(s) => s.call(q),
        }
    }
}

/// Which outcomes a stack may add to those of the innermost services.
#[derive(Default, Clone, Debug)]
pub(super) struct Facts {
    timeout: bool,
    shed: bool,
    reject: bool,
    hedge: bool,
    retry: bool,
    connect: bool,
    never: bool,
    balance: bool,
    buffer: bool,
    /// largest number of copies of one request
    copies: u64,
}

pub(super) struct Gen {
    r: Rng,
    m: Arc<Mon>,
    facts: Facts,
    /// a slot that callers compete for is held by ready handles below
    limit: bool,
    /// somebody in flight may wait for such a slot
    rewait: bool,
    /// an idle handle may keep such a slot
    idle: bool,
    /// largest capacity of a buffer
    roomy: u64,
    names: Vec<String>,
}

#[derive(Clone)]
struct Pol {
    left: u32,
    wait: u64,
    copies: bool,
}
impl tower::retry::Policy<Req, Resp, BoxError> for Pol {
    type Future = Pin<Box<dyn Future<Output = ()> + Send>>;
    fn retry(&mut self, _: &mut Req, r: &mut Result<Resp, BoxError>) -> Option<Self::Future> {
        if r.is_ok() || self.left == 0 {
            return None;
        }
        self.left -= 1;
        let d = self.wait;
        Some(Box::pin(async move {
            if d > 0 {
                sleep_ms(d).await
            }
        }))
    }
    fn clone_request(&mut self, q: &Req) -> Option<Req> {
        self.copies.then(|| q.clone())
    }
}
#[derive(Clone)]
struct HPol(u64);
impl tower::hedge::Policy<Req> for HPol {
    fn clone_request(&self, q: &Req) -> Option<Req> {
        (self.0 & 1 == 0 || q.id % 3 != 0).then(|| q.clone())
    }
    fn can_retry(&self, q: &Req) -> bool {
        self.0 & 2 == 0 || q.id % 4 != 0
    }
}
#[derive(Debug)]
struct Rejected(u64);
impl std::fmt::Display for Rejected {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "rejected {}", self.0)
    }
}
impl std::error::Error for Rejected {}
#[derive(Debug)]
struct NoConn;
impl std::fmt::Display for NoConn {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "no connection")
    }
}
impl std::error::Error for NoConn {}

pub(super) const KINDS: [&str; 24] = [
    "timeout", "limit", "shed", "buffer", "map", "filter", "afilter", "retry", "hedge", "spawn", "rate", "pending", "ewma",
    "constant", "optional", "either", "boxed", "reconnect", "steer", "balance", "future", "mapfuture", "then", "glimit",
];

fn keep(salt: u64, id: u64, pct: u64) -> bool {
    mix(salt ^ id.wrapping_mul(0x1234_5677)) % 100 >= pct
}

macro_rules! both {
    ($s:expr, $x:ident => $e:expr) => {
        match $s {
            Sv::C($x) => Sv::C(Cs::new($e)),
            Sv::P($x) => Sv::P(Ps::new($e)),
        }
    };
}
macro_rules! plain {
    ($s:expr, $x:ident => $e:expr) => {
        match $s {
            Sv::C($x) => Sv::P(Ps::new($e)),
            Sv::P($x) => Sv::P(Ps::new($e)),
        }
    };
}

impl Gen {
    /// A generator of stacks that nobody judges between the layers.
    pub(super) fn plain(c: &Case, w: &World) -> Gen {
        let m = Arc::new(Mon {
            c: c.clone(),
            w: w.clone(),
            mode: Mode::Off,
            faults: false,
            lossy: AtomicBool::new(false),
            live: AtomicI64::new(0),
            st: Mutex::new(MonSt::default()),
        });
        Gen { r: c.rng.clone(), m, facts: Facts { copies: 1, ..Facts::default() }, limit: false, rewait: false, idle: false, roomy: 4, names: vec![] }
    }
    pub(super) fn kinds(&self) -> &[String] {
        &self.names
    }
    pub(super) fn leaf(&mut self) -> Sv {
        let p = self.m.w.svc(0);
        self.names.push("leaf".into());
        Sv::C(Cs::new(Watch::new(&self.m, "leaf", p.map_err(|e: Fail| -> BoxError { e.into() }))))
    }
    fn sub(&mut self, n: usize) -> Vec<Sv> {
        let mut v = vec![];
        for _ in 0..n {
            let mut s = self.leaf();
            for _ in 0..self.r.us(3) {
                let k = *self.r.pick(&["timeout", "map", "pending", "retry", "limit", "buffer", "then", "ewma", "shed", "filter"]);
                s = self.add(s, k);
            }
            v.push(s);
        }
        v
    }
    /// Whether `kind` may go on top without making waiting for ever legitimate.
    fn allowed(&self, kind: &str) -> bool {
        if self.rewait && ["shed", "buffer", "filter", "spawn", "rate", "reconnect", "steer", "balance", "afilter", "future", "hedge"].contains(&kind) {
            return false;
        }
        // every connection made from a buffer that failed fails at once: connecting never ends
        if kind == "reconnect" && self.m.faults && self.facts.buffer {
            return false;
        }
        if self.idle && ["retry", "hedge", "limit", "glimit"].contains(&kind) {
            return false;
        }
        true
    }
    pub(super) fn add(&mut self, s: Sv, kind: &str) -> Sv {
        if !self.allowed(kind) {
            return s;
        }
        let r = self.r.clone();
        let m = self.m.clone();
        let out = match kind {
            "timeout" => {
                self.facts.timeout = true;
                let d = Duration::from_millis(r.range(1, 80));
                match s {
                    Sv::C(x) => Sv::C(Cs::new(tower::timeout::Timeout::new(x, d))),
                    Sv::P(x) => Sv::P(Ps::new(ServiceBuilder::new().timeout(d).service(x))),
                }
            }
            "limit" => {
                self.limit = true;
                let n = r.range(1, 3) as usize;
                both!(s, x => ServiceBuilder::new().concurrency_limit(n).service(x))
            }
            "glimit" => {
                self.limit = true;
                let n = r.range(1, 3) as usize;
                both!(s, x => tower::limit::GlobalConcurrencyLimitLayer::new(n).layer(x))
            }
            "shed" => {
                self.facts.shed = true;
                self.idle |= self.limit;
                both!(s, x => ServiceBuilder::new().load_shed().service(x))
            }
            "buffer" => {
                self.facts.buffer = true;
                self.limit = true;
                self.idle = false;
                let n = r.range(1, self.roomy) as usize;
                match s {
                    Sv::C(x) => Sv::C(Cs::new(tower::buffer::Buffer::new(x, n))),
                    Sv::P(x) => Sv::C(Cs::new(ServiceBuilder::new().buffer(n).service(x))),
                }
            }
            "map" => match r.below(4) {
                0 => both!(s, x => x.map_request(|q: Req| q)),
                1 => both!(s, x => x.map_response(|x: Resp| x)),
                2 => both!(s, x => x.map_err(|e: BoxError| e)),
                _ => both!(s, x => x.map_result(|e: Result<Resp, BoxError>| e)),
            },
            "filter" => {
                self.facts.reject = true;
                self.idle |= self.limit;
                let (salt, pct) = (r.u64(), r.range(0, 40));
                both!(s, x => x.filter(move |q: Req| if keep(salt, q.id, pct) { Ok(q) } else { Err(Rejected(q.id)) }))
            }
            "afilter" => {
                let Sv::C(x) = s else { return s };
                self.facts.reject = true;
                self.idle |= self.limit;
                let (salt, pct) = (r.u64(), r.range(0, 40));
                Sv::P(Ps::new(x.filter_async(move |q: Req| async move {
                    sleep_ms(mix(q.id ^ salt) % 4).await;
                    if keep(salt, q.id, pct) {
                        Ok(q)
                    } else {
                        Err(Rejected(q.id))
                    }
                })))
            }
            "retry" => {
                let Sv::C(x) = s else { return s };
                self.facts.retry = true;
                self.rewait |= self.limit;
                let p = Pol { left: r.range(0, 3) as u32, wait: r.range(0, 5), copies: !r.pct(15) };
                self.facts.copies *= 1 + p.left as u64;
                Sv::C(Cs::new(tower::retry::Retry::new(p, x)))
            }
            "hedge" => {
                let Sv::C(x) = s else { return s };
                self.facts.hedge = true;
                self.facts.copies *= 2;
                let lat: Vec<u64> = (0..5).map(|_| r.range(0, 30)).collect();
                let p = HPol(r.below(4));
                let per = Duration::from_millis(r.range(20, 500));
                let q = *r.pick(&[0.0f32, 0.5, 0.9]);
                if r.pct(70) {
                    Sv::P(Ps::new(tower::hedge::Hedge::new_with_mock_latencies(x, p, r.below(4), q, per, &lat)))
                } else {
                    Sv::P(Ps::new(tower::hedge::Hedge::new(x, p, r.below(4), q, per)))
                }
            }
            "spawn" => {
                self.idle |= self.limit;
                plain!(s, x => tower::spawn_ready::SpawnReady::new(x))
            }
            "rate" => {
                self.idle |= self.limit;
                let (n, per) = (r.range(1, 4), Duration::from_millis(r.range(1, 30)));
                plain!(s, x => ServiceBuilder::new().rate_limit(n, per).service(x))
            }
            "pending" => plain!(s, x => tower::load::PendingRequests::new(x, tower::load::CompleteOnResponse::default())),
            "ewma" => plain!(s, x => tower::load::PeakEwma::new(x, Duration::from_millis(5), 1e7, tower::load::CompleteOnResponse::default())),
            "constant" => plain!(s, x => tower::load::Constant::new(x, 3u32)),
            "optional" => plain!(s, x => Optional::new(Some(x))),
            "either" => match s {
                Sv::C(x) => Sv::C(Cs::new(if r.pct(50) { Either::<Cs, Cs>::Left(x) } else { Either::<Cs, Cs>::Right(x) })),
                Sv::P(x) => Sv::P(Ps::new(if r.pct(50) { Either::<Ps, Ps>::Left(x) } else { Either::<Ps, Ps>::Right(x) })),
            },
            "boxed" => both!(s, x => Box::new(x)),
            "reconnect" => {
                let Sv::C(proto) = s else { return s };
                self.idle |= self.limit;
                if m.faults {
                    m.lossy.store(true, SeqCst);
                }
                let err_pct = *r.pick(&[0u64, 0, 20, 50]);
                if err_pct > 0 {
                    self.facts.connect = true;
                }
                let rr = r.fork();
                let mk = service_fn(move |_t: u8| {
                    let s = proto.clone();
                    let (d, bad) = (rr.range(0, 6), rr.pct(err_pct));
                    Box::pin(async move {
                        sleep_ms(d).await;
                        if bad {
                            Err(BoxError::from(NoConn))
                        } else {
                            Ok(s)
                        }
                    })
                });
                Sv::P(Ps::new(tower::reconnect::Reconnect::new(mk, 7u8)))
            }
            "steer" => {
                let n = r.us(3);
                let mut v = self.sub(n);
                if self.rewait {
                    // what was generated beside it needs slots: keep it out of idle hands
                    return s;
                }
                self.idle |= self.limit;
                v.insert(r.us(v.len() + 1), s);
                let mut ps: Vec<Ps> = vec![];
                for x in v {
                    ps.push(match x {
                        Sv::C(x) => Ps::new(x),
                        Sv::P(x) => x,
                    });
                }
                let k = ps.len();
                let salt = r.u64();
                Sv::P(Ps::new(tower::steer::Steer::new(ps, move |q: &Req, _: &[Ps]| (mix(q.id ^ salt) % k as u64) as usize)))
            }
            "balance" => {
                let n = r.us(4);
                let mut v = self.sub(n);
                if self.rewait {
                    return s;
                }
                self.idle |= self.limit;
                self.facts.balance = true;
                v.insert(r.us(v.len() + 1), s);
                let ep = v.into_iter().map(|x| match x {
                    Sv::C(x) => Ps::new(x),
                    Sv::P(x) => x,
                });
                let done = tower::load::CompleteOnResponse::default();
                match r.below(3) {
                    0 => {
                        let l: Vec<_> = ep.map(|x| tower::load::PendingRequests::new(x, done)).collect();
                        Sv::P(Ps::new(tower::balance::p2c::Balance::new(tower::discover::ServiceList::new::<Req>(l))))
                    }
                    1 => {
                        let l: Vec<_> = ep.map(|x| tower::load::PeakEwma::new(x, Duration::from_millis(5), 1e7, done)).collect();
                        Sv::P(Ps::new(tower::balance::p2c::Balance::new(tower::discover::ServiceList::new::<Req>(l))))
                    }
                    _ => {
                        let l: Vec<_> = ep.map(|x| tower::load::Constant::new(x, r.u64())).collect();
                        Sv::P(Ps::new(tower::balance::p2c::Balance::new(tower::discover::ServiceList::new::<Req>(l))))
                    }
                }
            }
            "future" => {
                let d = r.range(0, 6);
                plain!(s, x => future_service(Box::pin(async move {
                    sleep_ms(d).await;
                    Ok::<_, BoxError>(x)
                })))
            }
            "mapfuture" => both!(s, x => x.map_future(|f| async move { f.await })),
            "then" => match r.below(2) {
                0 => both!(s, x => x.then(|r: Result<Resp, BoxError>| async move { r })),
                _ => both!(s, x => x.and_then(|r: Resp| async move { Ok::<_, BoxError>(r) })),
            },
            _ => unreachable!(),
        };
        self.names.push(kind.to_string());
        both!(out, x => Watch::new(&m, kind, x))
    }
}

fn contract(c: &Case) {
    stacks(c, Mode::Contract, None)
}
fn single(c: &Case) {
    let k = KINDS[c.rng.us(KINDS.len())];
    stacks(c, Mode::Contract, Some(k))
}
fn accounting(c: &Case) {
    stacks(c, Mode::Accounting, None)
}

/// Many requests outstanding at once through a roomy stack, whole runs of them given up together.
fn crowd(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let mut plan = Plan::random(&r);
        plan.resp[3] = 0;
        plan.ready_err_pct = 0;
        let w = World::new(c, plan);
        let m = Arc::new(Mon {
            c: c.clone(),
            w: w.clone(),
            mode: Mode::Accounting,
            faults: false,
            lossy: AtomicBool::new(false),
            live: AtomicI64::new(0),
            st: Mutex::new(MonSt::default()),
        });
        let mut g = Gen {
            r: r.clone(),
            m: m.clone(),
            facts: Facts { copies: 1, ..Facts::default() },
            limit: false,
            rewait: false,
            idle: false,
            roomy: 48,
            names: vec![],
        };
        let mut s = g.leaf();
        for _ in 0..r.us(3) {
            let k = KINDS[r.us(KINDS.len())];
            s = g.add(s, k);
        }
        if matches!(s, Sv::P(_)) || r.pct(75) {
            s = g.add(s, "buffer");
        }
        for _ in 0..r.us(3) {
            let k = *r.pick(&["timeout", "map", "then", "mapfuture", "boxed", "either", "retry", "glimit", "shed", "buffer"]);
            s = g.add(s, k);
        }
        let names = g.names.clone();
        let facts = g.facts.clone();
        ev!(c, "stack {:?}", names);
        let Sv::C(top) = s else { return };
        let sched = Sched::new(c);
        let tally = Rc::new(RefCell::new(Tally::default()));
        let rounds = 1 + r.us(3);
        for round in 0..rounds {
            let n = 4 + r.us(40);
            // a run of neighbours leaves at one moment
            let (a, b) = {
                let x = r.us(n);
                (x, x + r.us(n - x + 1))
            };
            let (at, all) = (r.range(0, 30), r.pct(10));
            for k in 0..n {
                let mut h = top.clone();
                let (c, m, facts, tally) = (c.clone(), m.clone(), facts.clone(), tally.clone());
                let leave = ((a..b).contains(&k) || all).then_some(at);
                let never_looked = r.pct(10);
                let late = if r.pct(15) { r.range(0, 20) } else { 0 };
                sched.spawn(format!("request {}.{}", round, k), async move {
                    let mut tm = leave.map(|d| Box::pin(sleep_ms(d)));
                    if late > 0 {
                        sleep_ms(late).await;
                    }
                    let mut fut: Option<(u64, Pin<Box<<Cs as Service<Req>>::Future>>)> = None;
                    let out = std::future::poll_fn(|cx| {
                        if fut.is_none() {
                            match h.poll_ready(cx) {
                                Poll::Ready(Ok(())) => {
                                    let q = m.w.req();
                                    fut = Some((q.id, Box::pin(h.call(q))));
                                }
                                Poll::Ready(Err(e)) => return Poll::Ready(Some(Err(e))),
                                Poll::Pending => {}
                            }
                        }
                        if let Some((_, f)) = fut.as_mut() {
                            if !never_looked || tm.is_none() {
                                if let Poll::Ready(x) = f.as_mut().poll(cx) {
                                    return Poll::Ready(Some(x));
                                }
                            }
                        }
                        if let Some(t) = tm.as_mut() {
                            if t.as_mut().poll(cx).is_ready() {
                                return Poll::Ready(None);
                            }
                        }
                        Poll::Pending
                    })
                    .await;
                    let id = fut.as_ref().map(|f| f.0);
                    drop(fut);
                    drop(h);
                    match out {
                        Some(out) => {
                            ev!(c, "request {:?} -> {:?}", id, out);
                            tally.borrow_mut().answered += 1;
                            explain(&c, &m, &facts, id, &out);
                            drop(out);
                            if let Some(id) = id {
                                settle().await;
                                open_futures(&c, &m, id, "answered");
                            }
                        }
                        None => match id {
                            Some(id) => {
                                ev!(c, "request {} given up", id);
                                gave_up(&c, &m, &tally, id).await;
                            }
                            None => tally.borrow_mut().waited_out += 1,
                        },
                    }
                });
            }
            if r.pct(40) {
                let stuck = sched.run(Duration::from_secs(3600)).await;
                chk!(c, stuck.is_empty(), "waiting for ever: {:?} in {:?}", stuck, names);
            }
        }
        drop(top);
        let stuck = sched.run(Duration::from_secs(3600)).await;
        chk!(c, stuck.is_empty(), "waiting for ever: {:?} in {:?}", stuck, names);
        sched.clear();
        for _ in 0..3 {
            settle().await;
            advance(5000).await;
        }
        settle().await;
        {
            let t = tally.borrow();
            late_calls(c, &w, &t.gone);
            c.count("answered", t.answered);
            c.count("cancelled in flight", t.cancelled);
            c.count("waits given up", t.waited_out);
            if t.answered > 0 && t.cancelled > 2 {
                c.nontrivial();
            }
        }
        let live = m.live.load(SeqCst);
        chk!(c, live == 0, "{} services or responses between the layers of {:?} are still alive", live, names);
        w.check_no_leak("stack");
        let tasks = tokio::runtime::Handle::current().metrics().num_alive_tasks();
        chk!(c, tasks == 0, "{} background tasks are still running", tasks);
    });
}

const THROUGH: [&str; 21] = [
    "timeout", "limit", "glimit", "shed", "map", "filter", "afilter", "retry", "hedge", "pending", "ewma", "constant", "optional",
    "either", "boxed", "mapfuture", "then", "rate", "future", "spawn", "shed",
];

/// Readiness that goes away below a stack of middlewares that ask every time: the stack must say
/// what the services below say now, and keep the caller's task informed.
fn lost(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let w = World::new(c, Plan { gate: Gate::Open, ..Plan::default() });
        w.lock().once_failed = false;
        let m = Arc::new(Mon {
            c: c.clone(),
            w: w.clone(),
            mode: Mode::Accounting,
            faults: true,
            lossy: AtomicBool::new(true),
            live: AtomicI64::new(0),
            st: Mutex::new(MonSt::default()),
        });
        let mut g = Gen {
            r: r.clone(),
            m: m.clone(),
            facts: Facts { copies: 1, ..Facts::default() },
            limit: false,
            rewait: false,
            idle: false,
            roomy: 4,
            names: vec![],
        };
        let mut s = g.leaf();
        for _ in 0..1 + r.us(5) {
            let k = THROUGH[r.us(THROUGH.len())];
            if (k == "hedge" && g.limit) || (k == "shed" && r.pct(60)) {
                continue;
            }
            s = g.add(s, k);
        }
        let names = g.names.clone();
        let shed = g.facts.shed;
        let has_spawn = names.iter().any(|x| x == "spawn");
        ev!(c, "stack {:?}", names);
        let tk: Vec<Tk> = (0..3).map(|_| Tk::new()).collect();
        let mut cur = 0;
        let (mut losses, mut wakes, mut calls) = (0u64, 0u64, 0u64);
        let ready_now = |w: &World| -> Vec<usize> {
            let i = w.lock();
            (0..i.insts.len()).filter(|&k| i.insts[k].ready && !i.insts[k].dropped).collect()
        };
        for step in 0..4 + r.us(14) {
            if c.violated() {
                return;
            }
            // ready at last, whatever it takes
            let mut up = false;
            for _ in 0..60 {
                match tk[cur].poll(|cx| s.poll_ready(cx)) {
                    Poll::Ready(Ok(())) => {
                        up = true;
                        break;
                    }
                    Poll::Ready(Err(e)) => {
                        c.fail(format!("{:?} failed ({}) although every service below is ready", names, e));
                        return;
                    }
                    Poll::Pending => {
                        settle().await;
                        advance(10).await;
                        settle().await;
                    }
                }
            }
            chk!(c, up, "{:?} never becomes ready although every service below is", names);
            if !up {
                return;
            }
            let again = tk[cur].poll(|cx| s.poll_ready(cx));
            chk!(c, matches!(again, Poll::Ready(Ok(()))), "{:?} was ready and nothing happened, now it is {:?}", names, again);
            if r.pct(25) && !g.facts.retry && names.iter().any(|x| ["shed", "limit", "glimit"].contains(&x.as_str())) {
                if let Sv::C(x) = &s {
                    // a clone has no readiness of its own: what keeps track of it refuses the call
                    let mut y = x.clone();
                    let q = w.req();
                    let id = q.id;
                    let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        let mut f = Box::pin(y.call(q));
                        tk[0].poll(|cx| f.as_mut().poll(cx)).is_ready()
                    }));
                    drop(y);
                    if got.is_err() {
                        take_panics();
                    }
                    let reached = w.lock().calls.iter().any(|k| k.id == id);
                    chk!(c, !reached, "a fresh clone of {:?} passed a call on without having been ready", names);
                    c.count("clones called without being ready", 1);
                }
            }
            if r.pct(35) {
                let q = w.req();
                let id = q.id;
                let mut f = Box::pin(s.call(q));
                let mut out = Poll::Pending;
                for _ in 0..40 {
                    out = tk[cur].poll(|cx| f.as_mut().poll(cx));
                    if out.is_ready() {
                        break;
                    }
                    settle().await;
                    advance(5).await;
                }
                chk!(c, out.is_ready(), "request {} through {:?} is never answered", id, names);
                if let Poll::Ready(out) = &out {
                    explain(c, &m, &g.facts, Some(id), out);
                }
                calls += 1;
                drop(f);
                advance(100).await;
                settle().await;
                continue;
            }
            let up = ready_now(&w);
            if up.is_empty() {
                // readiness seen before is not held by any service below: wait for the next call
                chk!(c, shed, "{:?} is ready and none of its services is", names);
                continue;
            }
            let inst = up[r.us(up.len())];
            let fail = step > 2 && r.pct(20);
            w.revoke(inst, if fail { Gate::Err } else { Gate::Closed });
            losses += 1;
            cur = r.us(3);
            let tk0 = &tk[cur];
            let mut x = tk0.poll(|cx| s.poll_ready(cx));
            if !fail && r.pct(30) && x.is_pending() {
                // another task takes over
                settle().await;
                cur = (cur + 1) % 3;
                x = tk[cur].poll(|cx| s.poll_ready(cx));
            }
            let tk1 = &tk[cur];
            if fail {
                if has_spawn && x.is_pending() {
                    // handed to the background, which finds out
                    settle().await;
                    chk!(c, tk1.woken(), "a service below {:?} failed and the waiting task was not woken", names);
                    x = tk1.poll(|cx| s.poll_ready(cx));
                }
                let ok = matches!(&x, Poll::Ready(Err(e)) if find_fail(&**e).map_or(false, |f| f.call.is_none() && f.inst == inst));
                chk!(c, ok, "s{} below {:?} failed, and the stack says {:?}", inst, names, x);
                if !has_spawn {
                    let y = tk1.poll(|cx| s.poll_ready(cx));
                    chk!(c, !matches!(y, Poll::Ready(Ok(()))), "s{} below {:?} failed for good, and the stack is ready again", inst, names);
                }
                break;
            }
            if shed {
                chk!(c, matches!(x, Poll::Ready(Ok(()))), "{:?} sheds load, and is {:?}", names, x);
                if r.pct(50) {
                    // nothing below may be called now
                    let q = w.req();
                    let id = q.id;
                    let mut f = Box::pin(s.call(q));
                    let mut out = Poll::Pending;
                    for _ in 0..40 {
                        out = tk1.poll(|cx| f.as_mut().poll(cx));
                        if out.is_ready() {
                            break;
                        }
                        settle().await;
                        advance(5).await;
                    }
                    if let Poll::Ready(out) = &out {
                        explain(c, &m, &g.facts, Some(id), out);
                    }
                    if !g.facts.hedge && !g.facts.retry {
                        let bad = matches!(&out, Poll::Ready(Err(e)) if has_err::<tower::load_shed::error::Overloaded>(&**e) || has_err::<Rejected>(&**e));
                        chk!(c, bad, "request {} through {:?}, whose service is not ready, ended as {:?}", id, names, out);
                    }
                }
                w.gate(inst, Gate::Open);
                settle().await;
                advance(50).await;
                continue;
            }
            chk!(c, x.is_pending(), "s{} below {:?} is not ready any more, and the stack says {:?}", inst, names, x);
            if c.violated() {
                return;
            }
            settle().await;
            let fail = step > 2 && r.pct(20);
            w.gate(inst, if fail { Gate::Err } else { Gate::Open });
            settle().await;
            chk!(c, tk[cur].woken(), "s{} below {:?} changed and the task that waits was not woken", inst, names);
            wakes += 1;
            if fail {
                let x = tk[cur].poll(|cx| s.poll_ready(cx));
                let ok = matches!(&x, Poll::Ready(Err(e)) if find_fail(&**e).map_or(false, |f| f.call.is_none() && f.inst == inst));
                chk!(c, ok, "s{} below {:?} failed, and the stack says {:?}", inst, names, x);
                break;
            }
        }
        if losses > 0 && (wakes > 0 || calls > 0) {
            c.nontrivial();
        }
        c.count("readiness lost below", losses);
        c.count("tasks woken", wakes);
        drop(s);
        drop(g);
        settle().await;
    });
}

#[derive(Default)]
struct Tally {
    answered: u64,
    cancelled: u64,
    /// when each request was given up
    gone: BTreeMap<u64, u64>,
    waited_out: u64,
}

fn stacks(c: &Case, mode: Mode, only: Option<&'static str>) {
    sim(async {
        let r = c.rng.clone();
        let mut plan = Plan::random(&r);
        let faults = r.pct(20);
        if faults {
            plan.ready_err_pct = *r.pick(&[3, 10]);
        }
        let never = r.pct(15);
        if never {
            plan.resp[3] = 1;
        }
        let w = World::new(c, plan);
        // the instance under a balancer must not fail: with none left it waits for ever
        let mon = |faults| {
            Arc::new(Mon { c: c.clone(), w: w.clone(), mode, faults, lossy: AtomicBool::new(false), live: AtomicI64::new(0), st: Mutex::new(MonSt::default()) })
        };
        let mut g = Gen {
            r: r.clone(),
            m: mon(faults),
            facts: Facts { copies: 1, never, ..Facts::default() },
            limit: false,
            rewait: false,
            idle: false,
            roomy: 4,
            names: vec![],
        };
        let mut s = g.leaf();
        match only {
            Some(k) => {
                s = g.add(s, k);
            }
            None => {
                for _ in 0..1 + r.us(7) {
                    let mut k = KINDS[r.us(KINDS.len())];
                    if faults && k == "balance" {
                        k = "steer";
                    }
                    // a service that cannot be cloned is often put behind a buffer
                    if matches!(s, Sv::P(_)) && r.pct(30) {
                        k = "buffer";
                    }
                    s = g.add(s, k);
                }
            }
        }
        if only == Some("balance") && faults {
            w.lock().plan.ready_err_pct = 0;
        }
        ev!(c, "stack {:?} faults {} facts {:?}", g.names, faults, g.facts);
        let layers = g.names.len();
        let facts = g.facts.clone();
        let m = g.m.clone();
        let sched = Sched::new(c);
        let mut handles = vec![];
        match s {
            Sv::C(x) => {
                for _ in 0..r.us(3) {
                    handles.push(Sv::C(x.clone()));
                }
                handles.push(Sv::C(x));
            }
            x => handles.push(x),
        }
        let tally = Rc::new(RefCell::new(Tally::default()));
        for (t, h) in handles.into_iter().enumerate() {
            spawn_caller(&sched, c, &m, &facts, &tally, format!("{}", t), h, r.fork(), 1 + r.us(6));
        }
        let stuck = sched.run(Duration::from_secs(3600)).await;
        chk!(c, stuck.is_empty(), "waiting for ever: {:?} in {:?}", stuck, g.names);
        sched.clear();
        // anything still due in the background
        for _ in 0..3 {
            settle().await;
            advance(5000).await;
        }
        settle().await;
        if mode == Mode::Accounting {
            let t = tally.borrow();
            late_calls(c, &w, &t.gone);
            drop(t);
            let live = m.live.load(SeqCst);
            chk!(c, live == 0, "{} services or responses between the layers of {:?} are still alive", live, g.names);
            w.check_no_leak("stack");
            let tasks = tokio::runtime::Handle::current().metrics().num_alive_tasks();
            chk!(c, tasks == 0, "{} background tasks are still running", tasks);
            // copies
            let i = w.lock();
            let mut tags: BTreeMap<u64, BTreeSet<u64>> = BTreeMap::new();
            for x in &i.calls {
                tags.entry(x.id).or_default().insert(x.tag);
            }
            drop(i);
            for (id, t) in &tags {
                chk!(c, t.len() as u64 <= facts.copies, "request {} was sent {} times, at most {} are documented", id, t.len(), facts.copies);
            }
        }
        let t = tally.borrow();
        c.count("answered", t.answered);
        c.count("cancelled in flight", t.cancelled);
        c.count("waits given up", t.waited_out);
        let st = m.st.lock().unwrap();
        c.count("not-ready results seen between layers", st.pendings);
        c.count("monitored service instances", st.insts.len() as u64);
        match mode {
            Mode::Contract => {
                if st.pendings > 0 && (layers >= 3 || only.is_some()) {
                    c.nontrivial();
                }
            }
            Mode::Off => {}
            Mode::Accounting => {
                if t.answered > 0 && t.cancelled > 0 {
                    c.nontrivial();
                }
            }
        }
    });
}

/// After a request was given up nothing may be sent for it any more, and its futures are gone.
fn late_calls(c: &Case, w: &World, gone: &BTreeMap<u64, u64>) {
    let i = w.lock();
    let mut bad = vec![];
    for x in &i.calls {
        if let Some(at) = gone.get(&x.id) {
            if x.seq > *at {
                bad.push(format!("request {} was dispatched after its caller had given up", x.id));
            }
        }
    }
    drop(i);
    for b in bad {
        c.check(false, || b);
    }
}

#[allow(clippy::too_many_arguments)]
fn spawn_caller(
    sched: &Sched,
    c: &Case,
    m: &Arc<Mon>,
    facts: &Facts,
    tally: &Rc<RefCell<Tally>>,
    name: String,
    h: Sv,
    r: Rng,
    n: usize,
) {
    let (c, m, facts, tally, sched2) = (c.clone(), m.clone(), facts.clone(), tally.clone(), sched.clone());
    let name2 = name.clone();
    sched.spawn(format!("caller {}", name2), async move {
        let mut h = h;
        for k in 0..n {
            if c.violated() {
                return;
            }
            let idle = if r.pct(30) { r.range(0, 10) } else { 0 };
            if idle > 0 {
                sleep_ms(idle).await;
            }
            // wait for readiness, perhaps not to the end
            let limit = if r.pct(12) { Some(r.range(0, 10)) } else { None };
            let rd = {
                let h = &mut h;
                let mut tm = limit.map(|d| Box::pin(sleep_ms(d)));
                std::future::poll_fn(move |cx| {
                    if let Some(t) = tm.as_mut() {
                        if t.as_mut().poll(cx).is_ready() {
                            return Poll::Ready(None);
                        }
                    }
                    h.poll_ready(cx).map(Some)
                })
                .await
            };
            match rd {
                None => {
                    tally.borrow_mut().waited_out += 1;
                    // the same handle goes on, or it is replaced by a clone
                    if r.pct(50) {
                        if let Sv::C(x) = &h {
                            h = Sv::C(x.clone());
                        }
                    }
                    continue;
                }
                Some(Err(e)) => {
                    ev!(c, "caller {} not served: {}", name, e);
                    explain(&c, &m, &facts, None, &Err(e));
                    return;
                }
                Some(Ok(())) => {}
            }
            // a ready handle: call it, let it rest, poll it again, clone it, or drop it
            if r.pct(20) {
                sleep_ms(r.range(0, 5)).await;
            }
            if r.pct(15) {
                let again = std::future::poll_fn(|cx| Poll::Ready(h.poll_ready(cx))).await;
                match again {
                    Poll::Ready(Ok(())) => {}
                    Poll::Ready(Err(_)) if m.faults => return,
                    Poll::Pending if m.lossy.load(SeqCst) => continue,
                    x => {
                        m.contract(false, || format!("ready, and when asked again {:?}", x));
                        return;
                    }
                }
            }
            if r.pct(15) {
                if let Sv::C(x) = &h {
                    let y = x.clone();
                    if r.pct(50) {
                        // the clone has to earn its own readiness
                        h = Sv::C(y);
                        continue;
                    } else if k + 1 < n && r.pct(50) {
                        spawn_caller(&sched2, &c, &m, &facts, &tally, format!("{}+", name), Sv::C(y), r.fork(), 1 + r.us(2));
                    }
                }
            }
            let q = m.w.req();
            let id = q.id;
            let fut = h.call(q);
            let (c, m, facts, tally) = (c.clone(), m.clone(), facts.clone(), tally.clone());
            let patience = if facts.never || r.pct(20) { Some(r.range(0, 60)) } else { None };
            let unpolled = r.pct(5);
            sched2.spawn(format!("response {}", id), async move {
                if unpolled {
                    // never looked at
                    sleep_ms(patience.unwrap_or(1)).await;
                    drop(fut);
                    gave_up(&c, &m, &tally, id).await;
                    return;
                }
                let mut fut = Box::pin(fut);
                let mut tm = patience.map(|d| Box::pin(sleep_ms(d)));
                let out = std::future::poll_fn(|cx| {
                    if let Poll::Ready(x) = fut.as_mut().poll(cx) {
                        return Poll::Ready(Some(x));
                    }
                    if let Some(t) = tm.as_mut() {
                        if t.as_mut().poll(cx).is_ready() {
                            return Poll::Ready(None);
                        }
                    }
                    Poll::Pending
                })
                .await;
                drop(fut);
                match out {
                    Some(out) => {
                        ev!(c, "request {} -> {:?}", id, out);
                        tally.borrow_mut().answered += 1;
                        explain(&c, &m, &facts, Some(id), &out);
                        drop(out);
                        settle().await;
                        open_futures(&c, &m, id, "answered");
                    }
                    None => {
                        ev!(c, "request {} given up", id);
                        gave_up(&c, &m, &tally, id).await;
                    }
                }
            });
        }
    });
}

async fn gave_up(c: &Case, m: &Arc<Mon>, tally: &Rc<RefCell<Tally>>, id: u64) {
    let seq = m.w.seq();
    {
        let mut t = tally.borrow_mut();
        t.cancelled += 1;
        t.gone.insert(id, seq);
    }
    settle().await;
    open_futures(c, m, id, "given up");
}

fn open_futures(_c: &Case, m: &Arc<Mon>, id: u64, what: &str) {
    let open: Vec<usize> = {
        let i = m.w.lock();
        (0..i.calls.len()).filter(|k| i.calls[*k].id == id && !i.calls[*k].fut_dropped).collect()
    };
    m.account(open.is_empty(), || format!("request {} was {} and its calls {:?} are still open", id, what, open));
}

/// Every outcome must be one that the layers and services there can produce for this request.
fn explain(c: &Case, m: &Arc<Mon>, f: &Facts, id: Option<u64>, out: &Result<Resp, BoxError>) {
    if m.mode != Mode::Accounting {
        return;
    }
    let calls: Vec<(usize, Option<bool>)> = {
        let i = m.w.lock();
        (0..i.calls.len()).filter(|k| Some(i.calls[*k].id) == id).map(|k| (k, i.calls[k].done.map(|d| d.0))).collect()
    };
    let last = calls.last().map(|x| x.0);
    match out {
        Ok(x) => {
            chk!(c, Some(x.id) == id, "request {:?} was answered with {:?}", id, x);
            let mine = calls.iter().any(|(k, d)| *k == x.call && *d == Some(true));
            chk!(c, mine, "request {:?} was answered with {:?}, which none of its calls {:?} gave", id, x, calls);
            if !f.hedge {
                chk!(c, last == Some(x.call), "request {:?} was answered with {:?} although it was sent again ({:?})", id, x, calls);
            }
        }
        Err(e) => {
            let e: &(dyn std::error::Error + 'static) = &**e;
            let why = if let Some(x) = find_fail(e) {
                match x.call {
                    None => {
                        let bad = m.w.lock().insts.get(x.inst).map_or(false, |i| i.errored);
                        m.faults && bad
                    }
                    Some(k) => {
                        Some(x.id) == id && calls.iter().any(|(j, d)| *j == k && *d == Some(false)) && (f.hedge || last == Some(k))
                    }
                }
            } else if has_err::<Rejected>(e) {
                f.reject
            } else if has_err::<NoConn>(e) {
                f.connect
            } else if has_err::<tower::timeout::error::Elapsed>(e) {
                f.timeout
            } else if has_err::<tower::load_shed::error::Overloaded>(e) {
                f.shed
            } else {
                false
            };
            chk!(c, why, "request {:?} (calls {:?}) ended with {:?}, which nothing here explains", id, calls, e);
        }
    }
}

const FORGOT: [&str; 13] = [
    "rate", "rate", "limit", "limit clone", "shed", "future", "spawn", "reconnect", "optional", "balance", "steer", "buffer", "cache",
];

/// A caller that calls although it was not told ready: what keeps track of readiness refuses, one
/// way or another, and what it wraps never sees the request.
fn unready(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let w = World::new(c, Plan::manual(Gate::Open));
        let tk = Tk::new();
        let kind = FORGOT[r.us(FORGOT.len())];
        ev!(c, "{}", kind);
        c.count("calls made without readiness", 1);
        type Bx = Ps;
        let e = |e: Fail| -> BoxError { e.into() };
        // brings the service to where it is not ready; then what makes it ready again
        let mut after: Box<dyn FnMut()> = Box::new(|| {});
        let mut usable = true;
        let mut keep: Vec<Box<dyn std::any::Any>> = vec![];
        let mut s: Bx = match kind {
            "rate" => {
                let n = r.range(1, 3);
                let mut s = tower::limit::RateLimit::new(w.svc(0), tower::limit::rate::Rate::new(n, Duration::from_millis(r.range(5, 500))));
                for _ in 0..n {
                    let _ = tk.poll(|cx| s.poll_ready(cx));
                    drop(s.call(w.req()));
                }
                if r.pct(50) {
                    let _ = tk.poll(|cx| s.poll_ready(cx));
                }
                Bx::new(s.map_err(e))
            }
            "limit" | "limit clone" => {
                let n = 1 + r.us(3);
                let mut s = tower::limit::ConcurrencyLimit::new(w.svc(0), n);
                let mut open = vec![];
                if kind == "limit" {
                    for _ in 0..n {
                        let _ = tk.poll(|cx| s.poll_ready(cx));
                        open.push(s.call(w.req()));
                    }
                    if r.pct(50) {
                        let _ = tk.poll(|cx| s.poll_ready(cx));
                    }
                } else {
                    let _ = tk.poll(|cx| s.poll_ready(cx));
                    let t = s.clone();
                    keep.push(Box::new(std::mem::replace(&mut s, t)));
                    if n == 1 || r.pct(50) {
                        keep.clear();
                    }
                }
                after = Box::new(move || open.clear());
                Bx::new(s.map_err(e))
            }
            "shed" => {
                let p = w.svc(0);
                let id = p.id;
                let mut s = tower::load_shed::LoadShed::new(p);
                if r.pct(50) {
                    w.gate(id, Gate::Closed);
                    let _ = tk.poll(|cx| s.poll_ready(cx));
                } else {
                    let _ = tk.poll(|cx| s.poll_ready(cx));
                    if r.pct(50) {
                        drop(s.call(w.req()));
                    } else {
                        s = s.clone();
                    }
                }
                let w = w.clone();
                after = Box::new(move || w.gate_all(Gate::Open));
                Bx::new(s)
            }
            "future" => {
                let p = w.svc(0);
                let mut s = future_service(Box::pin(async move {
                    sleep_ms(5).await;
                    Ok::<_, Fail>(p)
                }));
                if r.pct(70) {
                    let _ = tk.poll(|cx| s.poll_ready(cx));
                }
                Bx::new(s.map_err(e))
            }
            "spawn" => {
                let p = w.svc(0);
                let id = p.id;
                w.gate(id, Gate::Closed);
                let mut s = tower::spawn_ready::SpawnReady::new(p);
                let _ = tk.poll(|cx| s.poll_ready(cx));
                if r.pct(50) {
                    settle().await;
                    let _ = tk.poll(|cx| s.poll_ready(cx));
                }
                let w = w.clone();
                after = Box::new(move || w.gate(id, Gate::Open));
                Bx::new(s)
            }
            "reconnect" => {
                let w2 = w.clone();
                let mk = service_fn(move |_: u8| {
                    let p = w2.svc(0);
                    Box::pin(async move {
                        sleep_ms(5).await;
                        Ok::<_, BoxError>(p)
                    })
                });
                let mut s = tower::reconnect::Reconnect::new(mk, 7u8);
                if r.pct(70) {
                    let _ = tk.poll(|cx| s.poll_ready(cx));
                }
                Bx::new(s.map_err(|e| -> BoxError { e }))
            }
            "optional" => {
                usable = false;
                Bx::new(Optional::new::<Req>(None::<Probe>))
            }
            "balance" => {
                let v: Vec<_> = (0..1 + r.us(4)).map(|k| tower::load::Constant::new(w.svc(k as u32), r.u64())).collect();
                if r.pct(50) {
                    w.gate_all(Gate::Closed);
                }
                let mut s = tower::balance::p2c::Balance::new(tower::discover::ServiceList::new::<Req>(v));
                match r.below(3) {
                    0 => {}
                    1 => {
                        if let Poll::Ready(Ok(())) = tk.poll(|cx| s.poll_ready(cx)) {
                            drop(s.call(w.req()));
                        }
                    }
                    _ => {
                        w.gate_all(Gate::Closed);
                        let _ = tk.poll(|cx| s.poll_ready(cx));
                    }
                }
                let w = w.clone();
                after = Box::new(move || w.gate_all(Gate::Open));
                Bx::new(s)
            }
            "steer" => {
                let n = 1 + r.us(4);
                let v: Vec<Probe> = (0..n).map(|k| w.svc(k as u32)).collect();
                let shut = r.us(n);
                w.gate(v[shut].id, Gate::Closed);
                let salt = r.u64();
                let mut s = tower::steer::Steer::new(v, move |q: &Req, _: &[Probe]| (mix(q.id ^ salt) % n as u64) as usize);
                let _ = tk.poll(|cx| s.poll_ready(cx));
                let w = w.clone();
                after = Box::new(move || w.gate_all(Gate::Open));
                Bx::new(s.map_err(e))
            }
            "buffer" => {
                usable = false;
                let n = 1 + r.us(3);
                let mut s = tower::buffer::Buffer::new(w.svc(0), n);
                w.gate_all(Gate::Closed);
                for _ in 0..r.us(n) {
                    let mut x = s.clone();
                    let _ = tk.poll(|cx| x.poll_ready(cx));
                    keep.push(Box::new(x));
                }
                match r.below(3) {
                    0 => {}
                    1 => {
                        let _ = tk.poll(|cx| s.poll_ready(cx));
                        drop(s.call(w.req()));
                    }
                    _ => {
                        let _ = tk.poll(|cx| s.poll_ready(cx));
                        s = s.clone();
                    }
                }
                w.gate_all(Gate::Open);
                Bx::new(s)
            }
            _ => {
                // the cache has no readiness of its own
                let mut cache: tower::ready_cache::ReadyCache<u8, Probe, Req> = Default::default();
                let n = 1 + r.us(4) as u8;
                for k in 0..n {
                    let p = w.svc(k as u32);
                    if r.pct(50) {
                        w.gate(p.id, Gate::Closed);
                    }
                    cache.push(k, p);
                }
                if r.pct(60) {
                    let _ = tk.poll(|cx| cache.poll_pending(cx));
                }
                for k in 0..n + 1 {
                    let up = cache.get_ready(&k).is_some();
                    let before = w.ncalls();
                    let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        drop(cache.call_ready(&k, w.req()));
                    }));
                    let _ = take_panics();
                    chk!(c, got.is_ok() == up, "calling key {} of a cache where it is {}ready ended {:?}", k, if up { "" } else { "not " }, got);
                    chk!(c, w.ncalls() - before == up as usize, "key {}: {} calls", k, w.ncalls() - before);
                    if up {
                        chk!(c, cache.get_ready(&k).is_none(), "key {} is still ready after its call", k);
                    }
                }
                c.nontrivial();
                return;
            }
        };
        let before = w.ncalls();
        let q = w.req();
        let id = q.id;
        let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let mut f = Box::pin(s.call(q));
            tk.poll(|cx| f.as_mut().poll(cx)).is_ready()
        }));
        let _ = take_panics();
        ev!(c, "called: {:?}", got);
        settle().await;
        let seen = w.lock().calls[before..].iter().any(|x| x.id == id);
        chk!(c, !seen, "{} that was not ready passed a call on", kind);
        c.nontrivial();
        if !usable {
            return;
        }
        // it goes on as if nothing had happened
        after();
        let mut up = false;
        for _ in 0..60 {
            if tk.poll(|cx| s.poll_ready(cx)).is_ready() {
                up = true;
                break;
            }
            settle().await;
            advance(10).await;
            settle().await;
        }
        chk!(c, up, "{} is never ready again", kind);
        if up {
            let before = w.ncalls();
            let q = w.req();
            let id = q.id;
            let f = s.call(q);
            let i = w.lock();
            let ids: Vec<u64> = i.calls[before..].iter().map(|x| x.id).collect();
            drop(i);
            chk!(c, ids == [id], "{} passed on {:?} for request {}", kind, ids, id);
            drop(f);
        }
        drop(s);
        drop(keep);
        drop(after);
        settle().await;
        w.check_no_leak(kind);
    });
}
