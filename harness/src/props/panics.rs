//! P31: a panic in one request is that request's affair.
use crate::kit::run::{planned_panic, Planned};
use crate::kit::*;
use futures::{FutureExt, Stream};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::{Mutex, OnceLock};
use std::task::Context;
use tokio::sync::Semaphore;
use tower::discover::Change;
use tower::limit::ConcurrencyLimit;
use tower::load::{CompleteOnResponse, Load, PeakEwma, PendingRequests, TrackCompletion};
use tower::util::BoxCloneService;
use tower::ServiceExt;

pub fn p31() -> Prop {
    Prop {
        id: "P31",
        rule: "requests that make something panic while they are served (the wrapped service's call or readiness, a response's future, a policy, predicate, picker, mapping function, completion hook or load) among requests that do not, over random stacks shared by several tasks and over each component by itself, the panic ending the caller's task or being caught by it; non-trivial: at least one panic was raised and requests were served after it",
        assumptions: &["a caller that catches a panic drops the future it polled"],
        scenarios: vec![
            Scenario::new("stacks", 2500, stacks),
            Scenario::new("parts", 4000, parts),
            Scenario::threaded("threads", 6, threads),
        ],
    }
}

/// Where a request makes something panic.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub(super) enum At {
    Ready,
    New,
    Gone,
    RequestGone,
    AnswerGone,
    FutGone,
    Call,
    Fut,
    Pred,
    PredFut,
    Policy,
    PolicyFut,
    Clone,
    Map,
    After,
    Pick,
    Done,
}
impl At {
    pub(super) fn name(self) -> &'static str {
        match self {
            At::Ready => "a readiness check",
            At::New => "a clone of the service",
            At::Gone => "the drop of a service",
            At::RequestGone => "the drop of a request",
            At::AnswerGone => "the drop of an answer",
            At::FutGone => "the drop of a response's future",
            At::Call => "a call",
            At::Fut => "a response's poll",
            At::Pred | At::PredFut => "a predicate",
            At::Policy | At::PolicyFut => "a policy",
            At::Clone => "a policy's copy",
            At::Map => "a mapping",
            At::After => "a mapping of the answer",
            At::Pick => "a picker",
            At::Done => "a completion",
        }
    }
}
const ATS: [At; 11] = [At::Call, At::Fut, At::Pred, At::PredFut, At::Policy, At::PolicyFut, At::Clone, At::Map, At::After, At::Pick, At::Done];

/// What else user code does when it is run.
pub(super) type Hook = Box<dyn Fn(u64, At) + Send + Sync>;
pub(super) type Spawn = Arc<dyn Fn(Pin<Box<dyn Future<Output = ()> + Send>>) + Send + Sync>;
#[derive(Default)]
pub(super) struct Hi {
    plan: BTreeMap<u64, At>,
    /// requests that did make something panic
    raised: BTreeSet<u64>,
    /// the leaves whose readiness check panics next
    bombs: u64,
    bombed: u64,
    /// every readiness check fails
    pub(super) failing: bool,
    /// requests that fail the first time
    flaky: BTreeSet<u64>,
    alive: i64,
    insts: u64,
    seen: Vec<u64>,
    /// a background task was taken down
    pub(super) dead: bool,
    pub(super) limits: Vec<(Arc<Semaphore>, usize)>,
}
#[derive(Clone)]
pub(super) struct Hub {
    pub(super) c: Case,
    pub(super) i: Arc<Mutex<Hi>>,
    tok: Arc<()>,
    pub(super) r: Rng,
    hook: Arc<OnceLock<Hook>>,
    /// who runs the buffers' workers
    pub(super) spawn: Option<Spawn>,
    /// requests are dropped half-way
    pub(super) drops: bool,
}
pub(super) struct Rq {
    pub(super) id: u64,
    tok: Arc<()>,
    hook: Arc<OnceLock<Hook>>,
}
impl std::fmt::Debug for Rq {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "request {}", self.id)
    }
}
impl Clone for Rq {
    fn clone(&self) -> Rq {
        Rq { id: self.id, tok: self.tok.clone(), hook: self.hook.clone() }
    }
}
impl Drop for Rq {
    fn drop(&mut self) {
        if let Some(f) = self.hook.get() {
            f(self.id, At::RequestGone);
        }
    }
}
pub(super) struct Rs {
    pub(super) id: u64,
    #[allow(dead_code)]
    tok: Arc<()>,
    hook: Arc<OnceLock<Hook>>,
}
impl std::fmt::Debug for Rs {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "answer {}", self.id)
    }
}
impl Drop for Rs {
    fn drop(&mut self) {
        if let Some(f) = self.hook.get() {
            f(self.id, At::AnswerGone);
        }
    }
}
/// The wrapped service's future goes.
struct Going(Hub, u64);
impl Drop for Going {
    fn drop(&mut self) {
        self.0.go(self.1, At::FutGone);
    }
}
pub(super) type Out = Pin<Box<dyn Future<Output = Result<Rs, BoxError>> + Send>>;
pub(super) type Cl = BoxCloneService<Rq, Rs, BoxError>;

impl Hub {
    pub(super) fn new(c: &Case) -> Hub {
        Hub { c: c.clone(), i: Default::default(), tok: Arc::new(()), r: c.rng.fork(), hook: Default::default(), spawn: None, drops: false }
    }
    pub(super) fn rs(&self, id: u64) -> Rs {
        Rs { id, tok: self.tok.clone(), hook: self.hook.clone() }
    }
    pub(super) fn set_hook(&self, f: Hook) {
        let _ = self.hook.set(f);
    }
    fn go(&self, id: u64, a: At) {
        if let Some(f) = self.hook.get() {
            f(id, a);
        }
    }
    pub(super) fn rq(&self, id: u64, at: Option<At>) -> Rq {
        if let Some(a) = at {
            self.i.lock().unwrap().plan.insert(id, a);
        }
        Rq { id, tok: self.tok.clone(), hook: self.hook.clone() }
    }
    /// The request got there.
    fn at(&self, id: u64, a: At) {
        self.go(id, a);
        let hit = {
            let mut i = self.i.lock().unwrap();
            if i.plan.get(&id) == Some(&a) {
                i.plan.remove(&id);
                i.raised.insert(id);
                true
            } else {
                false
            }
        };
        if hit {
            ev!(self.c, "request {}: panic at {:?}", id, a);
            planned_panic();
        }
    }
    pub(super) fn leaf(&self) -> Leaf {
        self.lazy_leaf(false)
    }
    pub(super) fn lazy_leaf(&self, lazy: bool) -> Leaf {
        let mut i = self.i.lock().unwrap();
        i.alive += 1;
        i.insts += 1;
        Leaf { h: self.clone(), n: i.insts, ready: false, lazy }
    }
    pub(super) fn alive(&self) -> i64 {
        self.i.lock().unwrap().alive
    }
    fn raised(&self, id: u64) -> bool {
        self.i.lock().unwrap().raised.contains(&id)
    }
    fn bomb(&self) {
        self.i.lock().unwrap().bombs += 1;
    }
    pub(super) fn tokens(&self) -> usize {
        Arc::strong_count(&self.tok) - 1
    }
}
pub(super) struct Leaf {
    h: Hub,
    n: u64,
    ready: bool,
    lazy: bool,
}
impl Clone for Leaf {
    fn clone(&self) -> Leaf {
        self.h.go(0, At::New);
        self.h.lazy_leaf(self.lazy)
    }
}
impl Drop for Leaf {
    fn drop(&mut self) {
        self.h.i.lock().unwrap().alive -= 1;
        self.h.go(0, At::Gone);
    }
}
impl std::fmt::Debug for Leaf {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "leaf {}", self.n)
    }
}
impl Service<Rq> for Leaf {
    type Response = Rs;
    type Error = BoxError;
    type Future = Out;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), BoxError>> {
        let bomb = {
            let mut i = self.h.i.lock().unwrap();
            let b = i.bombs > 0;
            if b {
                i.bombs -= 1;
                i.bombed += 1;
            }
            b
        };
        if bomb {
            ev!(self.h.c, "leaf {}: panic in the readiness check", self.n);
            planned_panic();
        }
        self.h.go(0, At::Ready);
        if self.h.i.lock().unwrap().failing {
            return Poll::Ready(Err("out of service".into()));
        }
        if self.lazy && !self.ready && self.h.r.pct(20) {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        self.ready = true;
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, q: Rq) -> Out {
        chk!(self.h.c, self.ready, "leaf {} was called with request {} without having reported ready", self.n, q.id);
        self.ready = false;
        let flaky = {
            let mut i = self.h.i.lock().unwrap();
            i.seen.push(q.id);
            i.flaky.remove(&q.id)
        };
        self.h.at(q.id, At::Call);
        let (h, d) = (self.h.clone(), self.h.r.below(6));
        let going = Going(self.h.clone(), q.id);
        Box::pin(async move {
            let _going = going;
            if d > 2 {
                tokio::time::sleep(Duration::from_millis(d - 2)).await;
            }
            h.at(q.id, At::Fut);
            if flaky {
                return Err("try again".into());
            }
            Ok(Rs { id: q.id, tok: q.tok.clone(), hook: q.hook.clone() })
        })
    }
}

/// Sees what takes a background task down.
struct Fence<S>(S, Hub);
struct Guard<'a>(&'a Hub);
impl Drop for Guard<'_> {
    fn drop(&mut self) {
        if std::thread::panicking() {
            self.0.i.lock().unwrap().dead = true;
        }
    }
}
impl<S: Service<Rq, Response = Rs, Error = BoxError>> Service<Rq> for Fence<S> {
    type Response = Rs;
    type Error = BoxError;
    type Future = S::Future;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), BoxError>> {
        let _g = Guard(&self.1);
        let r = self.0.poll_ready(cx);
        if let Poll::Ready(Err(_)) = r {
            self.1.i.lock().unwrap().dead = true;
        }
        r
    }
    fn call(&mut self, q: Rq) -> S::Future {
        let _g = Guard(&self.1);
        self.0.call(q)
    }
}

#[derive(Clone)]
struct Pol(u32, Arc<tower::retry::budget::TpsBudget>, Hub);
impl tower::retry::Policy<Rq, Rs, BoxError> for Pol {
    type Future = Pin<Box<dyn Future<Output = ()> + Send>>;
    fn retry(&mut self, q: &mut Rq, x: &mut Result<Rs, BoxError>) -> Option<Self::Future> {
        use tower::retry::budget::Budget;
        self.2.at(q.id, At::Policy);
        match x {
            Ok(_) => {
                self.1.deposit();
                None
            }
            Err(_) if self.0 > 0 => {
                self.0 -= 1;
                let (h, id) = (self.2.clone(), q.id);
                Some(Box::pin(async move {
                    tokio::time::sleep(Duration::from_millis(1)).await;
                    h.at(id, At::PolicyFut);
                }))
            }
            Err(_) => None,
        }
    }
    fn clone_request(&mut self, q: &Rq) -> Option<Rq> {
        self.2.at(q.id, At::Clone);
        Some(q.clone())
    }
}
#[derive(Clone)]
pub(super) struct HPol(pub(super) Hub);
impl tower::hedge::Policy<Rq> for HPol {
    fn clone_request(&self, q: &Rq) -> Option<Rq> {
        self.0.at(q.id, At::Clone);
        Some(q.clone())
    }
    fn can_retry(&self, q: &Rq) -> bool {
        self.0.at(q.id, At::Policy);
        true
    }
}
#[derive(Clone)]
pub(super) struct Comp(pub(super) Hub);
impl<H> TrackCompletion<H, Rs> for Comp {
    type Output = Rs;
    fn track_completion(&self, h: H, x: Rs) -> Rs {
        self.0.at(x.id, At::Done);
        drop(h);
        x
    }
}

pub(super) const KINDS: u64 = 17;
pub(super) fn over(k: u64, s: Cl, h: &Hub, names: &mut Vec<&'static str>) -> Cl {
    let r = &h.r;
    let h2 = h.clone();
    let buffered = |s: BoxSvc, n: usize| -> Cl {
        match &h.spawn {
            None => Cl::new(tower::buffer::Buffer::new(Fence(s, h.clone()), n)),
            Some(f) => {
                let (b, w) = tower::buffer::Buffer::pair(Fence(s, h.clone()), n);
                f(Box::pin(w));
                Cl::new(b)
            }
        }
    };
    type BoxSvc = tower::util::BoxService<Rq, Rs, BoxError>;
    let shares = names.iter().any(|n| n.starts_with("buffer") || *n == "concurrency limit");
    macro_rules! n {
        ($x:literal, $e:expr) => {{
            names.push($x);
            $e
        }};
    }
    match k {
        0 => n!("buffer", buffered(BoxSvc::new(s), *r.pick(&[1, 2, 5]))),
        1 | 2 => n!("concurrency limit", {
            let n = r.range(1, 3) as usize;
            let sem = Arc::new(Semaphore::new(n));
            h.i.lock().unwrap().limits.push((sem.clone(), n));
            Cl::new(ConcurrencyLimit::with_semaphore(s, sem))
        }),
        3 => n!("timeout", Cl::new(tower::timeout::Timeout::new(s, Duration::from_secs(100_000)))),
        4 | 5 => n!("retry", Cl::new(tower::retry::Retry::new(
            // a retry may wait for a place that an idle handle holds for a request that was dropped
            Pol(if shares && h.drops { 0 } else { r.range(0, 2) as u32 }, Arc::new(Default::default()), h2),
            s
        ))),
        6 => n!("filter", Cl::new(tower::filter::Filter::new(s, move |q: Rq| {
            h2.at(q.id, At::Pred);
            Ok::<_, BoxError>(q)
        }))),
        7 => n!("async filter", Cl::new(tower::filter::AsyncFilter::new(s, move |q: Rq| {
            h2.at(q.id, At::Pred);
            let h = h2.clone();
            Box::pin(async move {
                let mut first = true;
                std::future::poll_fn(|cx| {
                    if std::mem::take(&mut first) {
                        cx.waker().wake_by_ref();
                        return Poll::Pending;
                    }
                    Poll::Ready(())
                })
                .await;
                h.at(q.id, At::PredFut);
                Ok::<_, BoxError>(q)
            }) as Pin<Box<dyn Future<Output = Result<Rq, BoxError>> + Send>>
        }))),
        8 => n!("map request", Cl::new(s.map_request(move |q: Rq| {
            h2.at(q.id, At::Map);
            q
        }))),
        9 => n!("map response", Cl::new(s.map_response(move |x: Rs| {
            h2.at(x.id, At::After);
            x
        }))),
        10 => n!("then", Cl::new(s.then(move |x: Result<Rs, BoxError>| {
            let h = h2.clone();
            async move {
                if let Ok(x) = &x {
                    h.at(x.id, At::After);
                }
                x
            }
        }))),
        11 => n!("map result", Cl::new(s.map_result(move |x: Result<Rs, BoxError>| {
            if let Ok(x) = &x {
                h2.at(x.id, At::After);
            }
            x
        }))),
        12 => n!("and then", Cl::new(s.and_then(move |x: Rs| {
            let h = h2.clone();
            async move {
                h.at(x.id, At::Done);
                Ok::<_, BoxError>(x)
            }
        }))),
        13 => n!("buffer over spawn ready", buffered(BoxSvc::new(tower::spawn_ready::SpawnReady::new(s)), 3)),
        14 => n!("buffer over hedge", buffered(BoxSvc::new(tower::hedge::Hedge::new(s, HPol(h2), r.range(0, 3), 0.5, Duration::from_millis(r.range(1, 50)))), 3)),
        15 => n!("buffer over steer", {
            let v = if shares { vec![s] } else { vec![s.clone(), s] };
            buffered(
                BoxSvc::new(tower::steer::Steer::new(v, move |q: &Rq, s: &[Cl]| {
                    h2.at(q.id, At::Pick);
                    q.id as usize % s.len()
                })),
                3,
            )
        }),
        100 => n!("buffer over balance", {
            let v = if shares { vec![s] } else { vec![s.clone(), s.clone(), s] };
            let v: Vec<_> = v.into_iter().map(|s| PendingRequests::new(s, Comp(h.clone()))).collect();
            buffered(BoxSvc::new(tower::balance::p2c::Balance::new(tower::discover::ServiceList::new(v))), 2)
        }),
        101 => n!("short timeout", Cl::new(tower::timeout::Timeout::new(s, Duration::from_millis(r.range(1, 3))))),
        102 => n!("load shed", Cl::new(tower::load_shed::LoadShed::new(s))),
        103 => n!("buffer over rate limit", {
            let rate = tower::limit::rate::Rate::new(r.range(1, 5), Duration::from_millis(r.range(1, 4)));
            buffered(BoxSvc::new(tower::limit::RateLimit::new(s, rate)), 2)
        }),
        _ => n!("buffer over peak ewma", buffered(
            BoxSvc::new(PeakEwma::new(s, Duration::from_millis(5), 1e9, Comp(h2))),
            3
        )),
    }
}
fn stack(h: &Hub, max: u64) -> (Cl, String) {
    let mut names = vec![];
    let mut s = Cl::new(h.lazy_leaf(h.r.pct(50)));
    for _ in 0..h.r.range(1, max) {
        s = over(h.r.below(KINDS), s, h, &mut names);
    }
    names.reverse();
    (s, names.join(" over "))
}
/// What became of a request.
pub(super) fn judge(h: &Hub, id: u64, planned: Option<At>, got: &Result<Result<Rs, BoxError>, Box<dyn std::any::Any + Send>>, dead: bool, flaky: bool) {
    let c = &h.c;
    match got {
        Ok(Ok(x)) => {
            chk!(c, x.id == id, "request {} got the answer to {}", id, x.id);
        }
        Ok(Err(e)) => {
            let e = e.to_string();
            if flaky && e.contains("try again") {
                return;
            }
            chk!(c, dead, "request {} ({:?}) fails although nothing it needs was taken down: {}", id, planned, e);
        }
        Err(p) => {
            let ours = p.is::<Planned>() && (h.raised(id) || h.i.lock().unwrap().bombed > 0);
            chk!(c, ours, "request {} ({:?}) panics because of another", id, planned);
        }
    }
}

fn stacks(c: &Case) {
    sim(async {
        let r = c.rng.fork();
        let h = Hub::new(c);
        let (s, name) = stack(&h, 4);
        ev!(c, "{}", name);
        let sc = Sched::new(c);
        let next = Arc::new(Mutex::new(0u64));
        // a task that catches its panics goes on with the service it has (which may hold a place
        // of one kind while it waits for one of another, so not with several kinds of places)
        let places = name.split(" over ").filter(|n| *n == "buffer" || *n == "concurrency limit").count();
        let keep = places < 2 && r.pct(40);
        let bombs = r.pct(25);
        let share = *r.pick(&[10u64, 30, 60]);
        let flaky_pct = *r.pick(&[0u64, 0, 30]);
        let panics = Arc::new(Mutex::new((0u64, 0u64)));
        let worker = |left: u64, quiet: bool| {
            let (h, r, next, base, panics) = (h.clone(), r.fork(), next.clone(), s.clone(), panics.clone());
            async move {
                let mut s = base.clone();
                for _ in 0..left {
                    let id = {
                        let mut n = next.lock().unwrap();
                        *n += 1;
                        *n
                    };
                    let at = (!quiet && r.pct(share)).then(|| *r.pick(&ATS));
                    let flaky = !quiet && r.pct(flaky_pct);
                    if flaky {
                        h.i.lock().unwrap().flaky.insert(id);
                    }
                    if bombs && !quiet && r.pct(10) {
                        h.bomb();
                    }
                    let q = h.rq(id, at);
                    let fut = async {
                        std::future::poll_fn(|cx| s.poll_ready(cx)).await?;
                        s.call(q).await
                    };
                    let got = AssertUnwindSafe(fut).catch_unwind().await;
                    let dead = h.i.lock().unwrap().dead;
                    ev!(h.c, "request {} ({:?}): {}", id, at, match &got { Ok(Ok(_)) => "answered", Ok(Err(_)) => "failed", Err(_) => "panicked" });
                    judge(&h, id, at, &got, dead, flaky);
                    let mut p = panics.lock().unwrap();
                    match got {
                        Err(_) => {
                            p.0 += 1;
                            if !keep {
                                s = base.clone();
                            }
                        }
                        Ok(_) if p.0 > 0 => p.1 += 1,
                        _ => {}
                    }
                    drop(p);
                    if r.pct(30) {
                        tokio::time::sleep(Duration::from_millis(r.below(4))).await;
                    }
                }
            }
        };
        for k in 0..r.range(1, 5) {
            sc.spawn(format!("caller {}", k), worker(r.range(1, 8), false));
        }
        let left = sc.run(Duration::from_secs(50_000)).await;
        chk!(c, left.is_empty(), "{}: {:?} wait for ever", name, left);
        sc.clear();
        {
            let mut i = h.i.lock().unwrap();
            i.bombs = 0;
            i.plan.clear();
        }
        // afterwards everything is as good as new
        let sc = Sched::new(c);
        for k in 0..r.range(2, 6) {
            sc.spawn(format!("later caller {}", k), worker(2, true));
        }
        let left = sc.run(Duration::from_secs(20_000)).await;
        chk!(c, left.is_empty(), "{}: after all panics {:?} wait for ever", name, left);
        sc.clear();
        let p = *panics.lock().unwrap();
        c.count("panics caught by callers", p.0);
        c.count("background tasks taken down", h.i.lock().unwrap().dead as u64);
        let raised = {
            let i = h.i.lock().unwrap();
            i.raised.len() as u64 + i.bombed
        };
        c.count("panics raised", raised);
        if raised > 0 && (p.1 > 0 || h.i.lock().unwrap().dead) {
            c.nontrivial();
        }
        drop(worker);
        drop(s);
        settle().await;
        advance(10).await;
        settle().await;
        at_rest(&h, &name);
    });
}
pub(super) fn at_rest(h: &Hub, name: &str) {
    let c = &h.c;
    for (s, n) in &h.i.lock().unwrap().limits {
        chk!(c, s.available_permits() == *n, "{}: {} of {} permits are left at the end", name, s.available_permits(), n);
    }
    chk!(c, h.alive() == 0, "{}: {} services are alive at the end", name, h.alive());
    chk!(c, h.tokens() == 0, "{}: {} requests or responses are alive at the end", name, h.tokens());
}

fn threads(c: &Case) {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_time().build().unwrap();
    let rounds = if c.thorough { 60 } else { 20 };
    for _ in 0..rounds {
        if c.violated() {
            break;
        }
        let h = Hub::new(c);
        let r = c.rng.fork();
        let g = rt.enter();
        let (s, name) = stack(&h, 4);
        drop(g);
        rt.block_on(async {
            let mut tasks = vec![];
            let n = r.range(20, 120);
            for id in 1..=n {
                let at = r.pct(25).then(|| *r.pick(&ATS));
                let (s, q) = (s.clone(), h.rq(id, at));
                tasks.push((id, at, tokio::spawn(s.oneshot(q))));
            }
            for (id, at, t) in tasks {
                let got = match tokio::time::timeout(Duration::from_secs(60), t).await {
                    Err(_) => {
                        c.fail(format!("{}: request {} waits for ever", name, id));
                        return;
                    }
                    Ok(Ok(x)) => Ok(x),
                    Ok(Err(e)) => Err(e.into_panic()),
                };
                let dead = h.i.lock().unwrap().dead;
                judge(&h, id, at, &got, dead, false);
            }
            c.count("threaded requests", n);
            drop(s);
            for _ in 0..2000 {
                if h.alive() == 0 && h.tokens() == 0 {
                    break;
                }
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
            at_rest(&h, &name);
            if !h.i.lock().unwrap().raised.is_empty() {
                c.nontrivial();
            }
        });
    }
}

/// Nothing panics, but callers give up, on several threads.
pub(super) fn crowd_threads(c: &Case) {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_time().build().unwrap();
    let rounds = if c.thorough { 60 } else { 20 };
    for _ in 0..rounds {
        if c.violated() {
            break;
        }
        let h = Hub::new(c);
        let r = c.rng.fork();
        let g = rt.enter();
        let (s, name) = stack(&h, 4);
        drop(g);
        let copies = name.contains("hedge") || name.contains("retry");
        rt.block_on(async {
            let mut tasks = vec![];
            let n = r.range(20, 120);
            let share = *r.pick(&[5u64, 25, 60]);
            for id in 1..=n {
                let (s, q) = (s.clone(), h.rq(id, None));
                let t = tokio::spawn(s.oneshot(q));
                if r.pct(share) {
                    let (a, wait) = (t.abort_handle(), r.below(4));
                    tokio::spawn(async move {
                        match wait {
                            0 => {}
                            1 => tokio::task::yield_now().await,
                            _ => tokio::time::sleep(Duration::from_micros(400 * wait)).await,
                        }
                        a.abort();
                    });
                }
                tasks.push((id, t));
            }
            let (mut done, mut gone) = (0, 0);
            for (id, t) in tasks {
                let got = match tokio::time::timeout(Duration::from_secs(60), t).await {
                    Err(_) => {
                        c.fail(format!("{}: request {} waits for ever", name, id));
                        return;
                    }
                    Ok(Err(e)) if e.is_cancelled() => {
                        gone += 1;
                        continue;
                    }
                    Ok(Ok(x)) => Ok(x),
                    Ok(Err(e)) => Err(e.into_panic()),
                };
                let times = h.i.lock().unwrap().seen.iter().filter(|x| **x == id).count();
                chk!(c, times >= 1 || !matches!(got, Ok(Ok(_))), "{}: request {} is answered, but was not dispatched", name, id);
                judge(&h, id, None, &got, false, false);
                done += 1;
            }
            if !copies {
                let mut seen = h.i.lock().unwrap().seen.clone();
                seen.sort_unstable();
                for x in seen.windows(2) {
                    chk!(c, x[0] != x[1], "{}: request {} was dispatched more than once", name, x[0]);
                }
            }
            c.count("threaded requests", n);
            drop(s);
            for _ in 0..2000 {
                if h.alive() == 0 && h.tokens() == 0 {
                    break;
                }
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
            at_rest(&h, &name);
            c.fp(done * 256 + gone);
            if done > 0 && gone > 0 {
                c.nontrivial();
            }
        });
    }
}

// ---- single components, by hand ----

/// Run `f`; a panic of the plan gives `None`.
fn guard<T>(f: impl FnOnce() -> T) -> Option<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Some(x),
        Err(p) if p.is::<Planned>() => None,
        Err(p) => std::panic::resume_unwind(p),
    }
}
fn once<T>(f: impl FnOnce(&mut Context<'_>) -> Poll<T>) -> Poll<T> {
    Tk::new().poll(f)
}

fn parts(c: &Case) {
    let r = c.rng.fork();
    let k = r.below(10);
    c.fp(k);
    sim(async {
        let h = Hub::new(c);
        match k {
            0 => limit(c, &r, &h).await,
            1 => loads(c, &r, &h).await,
            2 => hedge(c, &r, &h).await,
            3 => steer(c, &r, &h).await,
            4 => balance(c, &r, &h).await,
            5 => reconnect(c, &r, &h).await,
            6 => spawn(c, &r, &h).await,
            7 => call_all(c, &r, &h).await,
            8 => rate(c, &r, &h).await,
            _ => buffer(c, &r, &h).await,
        }
        settle().await;
        advance(50).await;
        settle().await;
        at_rest(&h, "at last");
    });
}
fn plan(r: &Rng, pct: u64, of: &[At]) -> Option<At> {
    r.pct(pct).then(|| *r.pick(of))
}

async fn limit(c: &Case, r: &Rng, h: &Hub) {
    ev!(c, "concurrency limit");
    let n = r.range(1, 4) as usize;
    let sem = Arc::new(Semaphore::new(n));
    h.i.lock().unwrap().limits.push((sem.clone(), n));
    let base = ConcurrencyLimit::with_semaphore(h.leaf(), sem.clone());
    let mut svcs: Vec<_> = (0..r.range(1, 5)).map(|_| (base.clone(), false)).collect();
    let mut futs = VecDeque::new();
    let mut panics = 0;
    for id in 1..r.range(10, 80) {
        let k = r.us(svcs.len());
        match r.below(6) {
            0 => {
                if r.pct(15) {
                    h.bomb();
                }
                let s = &mut svcs[k];
                match guard(|| once(|cx| s.0.poll_ready(cx))) {
                    None => {
                        panics += 1;
                        // it may keep the place it got; another takes its turn
                        if r.pct(50) {
                            *s = (base.clone(), false);
                        }
                    }
                    Some(x) => s.1 = x.is_ready(),
                }
                h.i.lock().unwrap().bombs = 0;
            }
            1 | 2 if svcs[k].1 => {
                svcs[k].1 = false;
                let q = h.rq(id, plan(r, 40, &[At::Call, At::Fut]));
                match guard(|| svcs[k].0.call(q)) {
                    None => panics += 1,
                    Some(f) => futs.push_back(Box::pin(f)),
                }
            }
            3 => {
                if let Some(mut f) = futs.pop_front() {
                    match guard(|| once(|cx| f.as_mut().poll(cx)).is_ready()) {
                        None => panics += 1,
                        Some(true) => {}
                        Some(false) => futs.push_back(f),
                    }
                }
            }
            4 if r.pct(30) => svcs[k] = (base.clone(), false),
            _ => advance(r.below(4)).await,
        }
        // at most what is out is missing
        let out = futs.len() + svcs.len();
        chk!(c, sem.available_permits() + out >= n, "{} of {} permits with {} requests out and {} handles", sem.available_permits(), n, futs.len(), svcs.len());
    }
    svcs.clear();
    futs.clear();
    chk!(c, sem.available_permits() == n, "after {} panics {} of {} permits are left", panics, sem.available_permits(), n);
    // and can be had
    let mut all: Vec<_> = (0..n).map(|_| base.clone()).collect();
    for s in &mut all {
        let ready = once(|cx| s.poll_ready(cx)).is_ready();
        chk!(c, ready, "after {} panics fewer than {} are admitted", panics, n);
    }
    if panics > 0 {
        c.nontrivial();
    }
}

async fn loads(c: &Case, r: &Rng, h: &Hub) {
    ev!(c, "loads");
    let mut a = PendingRequests::new(h.leaf(), Comp(h.clone()));
    let mut b = PeakEwma::new(h.leaf(), Duration::from_millis(10), 1e9, Comp(h.clone()));
    let (mut fa, mut fb) = (VecDeque::new(), VecDeque::new());
    let mut panics = 0;
    let idle = b.load();
    for id in 1..r.range(10, 60) {
        macro_rules! one {
            ($s:ident, $f:ident) => {
                match r.below(4) {
                    0 | 1 => {
                        if r.pct(10) {
                            h.bomb();
                        }
                        match guard(|| once(|cx| $s.poll_ready(cx))) {
                            Some(Poll::Ready(Ok(()))) => {
                                let q = h.rq(id, plan(r, 40, &[At::Call, At::Fut, At::Done]));
                                match guard(|| $s.call(q)) {
                                    None => panics += 1,
                                    Some(f) => $f.push_back(Box::pin(f)),
                                }
                            }
                            Some(_) => {}
                            None => panics += 1,
                        }
                        h.i.lock().unwrap().bombs = 0;
                    }
                    2 => {
                        if let Some(mut f) = $f.pop_front() {
                            match guard(|| once(|cx| f.as_mut().poll(cx)).is_ready()) {
                                None => panics += 1,
                                Some(true) => {}
                                Some(false) => $f.push_back(f),
                            }
                        }
                    }
                    _ => advance(r.below(4)).await,
                }
            };
        }
        if r.pct(50) {
            one!(a, fa);
        } else {
            one!(b, fb);
        }
        let x = a.load();
        chk!(c, format!("{:?}", x) == format!("{:?}", count(fa.len())), "the load is {:?} with {} requests out after {} panics", x, fa.len(), panics);
        let _ = b.load();
    }
    fa.clear();
    fb.clear();
    let (x, y) = (a.load(), b.load());
    chk!(c, format!("{:?}", x) == format!("{:?}", count(0)), "the load is {:?} at rest after {} panics", x, panics);
    // nothing is outstanding: the load is the estimate alone, as with one request it is twice that
    if once(|cx| b.poll_ready(cx)).is_ready() {
        let f = b.call(h.rq(1000, None));
        let z = b.load();
        let (y, z) = (num(&y), num(&z));
        chk!(c, (z - 2.0 * y).abs() <= z * 0.01, "with one request out the load is {} instead of twice {} after {} panics", z, y, panics);
        drop(f);
    }
    let _ = idle;
    if panics > 0 {
        c.nontrivial();
    }
}
fn count(n: usize) -> tower::load::pending_requests::Count {
    // the only way to a count from outside
    struct Nothing;
    impl Service<()> for Nothing {
        type Response = ();
        type Error = BoxError;
        type Future = std::future::Pending<Result<(), BoxError>>;
        fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), BoxError>> {
            Poll::Ready(Ok(()))
        }
        fn call(&mut self, _: ()) -> Self::Future {
            std::future::pending()
        }
    }
    let mut s = PendingRequests::new(Nothing, CompleteOnResponse::default());
    let f: Vec<_> = (0..n).map(|_| s.call(())).collect();
    let x = s.load();
    drop(f);
    x
}
fn num<T: std::fmt::Debug>(x: &T) -> f64 {
    format!("{:?}", x).trim_start_matches("Cost(").trim_end_matches(')').parse().unwrap()
}

async fn hedge(c: &Case, r: &Rng, h: &Hub) {
    ev!(c, "hedge");
    let mut s = tower::hedge::Hedge::new_with_mock_latencies(h.leaf(), HPol(h.clone()), 1, 0.5, Duration::from_secs(*r.pick(&[1u64, 100_000])), &[1, 1, 1]);
    let mut panics = 0;
    for id in 1..r.range(5, 40) {
        if r.pct(8) {
            h.bomb();
        }
        let ready = guard(|| once(|cx| s.poll_ready(cx)));
        match ready {
            None => {
                panics += 1;
                continue;
            }
            Some(Poll::Pending) => continue,
            Some(Poll::Ready(x)) => {
                chk!(c, x.is_ok(), "not ready after {} panics: {:?}", panics, x.map_err(|e| e.to_string()));
            }
        }
        let q = h.rq(id, plan(r, 40, &[At::Call, At::Fut, At::Clone, At::Policy]));
        let f = match guard(|| s.call(q)) {
            None => {
                panics += 1;
                chk!(c, h.raised(id), "request {} panics because of another", id);
                continue;
            }
            Some(f) => f,
        };
        let got = tokio::time::timeout(Duration::from_secs(100), AssertUnwindSafe(f).catch_unwind()).await;
        match got {
            Err(_) => c.fail(format!("request {} waits for ever after {} panics", id, panics)),
            Ok(Ok(x)) => {
                let ok = matches!(&x, Ok(x) if x.id == id);
                chk!(c, ok, "request {} is answered {:?} after {} panics", id, x.map(|x| x.id).map_err(|e| e.to_string()), panics);
            }
            Ok(Err(p)) => {
                panics += 1;
                chk!(c, p.is::<Planned>() && (h.raised(id) || h.i.lock().unwrap().bombed > 0), "request {} panics because of another", id);
            }
        }
        h.i.lock().unwrap().bombs = 0;
    }
    if panics > 0 {
        c.nontrivial();
    }
}

async fn steer(c: &Case, r: &Rng, h: &Hub) {
    ev!(c, "steer");
    let n = r.range(1, 4);
    let h2 = h.clone();
    let svcs: Vec<Leaf> = (0..n).map(|_| h.lazy_leaf(r.pct(30))).collect();
    let mut s = tower::steer::Steer::new(svcs, move |q: &Rq, _: &[Leaf]| {
        h2.at(q.id, At::Pick);
        (q.id % n) as usize
    });
    let (mut panics, mut after) = (0, 0);
    for id in 1..r.range(5, 40) {
        if r.pct(8) {
            h.bomb();
        }
        let mut ready = false;
        for _ in 0..60 {
            match guard(|| once(|cx| s.poll_ready(cx))) {
                None => panics += 1,
                Some(Poll::Ready(x)) => {
                    ready = x.is_ok();
                    break;
                }
                Some(Poll::Pending) => {}
            }
        }
        if !chk!(c, ready, "not ready after {} panics although every service is", panics) {
            return;
        }
        let q = h.rq(id, plan(r, 40, &[At::Call, At::Fut, At::Pick]));
        match guard(|| s.call(q)) {
            None => panics += 1,
            Some(f) => match AssertUnwindSafe(f).catch_unwind().await {
                Ok(x) => {
                    after += panics;
                    let ok = matches!(&x, Ok(x) if x.id == id);
                    chk!(c, ok, "request {} is answered {:?}", id, x.map(|x| x.id).map_err(|e| e.to_string()));
                }
                Err(_) => panics += 1,
            },
        }
    }
    if after > 0 {
        c.nontrivial();
    }
}

/// A leaf whose load may panic, too.
struct Heavy(Leaf);
impl Load for Heavy {
    type Metric = u64;
    fn load(&self) -> u64 {
        let bomb = {
            let mut i = self.0.h.i.lock().unwrap();
            let b = i.bombs >= 1000;
            if b {
                i.bombs -= 1000;
                i.bombed += 1;
            }
            b
        };
        if bomb {
            ev!(self.0.h.c, "panic in a load");
            planned_panic();
        }
        self.0.n % 3
    }
}
impl Service<Rq> for Heavy {
    type Response = Rs;
    type Error = BoxError;
    type Future = Out;
    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), BoxError>> {
        self.0.ready = true;
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, q: Rq) -> Out {
        self.0.call(q)
    }
}
type Chg = Result<Change<u64, Heavy>, BoxError>;
struct Feed(Arc<Mutex<VecDeque<Chg>>>);
impl Stream for Feed {
    type Item = Chg;
    fn poll_next(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Chg>> {
        match self.0.lock().unwrap().pop_front() {
            Some(x) => Poll::Ready(Some(x)),
            None => Poll::Pending,
        }
    }
}
async fn balance(c: &Case, r: &Rng, h: &Hub) {
    ev!(c, "balance");
    let q = Arc::new(Mutex::new(VecDeque::new()));
    let mut s = tower::balance::p2c::Balance::new(Feed(q.clone()));
    let mut key = 0;
    let (mut panics, mut after) = (0, 0);
    let (mut added, mut lost) = (0i64, 0i64);
    for id in 1..r.range(5, 50) {
        if r.pct(20) || key == 0 {
            key += 1;
            added += 1;
            q.lock().unwrap().push_back(Ok(Change::Insert(key, Heavy(h.leaf()))));
        }
        if r.pct(8) {
            h.i.lock().unwrap().bombs = 1000;
        }
        let x = match guard(|| once(|cx| Service::<Rq>::poll_ready(&mut s, cx))) {
            None => {
                panics += 1;
                h.i.lock().unwrap().bombs = 0;
                once(|cx| Service::<Rq>::poll_ready(&mut s, cx))
            }
            Some(x) => x,
        };
        h.i.lock().unwrap().bombs = 0;
        let live = added - lost;
        if live == 0 {
            continue;
        }
        if !chk!(c, matches!(x, Poll::Ready(Ok(()))), "not ready with {} endpoints ready, after {} panics", live, panics) {
            return;
        }
        let q = h.rq(id, plan(r, 30, &[At::Call, At::Fut]));
        match guard(|| s.call(q)) {
            None => {
                // the endpoint that panicked may be given up, no other
                panics += 1;
                let n = h.alive();
                chk!(c, n == live || n == live - 1, "{} of {} endpoints are left after one panicked", n, live);
                lost += live - n;
            }
            Some(f) => match AssertUnwindSafe(f).catch_unwind().await {
                Ok(x) => {
                    after += panics;
                    let ok = matches!(&x, Ok(x) if x.id == id);
                    chk!(c, ok, "request {} is answered {:?}", id, x.map(|x| x.id).map_err(|e| e.to_string()));
                }
                Err(_) => panics += 1,
            },
        }
        chk!(c, h.alive() == added - lost, "{} endpoints are alive, {} were added and {} lost", h.alive(), added, lost);
        let n = s.len() as i64;
        chk!(c, n == h.alive(), "the balancer says it has {} endpoints, {} are alive, after {} panics", n, h.alive(), panics);
    }
    q.lock().unwrap().clear();
    if after > 0 {
        c.nontrivial();
    }
}

async fn reconnect(c: &Case, r: &Rng, h: &Hub) {
    ev!(c, "reconnect");
    let h2 = h.clone();
    let boom = Arc::new(Mutex::new(0u64));
    let b2 = boom.clone();
    let mk = tower::service_fn(move |_: ()| {
        if std::mem::take(&mut *b2.lock().unwrap()) > 0 {
            ev!(h2.c, "the maker panics");
            planned_panic();
        }
        let h = h2.clone();
        Box::pin(async move {
            tokio::time::sleep(Duration::from_millis(1)).await;
            Ok::<Leaf, BoxError>(h.leaf())
        }) as Pin<Box<dyn Future<Output = Result<Leaf, BoxError>> + Send>>
    });
    let mut s = tower::reconnect::Reconnect::new(mk, ());
    let (mut panics, mut after) = (0, 0);
    for id in 1..r.range(5, 40) {
        if r.pct(15) {
            h.bomb();
        }
        if r.pct(20) {
            *boom.lock().unwrap() = 1;
        }
        let mut ready = false;
        for _ in 0..20 {
            match guard(|| once(|cx| s.poll_ready(cx))) {
                None => panics += 1,
                Some(Poll::Pending) => advance(1).await,
                Some(Poll::Ready(x)) => {
                    ready = x.is_ok();
                    break;
                }
            }
        }
        h.i.lock().unwrap().bombs = 0;
        if !chk!(c, ready, "not ready after {} panics", panics) {
            return;
        }
        let q = h.rq(id, plan(r, 40, &[At::Call, At::Fut]));
        match guard(|| s.call(q)) {
            None => panics += 1,
            Some(f) => match AssertUnwindSafe(f).catch_unwind().await {
                Ok(x) => {
                    after += panics;
                    let ok = matches!(&x, Ok(x) if x.id == id);
                    chk!(c, ok, "request {} is answered {:?}", id, x.map(|x| x.id).map_err(|e| e.to_string()));
                }
                Err(_) => panics += 1,
            },
        }
        chk!(c, h.alive() <= 1, "{} connections are alive", h.alive());
    }
    if after > 0 {
        c.nontrivial();
    }
}

async fn spawn(c: &Case, r: &Rng, h: &Hub) {
    ev!(c, "spawn ready");
    struct Slow(Leaf);
    impl Service<Rq> for Slow {
        type Response = Rs;
        type Error = BoxError;
        type Future = Out;
        fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), BoxError>> {
            if self.0.h.r.pct(30) {
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
            self.0.poll_ready(cx)
        }
        fn call(&mut self, q: Rq) -> Out {
            self.0.call(q)
        }
    }
    let mut s = tower::spawn_ready::SpawnReady::new(Slow(h.leaf()));
    let mut panics = 0;
    let fatal = r.pct(40);
    for id in 1..r.range(3, 25) {
        let bomb = fatal && r.pct(20);
        if bomb {
            h.bomb();
        }
        let got = AssertUnwindSafe(tokio::time::timeout(Duration::from_secs(10), std::future::poll_fn(|cx| s.poll_ready(cx)))).catch_unwind().await;
        let used = bomb && h.i.lock().unwrap().bombed > 0;
        match got {
            Ok(Err(_)) => {
                c.fail(format!("waits for ever for a service whose readiness check panicked: {} (after {} panics)", used, panics));
                return;
            }
            Ok(Ok(x)) => {
                if x.is_err() {
                    c.nontrivial();
                    chk!(c, used, "an error out of nowhere");
                    settle().await;
                    chk!(c, h.alive() == 0, "the service that panicked is kept");
                    return;
                }
                chk!(c, !used, "ready although the readiness check panicked");
            }
            Err(p) => {
                // the first check may be made by the caller
                panics += 1;
                chk!(c, used && p.is::<Planned>(), "a panic out of nowhere");
                continue;
            }
        }
        let q = h.rq(id, plan(r, 40, &[At::Call, At::Fut]));
        match guard(|| s.call(q)) {
            None => panics += 1,
            Some(f) => match AssertUnwindSafe(f).catch_unwind().await {
                Ok(x) => {
                    let ok = matches!(&x, Ok(x) if x.id == id);
                    chk!(c, ok, "request {} is answered {:?}", id, x.map(|x| x.id).map_err(|e| e.to_string()));
                    if panics > 0 {
                        c.nontrivial();
                    }
                }
                Err(_) => panics += 1,
            },
        }
    }
}

async fn call_all(c: &Case, r: &Rng, h: &Hub) {
    ev!(c, "call all, unordered");
    let n = r.range(3, 40);
    let h2 = h.clone();
    let r2 = r.fork();
    let items = futures::stream::iter(1..=n).map_it(move |id| h2.rq(id, plan(&r2, 30, &[At::Call, At::Fut])));
    let mut s = Box::pin(h.leaf().call_all(items).unordered());
    let mut got = BTreeSet::new();
    let mut panics = 0;
    let mut over = false;
    let tk = Tk::new();
    for _ in 0..400 {
        match guard(|| tk.poll(|cx| s.as_mut().poll_next(cx))) {
            None => panics += 1,
            Some(Poll::Pending) => advance(1).await,
            Some(Poll::Ready(None)) => {
                over = true;
                break;
            }
            Some(Poll::Ready(Some(x))) => {
                let id = x.as_ref().map(|x| x.id).unwrap_or(0);
                chk!(c, got.insert(id), "request {} is answered twice, or fails", id);
            }
        }
    }
    chk!(c, over, "the stream does not end after {} panics", panics);
    let raised = h.i.lock().unwrap().raised.clone();
    let want: BTreeSet<u64> = (1..=n).filter(|i| !raised.contains(i)).collect();
    chk!(c, got == want, "answers {:?} of {} items of which {:?} panicked", got, n, raised);
    if panics > 0 && !got.is_empty() {
        c.nontrivial();
    }
}
trait MapIt: Stream + Sized {
    fn map_it<T>(self, f: impl FnMut(Self::Item) -> T) -> impl Stream<Item = T> {
        futures::StreamExt::map(self, f)
    }
}
impl<S: Stream> MapIt for S {}

async fn rate(c: &Case, r: &Rng, h: &Hub) {
    ev!(c, "rate limit");
    let (n, ms) = (r.range(1, 5), r.range(2, 20));
    let mut s = tower::limit::RateLimit::new(h.leaf(), tower::limit::rate::Rate::new(n, Duration::from_millis(ms)));
    let mut panics = 0;
    let mut at: VecDeque<tokio::time::Instant> = VecDeque::new();
    for id in 1..r.range(5, 60) {
        if r.pct(8) {
            h.bomb();
        }
        let mut ready = false;
        for _ in 0..4 {
            match guard(|| once(|cx| s.poll_ready(cx))) {
                None => panics += 1,
                Some(Poll::Ready(_)) => {
                    ready = true;
                    break;
                }
                Some(Poll::Pending) => advance(ms + 1).await,
            }
        }
        h.i.lock().unwrap().bombs = 0;
        if !chk!(c, ready, "closed for more than its period after {} panics", panics) {
            return;
        }
        let now = tokio::time::Instant::now();
        let q = h.rq(id, plan(r, 40, &[At::Call, At::Fut]));
        let before = h.i.lock().unwrap().seen.len();
        match guard(|| s.call(q)) {
            None => panics += 1,
            Some(f) => {
                if AssertUnwindSafe(f).catch_unwind().await.is_err() {
                    panics += 1;
                }
            }
        }
        if h.i.lock().unwrap().seen.len() > before {
            at.push_back(now);
        }
        // windows begin with a call: 2n calls never lie within less than a period
        if at.len() > 2 * n as usize {
            let first = at[at.len() - 1 - 2 * n as usize];
            chk!(c, now - first >= Duration::from_millis(ms), "{} calls within {:?}, limit {} per {} ms, after {} panics", 2 * n + 1, now - first, n, ms, panics);
        }
    }
    if panics > 0 {
        c.nontrivial();
    }
}

/// The worker is taken down while callers wait in every place.
async fn buffer(c: &Case, r: &Rng, h: &Hub) {
    ev!(c, "buffer");
    let n = r.range(1, 5) as usize;
    let base = tower::buffer::Buffer::new(Fence(h.leaf(), h.clone()), n);
    let mut futs = vec![];
    let m = r.range(1, 2 * n as u64 + 3);
    let mut waiting = vec![];
    // the worker does not run in between
    for id in 1..=m {
        let mut s = base.clone();
        let tk = Tk::new();
        match tk.poll(|cx| s.poll_ready(cx)) {
            Poll::Ready(Ok(())) => {
                let at = plan(r, 40, &[At::Call, At::Fut]);
                let mut f = Fut::new(s.call(h.rq(id, at)));
                if r.pct(70) {
                    let _ = f.poll();
                }
                futs.push((id, at, f));
            }
            Poll::Ready(Err(e)) => c.fail(format!("a new buffer fails: {}", e)),
            Poll::Pending => waiting.push((s, tk)),
        }
    }
    if r.pct(30) {
        h.bomb();
    }
    for _ in 0..10 {
        settle().await;
        advance(3).await;
    }
    let dead = h.i.lock().unwrap().dead;
    let mut served = true;
    for (id, at, f) in &mut futs {
        if f.polled && !f.tk.woken() {
            // its future must have been waiting for nothing
            let seen = h.i.lock().unwrap().seen.contains(id);
            chk!(c, false, "request {} (dispatched: {}) was never woken, worker down: {}", id, seen, dead);
            continue;
        }
        // the response's own future may still take some milliseconds
        let mut x = None;
        for _ in 0..6 {
            match guard(|| f.poll()) {
                None => {
                    chk!(c, h.raised(*id), "request {} panics because of another", id);
                    x = Some("panicked");
                }
                Some(Poll::Ready(Ok(y))) => {
                    chk!(c, y.id == *id, "request {} got the answer to {}", id, y.id);
                    chk!(c, served, "request {} was dispatched after the worker went down", id);
                    x = Some("answered");
                }
                Some(Poll::Ready(Err(e))) => {
                    chk!(c, dead, "request {} fails: {}", id, e);
                    let closed = e.is::<tower::buffer::error::Closed>();
                    chk!(c, closed, "request {} fails with another error than that the buffer is closed: {}", id, e);
                    served = false;
                    x = Some("failed");
                }
                Some(Poll::Pending) => {
                    advance(2).await;
                    continue;
                }
            }
            break;
        }
        ev!(c, "request {} ({:?}): {:?}", id, at, x);
        chk!(c, x.is_some(), "request {} waits for ever, worker down: {}", id, dead);
    }
    for (mut s, tk) in waiting {
        chk!(c, tk.woken(), "a caller waiting for a place was not woken, worker down: {}", dead);
        match once(|cx| s.poll_ready(cx)) {
            Poll::Ready(Ok(())) => {
                chk!(c, !dead, "ready although the worker is down");
            }
            Poll::Ready(Err(e)) => {
                chk!(c, dead, "a caller waiting for a place fails: {}", e);
            }
            Poll::Pending => c.fail(format!("a caller waits for a place for ever, worker down: {}", dead)),
        }
    }
    let mut later = base.clone();
    match once(|cx| later.poll_ready(cx)) {
        Poll::Ready(Ok(())) => {
            chk!(c, !dead, "a later caller finds a buffer ready whose worker is down");
            let got = tokio::time::timeout(Duration::from_secs(5), later.call(h.rq(1000, None))).await;
            chk!(c, matches!(got, Ok(Ok(_))), "a later request is not answered");
        }
        Poll::Ready(Err(_)) => {
            chk!(c, dead, "a later caller finds the buffer failed");
        }
        Poll::Pending => c.fail("a later caller waits for ever"),
    }
    if dead {
        c.nontrivial();
        c.count("workers taken down", 1);
        settle().await;
        chk!(c, h.alive() == 0, "the service of the worker that panicked is kept");
    }
    let any = !h.i.lock().unwrap().raised.is_empty();
    if any {
        c.nontrivial();
    }
}
