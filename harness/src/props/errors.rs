//! P28: an error keeps its kind and its cause through any stack of middlewares, and printing a
//! component changes nothing.
use crate::kit::rng::mix;
use crate::kit::*;
use std::error::Error as StdError;
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::task::Context;
use tower::discover::Change;
use tower::util::*;
use tower::{ServiceBuilder, ServiceExt};
use tower_layer::Layer;

pub fn p28() -> Prop {
    Prop {
        id: "P28",
        rule: "chain: seeded random stacks of up to seven middlewares over one failing component (a call, a readiness check, a predicate, a deadline, an overload, a missing service, a connection, a discovery, a lost worker), the error each of several callers gets walked along its sources and compared with the expected kinds and causes; printing: the same script run twice over each component, once with every service, future and layer printed between any two steps, and the two event logs compared; non-trivial: the fault reached the caller through at least two layers, or at least ten prints",
        assumptions: &["messages are only required to be there and to contain the cause's where the error wraps one"],
        scenarios: vec![Scenario::new("chain", 4000, chain), Scenario::new("kinds", 500, kinds), Scenario::new("printing", 2500, printing)],
    }
}

// ---------------------------------------------------------------- chain

/// The workload's own failure, which may itself have a cause.
#[derive(Debug)]
struct Boom {
    id: u64,
    src: Option<Box<Boom>>,
}
impl fmt::Display for Boom {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "boom-{}-", self.id)
    }
}
impl StdError for Boom {
    fn source(&self) -> Option<&(dyn StdError + 'static)> {
        self.src.as_ref().map(|b| &**b as &(dyn StdError + 'static))
    }
}
/// `n` causes deep, numbered from `id`.
fn boom(id: u64, n: u64) -> BoxError {
    fn mk(id: u64, n: u64) -> Boom {
        Boom { id, src: (n > 0).then(|| Box::new(mk(id + 1, n - 1))) }
    }
    Box::new(mk(id, n))
}

#[derive(Clone, PartialEq, Eq, Debug)]
enum Kind {
    Boom(u64),
    Elapsed,
    Overloaded,
    BufService,
    BufClosed,
    Discover,
    Missing,
    Mock,
    Other(String),
}
fn kind(e: &(dyn StdError + 'static)) -> Kind {
    if let Some(b) = e.downcast_ref::<Boom>() {
        Kind::Boom(b.id)
    } else if e.is::<tower::timeout::error::Elapsed>() {
        Kind::Elapsed
    } else if e.is::<tower::load_shed::error::Overloaded>() {
        Kind::Overloaded
    } else if e.is::<tower::buffer::error::ServiceError>() {
        Kind::BufService
    } else if e.is::<tower::buffer::error::Closed>() {
        Kind::BufClosed
    } else if e.is::<tower::balance::error::Discover>() {
        Kind::Discover
    } else if e.is::<tower::util::error::optional::None>() {
        Kind::Missing
    } else if e.is::<tower_test::mock::error::Closed>() {
        Kind::Mock
    } else {
        Kind::Other(format!("{:?}", e))
    }
}
fn walk(e: &(dyn StdError + 'static)) -> Vec<Kind> {
    let mut v = vec![];
    let mut at = Some(e);
    while let Some(x) = at {
        v.push(kind(x));
        if v.len() > 64 {
            break;
        }
        at = x.source();
    }
    v
}
/// Every error of the chain prints something, and one that wraps a cause names it.
fn prints(c: &Case, e: &(dyn StdError + 'static)) {
    let mut at = Some(e);
    while let Some(x) = at {
        let (d, g) = (format!("{}", x), format!("{:?}", x));
        chk!(c, !d.trim().is_empty() && !g.trim().is_empty(), "an error {:?} has no message", kind(x));
        if matches!(kind(x), Kind::BufService | Kind::Discover) {
            let s = x.source().map(|s| s.to_string()).unwrap_or_default();
            chk!(c, d.contains(&s), "the message {:?} does not tell the cause {:?}", d, s);
        }
        at = x.source();
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Fault {
    Call,
    Ready,
    Never,
    NotReady,
    None,
}
/// Innermost service: always ready and answering unless told to fail.
#[derive(Clone, Debug)]
struct Leaf {
    fault: Fault,
    id: u64,
    deep: u64,
    delay: u64,
}
type Bf = Pin<Box<dyn Future<Output = Result<u64, BoxError>> + Send>>;
impl Service<u64> for Leaf {
    type Response = u64;
    type Error = BoxError;
    type Future = Bf;
    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), BoxError>> {
        match self.fault {
            Fault::Ready => Poll::Ready(Err(boom(self.id, self.deep))),
            Fault::NotReady => Poll::Pending,
            _ => Poll::Ready(Ok(())),
        }
    }
    fn call(&mut self, q: u64) -> Bf {
        let me = self.clone();
        Box::pin(async move {
            if me.delay > 0 {
                sleep_ms(me.delay).await
            }
            match me.fault {
                Fault::Call => Err(boom(me.id, me.deep)),
                Fault::Never => std::future::pending().await,
                _ => Ok(q),
            }
        })
    }
}
async fn sleep_ms(d: u64) {
    tokio::time::sleep(Duration::from_millis(d)).await
}

type Cs = BoxCloneService<u64, u64, BoxError>;
type Ps = BoxService<u64, u64, BoxError>;
enum Sv {
    C(Cs),
    P(Ps),
}
macro_rules! both {
    ($s:expr, $x:ident => $e:expr) => {
        match $s {
            Sv::C($x) => Sv::C(Cs::new($e)),
            Sv::P($x) => Sv::P(Ps::new($e)),
        }
    };
}
macro_rules! plain {
    ($s:expr, $x:ident => $e:expr) => {
        match $s {
            Sv::C($x) => Sv::P(Ps::new($e)),
            Sv::P($x) => Sv::P(Ps::new($e)),
        }
    };
}
#[derive(Clone)]
struct Give;
impl tower::retry::Policy<u64, u64, BoxError> for Give {
    type Future = std::future::Ready<()>;
    fn retry(&mut self, _: &mut u64, _: &mut Result<u64, BoxError>) -> Option<Self::Future> {
        None
    }
    fn clone_request(&mut self, q: &u64) -> Option<u64> {
        Some(*q)
    }
}
#[derive(Clone)]
struct NoHedge;
impl tower::hedge::Policy<u64> for NoHedge {
    fn clone_request(&self, _: &u64) -> Option<u64> {
        None
    }
    fn can_retry(&self, _: &u64) -> bool {
        true
    }
}

const KINDS: [&str; 26] = [
    "timeout", "limit", "shed", "buffer", "maprq", "maprs", "maperr", "mapres", "filter", "afilter", "retry", "hedge", "spawn", "rate",
    "pending", "ewma", "constant", "optional", "either", "boxed", "reconnect", "steer", "balance", "future", "then", "andthen",
];

/// Layers that pass errors through as they are.
fn add(r: &Rng, s: Sv, k: &str, at_call: bool, balanced: &mut bool) -> Option<Sv> {
    Some(match k {
        "timeout" => match s {
            Sv::C(x) => Sv::C(Cs::new(tower::timeout::Timeout::new(x, Duration::from_secs(3600)))),
            Sv::P(x) => Sv::P(Ps::new(ServiceBuilder::new().timeout(Duration::from_secs(3600)).service(x))),
        },
        "limit" => both!(s, x => ServiceBuilder::new().concurrency_limit(5).service(x)),
        "shed" => both!(s, x => ServiceBuilder::new().load_shed().service(x)),
        "maprq" => both!(s, x => x.map_request(|q: u64| q)),
        "maprs" => both!(s, x => x.map_response(|x: u64| x)),
        "maperr" => both!(s, x => x.map_err(|e: BoxError| e)),
        "mapres" => both!(s, x => x.map_result(|e: Result<u64, BoxError>| e)),
        "filter" => both!(s, x => x.filter(|q: u64| Ok::<_, BoxError>(q))),
        "afilter" => {
            let Sv::C(x) = s else { return Some(s) };
            Sv::P(Ps::new(x.filter_async(|q: u64| async move { Ok::<_, BoxError>(q) })))
        }
        "retry" => {
            let Sv::C(x) = s else { return Some(s) };
            Sv::C(Cs::new(tower::retry::Retry::new(Give, x)))
        }
        "hedge" => {
            let Sv::C(x) = s else { return Some(s) };
            Sv::P(Ps::new(tower::hedge::Hedge::new(x, NoHedge, 1, 0.5, Duration::from_secs(1))))
        }
        "spawn" => plain!(s, x => tower::spawn_ready::SpawnReady::new(x)),
        "rate" => plain!(s, x => ServiceBuilder::new().rate_limit(1000, Duration::from_secs(1)).service(x)),
        "pending" => plain!(s, x => tower::load::PendingRequests::new(x, tower::load::CompleteOnResponse::default())),
        "ewma" => plain!(s, x => tower::load::PeakEwma::new(x, Duration::from_millis(5), 1e7, tower::load::CompleteOnResponse::default())),
        "constant" => plain!(s, x => tower::load::Constant::new(x, 3u32)),
        "optional" => plain!(s, x => Optional::new(Some(x))),
        "either" => match s {
            Sv::C(x) => Sv::C(Cs::new(if r.pct(50) { Either::<Cs, Cs>::Left(x) } else { Either::<Cs, Cs>::Right(x) })),
            Sv::P(x) => Sv::P(Ps::new(if r.pct(50) { Either::<Ps, Ps>::Left(x) } else { Either::<Ps, Ps>::Right(x) })),
        },
        "boxed" => both!(s, x => Box::new(x)),
        // these two replace what fails to become ready instead of telling
        "reconnect" => {
            let Sv::C(x) = s else { return Some(s) };
            if !at_call {
                return Some(Sv::C(x));
            }
            *balanced = true;
            let mk = service_fn(move |_: u8| {
                let x = x.clone();
                async move { Ok::<_, BoxError>(x) }
            });
            Sv::P(Ps::new(tower::reconnect::Reconnect::new(mk_boxed(mk), 1u8)))
        }
        "balance" => {
            if !at_call {
                return Some(s);
            }
            *balanced = true;
            plain!(s, x => tower::balance::p2c::Balance::new(tower::discover::ServiceList::new::<u64>(vec![tower::load::Constant::new(x, 1u32)])))
        }
        "steer" => {
            let p = match s {
                Sv::C(x) => Ps::new(x),
                Sv::P(x) => x,
            };
            let mut v = vec![p];
            for _ in 0..r.us(3) {
                v.push(Ps::new(Leaf { fault: Fault::None, id: 0, deep: 0, delay: 0 }));
            }
            // the failing one answers every request
            Sv::P(Ps::new(tower::steer::Steer::new(v, |_: &u64, _: &[Ps]| 0)))
        }
        "future" => plain!(s, x => future_service(Box::pin(async move { Ok::<_, BoxError>(x) }))),
        "then" => both!(s, x => x.then(|r: Result<u64, BoxError>| async move { r })),
        "andthen" => both!(s, x => x.and_then(|r: u64| async move { Ok::<_, BoxError>(r) })),
        _ => unreachable!(),
    })
}
fn mk_boxed<S>(s: S) -> BoxService<u8, Cs, BoxError>
where
    S: Service<u8, Response = Cs, Error = BoxError> + Send + 'static,
    S::Future: Send,
{
    BoxService::new(s)
}

fn chain(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let id = 100 + 10 * r.below(1000);
        let deep = *r.pick(&[0, 0, 1, 3]);
        let core: Vec<Kind> = (0..=deep).map(|i| Kind::Boom(id + i)).collect();
        let delay = r.below(3);
        let ok = Leaf { fault: Fault::None, id, deep, delay };
        let bad = |f| Leaf { fault: f, ..ok.clone() };
        let clone_ok = |f| Sv::C(Cs::new(bad(f)));
        // (stack, expected chain, whether the error comes from the call)
        let mut keep: Vec<Box<dyn std::any::Any>> = vec![];
        let what = r.below(16);
        let (mut s, mut want, mut at_call) = match what {
            0 | 1 => (clone_ok(Fault::Call), core, true),
            2 | 3 => (clone_ok(Fault::Ready), core, false),
            4 => {
                let d = Duration::from_millis(r.range(1, 40));
                (Sv::C(Cs::new(tower::timeout::Timeout::new(bad(Fault::Never), d))), vec![Kind::Elapsed], true)
            }
            5 => (Sv::C(Cs::new(ServiceBuilder::new().load_shed().service(bad(Fault::NotReady)))), vec![Kind::Overloaded], true),
            6 => (Sv::P(Ps::new(Optional::new(None::<Leaf>))), vec![Kind::Missing], true),
            7 => (Sv::C(Cs::new(ok.clone().filter(move |_: u64| Err::<u64, BoxError>(boom(id, deep))))), core, true),
            8 => (Sv::P(Ps::new(ok.clone().filter_async(move |_: u64| async move { Err::<u64, BoxError>(boom(id, deep)) }))), core, true),
            9 => {
                let (b, w) = tower::buffer::Buffer::pair(ok.clone(), 4);
                drop(w);
                (Sv::C(Cs::new(b)), vec![Kind::BufClosed], false)
            }
            10 => {
                let d = futures::stream::iter(vec![
                    Ok(Change::Insert(1u8, tower::load::Constant::new(ok.clone(), 1u32))),
                    Err::<Change<u8, _>, BoxError>(boom(id, deep)),
                ]);
                let mut w = vec![Kind::Discover];
                w.extend(core);
                (Sv::P(Ps::new(tower::balance::p2c::Balance::new(d))), w, false)
            }
            11 => {
                let mk = service_fn(move |_: u8| async move { Err::<Cs, BoxError>(boom(id, deep)) });
                (Sv::P(Ps::new(tower::reconnect::Reconnect::new(mk_boxed(mk), 1u8))), core, true)
            }
            12 => {
                let f = Box::pin(async move { Err::<Leaf, BoxError>(boom(id, deep)) });
                (Sv::P(Ps::new(future_service(f))), core, false)
            }
            13 => {
                let (m, h) = tower_test::mock::pair::<u64, u64>();
                drop(h);
                (Sv::C(Cs::new(m)), vec![Kind::Mock], false)
            }
            14 => match r.below(3) {
                0 => (Sv::C(Cs::new(ok.clone().and_then(move |_: u64| async move { Err::<u64, BoxError>(boom(id, deep)) }))), core, true),
                1 => (Sv::C(Cs::new(ok.clone().then(move |_: Result<u64, BoxError>| async move { Err::<u64, BoxError>(boom(id, deep)) }))), core, true),
                _ => (Sv::C(Cs::new(ok.clone().map_result(move |_: Result<u64, BoxError>| Err::<u64, BoxError>(boom(id, deep))))), core, true),
            },
            // the readiness error reaches the caller of a retried request
            _ => {
                #[derive(Clone)]
                struct Flip(Arc<std::sync::atomic::AtomicU64>, Leaf);
                impl Service<u64> for Flip {
                    type Response = u64;
                    type Error = BoxError;
                    type Future = Bf;
                    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), BoxError>> {
                        if self.0.load(std::sync::atomic::Ordering::SeqCst) > 0 {
                            return Poll::Ready(Err(boom(self.1.id, self.1.deep)));
                        }
                        Poll::Ready(Ok(()))
                    }
                    fn call(&mut self, _: u64) -> Bf {
                        self.0.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        Box::pin(async { Err(boom(7, 0)) })
                    }
                }
                #[derive(Clone)]
                struct Again;
                impl tower::retry::Policy<u64, u64, BoxError> for Again {
                    type Future = std::future::Ready<()>;
                    fn retry(&mut self, _: &mut u64, _: &mut Result<u64, BoxError>) -> Option<Self::Future> {
                        Some(std::future::ready(()))
                    }
                    fn clone_request(&mut self, q: &u64) -> Option<u64> {
                        Some(*q)
                    }
                }
                (Sv::C(Cs::new(tower::retry::Retry::new(Again, Flip(Arc::default(), ok.clone())))), core, true)
            }
        };
        ev!(c, "fault {} id {} deep {} -> {:?}", what, id, deep, want);
        let mut buffers = 0;
        let n = r.us(8);
        let mut names = vec![];
        let mut silent = false;
        for _ in 0..n {
            let k = *r.pick(&KINDS);
            if k == "buffer" {
                s = match s {
                    Sv::C(x) => Sv::C(Cs::new(tower::buffer::Buffer::new(x, 3))),
                    Sv::P(x) => Sv::C(Cs::new(ServiceBuilder::new().buffer(3).service(x))),
                };
                buffers += 1;
                if !at_call {
                    want.insert(0, Kind::BufService);
                    at_call = true;
                }
            } else {
                s = add(&r, s, k, at_call, &mut silent).unwrap();
            }
            names.push(k);
        }
        ev!(c, "layers {:?}", names);
        if n >= 2 {
            c.nontrivial();
        }
        let mut s = match s {
            Sv::C(x) => Ps::new(x),
            Sv::P(x) => x,
        };
        keep.push(Box::new(0u8));
        // once the readiness of something has failed, what replaces failed services may wait for ever
        let later = if silent { 1 } else { r.range(1, 3) };
        for round in 0..later {
            let step = async {
                match s.ready().await {
                    Err(e) => Err((false, e)),
                    Ok(s) => s.call(round).await.map_err(|e| (true, e)),
                }
            };
            let got = match tokio::time::timeout(Duration::from_secs(30), step).await {
                Err(_) => {
                    chk!(c, false, "request {} over {:?} (fault {}) was not answered", round, names, what);
                    return;
                }
                Ok(x) => x,
            };
            let (called, e) = match got {
                Ok(x) => {
                    chk!(c, false, "request {} over {:?} (fault {}) succeeded with {}", round, names, what, x);
                    return;
                }
                Err(x) => x,
            };
            let k = walk(&*e);
            ev!(c, "request {} failed {} with {:?}", round, if called { "in the call" } else { "before" }, k);
            if round == 0 {
                chk!(c, k == want, "the error over {:?} (fault {}) is {:?}, expected {:?}", names, what, k, want);
            } else {
                // failed buffers answer with their own failure from now on
                let strip = |v: &[Kind]| -> Vec<Kind> { v.iter().skip_while(|k| **k == Kind::BufService).cloned().collect() };
                let wraps = k.iter().filter(|k| **k == Kind::BufService).count();
                // one that lost its connection to the lost worker may say so in its own name
                chk!(
                    c,
                    strip(&k) == strip(&want) && wraps <= buffers + want.iter().filter(|k| **k == Kind::BufService).count(),
                    "the error of request {} over {:?} (fault {}) is {:?}, expected {:?}",
                    round, names, what, k, want
                );
            }
            prints(c, &*e);
            if !called {
                // a service that failed is not asked again, except those that say what they failed with
                break;
            }
        }
    })
}

// ---------------------------------------------------------------- kinds

/// Each error of the crates by itself: what it says, and what it is caused by.
fn kinds(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let id = 100 + r.below(1000);
        let deep = r.below(4);
        let core: Vec<Kind> = (0..=deep).map(|i| Kind::Boom(id + i)).collect();
        c.nontrivial();
        // the ready cache tells which key failed, and with what
        let mut cache = tower::ready_cache::ReadyCache::<u64, Leaf, u64>::default();
        let key = r.u64() % 1000;
        let healthy = Leaf { fault: Fault::None, id, deep, delay: 0 };
        cache.push(key, Leaf { fault: Fault::Ready, ..healthy.clone() });
        if r.pct(50) {
            cache.push(key + 1, healthy.clone());
        }
        let tk = Tk::new();
        match tk.poll(|cx| cache.poll_pending(cx)) {
            Poll::Ready(Err(e)) => {
                chk!(c, e.0 == key, "the cache says {} failed, it was {}", e.0, key);
                let k: Vec<Kind> = StdError::source(&e).map(walk).unwrap_or_default();
                ev!(c, "failed {:?} {:?}", e.0, k);
                chk!(c, k == core, "the cause of the failure of an endpoint is {:?}, expected {:?}", k, core);
                prints(c, &*e.1);
                chk!(c, !e.to_string().trim().is_empty() && !format!("{:?}", e).is_empty(), "no message");
            }
            x => {
                chk!(c, false, "the cache does not tell the failure: {:?}", x.is_pending());
            }
        }
        // a ready one that fails later
        let mut cache = tower::ready_cache::ReadyCache::<u64, Turn, u64>::default();
        let turn = Turn(Arc::default(), id, deep);
        cache.push(key, turn.clone());
        let _ = tk.poll(|cx| cache.poll_pending(cx));
        if let Some((_, s)) = cache.get_ready_index_mut(0) {
            chk!(c, s.1 == id, "another service is at the index");
            s.0.store(true, std::sync::atomic::Ordering::SeqCst);
        } else {
            chk!(c, false, "the service is not ready");
        }
        let got = tk.poll(|cx| Poll::Ready(cache.check_ready_index(cx, 0)));
        match got {
            Poll::Ready(Err(e)) => {
                chk!(c, e.0 == key, "the cache says {} failed, it was {}", e.0, key);
                let k: Vec<Kind> = StdError::source(&e).map(walk).unwrap_or_default();
                ev!(c, "failed {:?} {:?}", e.0, k);
                chk!(c, k == core, "the cause of the failure of an endpoint is {:?}, expected {:?}", k, core);
            }
            _ => {
                chk!(c, false, "the failure of a ready service is not told");
            }
        }
        // errors that users construct or compare by type
        let e: Vec<BoxError> = vec![
            Box::new(tower::timeout::error::Elapsed::new()),
            Box::new(tower::load_shed::error::Overloaded::new()),
        ];
        for (e, k) in e.iter().zip([Kind::Elapsed, Kind::Overloaded]) {
            chk!(c, kind(&**e) == k && e.source().is_none(), "{:?} is {:?}", k, kind(&**e));
            prints(c, &**e);
        }
        // a shared failure is the same for every caller, and stays the same when cloned
        let mut b = tower::buffer::Buffer::new(Leaf { fault: Fault::Ready, id, deep, delay: 0 }, 4);
        let mut fs = vec![];
        for i in 0..r.range(1, 3) {
            match b.ready().await {
                Ok(s) => fs.push(s.call(i)),
                Err(_) => break,
            }
        }
        for f in fs {
            let e = f.await.err().unwrap();
            let mut want = vec![Kind::BufService];
            want.extend(core.clone());
            let k = walk(&*e);
            chk!(c, k == want, "a caller of a failed buffer gets {:?}, expected {:?}", k, want);
            prints(c, &*e);
        }
        // reserved before the failure, called after it; and requests left behind by a lost worker
        let lost = r.pct(50);
        let (mut a, worker) = tower::buffer::Buffer::pair(Leaf { fault: Fault::Ready, id, deep, delay: 0 }, 4);
        let mut b = a.clone();
        let mut want = vec![if lost { Kind::BufClosed } else { Kind::BufService }];
        if !lost {
            want.extend(core.clone());
        }
        let early = tk.poll(|cx| a.poll_ready(cx)).is_ready() && tk.poll(|cx| b.poll_ready(cx)).is_ready();
        chk!(c, early, "a fresh buffer of four is not ready");
        if !early {
            return;
        }
        let mut errs: Vec<(&str, BoxError)> = vec![];
        let queued = Fut::new(a.call(1));
        let mut w = Fut::new(worker);
        if lost {
            drop(w);
        } else {
            let _ = w.poll();
        }
        let mut late = Fut::new(b.call(2));
        let mut queued = queued;
        for (what, f) in [("queued", &mut queued), ("called late", &mut late)] {
            match f.poll() {
                Poll::Ready(Err(e)) => errs.push((what, e)),
                x => {
                    chk!(c, false, "the request {} is {:?} although the worker is gone or failed", what, x);
                }
            }
        }
        match tk.poll(|cx| a.poll_ready(cx)) {
            Poll::Ready(Err(e)) => errs.push(("refused", e)),
            x => {
                chk!(c, false, "a buffer whose worker is gone or failed is {:?}", x.is_ready());
            }
        }
        for (what, e) in errs {
            let k = walk(&*e);
            ev!(c, "{} {:?}", what, k);
            chk!(c, k == want, "the error of a caller ({}) is {:?}, expected {:?}", what, k, want);
            prints(c, &*e);
        }
    })
}
#[derive(Clone, Debug)]
struct Turn(Arc<std::sync::atomic::AtomicBool>, u64, u64);
impl Service<u64> for Turn {
    type Response = u64;
    type Error = BoxError;
    type Future = Bf;
    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), BoxError>> {
        if self.0.load(std::sync::atomic::Ordering::SeqCst) {
            return Poll::Ready(Err(boom(self.1, self.2)));
        }
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, q: u64) -> Bf {
        Box::pin(async move { Ok(q) })
    }
}

// ---------------------------------------------------------------- printing

/// Prints `x` both ways when `peek`.
struct Peek {
    on: bool,
    c: Case,
    rng: Rng,
    n: std::cell::Cell<u64>,
}
impl Peek {
    fn at(&self, x: &dyn fmt::Debug, what: &str) {
        if !self.on || self.rng.pct(20) {
            return;
        }
        let (a, b) = (format!("{:?}", x), format!("{:#?}", x));
        self.n.set(self.n.get() + 1);
        self.c.check(!a.trim().is_empty() && !b.trim().is_empty(), || format!("{} prints as nothing", what));
    }
}

/// A probe whose error is boxed, printable.
type P = MapErr<Probe, fn(Fail) -> BoxError>;
fn probe(w: &World, g: u32) -> P {
    MapErr::new(w.svc(g), (|e| e.into()) as fn(Fail) -> BoxError)
}

/// One script over one component, logging to a case of its own.
async fn script<S>(c: &Case, w: &World, seed: u64, p: &Peek, mut s: S, clones: Option<fn(&S) -> S>)
where
    S: Service<Req, Response = Resp> + fmt::Debug,
    S::Future: fmt::Debug,
    S::Error: Into<BoxError>,
{
    let r = Rng::new(seed);
    let tk = Tk::new();
    let mut futs: Vec<(u64, Fut<S::Future>)> = vec![];
    let mut ready = false;
    let mut dead = false;
    for step in 0..r.range(6, 30) {
        p.at(&s, "the service");
        for f in &futs {
            p.at(&f.1.fut, "a response future");
        }
        match r.below(12) {
            0..=3 if !dead => {
                let g = tk.poll(|cx| s.poll_ready(cx));
                ready = matches!(g, Poll::Ready(Ok(())));
                dead = matches!(g, Poll::Ready(Err(_)));
                let t = match g {
                    Poll::Pending => "pending".into(),
                    Poll::Ready(Ok(())) => "ready".into(),
                    Poll::Ready(Err(e)) => format!("{:?}", walk_any(&*e.into())),
                };
                ev!(c, "{} ready -> {}", step, t);
            }
            4..=6 if ready => {
                ready = false;
                let q = w.req();
                ev!(c, "{} call {}", step, q.id);
                let id = q.id;
                p.at(&s, "the service");
                futs.push((id, Fut::new(s.call(q))));
            }
            7 => {
                w.gate_all(if r.pct(50) { Gate::Open } else { Gate::Closed });
            }
            8 => {
                let d = r.below(30);
                advance(d).await;
                settle().await;
            }
            9 => {
                if let Some(x) = w.unset_calls().first().copied() {
                    w.finish(x, r.pct(70));
                }
            }
            10 if !futs.is_empty() && r.pct(30) => {
                let i = r.us(futs.len());
                ev!(c, "{} drop {}", step, futs[i].0);
                futs.swap_remove(i);
            }
            11 if clones.is_some() && r.pct(30) => {
                s = (clones.unwrap())(&s);
                ready = false;
                ev!(c, "{} clone", step);
            }
            _ => {
                let mut i = 0;
                while i < futs.len() {
                    let g = futs[i].1.poll();
                    p.at(&futs[i].1.fut, "a response future");
                    if let Poll::Ready(x) = g {
                        let t = match x {
                            Ok(x) => format!("ok {}", x.id),
                            Err(e) => format!("{:?}", walk_any(&*e.into())),
                        };
                        ev!(c, "{} answer {} {}", step, futs[i].0, t);
                        futs.swap_remove(i);
                    } else {
                        i += 1;
                    }
                }
            }
        }
    }
    settle().await;
    p.at(&s, "the service");
    ev!(c, "end woken {} calls {} polls {}", tk.woken(), w.ncalls(), w.lock().npolls);
}
fn walk_any(e: &(dyn StdError + 'static)) -> Vec<String> {
    let mut v = vec![];
    let mut at = Some(e);
    while let Some(x) = at {
        v.push(x.to_string());
        at = x.source();
    }
    v
}

#[derive(Clone, Debug)]
struct DPol(u32);
impl tower::retry::Policy<Req, Resp, BoxError> for DPol {
    type Future = tokio::time::Sleep;
    fn retry(&mut self, _: &mut Req, r: &mut Result<Resp, BoxError>) -> Option<Self::Future> {
        if r.is_ok() || self.0 == 0 {
            return None;
        }
        self.0 -= 1;
        Some(tokio::time::sleep(Duration::from_millis(3)))
    }
    fn clone_request(&mut self, q: &Req) -> Option<Req> {
        Some(q.clone())
    }
}
#[derive(Clone, Debug)]
struct DHedge;
impl tower::hedge::Policy<Req> for DHedge {
    fn clone_request(&self, q: &Req) -> Option<Req> {
        Some(q.clone())
    }
    fn can_retry(&self, _: &Req) -> bool {
        true
    }
}
#[derive(Clone)]
struct Seeded(u64);
impl tower::util::rng::Rng for Seeded {
    fn next_u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(self.0)
    }
}
type Mk = MapErr<MkInner, fn(BoxError) -> BoxError>;
#[derive(Clone, Debug)]
struct MkInner(P);
impl Service<u8> for MkInner {
    type Response = P;
    type Error = BoxError;
    type Future = std::future::Ready<Result<P, BoxError>>;
    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), BoxError>> {
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, _: u8) -> Self::Future {
        std::future::ready(Ok(self.0.clone()))
    }
}
fn cl<S: Clone>() -> Option<fn(&S) -> S> {
    Some(|s: &S| s.clone())
}

async fn one(c: &Case, seed: u64, what: u64, on: bool, real: &Case) -> u64 {
    let r = Rng::new(seed);
    let mut plan = Plan::manual(*r.pick(&[Gate::Open, Gate::Open, Gate::Closed]));
    if r.pct(30) {
        plan.manual_resp = false;
        plan.resp = [1, 0, 2, 0];
        plan.resp_err_pct = 30;
    }
    let w = World::new(c, plan);
    w.lock().contract = false;
    let p = Peek { on, c: real.clone(), rng: Rng::new(seed ^ 77), n: Default::default() };
    let s2 = r.u64();
    let n = r.range(1, 3);
    let ms = Duration::from_millis;
    let done = tower::load::CompleteOnResponse::default();
    macro_rules! go {
        ($s:expr) => {{
            let s = $s;
            script(c, &w, s2, &p, s, None).await
        }};
        (clone $s:expr) => {{
            let s = $s;
            script(c, &w, s2, &p, s, cl()).await
        }};
    }
    match what {
        0 => {
            let (b, worker) = tower::buffer::Buffer::pair(probe(&w, 0), n as usize);
            if r.pct(50) {
                tokio::spawn(worker);
            } else {
                p.at(&worker, "the worker");
                let h = tokio::spawn(worker);
                tokio::spawn(async move {
                    sleep_ms(40).await;
                    h.abort();
                });
            }
            go!(clone b)
        }
        1 => {
            let l = tower::limit::ConcurrencyLimitLayer::new(n as usize);
            p.at(&l, "the layer");
            go!(clone l.layer(probe(&w, 0)))
        }
        2 => {
            let l = tower::limit::RateLimitLayer::new(n, ms(10));
            p.at(&l, "the layer");
            go!(l.layer(probe(&w, 0)))
        }
        3 => {
            let l = tower::load_shed::LoadShedLayer::new();
            p.at(&l, "the layer");
            go!(clone l.layer(probe(&w, 0)))
        }
        4 => {
            let l = tower::timeout::TimeoutLayer::new(ms(20));
            p.at(&l, "the layer");
            go!(clone l.layer(probe(&w, 0)))
        }
        5 => {
            let l = tower::retry::RetryLayer::new(DPol(2));
            p.at(&l, "the layer");
            go!(clone l.layer(probe(&w, 0)))
        }
        6 => go!(tower::hedge::Hedge::new_with_mock_latencies(probe(&w, 0), DHedge, 1, 0.5, ms(50), &[5, 10, 3])),
        7 => {
            let f = |q: Req| if q.id % 3 == 0 { Err(boom(q.id, 0)) } else { Ok(q) };
            go!(tower::filter::Filter::new(w.svc(0), NamedPred(f)))
        }
        8 => {
            let mk: Mk = MapErr::new(MkInner(probe(&w, 0)), (|e| e) as fn(BoxError) -> BoxError);
            go!(tower::reconnect::Reconnect::new(mk, 3u8))
        }
        9 => {
            let v: Vec<P> = (0..n).map(|i| probe(&w, i as u32)).collect();
            let pick: fn(&Req, &[P]) -> usize = |q, v| q.id as usize % v.len();
            go!(tower::steer::Steer::new(v, pick))
        }
        10 => {
            let v: Vec<_> = (0..=n).map(|i| tower::load::PendingRequests::new(probe(&w, i as u32), done)).collect();
            let b = tower::balance::p2c::Balance::from_rng(tower::discover::ServiceList::new::<Req>(v), Seeded(seed));
            go!(b)
        }
        11 => {
            let l = tower::spawn_ready::SpawnReadyLayer::new();
            p.at(&l, "the layer");
            go!(l.layer(probe(&w, 0)))
        }
        12 => go!(Optional::new(r.pct(70).then(|| probe(&w, 0)))),
        13 => {
            let (a, b) = (probe(&w, 0), probe(&w, 1));
            let e = if r.pct(50) { Either::<P, P>::Left(a) } else { Either::<P, P>::Right(b) };
            // its futures cannot be printed
            go!(clone e.map_future((|f| Shy(Box::pin(f))) as fn(_) -> Shy<_>))
        }
        14 => go!(tower::load::PendingRequests::new(probe(&w, 0), done)),
        15 => {
            let s = tower::load::PeakEwma::new(probe(&w, 0), ms(5), 1e7, done);
            go!(s)
        }
        16 => go!(tower::load::Constant::new(probe(&w, 0), n)),
        17 => {
            let inner = probe(&w, 0);
            let d = n * 5;
            go!(future_service(Box::pin(async move {
                sleep_ms(d).await;
                Ok::<_, BoxError>(inner)
            })))
        }
        18 => go!(clone probe(&w, 0).map_request(|q: Req| q)),
        19 => go!(clone probe(&w, 0).map_response(|x: Resp| x)),
        20 => go!(clone probe(&w, 0).map_result(|x: Result<Resp, BoxError>| x)),
        21 => go!(clone probe(&w, 0).and_then(|x: Resp| std::future::ready(Ok::<_, BoxError>(x)))),
        22 => go!(clone probe(&w, 0).then(|x: Result<Resp, BoxError>| std::future::ready(x))),
        23 => {
            let l = ServiceBuilder::new().concurrency_limit(n as usize).timeout(ms(30)).load_shed();
            p.at(&l, "the builder");
            go!(clone l.service(probe(&w, 0)))
        }
        24 => budget(c, &r, &p).await,
        25 => cache(c, &w, &r, &p).await,
        26 => {
            let s = tower::limit::GlobalConcurrencyLimitLayer::new(n as usize);
            p.at(&s, "the layer");
            go!(clone s.layer(probe(&w, 0)))
        }
        _ => callall(c, &w, &r, &p).await,
    }
    p.n.get()
}
#[derive(Clone)]
struct NamedPred<F>(F);
impl<F> fmt::Debug for NamedPred<F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("pred")
    }
}
impl<F: FnMut(Req) -> Result<Req, BoxError>> tower::filter::Predicate<Req> for NamedPred<F> {
    type Request = Req;
    fn check(&mut self, q: Req) -> Result<Req, BoxError> {
        (self.0)(q)
    }
}

struct Shy<F>(Pin<Box<F>>);
impl<F> fmt::Debug for Shy<F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("shy")
    }
}
impl<F: Future> Future for Shy<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        self.0.as_mut().poll(cx)
    }
}

async fn budget(c: &Case, r: &Rng, p: &Peek) {
    use tower::retry::budget::{Budget, TpsBudget};
    let b = TpsBudget::new(Duration::from_secs(r.range(1, 10)), r.range(0, 3) as u32, *r.pick(&[0.1f32, 0.5, 1.0, 3.0]));
    for _ in 0..r.range(10, 60) {
        p.at(&b, "the budget");
        match r.below(4) {
            0 => b.deposit(),
            1 => advance(r.range(0, 1500)).await,
            _ => ev!(c, "withdraw {}", b.withdraw()),
        }
    }
}

async fn cache(c: &Case, w: &World, r: &Rng, p: &Peek) {
    let mut cache = tower::ready_cache::ReadyCache::<u64, P, Req>::default();
    let tk = Tk::new();
    let mut futs = vec![];
    for step in 0..r.range(8, 40) {
        p.at(&cache, "the cache");
        let k = r.below(4);
        match r.below(8) {
            0 | 1 => cache.push(k, probe(w, k as u32)),
            2 => ev!(c, "{} evict {}", step, cache.evict(&k)),
            3 => {
                let g = tk.poll(|cx| cache.poll_pending(cx));
                ev!(c, "{} pending {:?}", step, g.map(|x| x.is_ok()));
            }
            4 => {
                let g = tk.poll(|cx| Poll::Ready(cache.check_ready(cx, &k)));
                let ok = matches!(g, Poll::Ready(Ok(true)));
                ev!(c, "{} check {} {}", step, k, ok);
                if ok && r.pct(70) {
                    futs.push(Fut::new(cache.call_ready(&k, w.req())));
                }
            }
            5 => w.gate_all(if r.pct(60) { Gate::Open } else { Gate::Closed }),
            6 => {
                if let Some(x) = w.unset_calls().first().copied() {
                    w.finish(x, true);
                }
            }
            _ => advance(r.below(10)).await,
        }
        let lens = (cache.len(), cache.ready_len(), cache.pending_len(), tk.woken());
        ev!(c, "{} {:?}", step, lens);
    }
}

async fn callall(c: &Case, w: &World, r: &Rng, p: &Peek) {
    use futures::Stream;
    let n = r.range(0, 6);
    let reqs: Vec<Req> = (0..n).map(|_| w.req()).collect();
    let un = r.pct(50);
    let st = futures::stream::iter(reqs);
    let tk = Tk::new();
    let mut a = None;
    let mut b = None;
    if un {
        b = Some(probe(w, 0).call_all(st).unordered());
    } else {
        a = Some(probe(w, 0).call_all(st));
    }
    for step in 0..r.range(5, 40) {
        if let Some(a) = &a {
            p.at(a, "the stream");
        }
        if let Some(b) = &b {
            p.at(b, "the stream");
        }
        match r.below(4) {
            0 | 1 => {
                let g = tk.poll(|cx| match (&mut a, &mut b) {
                    (Some(a), _) => Pin::new(a).poll_next(cx),
                    (_, Some(b)) => Pin::new(b).poll_next(cx),
                    _ => unreachable!(),
                });
                let t = match &g {
                    Poll::Pending => "pending".into(),
                    Poll::Ready(None) => "end".into(),
                    Poll::Ready(Some(x)) => format!("{:?}", x.as_ref().map(|x| x.id).map_err(|e| e.to_string())),
                };
                ev!(c, "{} next {}", step, t);
                if let Poll::Ready(None) | Poll::Ready(Some(Err(_))) = g {
                    break;
                }
            }
            2 => w.gate_all(if r.pct(70) { Gate::Open } else { Gate::Closed }),
            _ => {
                let u = w.unset_calls();
                if !u.is_empty() {
                    w.finish(u[r.us(u.len())], r.pct(90));
                }
            }
        }
    }
}

fn printing(c: &Case) {
    let seed = c.rng.u64();
    let what = c.rng.below(28);
    let mut logs = vec![];
    let mut n = 0;
    for on in [false, true] {
        let sub = Case::new(seed, c.thorough);
        n += sim(one(&sub, seed, what, on, c));
        logs.push(sub.take());
    }
    ev!(c, "component {}, {} events, {} prints", what, logs[0].events, n);
    c.fp(logs[0].fp);
    c.count("prints", n);
    if n >= 10 {
        c.nontrivial();
    }
    let same = logs[0].log == logs[1].log && logs[0].fp == logs[1].fp;
    if !chk!(c, same, "component {} behaves differently when it is printed in between", what) {
        let at = logs[0].log.lines().zip(logs[1].log.lines()).position(|(a, b)| a != b);
        for (t, l) in ["not printed", "printed"].iter().zip(&logs) {
            for (i, x) in l.log.lines().enumerate() {
                if at.map_or(true, |a| i + 6 > a && i <= a + 1) {
                    ev!(c, "{}: {}", t, x);
                }
            }
        }
    }
}
