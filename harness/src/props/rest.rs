//! P29: waiting costs nothing. While nothing happens, everything that waits is at rest.
use super::stack::{Gen, Ps, Sv, KINDS};
use crate::kit::*;
use futures::{Stream, StreamExt};
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::sync::Mutex;
use std::task::{Context, Waker};
use tower::discover::Change;
use tower::util::*;
use tower::{ServiceBuilder, ServiceExt};

pub fn p29() -> Prop {
    Prop {
        id: "P29",
        rule: "stacks: seeded random stacks of up to eight middlewares (half of them single) over services opened, closed and answered by hand, several callers, after every step all woken tasks are polled until none is, and their number and the work seen by the services is bounded; parts: each component in each of its waiting states, with long timers, while the clock goes on in small steps; non-trivial: at least five steps left somebody waiting",
        assumptions: &["a bounded number of polls without need is not a violation"],
        scenarios: vec![Scenario::new("stacks", 1000, stacks), Scenario::new("parts", 1000, parts)],
    }
}

type Task = Fut<Pin<Box<dyn Future<Output = ()>>>>;

/// Everything that runs in one case.
struct Yard {
    c: Case,
    w: World,
    tasks: Vec<(&'static str, Task)>,
    what: String,
    size: u64,
    waits: u64,
    worst: u64,
}
impl Yard {
    fn new(c: &Case, w: &World, what: String, size: u64) -> Yard {
        Yard { c: c.clone(), w: w.clone(), tasks: vec![], what, size, waits: 0, worst: 0 }
    }
    fn add(&mut self, name: &'static str, f: impl Future<Output = ()> + 'static) {
        self.tasks.push((name, Fut::new(Box::pin(f) as Pin<Box<dyn Future<Output = ()>>>)));
    }
    /// What the services have seen so far.
    fn work(&self) -> u64 {
        let i = self.w.lock();
        i.npolls + i.calls.iter().map(|x| x.polls as u64 + 1).sum::<u64>()
    }
    fn waiting(&self) -> u64 {
        self.tasks.iter().filter(|t| !t.1.done).count() as u64
    }
    /// Poll whatever is woken until nothing is; returns the polls it took.
    async fn pump(&mut self) -> u64 {
        let cap = 400 + 40 * self.size * self.tasks.len() as u64;
        let (mut polls, mut idle, mut rounds) = (0u64, 0, 0u64);
        let start = self.work();
        let mut last = start;
        let mut who = "";
        while idle < 3 {
            settle().await;
            let mut any = false;
            for (n, t) in &mut self.tasks {
                if !t.done && (!t.polled || t.tk.woken()) {
                    let _ = t.poll();
                    polls += 1;
                    any = true;
                    who = n;
                }
            }
            let now = self.work();
            if any || now != last {
                idle = 0;
            } else {
                idle += 1;
            }
            last = now;
            rounds += 1;
            if rounds + polls > cap {
                let w = last - start;
                self.c.check(false, || {
                    format!("no rest over {}: after {} polls (last of a {}) and {} steps of the services with nothing happening", self.what, polls, who, w)
                });
                break;
            }
        }
        self.c.count("times everything came to rest", 1);
        self.worst = self.worst.max(polls);
        if self.waiting() > 0 {
            self.waits += 1;
        }
        polls + (last - start)
    }
    /// The clock goes on in small steps and nothing is due.
    async fn tick(&mut self, n: u64, why: &str) {
        let mut sum = 0;
        for _ in 0..n {
            advance(1).await;
            sum += self.pump().await;
            if self.c.violated() {
                return;
            }
        }
        let cap = n / 4 + 2;
        let what = self.what.clone();
        chk!(self.c, sum <= cap, "{} polls in {} ms in which nothing was due over {} ({})", sum, n, what, why);
    }
    fn finish(&mut self) {
        self.c.count("polls", self.worst);
        if self.waits >= 5 {
            self.c.nontrivial();
        }
    }
}

/// Change something the services do.
async fn event(c: &Case, w: &World, r: &Rng) {
    match r.below(10) {
        0..=2 => {
            let n = w.lock().insts.len();
            if n > 0 {
                let k = r.us(n);
                w.gate(k, if r.pct(70) { Gate::Open } else { Gate::Closed });
            }
        }
        3 => w.gate_all(if r.pct(70) { Gate::Open } else { Gate::Closed }),
        4..=7 => {
            let u = w.unset_calls();
            if !u.is_empty() {
                w.finish(u[r.us(u.len())], r.pct(70));
            }
        }
        _ => {
            let d = r.range(1, 60);
            ev!(c, "advance {}", d);
            advance(d).await;
        }
    }
}

async fn caller<S>(c: Case, w: World, mut s: S, n: u64)
where
    S: Service<Req, Response = Resp>,
    S::Error: std::fmt::Debug,
{
    for _ in 0..n {
        if std::future::poll_fn(|cx| s.poll_ready(cx)).await.is_err() {
            return;
        }
        let q = w.req();
        let id = q.id;
        let f = s.call(q);
        let x = f.await;
        ev!(c, "answer {} ok {}", id, x.is_ok());
    }
}

fn stacks(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let w = World::new(c, Plan::manual(*r.pick(&[Gate::Open, Gate::Closed, Gate::Closed])));
        w.lock().contract = false;
        let mut g = Gen::plain(c, &w);
        let mut s = g.leaf();
        let one = r.pct(50);
        for _ in 0..if one { 1 } else { 2 + r.us(6) } {
            let mut k = KINDS[r.us(KINDS.len())];
            if matches!(s, Sv::P(_)) && r.pct(30) {
                k = "buffer";
            }
            s = g.add(s, k);
        }
        let what = format!("{:?}", g.kinds());
        ev!(c, "stack {}", what);
        let mut y = Yard::new(c, &w, what, g.kinds().len() as u64);
        drop(g);
        let mut spare = None;
        match s {
            Sv::C(x) => {
                y.add("caller", caller(c.clone(), w.clone(), x.clone(), 3));
                spare = Some(x);
            }
            Sv::P(x) => y.add("caller", caller(c.clone(), w.clone(), x, 12)),
        }
        for _ in 0..r.range(8, 30) {
            y.pump().await;
            if c.violated() {
                break;
            }
            match &spare {
                Some(x) if r.pct(15) && y.tasks.len() < 8 => {
                    let n = r.range(1, 4);
                    y.add("caller", caller(c.clone(), w.clone(), x.clone(), n));
                }
                _ if r.pct(5) && !y.tasks.is_empty() => {
                    let k = r.us(y.tasks.len());
                    y.tasks.swap_remove(k);
                }
                _ => event(c, &w, &r).await,
            }
        }
        // when all that was due has come, nothing moves by itself
        let mut quiet = 0;
        for _ in 0..120 {
            advance(20_000).await;
            quiet = if y.pump().await == 0 { quiet + 1 } else { 0 };
            if quiet == 3 || c.violated() {
                break;
            }
        }
        if !c.violated() {
            y.tick(60, "all timers gone").await;
        }
        y.finish();
    });
}

type Q = Arc<Mutex<(VecDeque<Option<Req>>, Option<Waker>)>>;
struct Feed(Q);
impl Stream for Feed {
    type Item = Req;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Req>> {
        let mut q = self.0.lock().unwrap();
        match q.0.pop_front() {
            Some(x) => Poll::Ready(x),
            None => {
                q.1 = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}
struct Ends<S>(Arc<Mutex<(VecDeque<Change<u32, S>>, Option<Waker>)>>);
impl<S> Stream for Ends<S> {
    type Item = Result<Change<u32, S>, BoxError>;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let mut q = self.0.lock().unwrap();
        match q.0.pop_front() {
            Some(x) => Poll::Ready(Some(Ok(x))),
            None => {
                q.1 = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}
fn push<T>(q: &Mutex<(VecDeque<T>, Option<Waker>)>, x: T) {
    let w = {
        let mut q = q.lock().unwrap();
        q.0.push_back(x);
        q.1.take()
    };
    if let Some(w) = w {
        w.wake();
    }
}

/// A maker that waits for its turn; what it makes has the world's gates.
#[derive(Clone)]
struct Slow(World, World);
impl Service<u8> for Slow {
    type Response = Probe;
    type Error = BoxError;
    type Future = Pin<Box<dyn Future<Output = Result<Probe, BoxError>> + Send>>;
    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), BoxError>> {
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, _: u8) -> Self::Future {
        let (w, gate) = (self.0.clone(), self.1.clone());
        Box::pin(async move {
            let mut p = gate.svc(9);
            std::future::poll_fn(|cx| p.poll_ready(cx)).await?;
            Ok(w.svc(0))
        })
    }
}

#[derive(Clone)]
struct Wait(Duration);
impl tower::retry::Policy<Req, Resp, Fail> for Wait {
    type Future = Pin<Box<dyn Future<Output = ()>>>;
    fn retry(&mut self, _: &mut Req, x: &mut Result<Resp, Fail>) -> Option<Self::Future> {
        use tower::retry::backoff::{Backoff, ExponentialBackoffMaker, MakeBackoff};
        if x.is_ok() {
            return None;
        }
        let mut m = ExponentialBackoffMaker::new(self.0, self.0 * 2, 0.0, HasherRng::default()).ok()?;
        let f = m.make_backoff().next_backoff();
        Some(Box::pin(async move { f.await }))
    }
    fn clone_request(&mut self, q: &Req) -> Option<Req> {
        Some(q.clone())
    }
}
use tower::util::rng::HasherRng;
#[derive(Clone)]
struct Twice;
impl tower::hedge::Policy<Req> for Twice {
    fn clone_request(&self, q: &Req) -> Option<Req> {
        Some(q.clone())
    }
    fn can_retry(&self, _: &Req) -> bool {
        true
    }
}

/// Every component in its waiting states.
fn parts(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let w = World::new(c, Plan::manual(*r.pick(&[Gate::Open, Gate::Closed, Gate::Closed])));
        w.lock().contract = false;
        let long = Duration::from_secs(r.range(1000, 9000));
        let k = r.below(19);
        let mut y = Yard::new(c, &w, format!("part {}", k), 3);
        let go = |s: Ps, y: &mut Yard, n| y.add("caller", caller(c.clone(), w.clone(), s, n));
        let bx = |e: Fail| -> BoxError { e.into() };
        let feed: Q = Default::default();
        let ends: Arc<Mutex<(VecDeque<Change<u32, tower::load::Constant<Probe, u32>>>, Option<Waker>)>> = Default::default();
        let gate2 = World::new(c, Plan::manual(Gate::Closed));
        gate2.lock().contract = false;
        let mut mock = None;
        let mut keep: Option<tower::buffer::Buffer<Req, RespFut>> = None;
        match k {
            0 | 1 => {
                y.what = "a buffer driven by hand".into();
                let (b, worker) = tower::buffer::Buffer::pair(w.svc(0), r.range(1, 3) as usize);
                y.add("worker", worker);
                for _ in 0..r.range(1, 5) {
                    y.add("caller", caller(c.clone(), w.clone(), b.clone(), r.range(1, 4)));
                }
                if r.pct(70) {
                    keep = Some(b);
                }
            }
            2 => {
                y.what = "a ready cache".into();
                let w2 = w.clone();
                let n = r.range(1, 6);
                y.add("cache", async move {
                    let mut cache = tower::ready_cache::ReadyCache::<u64, Probe, Req>::default();
                    for i in 0..n {
                        cache.push(i, w2.svc(i as u32));
                    }
                    let mut futs = vec![];
                    for _ in 0..4 {
                        let _ = std::future::poll_fn(|cx| cache.poll_pending(cx)).await;
                        for i in 0..cache.ready_len() {
                            futs.push(cache.call_ready_index(i, w2.req()));
                            break;
                        }
                    }
                });
            }
            3 | 4 => {
                y.what = format!("a stream of requests ({})", if k == 3 { "ordered" } else { "unordered" });
                let a = w.svc(0).call_all(Feed(feed.clone()));
                if k == 3 {
                    y.add("stream", a.for_each(|_| std::future::ready(())));
                } else {
                    y.add("stream", a.unordered().for_each(|_| std::future::ready(())));
                }
            }
            5 | 6 => {
                y.what = "a balancer over a quiet discovery".into();
                let b = tower::balance::p2c::Balance::new(Ends(ends.clone()));
                go(Ps::new(b), &mut y, 20);
            }
            7 => {
                y.what = "a reconnecting service".into();
                let s = tower::reconnect::Reconnect::new(Slow(w.clone(), gate2.clone()), 1u8);
                go(Ps::new(s), &mut y, 20);
            }
            8 => {
                y.what = "a mock and its handle".into();
                let (m, mut h) = tower_test::mock::pair::<Req, Resp>();
                for _ in 0..r.range(1, 4) {
                    y.add("caller", caller(c.clone(), w.clone(), m.clone(), 3));
                }
                let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel::<u64>();
                let w2 = w.clone();
                y.add("handle", async move {
                    h.allow(0);
                    while let Some(n) = rx.recv().await {
                        h.allow(n);
                        if let Some((q, tx)) = h.next_request().await {
                            tx.send_response(w2.resp(q.id, q.tag));
                        }
                    }
                });
                mock = Some(tx);
            }
            9 => {
                y.what = "a long timeout".into();
                w.gate_all(Gate::Open);
                go(Ps::new(ServiceBuilder::new().timeout(long).service(w.svc(0))), &mut y, 5);
            }
            10 => {
                y.what = "a closed rate limit".into();
                w.gate_all(Gate::Open);
                w.lock().plan.manual_resp = false;
                go(Ps::new(ServiceBuilder::new().rate_limit(1, long).service(w.svc(0)).map_err(bx)), &mut y, 5);
            }
            11 => {
                y.what = "a retry that waits".into();
                w.gate_all(Gate::Open);
                y.add("caller", caller(c.clone(), w.clone(), tower::retry::Retry::new(Wait(long), w.svc(0)), 5));
            }
            12 => {
                y.what = "a hedge with long latencies".into();
                w.gate_all(Gate::Open);
                let ms = long.as_millis() as u64;
                let s = tower::hedge::Hedge::new_with_mock_latencies(w.svc(0).map_err(bx), Twice, 1, 0.9, long * 4, &[ms, ms + 1, ms]);
                y.add("caller", caller(c.clone(), w.clone(), s, 5));
            }
            13 => {
                y.what = "an asynchronous predicate".into();
                let g = gate2.clone();
                let s = w.svc(0).map_err(bx).filter_async(move |q: Req| {
                    let mut p = g.svc(9);
                    async move {
                        std::future::poll_fn(|cx| p.poll_ready(cx)).await?;
                        Ok::<_, BoxError>(q)
                    }
                });
                y.add("caller", caller(c.clone(), w.clone(), s, 5));
            }
            14 => {
                y.what = "a service spawned to become ready".into();
                y.add("caller", caller(c.clone(), w.clone(), tower::spawn_ready::SpawnReady::new(w.svc(0)), 9));
            }
            15 => {
                y.what = "one shared limit".into();
                let l = tower::limit::GlobalConcurrencyLimitLayer::new(r.range(1, 2) as usize);
                for _ in 0..r.range(2, 6) {
                    let s = ServiceBuilder::new().layer(&l).service(w.svc(0));
                    y.add("caller", caller(c.clone(), w.clone(), s, 4));
                }
            }
            16 => {
                y.what = "a steered set".into();
                let v: Vec<Probe> = (0..r.range(1, 5)).map(|i| w.svc(i as u32)).collect();
                let s = tower::steer::Steer::new(v, |q: &Req, v: &[Probe]| q.id as usize % v.len());
                y.add("caller", caller(c.clone(), w.clone(), s, 9));
            }
            17 => {
                y.what = "a service yet to be made".into();
                let (g, w2) = (gate2.clone(), w.clone());
                let s = future_service(Box::pin(async move {
                    let mut p = g.svc(9);
                    std::future::poll_fn(|cx| p.poll_ready(cx)).await?;
                    Ok::<_, Fail>(w2.svc(0))
                }));
                y.add("caller", caller(c.clone(), w.clone(), s, 4));
            }
            _ => {
                y.what = "one-shot calls".into();
                for _ in 0..4 {
                    let (s, q) = (w.svc(0), w.req());
                    y.add("caller", async move {
                        let _ = s.oneshot(q).await;
                    });
                }
            }
        }
        ev!(c, "{}", y.what);
        let timed = (9..=12).contains(&k);
        let mut key = 0;
        for _ in 0..r.range(5, 25) {
            y.pump().await;
            if c.violated() {
                break;
            }
            if r.pct(15) {
                y.tick(16, "long timers").await;
            }
            match (k, r.below(4)) {
                (3 | 4, 0) => {
                    for _ in 0..r.range(1, 4) {
                        push(&feed, Some(w.req()));
                    }
                    if r.pct(10) {
                        push(&feed, None);
                    }
                }
                (5 | 6, 0) => {
                    if key == 0 || r.pct(70) {
                        let n = r.range(1, 3);
                        for _ in 0..n {
                            key += 1;
                            push(&ends, Change::Insert(key, tower::load::Constant::new(w.svc(key), key)));
                        }
                    } else {
                        push(&ends, Change::Remove(r.range(1, key as u64) as u32));
                    }
                }
                (7 | 13 | 17, 0) => gate2.gate_all(if r.pct(60) { Gate::Open } else { Gate::Closed }),
                (8, 0) => {
                    let _ = mock.as_ref().unwrap().send(r.range(0, 2));
                }
                _ if timed => {
                    let u = w.unset_calls();
                    if r.pct(40) && !u.is_empty() {
                        w.finish(u[r.us(u.len())], r.pct(30));
                    } else if r.pct(20) {
                        advance(long.as_millis() as u64 + 1).await;
                    }
                }
                _ => event(c, &w, &r).await,
            }
            if r.pct(4) {
                keep = None;
            }
        }
        y.pump().await;
        if !c.violated() {
            y.tick(40, "waiting on").await;
        }
        drop(keep);
        y.finish();
    });
}
