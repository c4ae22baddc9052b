//! P30: long use holds no more. The bytes a component holds between two moments at which
//! nothing is outstanding do not depend on how much it was used in between.
use crate::kit::heap;
use crate::kit::*;
use futures::{Stream, StreamExt};
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::pin::Pin;
use std::sync::Mutex;
use std::task::{Context, Waker};
use tower::discover::Change;
use tower::util::{BoxCloneService, BoxService};
use tower::{ServiceBuilder, ServiceExt};

pub fn p30() -> Prop {
    Prop {
        id: "P30",
        rule: "a counting allocator measures what the case's thread holds at moments at which nothing is outstanding, each some hundred to some thousand uses (requests answered, failed, abandoned, timed out, readiness asked for by ever other tasks, services added, replaced, failed and removed) after the one before; the least of the last third of them must not exceed the greatest of the first third by more than 6 kB and, used on, in each of two further series three times as long as the one before, what was ever measured before; stacks: random stacks of up to five middlewares; parts: each component with state of its own, by itself; rebuilds: a random stack built, used a little and dropped at any moment, over and over; non-trivial: at least a thousand uses",
        assumptions: &["less than 5 bytes a use is not seen"],
        scenarios: vec![Scenario::new("stacks", 60, stacks), Scenario::new("parts", 120, parts), Scenario::new("rebuilds", 40, rebuilds)],
    }
}

/// A request, with something on the heap.
#[derive(Clone, Debug)]
struct Rq(u64, #[allow(dead_code)] Box<[u8; 40]>);
#[derive(Debug)]
struct Rs(u64, #[allow(dead_code)] Box<[u8; 24]>);
fn rq(r: &Rng) -> Rq {
    Rq(r.u64(), Box::new([1; 40]))
}
type Bs = BoxService<Rq, Rs, BoxError>;
type Cl = BoxCloneService<Rq, Rs, BoxError>;
type Out = Pin<Box<dyn Future<Output = Result<Rs, BoxError>> + Send>>;

/// What the leaves do.
#[derive(Default)]
struct Ctl {
    closed: bool,
    fail: bool,
    /// leaves that report a failure of readiness for good once they did
    never: bool,
    /// every so manyth leaf never gets ready, nor fails
    stuck: u64,
    next: u64,
    wakers: BTreeMap<u64, Waker>,
    seen: u64,
    given: u64,
}
#[derive(Clone)]
struct Hub(Arc<Mutex<Ctl>>);
impl Hub {
    fn new() -> Hub {
        Hub(Arc::new(Mutex::new(Ctl::default())))
    }
    fn leaf(&self) -> Leaf {
        let mut i = self.0.lock().unwrap();
        i.next += 1;
        Leaf(self.clone(), i.next, Box::new([3; 64]))
    }
    fn set(&self, f: impl FnOnce(&mut Ctl)) {
        let w = {
            let mut i = self.0.lock().unwrap();
            f(&mut i);
            std::mem::take(&mut i.wakers)
        };
        for x in w.into_values() {
            x.wake();
        }
    }
    fn seen(&self) -> u64 {
        self.0.lock().unwrap().seen
    }
}
struct Leaf(Hub, u64, #[allow(dead_code)] Box<[u8; 64]>);
impl Clone for Leaf {
    fn clone(&self) -> Leaf {
        self.0.leaf()
    }
}
impl Drop for Leaf {
    fn drop(&mut self) {
        let w = self.0 .0.lock().unwrap().wakers.remove(&self.1);
        drop(w);
    }
}
impl std::fmt::Debug for Leaf {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "leaf {}", self.1)
    }
}
impl tower::load::Load for Leaf {
    type Metric = u64;
    fn load(&self) -> u64 {
        self.1 % 3
    }
}
impl Service<Rq> for Leaf {
    type Response = Rs;
    type Error = BoxError;
    type Future = Out;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), BoxError>> {
        let mut i = self.0 .0.lock().unwrap();
        let stuck = i.stuck > 0 && self.1 % i.stuck == 0;
        if i.fail && !stuck {
            return Poll::Ready(Err("leaf failed".into()));
        }
        if stuck {
            // nothing will ever happen here
            return Poll::Pending;
        }
        if i.closed {
            let old = i.wakers.insert(self.1, cx.waker().clone());
            drop(i);
            drop(old);
            return Poll::Pending;
        }
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, q: Rq) -> Out {
        let never = {
            let mut i = self.0 .0.lock().unwrap();
            i.seen += 1;
            i.never
        };
        Box::pin(async move {
            match q.0 % 16 {
                0..=6 => {}
                7 => return Err("immediate".into()),
                8..=10 => tokio::time::sleep(Duration::from_millis(q.0 / 16 % 4)).await,
                11 => {
                    tokio::time::sleep(Duration::from_millis(q.0 / 16 % 4)).await;
                    return Err("later".into());
                }
                12 => tokio::task::yield_now().await,
                13 => tokio::time::sleep(Duration::from_millis(9)).await,
                14 => return Err(Box::new(std::io::Error::new(std::io::ErrorKind::Other, "io")) as BoxError),
                _ if never => futures::future::pending().await,
                _ => {}
            }
            Ok(Rs(q.0, Box::new([2; 24])))
        })
    }
}

/// The series of measurements of one case.
struct Meter {
    c: Case,
    /// uses between two measurements
    len: u64,
    /// calls of mark since the last measurement
    calls: u64,
    what: String,
    marks: Vec<i64>,
    warm: bool,
    /// growths seen by the series so far
    grown: Vec<i64>,
    all: Vec<i64>,
    uses: u64,
}
const MARKS: usize = 12;
const SLACK: i64 = 6 * 1024;
/// Something may grow once (a histogram seeing a longer latency than ever before), so what grew
/// is used on and must go on growing. A vector that doubles grows ever more rarely: each series
/// is three times as long as the one before, and compared with all that was measured until then.
const SERIES: usize = 3;
impl Meter {
    fn new(c: &Case, what: impl Into<String>) -> Meter {
        let len = match (c.thorough, c.rng.weighted(&[60, 30, 10])) {
            (false, k) => [150, 500, 2500][k],
            (true, k) => [300, 1500, 10000][k],
        };
        Meter {
            c: c.clone(),
            len,
            calls: 0,
            what: what.into(),
            marks: Vec::with_capacity(MARKS + 1),
            warm: false,
            grown: Vec::with_capacity(SERIES + 1),
            all: Vec::with_capacity(SERIES * (MARKS + 1)),
            uses: 0,
        }
    }
    /// Uses between two measurements.
    fn stretch(&self) -> u64 {
        self.len
    }
    /// To be called whenever nothing is outstanding, after another stretch of uses.
    async fn mark(&mut self) {
        // tasks that yielded are remembered by the runtime until it runs
        settle().await;
        if !self.warm {
            self.warm = true;
            return;
        }
        self.calls += 1;
        if self.calls < 3u64.pow(self.grown.len() as u32) {
            return;
        }
        self.calls = 0;
        let x = heap::live();
        self.marks.push(x);
        self.all.push(x);
    }
    /// Is another stretch needed?
    fn more(&mut self) -> bool {
        if self.marks.len() < MARKS {
            return true;
        }
        let k = MARKS / 3;
        let first = match self.all.len() - MARKS {
            0 => *self.marks[..k].iter().max().unwrap(),
            n => *self.all[..n].iter().max().unwrap(),
        };
        let last = *self.marks[MARKS - k..].iter().min().unwrap();
        if last - first > SLACK {
            self.grown.push(last - first);
            if self.grown.len() < SERIES {
                self.marks.clear();
                return true;
            }
        }
        false
    }
    fn done(&mut self) {
        let ds: Vec<i64> = self.all.iter().map(|x| x - self.all[0]).collect();
        ev!(self.c, "{}: held after each stretch {:?}", self.what, ds);
        self.c.count("measurements", ds.len() as u64);
        self.c.count("uses", self.uses);
        if !self.grown.is_empty() {
            self.c.count("series used on because something grew", 1);
        }
        let (what, uses, ok) = (self.what.clone(), self.uses, self.grown.len() < SERIES);
        self.c.check(ok, || format!("{} holds ever more: bytes {:?} over {} uses with nothing outstanding", what, ds, uses));
        if self.uses >= 1000 {
            self.c.nontrivial();
        }
    }
}

/// Poll by a task that never did before.
fn fresh<T>(f: impl FnOnce(&mut Context<'_>) -> Poll<T>) -> Poll<T> {
    Tk::new().poll(f)
}

#[derive(Clone)]
struct Pol(u32, u64, Arc<dyn tower::retry::budget::Budget + Send + Sync>);
impl tower::retry::Policy<Rq, Rs, BoxError> for Pol {
    type Future = Pin<Box<dyn Future<Output = ()> + Send>>;
    fn retry(&mut self, q: &mut Rq, x: &mut Result<Rs, BoxError>) -> Option<Self::Future> {
        match x {
            Ok(_) => {
                self.2.deposit();
                None
            }
            Err(_) if self.0 > 0 && self.2.withdraw() => {
                self.0 -= 1;
                q.0 /= 16;
                let d = self.1;
                Some(Box::pin(async move { tokio::time::sleep(Duration::from_millis(d)).await }))
            }
            Err(_) => None,
        }
    }
    fn clone_request(&mut self, q: &Rq) -> Option<Rq> {
        (q.0 % 5 != 0).then(|| q.clone())
    }
}
#[derive(Clone)]
struct HPol;
impl tower::hedge::Policy<Rq> for HPol {
    fn clone_request(&self, q: &Rq) -> Option<Rq> {
        (q.0 % 5 != 0).then(|| q.clone())
    }
    fn can_retry(&self, q: &Rq) -> bool {
        q.0 % 7 != 0
    }
}

enum Sv {
    P(Bs),
    C(Cl),
}
const KINDS: u64 = 26;
/// Put one more middleware on top.
fn over(k: u64, s: Sv, r: &Rng, names: &mut Vec<&'static str>) -> Sv {
    let ms = |a, b| Duration::from_millis(r.range(a, b));
    macro_rules! both {
        ($n:literal, $s:ident => $e:expr) => {{
            names.push($n);
            match s {
                Sv::P($s) => Sv::P(BoxService::new($e)),
                Sv::C($s) => Sv::C(BoxCloneService::new($e)),
            }
        }};
    }
    macro_rules! plain {
        ($n:literal, $s:ident => $e:expr) => {{
            names.push($n);
            match s {
                Sv::P($s) => Sv::P(BoxService::new($e)),
                Sv::C($s) => Sv::P(BoxService::new($e)),
            }
        }};
    }
    macro_rules! clone {
        ($n:literal, $s:ident => $e:expr) => {{
            let $s = match s {
                Sv::C(x) => x,
                Sv::P(x) => {
                    names.push("buffer");
                    BoxCloneService::new(tower::buffer::Buffer::new(x, 4))
                }
            };
            names.push($n);
            Sv::C(BoxCloneService::new($e))
        }};
    }
    match k {
        0 | 1 => {
            names.push("buffer");
            let n = *r.pick(&[1usize, 2, 5, 40]);
            Sv::C(match s {
                Sv::P(s) => BoxCloneService::new(tower::buffer::Buffer::new(s, n)),
                Sv::C(s) => BoxCloneService::new(tower::buffer::Buffer::new(s, n)),
            })
        }
        2 | 3 => both!("concurrency limit", s => tower::limit::ConcurrencyLimit::new(s, *r.pick(&[1, 2, 5]))),
        4 | 5 => plain!("rate limit", s => tower::limit::RateLimit::new(s, tower::limit::rate::Rate::new(r.range(1, 4), ms(1, 3)))),
        6 => both!("load shed", s => tower::load_shed::LoadShed::new(s)),
        7 | 8 => both!("timeout", s => tower::timeout::Timeout::new(s, ms(1, 5))),
        9 | 10 => clone!("retry", s => tower::retry::Retry::new(
            Pol(r.range(0, 3) as u32, r.range(0, 2), Arc::new(tower::retry::budget::TpsBudget::new(Duration::from_secs(1), r.range(0, 20) as u32, 0.5))),
            s
        )),
        11 | 12 => {
            let (n, q, p) = (r.range(0, 3), r.f64() as f32, ms(5, 200));
            {
                let s = match s {
                    Sv::C(x) => x,
                    Sv::P(x) => {
                        names.push("buffer");
                        BoxCloneService::new(tower::buffer::Buffer::new(x, 4))
                    }
                };
                names.push("hedge");
                Sv::P(BoxService::new(tower::hedge::Hedge::new(s, HPol, n, q, p)))
            }
        }
        13 => both!("filter", s => tower::filter::Filter::new(s, |q: Rq| if q.0 % 3 == 0 { Err(BoxError::from("no")) } else { Ok(q) })),
        14 => clone!("async filter", s => tower::filter::AsyncFilter::new(s, |q: Rq| async move {
            tokio::time::sleep(Duration::from_millis(q.0 % 2)).await;
            if q.0 % 3 == 0 { Err(BoxError::from("no")) } else { Ok(q) }
        }.boxed_send())),
        15 | 16 => plain!("spawn ready", s => tower::spawn_ready::SpawnReady::new(s)),
        17 => both!("map request", s => s.map_request(|q: Rq| Rq(q.0, Box::new([3; 40])))),
        18 => both!("map result", s => s.map_result(|x: Result<Rs, BoxError>| x.map(|x| Rs(x.0, Box::new([4; 24]))).map_err(|e| BoxError::from(e.to_string())))),
        19 => both!("then", s => s.then(|x: Result<Rs, BoxError>| async move {
            tokio::task::yield_now().await;
            x
        }.boxed_send2())),
        20 => plain!("pending requests", s => tower::load::PendingRequests::new(s, tower::load::CompleteOnResponse::default())),
        21 => plain!("peak ewma", s => tower::load::PeakEwma::new(s, ms(1, 9), 1e7, tower::load::CompleteOnResponse::default())),
        22 => both!("either", s => tower::util::Either::<_, Dead>::Left(s)),
        23 => both!("option layer", s => ServiceBuilder::new().option_layer(Some(tower::timeout::TimeoutLayer::new(ms(2, 9)))).service(s)),
        24 => plain!("future service", s => tower::util::future_service(std::future::ready(Ok::<_, BoxError>(s)))),
        // two that share a limit or a queue each wait for a place the other holds, for good
        _ if names.contains(&"concurrency limit") || names.contains(&"buffer") => clone!("steer", s => tower::steer::Steer::new(vec![s], |_: &Rq, _: &[Cl]| 0)),
        _ => clone!("steer", s => tower::steer::Steer::new(vec![s.clone(), s], |q: &Rq, _: &[Cl]| (q.0 % 2) as usize)),
    }
}
trait Bx2: Future + Sized {
    fn boxed_send(self) -> Pin<Box<dyn Future<Output = Self::Output> + Send>>
    where
        Self: Send + 'static,
    {
        Box::pin(self)
    }
    fn boxed_send2(self) -> Pin<Box<dyn Future<Output = Self::Output> + Send>>
    where
        Self: Send + 'static,
    {
        Box::pin(self)
    }
}
impl<F: Future> Bx2 for F {}
#[derive(Clone)]
struct Dead;
impl Service<Rq> for Dead {
    type Response = Rs;
    type Error = BoxError;
    type Future = Out;
    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), BoxError>> {
        unreachable!()
    }
    fn call(&mut self, _: Rq) -> Out {
        unreachable!()
    }
}

/// Use a service for a stretch; returns what is still outstanding.
async fn busy<S>(m: &mut Meter, hub: &Hub, r: &Rng, svc: &mut S, dup: &dyn Fn(&S) -> Option<S>, n: u64) -> (VecDeque<Pin<Box<S::Future>>>, Vec<S>)
where
    S: Service<Rq, Response = Rs, Error = BoxError>,
    S::Future: 'static,
{
    let mut futs: VecDeque<Pin<Box<S::Future>>> = VecDeque::with_capacity(16);
    // no request is out for long: the histogram of a hedge is the greater the longer the longest
    // latency (above two seconds)
    let mut old = 0;
    let mut extra: Vec<S> = Vec::with_capacity(4);
    for _ in 0..n {
        m.uses += 1;
        if r.pct(5) {
            let x = r.pct(50);
            hub.set(|h| h.closed = x);
        }
        // whose turn it is
        let k = extra.len();
        if r.pct(30) {
            if k < 3 {
                if let Some(x) = dup(svc) {
                    extra.push(x);
                }
            } else {
                drop(extra.swap_remove(r.us(k)));
            }
        }
        let s = if extra.is_empty() || r.pct(40) {
            &mut *svc
        } else {
            let k = extra.len();
            &mut extra[r.us(k)]
        };
        let mut ready = false;
        for _ in 0..r.range(1, 4) {
            if let Poll::Ready(x) = fresh(|cx| s.poll_ready(cx)) {
                ready = x.is_ok();
                break;
            }
            if r.pct(40) {
                settle().await;
            }
        }
        if ready && r.pct(90) {
            let f = Box::pin(s.call(rq(r)));
            if r.pct(90) {
                futs.push_back(f);
            }
        }
        let mut i = 0;
        while i < futs.len() {
            if r.pct(50) && fresh(|cx| futs[i].as_mut().poll(cx)).is_ready() || r.pct(5) {
                drop(futs.remove(i));
            } else {
                i += 1;
            }
        }
        if futs.len() > 6 {
            futs.pop_front();
        }
        match r.below(8) {
            0 => advance(r.range(1, 3)).await,
            1 => settle().await,
            2 if r.pct(5) => {
                advance(r.range(100, 500)).await;
                old += 1;
            }
            _ => {}
        }
        if old == 3 {
            old = 0;
            futs.clear();
        }
    }
    (futs, extra)
}

/// Use a service for a stretch; afterwards nothing is outstanding.
async fn stretch<S>(m: &mut Meter, hub: &Hub, r: &Rng, svc: &mut S, dup: &dyn Fn(&S) -> Option<S>, n: u64)
where
    S: Service<Rq, Response = Rs, Error = BoxError>,
    S::Future: 'static,
{
    let (mut futs, extra) = busy(m, hub, r, svc, dup, n).await;
    // come to rest
    hub.set(|h| h.closed = false);
    drop(extra);
    for _ in 0..12 {
        futs.retain_mut(|f| fresh(|cx| f.as_mut().poll(cx)).is_pending());
        settle().await;
        let _ = fresh(|cx| svc.poll_ready(cx));
        advance(4).await;
    }
    drop(futs);
    for _ in 0..4 {
        settle().await;
        let _ = fresh(|cx| svc.poll_ready(cx));
        advance(4).await;
    }
}

async fn series<S>(m: &mut Meter, hub: &Hub, r: &Rng, svc: &mut S, dup: &dyn Fn(&S) -> Option<S>)
where
    S: Service<Rq, Response = Rs, Error = BoxError>,
    S::Future: 'static,
{
    let n = m.stretch();
    while m.more() {
        stretch(m, hub, r, svc, dup, n).await;
        m.mark().await;
    }
    m.done();
    if m.uses > 0 && hub.seen() == 0 {
        m.c.count("stacks never reached", 1);
    }
}

fn stacks(c: &Case) {
    sim(async {
        let r = c.rng.fork();
        let hub = Hub::new();
        hub.0.lock().unwrap().never = r.pct(50);
        let mut names = vec![];
        let n = if r.pct(50) { 1 } else { r.range(2, 5) };
        let mut s = if r.pct(50) { Sv::P(BoxService::new(hub.leaf())) } else { Sv::C(BoxCloneService::new(hub.leaf())) };
        for _ in 0..n {
            s = over(r.below(KINDS), s, &r, &mut names);
        }
        names.reverse();
        let mut m = Meter::new(c, names.join(" over "));
        c.fp(hash(&m.what));
        match s {
            Sv::P(mut s) => series(&mut m, &hub, &r, &mut s, &|_| None).await,
            Sv::C(mut s) => series(&mut m, &hub, &r, &mut s, &|x| Some(x.clone())).await,
        }
    });
}
fn hash(s: &str) -> u64 {
    s.bytes().fold(7, |h, b| crate::kit::rng::mix(h ^ b as u64))
}

/// Stacks that do not live long.
fn rebuilds(c: &Case) {
    sim(async {
        let r = c.rng.fork();
        let hub = Hub::new();
        hub.0.lock().unwrap().never = r.pct(50);
        let n = if r.pct(50) { 1 } else { r.range(2, 4) };
        let (seed, cl) = (r.u64(), r.pct(50));
        let build = |names: &mut Vec<&'static str>| {
            let x = Rng::new(seed);
            let mut s = if cl { Sv::C(BoxCloneService::new(hub.leaf())) } else { Sv::P(BoxService::new(hub.leaf())) };
            for _ in 0..n {
                s = over(x.below(KINDS), s, &x, names);
            }
            s
        };
        let mut names = vec![];
        drop(build(&mut names));
        names.reverse();
        let mut m = Meter::new(c, format!("building and dropping {}", names.join(" over ")));
        c.fp(hash(&m.what));
        while m.more() {
            let end = m.uses + m.stretch();
            while m.uses < end {
                names.clear();
                let n = r.range(0, 12);
                let quiet = r.pct(30);
                match build(&mut names) {
                    Sv::P(mut s) => brief(&mut m, &hub, &r, &mut s, &|_| None, n, quiet).await,
                    Sv::C(mut s) => brief(&mut m, &hub, &r, &mut s, &|x| Some(x.clone()), n, quiet).await,
                }
                m.uses += 1;
            }
            hub.set(|h| h.closed = false);
            for _ in 0..20 {
                settle().await;
                advance(1).await;
            }
            m.mark().await;
        }
        m.done();
        let _ = hub.seen();
    });
}
/// A short life, ended at any moment.
async fn brief<S>(m: &mut Meter, hub: &Hub, r: &Rng, svc: &mut S, dup: &dyn Fn(&S) -> Option<S>, n: u64, quiet: bool)
where
    S: Service<Rq, Response = Rs, Error = BoxError>,
    S::Future: 'static,
{
    let x = r.pct(40);
    hub.set(|h| h.closed = x);
    let other = if r.pct(30) { dup(svc) } else { None };
    if quiet {
        let _ = fresh(|cx| svc.poll_ready(cx));
        if r.pct(50) {
            settle().await;
        }
        return;
    }
    busy(m, hub, r, svc, dup, n).await;
    drop(other);
}

// ---- single components ----

fn parts(c: &Case) {
    let r = c.rng.fork();
    let k = r.below(14);
    c.fp(k);
    sim(async {
        match k {
            0 => cache(c, &r).await,
            1 | 2 => balance(c, &r).await,
            3 => reconnect(c, &r).await,
            4 => call_all(c, &r).await,
            5 => mock(c, &r).await,
            6 => budgets(c, &r).await,
            7 => makers(c, &r).await,
            8 => waiters(c, &r).await,
            9 => failures(c, &r).await,
            10 => steer(c, &r).await,
            11 => periods(c, &r).await,
            12 => loads(c, &r).await,
            _ => discovery(c, &r).await,
        }
    });
}

async fn cache(c: &Case, r: &Rng) {
    use tower::ready_cache::ReadyCache;
    let hub = Hub::new();
    hub.0.lock().unwrap().stuck = *r.pick(&[0, 2, 5]);
    let mut m = Meter::new(c, "ready cache");
    let mut rc: ReadyCache<u64, Leaf, Rq> = ReadyCache::default();
    let keys = *r.pick(&[3u64, 10, 1 << 40]);
    let clear = r.pct(50);
    let mut known: VecDeque<u64> = VecDeque::with_capacity(64);
    while m.more() {
        for _ in 0..m.stretch() {
            m.uses += 1;
            match r.below(9) {
                0..=1 => {
                    let k = r.below(keys);
                    if !known.contains(&k) {
                        known.push_back(k);
                    }
                    rc.push(k, hub.leaf());
                    if known.len() > 12 {
                        rc.evict(&known.pop_front().unwrap());
                    }
                }
                2 => {
                    if let Some(k) = known.pop_front() {
                        rc.evict(&k);
                    }
                }
                3 => {
                    let x = r.pct(50);
                    hub.set(|h| h.closed = x);
                }
                4 if r.pct(10) => {
                    hub.set(|h| h.fail = true);
                    while let Poll::Ready(Err(_)) = fresh(|cx| rc.poll_pending(cx)) {}
                    hub.set(|h| h.fail = false);
                }
                5 => {
                    if rc.ready_len() > 0 {
                        let i = r.us(rc.ready_len());
                        if let Ok(true) = rc.check_ready_index(&mut Context::from_waker(futures::task::noop_waker_ref()), i) {
                            let mut f = rc.call_ready_index(i, rq(r));
                            let _ = fresh(|cx| f.as_mut().poll(cx));
                        }
                    }
                }
                6 => {
                    if let Some(k) = known.front() {
                        let _ = fresh(|cx| Poll::Ready(rc.check_ready(cx, k)));
                    }
                }
                _ => while let Poll::Ready(Err(_)) = fresh(|cx| rc.poll_pending(cx)) {},
            }
        }
        if clear {
            while let Some(k) = known.pop_front() {
                rc.evict(&k);
            }
        }
        hub.set(|h| h.closed = false);
        while let Poll::Ready(Err(_)) = fresh(|cx| rc.poll_pending(cx)) {}
        m.mark().await;
    }
    m.done();
}

type Chg<S> = Result<Change<u64, S>, BoxError>;
/// A discovery fed by hand.
struct Feed<S>(Arc<Mutex<(VecDeque<Chg<S>>, Option<Waker>)>>);
impl<S> Clone for Feed<S> {
    fn clone(&self) -> Self {
        Feed(self.0.clone())
    }
}
impl<S> Feed<S> {
    fn new() -> Self {
        Feed(Arc::new(Mutex::new((VecDeque::with_capacity(64), None))))
    }
    fn push(&self, x: Chg<S>) {
        let w = {
            let mut i = self.0.lock().unwrap();
            i.0.push_back(x);
            i.1.take()
        };
        if let Some(w) = w {
            w.wake();
        }
    }
}
impl<S> Stream for Feed<S> {
    type Item = Chg<S>;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let mut i = self.0.lock().unwrap();
        match i.0.pop_front() {
            Some(x) => Poll::Ready(Some(x)),
            None => {
                i.1 = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

async fn balance(c: &Case, r: &Rng) {
    use tower::balance::p2c::Balance;
    use tower::load::{CompleteOnResponse, PeakEwmaDiscover, PendingRequestsDiscover};
    let hub = Hub::new();
    hub.0.lock().unwrap().never = r.pct(50);
    hub.0.lock().unwrap().stuck = *r.pick(&[0, 2, 5]);
    let feed: Feed<Leaf> = Feed::new();
    let keys = *r.pick(&[3u64, 10, 1 << 40]);
    match r.below(3) {
        0 => {
            let m = Meter::new(c, "balance");
            churn(m, &hub, r, feed.clone(), Balance::new(feed), keys).await
        }
        1 => {
            let m = Meter::new(c, "balance over pending requests");
            let d = PendingRequestsDiscover::new::<Rq>(feed.clone(), CompleteOnResponse::default());
            churn(m, &hub, r, feed, Balance::new(d), keys).await
        }
        _ => {
            let m = Meter::new(c, "balance over peak ewma");
            let d = PeakEwmaDiscover::new::<Rq>(feed.clone(), Duration::from_millis(3), Duration::from_secs(1), CompleteOnResponse::default());
            churn(m, &hub, r, feed, Balance::new(d), keys).await
        }
    }
}
async fn churn<S>(mut m: Meter, hub: &Hub, r: &Rng, feed: Feed<Leaf>, mut svc: S, keys: u64)
where
    S: Service<Rq, Response = Rs, Error = BoxError>,
    S::Future: 'static,
{
    let mut known: VecDeque<u64> = VecDeque::with_capacity(64);
    let n = 25;
    let k = m.stretch() / 50;
    while m.more() {
        for _ in 0..k {
            for _ in 0..r.range(1, 4) {
                if r.pct(60) {
                    let k = r.below(keys);
                    known.retain(|x| *x != k);
                    known.push_back(k);
                    feed.push(Ok(Change::Insert(k, hub.leaf())));
                }
                if known.len() > 9 || r.pct(30) {
                    if let Some(k) = known.pop_front() {
                        feed.push(Ok(Change::Remove(k)));
                    }
                }
            }
            if r.pct(10) {
                hub.set(|h| h.fail = true);
                let _ = fresh(|cx| svc.poll_ready(cx));
                hub.set(|h| h.fail = false);
            }
            // changes without any request, too
            for _ in 0..r.range(0, 40) {
                let k = r.below(keys);
                let (closed, fail) = (r.pct(20), r.pct(15));
                hub.set(|h| {
                    h.closed = closed;
                    h.fail = fail;
                });
                feed.push(Ok(Change::Insert(k, hub.leaf())));
                let _ = fresh(|cx| svc.poll_ready(cx));
                feed.push(Ok(Change::Remove(k)));
                known.retain(|x| *x != k);
                let _ = fresh(|cx| svc.poll_ready(cx));
                m.uses += 1;
            }
            hub.set(|h| h.fail = false);
            stretch(&mut m, hub, r, &mut svc, &|_| None, n).await;
        }
        m.mark().await;
    }
    m.done();
}

/// Connections fail to be made or are lost.
async fn reconnect(c: &Case, r: &Rng) {
    let hub = Hub::new();
    let h2 = hub.clone();
    let r2 = r.fork();
    let mk = tower::service_fn(move |t: Rq| {
        let (h, x) = (h2.clone(), r2.below(10));
        Box::pin(async move {
            if x > 6 {
                tokio::time::sleep(Duration::from_millis(x - 6)).await;
            }
            if x % 3 == 0 {
                return Err(BoxError::from("no connection"));
            }
            h.0.lock().unwrap().given += t.0;
            Ok::<Leaf, BoxError>(h.leaf())
        }) as Pin<Box<dyn Future<Output = _> + Send>>
    });
    let mut svc = tower::reconnect::Reconnect::new(mk, Rq(1, Box::new([0; 40])));
    let mut m = Meter::new(c, "reconnect");
    let n = 8;
    let k = m.stretch() / 20;
    while m.more() {
        for _ in 0..k {
            stretch(&mut m, &hub, r, &mut svc, &|_| None, n).await;
            for _ in 0..r.range(1, 10) {
                // lost while idle
                hub.set(|h| h.fail = true);
                let mut x = 3;
                while fresh(|cx| svc.poll_ready(cx)).is_ready() && x > 0 {
                    // either a failure to connect is waiting to be told...
                    x -= 1;
                    hub.set(|h| h.fail = false);
                    let mut f = Box::pin(svc.call(rq(r)));
                    let _ = fresh(|cx| f.as_mut().poll(cx));
                    m.uses += 1;
                }
                hub.set(|h| h.fail = false);
                advance(5).await;
                let _ = fresh(|cx| svc.poll_ready(cx));
            }
        }
        m.mark().await;
    }
    m.done();
}

/// One stream of many requests.
async fn call_all(c: &Case, r: &Rng) {
    let hub = Hub::new();
    let unordered = r.pct(50);
    let q: Arc<Mutex<(u64, Option<Waker>)>> = Default::default();
    let (q2, r2) = (q.clone(), r.fork());
    let items = futures::stream::poll_fn(move |cx| {
        let mut i = q2.lock().unwrap();
        if i.0 == 0 {
            i.1 = Some(cx.waker().clone());
            return Poll::Pending;
        }
        i.0 -= 1;
        Poll::Ready(Some(rq(&r2)))
    });
    let all = hub.leaf().call_all(items);
    let mut s: Pin<Box<dyn Stream<Item = Result<Rs, BoxError>>>> = if unordered { Box::pin(all.unordered()) } else { Box::pin(all) };
    let mut m = Meter::new(c, if unordered { "call all, unordered" } else { "call all" });
    while m.more() {
        let mut sent = 0;
        let mut got = 0;
        let n = m.stretch();
        let mut idle = 0;
        while got < n && idle < 1000 {
            idle += 1;
            if r.pct(5) {
                let x = r.pct(50);
                hub.set(|h| h.closed = x);
            }
            if sent < n && sent - got < 20 {
                let k = r.range(0, 6).min(n - sent);
                sent += k;
                let w = {
                    let mut i = q.lock().unwrap();
                    i.0 += k;
                    i.1.take()
                };
                if let Some(w) = w {
                    w.wake();
                }
            }
            while let Poll::Ready(Some(_)) = fresh(|cx| s.as_mut().poll_next(cx)) {
                got += 1;
                idle = 0;
                if r.pct(20) {
                    break;
                }
            }
            if r.pct(30) {
                advance(r.range(1, 4)).await;
            }
            if idle > 20 {
                hub.set(|h| h.closed = false);
                advance(4).await;
            }
        }
        m.uses += got;
        chk!(c, got == n, "{} of {} answers", got, n);
        let _ = fresh(|cx| s.as_mut().poll_next(cx));
        m.mark().await;
    }
    m.done();
}

async fn mock(c: &Case, r: &Rng) {
    let (svc, mut h) = tower_test::mock::pair::<Rq, Rs>();
    let mut m = Meter::new(c, "mock");
    let mut main = svc;
    // what waits is never woken
    let starve = r.pct(40);
    while m.more() {
        for _ in 0..m.stretch() {
            m.uses += 1;
            let mut x = main.clone();
            let mut y = x.clone();
            h.allow(if starve { 0 } else { r.below(3) });
            for _ in 0..r.below(3) {
                let _ = fresh(|cx| y.poll_ready(cx));
            }
            let mut fs = vec![];
            for _ in 0..r.below(3) {
                if let Poll::Ready(Ok(())) = fresh(|cx| x.poll_ready(cx)) {
                    let mut f = x.call(rq(r));
                    let _ = fresh(|cx| Pin::new(&mut f).poll(cx));
                    if r.pct(70) {
                        fs.push(f);
                    }
                }
            }
            if r.pct(50) {
                drop(y);
                let _ = fresh(|cx| x.poll_ready(cx));
            } else if r.pct(20) && !starve {
                h.send_error("scripted");
                let _ = fresh(|cx| x.poll_ready(cx));
            }
            // all requests taken, some answered
            while let Some(Some((q, s))) = h.next_request().now_or_never() {
                match r.below(3) {
                    0 => s.send_response(Rs(q.0, Box::new([0; 24]))),
                    1 => s.send_error("e"),
                    _ => drop(s),
                }
            }
            for mut f in fs {
                let _ = fresh(|cx| Pin::new(&mut f).poll(cx));
            }
            if r.pct(10) {
                main = x;
            }
        }
        h.allow(0);
        while let Poll::Ready(Err(_)) = fresh(|cx| main.poll_ready(cx)) {}
        m.mark().await;
    }
    m.done();
}

/// Budgets and backoffs on their own.
async fn budgets(c: &Case, r: &Rng) {
    use tower::retry::backoff::{Backoff, ExponentialBackoffMaker, MakeBackoff};
    use tower::retry::budget::{Budget, TpsBudget};
    let mut m = Meter::new(c, "budget and backoff");
    let b = TpsBudget::new(Duration::from_secs(r.range(1, 60)), r.range(0, 5) as u32, 0.3);
    let mut mk = ExponentialBackoffMaker::new(Duration::from_millis(1), Duration::from_millis(50), 0.5, tower::util::rng::HasherRng::default()).unwrap();
    let mut session = mk.make_backoff();
    let far = r.pct(50);
    while m.more() {
        for _ in 0..m.stretch() * 2 {
            m.uses += 1;
            match r.below(6) {
                0 => b.deposit(),
                1 => {
                    let _ = b.withdraw();
                }
                2 => session = mk.make_backoff(),
                3 => {
                    let mut s = Box::pin(session.next_backoff());
                    let _ = fresh(|cx| s.as_mut().poll(cx));
                }
                4 if far => advance(r.range(500, 9000)).await,
                4 if r.pct(30) => advance(r.range(1, 9000)).await,
                _ => {}
            }
        }
        m.mark().await;
    }
    m.done();
}

/// Makers used for ever other targets.
async fn makers(c: &Case, r: &Rng) {
    use tower::make::{MakeService, Shared};
    let hub = Hub::new();
    let mut m = Meter::new(c, "makers");
    let mut shared = Shared::new(hub.leaf());
    let feed: Feed<Leaf> = Feed::new();
    let f2 = feed.clone();
    let mut bal = tower::balance::p2c::MakeBalance::<_, Rq>::new(tower::service_fn(move |_: u64| std::future::ready(Ok::<_, BoxError>(f2.clone()))));
    let h2 = hub.clone();
    let mut conn = tower::service_fn(move |t: u64| {
        let l = h2.leaf();
        async move {
            if t % 5 == 0 {
                return Err(BoxError::from("no"));
            }
            Ok::<_, BoxError>(l)
        }
        .boxed_send()
    });
    let mut into = tower::make::MakeService::<u64, Rq>::into_service(Shared::new(hub.leaf()));
    while m.more() {
        for i in 0..m.stretch() {
            m.uses += 1;
            match r.below(5) {
                0 => {
                    let _ = fresh(|cx| Service::<u64>::poll_ready(&mut shared, cx));
                    if let Ok(s) = shared.call(i).await {
                        let _ = s.oneshot(Rq(1, Box::new([0; 40]))).await;
                    }
                }
                1 => {
                    let _ = fresh(|cx| Service::<u64>::poll_ready(&mut bal, cx));
                    let mut s = bal.call(i).await.unwrap();
                    feed.push(Ok(Change::Insert(i, hub.leaf())));
                    let _ = fresh(|cx| s.poll_ready(cx));
                    let _ = fresh(|cx| s.poll_ready(cx));
                }
                2 => {
                    let _ = fresh(|cx| MakeService::<u64, Rq>::poll_ready(&mut conn, cx));
                    let _ = conn.make_service(i).await;
                }
                3 => {
                    let _ = fresh(|cx| Service::<u64>::poll_ready(&mut into, cx));
                    let _ = into.call(i).await;
                }
                _ => {
                    let mut f = tower::util::future_service(Box::pin({
                        let l = hub.leaf();
                        async move {
                            tokio::task::yield_now().await;
                            Ok::<_, BoxError>(l)
                        }
                    }));
                    let _ = fresh(|cx| f.poll_ready(cx));
                    if r.pct(50) {
                        let _ = fresh(|cx| f.poll_ready(cx));
                    }
                }
            }
        }
        feed.0.lock().unwrap().0.clear();
        m.mark().await;
    }
    m.done();
}

/// Nothing happens but that ever other tasks ask.
async fn waiters(c: &Case, r: &Rng) {
    let hub = Hub::new();
    hub.0.lock().unwrap().never = true;
    let mut names = vec![];
    let mut s = if r.pct(50) { Sv::P(BoxService::new(hub.leaf())) } else { Sv::C(BoxCloneService::new(hub.leaf())) };
    for _ in 0..r.range(1, 3) {
        s = over(r.below(KINDS), s, r, &mut names);
    }
    names.reverse();
    let mut m = Meter::new(c, format!("waiting for {}", names.join(" over ")));
    let mut s = match s {
        Sv::P(s) => s,
        Sv::C(s) => BoxService::new(s),
    };
    let gone = r.pct(50);
    let mut fut = None;
    while m.more() {
        for _ in 0..m.stretch() {
            m.uses += 1;
            match &mut fut {
                None => {
                    if let Poll::Ready(Ok(())) = fresh(|cx| s.poll_ready(cx)) {
                        // a request that is never answered
                        fut = Some(s.call(Rq(15, Box::new([0; 40]))));
                        hub.set(|h| h.closed = true);
                    }
                }
                Some(f) => {
                    if gone {
                        let _ = fresh(|cx| s.poll_ready(cx));
                    }
                    if fresh(|cx| f.as_mut().poll(cx)).is_ready() {
                        fut = None;
                        hub.set(|h| h.closed = false);
                    }
                }
            }
            if r.pct(10) {
                settle().await;
            }
            if r.pct(2) {
                advance(1).await;
            }
        }
        m.mark().await;
    }
    m.done();
}

/// A failed buffer keeps being asked.
async fn failures(c: &Case, r: &Rng) {
    let hub = Hub::new();
    let mut m = Meter::new(c, "a failed buffer");
    let b = tower::buffer::Buffer::new(hub.leaf(), 3);
    let mut b2 = b.clone();
    let ready = fresh(|cx| b2.poll_ready(cx)).is_ready();
    if r.pct(50) && ready {
        hub.set(|h| h.fail = true);
        let _f = b2.call(rq(r));
        settle().await;
    } else {
        hub.set(|h| h.fail = true);
        let f = b2.call(rq(r));
        settle().await;
        drop(f);
    }
    while m.more() {
        for _ in 0..m.stretch() {
            m.uses += 1;
            let mut x = b.clone();
            let failed = matches!(fresh(|cx| x.poll_ready(cx)), Poll::Ready(Err(_)));
            chk!(c, failed, "a failed buffer is ready");
            let _ = fresh(|cx| b2.poll_ready(cx));
        }
        m.mark().await;
    }
    m.done();
}

async fn steer(c: &Case, r: &Rng) {
    let hub = Hub::new();
    let n = r.range(1, 5);
    let mut m = Meter::new(c, format!("steer over {}", n));
    let svcs: Vec<Leaf> = (0..n).map(|_| hub.leaf()).collect();
    let mut s = tower::steer::Steer::new(svcs, move |q: &Rq, _: &[Leaf]| (q.0 % n) as usize);
    series(&mut m, &hub, r, &mut s, &|x| Some(x.clone())).await;
}

/// Discovery streams read on and on.
async fn discovery(c: &Case, r: &Rng) {
    use tower::load::{CompleteOnResponse, Load, PeakEwmaDiscover, PendingRequestsDiscover};
    let hub = Hub::new();
    let feed: Feed<Leaf> = Feed::new();
    let pend = r.pct(50);
    let mut m = Meter::new(c, if pend { "pending requests, discovered" } else { "peak ewma, discovered" });
    let mut a = PendingRequestsDiscover::new::<Rq>(feed.clone(), CompleteOnResponse::default());
    let mut b = PeakEwmaDiscover::new::<Rq>(feed.clone(), Duration::from_millis(5), Duration::from_secs(1), CompleteOnResponse::default());
    while m.more() {
        for i in 0..m.stretch() {
            m.uses += 1;
            match r.below(6) {
                0 => feed.push(Ok(Change::Remove(i))),
                1 if r.pct(10) => feed.push(Err("discovery failed".into())),
                _ => feed.push(Ok(Change::Insert(i, hub.leaf()))),
            }
            macro_rules! take {
                ($x:ident) => {
                    if let Poll::Ready(Some(Ok(Change::Insert(_, mut s)))) = fresh(|cx| Pin::new(&mut $x).poll_next(cx)) {
                        for _ in 0..r.below(3) {
                            if fresh(|cx| s.poll_ready(cx)).is_ready() {
                                let mut f = Box::pin(s.call(rq(r)));
                                let _ = fresh(|cx| f.as_mut().poll(cx));
                                let _ = s.load();
                            }
                        }
                    }
                };
            }
            if pend {
                take!(a);
            } else {
                take!(b);
            }
            if r.pct(10) {
                advance(1).await;
            }
        }
        let mut left = vec![];
        left.extend(feed.0.lock().unwrap().0.drain(..));
        drop(left);
        m.mark().await;
    }
    m.done();
    let _ = a.next().now_or_never();
}
use futures::FutureExt;

/// Hedges and rate limits used over very many periods.
async fn periods(c: &Case, r: &Rng) {
    let hub = Hub::new();
    let ms = r.range(2, 40);
    let hedge = r.pct(60);
    let mut m = Meter::new(c, if hedge { "hedge over many periods" } else { "rate limit over many periods" });
    let mut s: BoxService<Rq, Rs, BoxError> = if hedge {
        BoxService::new(tower::hedge::Hedge::new(BoxCloneService::new(hub.leaf()), HPol, r.range(0, 3), 0.5, Duration::from_millis(ms)))
    } else {
        BoxService::new(tower::limit::RateLimit::new(hub.leaf(), tower::limit::rate::Rate::new(r.range(1, 5), Duration::from_millis(ms))))
    };
    while m.more() {
        for _ in 0..m.stretch() {
            m.uses += 1;
            if fresh(|cx| s.poll_ready(cx)).is_ready() {
                let mut f = s.call(rq(r));
                if fresh(|cx| f.as_mut().poll(cx)).is_pending() && r.pct(30) {
                    advance(r.range(1, 8)).await;
                    let _ = fresh(|cx| f.as_mut().poll(cx));
                }
            }
            if r.pct(70) {
                advance(r.range(1, ms * 3)).await;
            }
        }
        m.mark().await;
    }
    m.done();
}

/// The loads of services that live long.
async fn loads(c: &Case, r: &Rng) {
    use tower::load::{CompleteOnResponse, Load, PeakEwma, PendingRequests};
    let hub = Hub::new();
    let pend = r.pct(40);
    let mut m = Meter::new(c, if pend { "one pending-requests load" } else { "one peak-ewma load" });
    let mut a = PendingRequests::new(hub.leaf(), CompleteOnResponse::default());
    let mut b = PeakEwma::new(hub.leaf(), Duration::from_millis(5), 1e9, CompleteOnResponse::default());
    while m.more() {
        for _ in 0..m.stretch() {
            m.uses += 1;
            macro_rules! go {
                ($s:ident) => {
                    if fresh(|cx| $s.poll_ready(cx)).is_ready() {
                        let mut f = Box::pin($s.call(rq(r)));
                        for _ in 0..r.below(4) {
                            if fresh(|cx| f.as_mut().poll(cx)).is_ready() {
                                break;
                            }
                            let _ = $s.load();
                            advance(r.range(1, 5)).await;
                        }
                    }
                    let _ = $s.load();
                };
            }
            if pend {
                go!(a);
            } else {
                go!(b);
            }
        }
        m.mark().await;
    }
    m.done();
}
