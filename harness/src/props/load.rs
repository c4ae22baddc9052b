//! P14 pending-request load, P15 peak-EWMA load.
use crate::kit::*;
use std::fmt::Debug;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use tokio::time::Instant;
use tower::load::completion::{CompleteOnResponse, TrackCompletion, TrackCompletionFuture};
use tower::load::{Constant, Load, PeakEwma, PendingRequests};

pub fn p14() -> Prop {
    Prop {
        id: "P14",
        rule: "seeded random calls, resolutions, failures, drops and releases of tracked values against an exact count of held trackings, read after every step; non-trivial: the load rose to two or more and fell by at least two different causes",
        assumptions: &["the count is read from the Debug form of the metric, as it has no accessor"],
        scenarios: vec![
            Scenario::new("count", 6000, |c| {
                if c.rng.pct(50) {
                    count(c, CompleteOnResponse::default(), false)
                } else {
                    count(c, Hold(true), true)
                }
            }),
            Scenario::new("tracker", 2000, tracker), Scenario::new("large", 25, super::large::pending),
            Scenario::threaded("threads", 6, count_threads),
        ],
    }
}
pub fn p15() -> Prop {
    Prop {
        id: "P15",
        rule: "seeded random calls, completions, releases, idle times and load readings compared at every reading with an exact reference of the estimator; non-trivial: the estimate jumped up, moved towards a lower latency and decayed while idle",
        assumptions: &[
            "reading the load counts as an observation of zero latency, as the implementation documents by decaying on read",
            "a relative tolerance of 1e-6 for floating point",
        ],
        scenarios: vec![
            Scenario::new("estimate", 6000, |c| {
                if c.rng.pct(50) {
                    estimate(c, CompleteOnResponse::default(), false)
                } else {
                    estimate(c, Hold(true), true)
                }
            }),
            Scenario::new("constant", 500, constant), Scenario::new("large", 25, super::large::ewma),
            Scenario::threaded("threads", 6, ewma_threads),
            Scenario::threaded("thread_peaks", 40, ewma_peaks),
        ],
    }
}

/// A tracker that keeps the handle with the response when asked to.
#[derive(Clone)]
struct Hold(bool);
struct Held<H, V> {
    h: Option<H>,
    v: V,
}
impl<H, V> TrackCompletion<H, V> for Hold {
    type Output = Held<H, V>;
    fn track_completion(&self, h: H, v: V) -> Held<H, V> {
        Held { h: self.0.then_some(h), v }
    }
}
/// What came out of a tracked response.
trait Out {
    fn resp(&self) -> &Resp;
    /// let go of the tracking but keep the response
    fn release(&mut self) {}
}
impl Out for Resp {
    fn resp(&self) -> &Resp {
        self
    }
}
impl<H> Out for Held<H, Resp> {
    fn resp(&self) -> &Resp {
        &self.v
    }
    fn release(&mut self) {
        self.h = None;
    }
}

pub fn number(m: &impl Debug) -> f64 {
    let s = format!("{:?}", m);
    let t: String = s.chars().filter(|c| c.is_ascii_digit() || "+-.einfNa".contains(*c)).collect();
    // "Count(3)" leaves "n3", "Cost(1.5e9)" leaves "1.5e9"
    let t = t.trim_start_matches(|c: char| !c.is_ascii_digit() && c != '-' && c != '+');
    t.parse().unwrap_or(f64::NAN)
}

fn count<C>(c: &Case, comp: C, holds: bool)
where
    C: TrackCompletion<tower::load::pending_requests::Handle, Resp>,
    C::Output: Out,
{
    sim(async {
        let r = c.rng.clone();
        let w = World::new(c, Plan::manual(Gate::Open));
        let mut svc = PendingRequests::new(w.svc(0), comp.clone());
        // a second service of the same kind must not share the count
        let mut other = PendingRequests::new(w.svc(1), comp.clone());
        // (inner call, response future if not dropped, still counted)
        let mut open = vec![];
        let mut held: Vec<C::Output> = vec![];
        let mut spent = vec![];
        let mut other_open = vec![];
        let (mut max, mut by_ok, mut by_err, mut by_drop, mut by_release) = (0usize, 0u64, 0u64, 0u64, 0u64);
        let crowd = r.pct(2);
        for _ in 0..r.range(5, 60) {
            if c.violated() {
                break;
            }
            match r.weighted(&[30, 25, 12, 12, 5, 6, 6]) {
                0 if crowd && r.pct(25) => {
                    // many at once
                    let tk = Tk::new();
                    for _ in 0..r.range(30, 300) {
                        w.gate(0, Gate::Open);
                        chk!(c, tk.poll(|cx| svc.poll_ready(cx)).is_ready(), "not ready");
                        open.push((w.ncalls(), Fut::new(svc.call(w.req()))));
                    }
                }
                0 => {
                    let tk = Tk::new();
                    let g = *r.pick(&[Gate::Open, Gate::Open, Gate::Open, Gate::Closed]);
                    w.gate(0, g);
                    let got = tk.poll(|cx| svc.poll_ready(cx));
                    let ready = w.lock().insts[0].ready;
                    chk!(c, matches!(got, Poll::Ready(Ok(()))) == ready, "readiness {:?} with the inner service ready {}", got, ready);
                    if !ready {
                        w.gate(0, Gate::Open);
                        chk!(c, tk.woken(), "the waker did not reach the wrapped service");
                        continue;
                    }
                    let k = w.ncalls();
                    let req = w.req();
                    let id = req.id;
                    let f = Fut::new(svc.call(req));
                    chk!(c, w.ncalls() == k + 1 && w.lock().calls[k].id == id, "the call was not passed on once");
                    open.push((k, f));
                }
                1 => {
                    if open.is_empty() {
                        continue;
                    }
                    let i = r.us(open.len());
                    let ok = r.pct(60);
                    let k = open[i].0;
                    if r.pct(40) {
                        chk!(c, open[i].1.poll().is_pending(), "answered before the wrapped service answered");
                        w.finish(k, ok);
                        chk!(c, open[i].1.tk.woken(), "the response is ready and its task was not woken");
                    } else {
                        w.finish(k, ok);
                    }
                    // between the inner answer and the poll that sees it, it is outstanding
                    let l = number(&svc.load());
                    chk!(c, l as usize == open.len() + if holds { held.len() } else { 0 }, "load {} with {} responses outstanding and {} values held", l, open.len(), held.len());
                    let (k, mut f) = open.swap_remove(i);
                    let id = w.lock().calls[k].id;
                    match f.poll() {
                        Poll::Ready(Ok(o)) => {
                            chk!(c, ok && o.resp().id == id && o.resp().call == k, "outcome changed");
                            by_ok += 1;
                            if holds || r.pct(30) {
                                held.push(o);
                            }
                        }
                        Poll::Ready(Err(e)) => {
                            chk!(c, !ok && e.id == id && e.call == Some(k), "outcome changed to {:?}", e);
                            by_err += 1;
                        }
                        Poll::Pending => c.fail("the answer was withheld"),
                    }
                    if r.pct(50) {
                        spent.push(f);
                    }
                }
                2 => {
                    if !open.is_empty() {
                        let (k, mut f) = open.swap_remove(r.us(open.len()));
                        if r.pct(50) {
                            let _ = f.poll();
                        }
                        drop(f);
                        ev!(c, "dropped call {}", k);
                        by_drop += 1;
                    }
                }
                3 => {
                    if !held.is_empty() {
                        let mut o = held.swap_remove(r.us(held.len()));
                        if holds {
                            by_release += 1;
                        }
                        if r.pct(50) {
                            o.release();
                            let l = number(&svc.load());
                            let want = open.len() + if holds { held.len() } else { 0 };
                            chk!(c, l as usize == want, "load {} after a tracked value was released, {} outstanding", l, want);
                        }
                        drop(o);
                    }
                }
                4 => spent.clear(),
                5 => {
                    let tk = Tk::new();
                    if tk.poll(|cx| other.poll_ready(cx)).is_ready() {
                        other_open.push(other.call(w.req()));
                    }
                }
                _ => {
                    other_open.pop();
                }
            }
            let want = open.len() + if holds { held.len() } else { 0 };
            max = max.max(want);
            for _ in 0..r.range(1, 2) {
                let l = number(&svc.load());
                chk!(c, l == want as f64, "load {} with {} requests outstanding", l, want);
            }
            let l = number(&other.load());
            chk!(c, l == other_open.len() as f64, "load {} of the other service with {} requests outstanding", l, other_open.len());
            // the metric orders services by their count
            let (a, b) = (svc.load(), other.load());
            chk!(c, a.partial_cmp(&b) == want.partial_cmp(&other_open.len()), "loads {:?} and {:?} compare wrongly", a, b);
            ev!(c, "load {}", want);
        }
        c.count("resolved", by_ok);
        c.count("failed", by_err);
        c.count("dropped unresolved", by_drop);
        c.count("released later", by_release);
        if max >= 2 && (by_ok > 0) as u8 + (by_err > 0) as u8 + (by_drop > 0) as u8 + (by_release > 0) as u8 >= 2 {
            c.nontrivial();
        }
        // readiness failure passes through
        if !c.violated() && !w.lock().insts[0].ready {
            w.gate(0, Gate::Err);
            let tk = Tk::new();
            let got = tk.poll(|cx| svc.poll_ready(cx));
            chk!(c, matches!(&got, Poll::Ready(Err(e)) if e.inst == 0), "readiness error changed: {:?}", got);
        }
        drop((open, held, spent, other_open, svc, other));
        w.check_no_leak("pending requests");
    });
}

/// The completion-tracking future on its own.
fn tracker(c: &Case) {
    struct Token(Arc<AtomicI64>, Arc<AtomicU64>);
    impl Drop for Token {
        fn drop(&mut self) {
            self.0.fetch_sub(1, SeqCst);
            self.1.fetch_add(1, SeqCst);
        }
    }
    sim(async {
        let r = c.rng.clone();
        let w = World::new(c, Plan::manual(Gate::Open));
        let live = Arc::new(AtomicI64::new(0));
        let drops = Arc::new(AtomicU64::new(0));
        let mut p = w.svc(0);
        let mut futs = vec![];
        let mut outs: Vec<Held<Token, Resp>> = vec![];
        let mut spent = vec![];
        for _ in 0..r.range(4, 30) {
            match r.below(3) {
                0 => {
                    let tk = Tk::new();
                    let _ = tk.poll(|cx| p.poll_ready(cx));
                    let k = w.ncalls();
                    live.fetch_add(1, SeqCst);
                    let hold = r.pct(50);
                    futs.push((k, hold, Fut::new(TrackCompletionFuture::new(Hold(hold), Token(live.clone(), drops.clone()), p.call(w.req())))));
                }
                1 if !futs.is_empty() => {
                    let (k, hold, mut f) = futs.swap_remove(r.us(futs.len()));
                    if r.pct(30) {
                        drop(f);
                        continue;
                    }
                    let ok = r.pct(60);
                    w.finish(k, ok);
                    match f.poll() {
                        Poll::Ready(Ok(o)) => {
                            chk!(c, ok && o.v.call == k && o.h.is_some() == hold, "wrong outcome");
                            c.nontrivial();
                            if hold {
                                outs.push(o);
                            }
                        }
                        Poll::Ready(Err(e)) => {
                            chk!(c, !ok && e.call == Some(k), "wrong error");
                        }
                        Poll::Pending => c.fail("the answer was withheld"),
                    }
                    if r.pct(50) {
                        spent.push(f);
                    }
                }
                _ => {
                    outs.pop();
                }
            }
            let l = live.load(SeqCst);
            chk!(c, l as usize == futs.len() + outs.len(), "{} handles held with {} responses outstanding and {} values tracked", l, futs.len(), outs.len());
            if c.violated() {
                break;
            }
        }
        drop((futs, outs, spent, p));
        chk!(c, live.load(SeqCst) == 0, "handles leaked");
        w.check_no_leak("tracker");
    });
}

fn count_threads(c: &Case) {
    let n = 8;
    let per = if c.thorough { 20_000 } else { 4_000 };
    let hits = Arc::new(AtomicU64::new(0));
    let svc = Arc::new(Mutex::new(PendingRequests::new(
        tower::service_fn(|x: u64| async move {
            if x % 3 == 0 {
                Err(())
            } else {
                Ok(x)
            }
        }),
        Hold(true),
    )));
    let seeds: Vec<Rng> = (0..n).map(|_| c.rng.fork()).collect();
    std::thread::scope(|sc| {
        for r in seeds {
            let (svc, hits, c) = (svc.clone(), hits.clone(), c.clone());
            sc.spawn(move || {
                let mut held = vec![];
                for i in 0..per {
                    let mut f = Fut::new(svc.lock().unwrap().call(i));
                    if r.pct(70) {
                        if let Poll::Ready(Ok(o)) = f.poll() {
                            if r.pct(30) {
                                held.push(o);
                            }
                        }
                    }
                    // what this thread holds right now is certainly counted
                    if i % 16 == 0 && !f.done {
                        let l = number(&svc.lock().unwrap().load());
                        hits.fetch_add(l as u64, SeqCst);
                        chk!(c, l >= held.len() as f64 + 1.0, "load {} while one thread alone holds {}", l, held.len() + 1);
                    }
                    drop(f);
                    if held.len() > 4 {
                        held.clear();
                    }
                    if i % 64 == 0 {
                        let l = number(&svc.lock().unwrap().load());
                        chk!(c, l >= 0.0 && l <= (n * 7) as f64, "load {} with {} threads", l, n);
                    }
                }
            });
        }
    });
    let l = number(&svc.lock().unwrap().load());
    ev!(c, "threads done, load {}", l);
    chk!(c, l == 0.0, "load {} after everything was released", l);
    c.count("threaded calls", per * n as u64);
    c.fp(hits.load(SeqCst));
    c.nontrivial();
}

// ---------------------------------------------------------------- P15

/// Reference estimator.
struct Est {
    at: Instant,
    rtt: f64,
    decay: f64,
}
impl Est {
    fn observe(&mut self, now: Instant, rtt: Duration) -> i8 {
        let rtt = rtt.as_nanos() as f64;
        let kind;
        if self.rtt < rtt {
            self.rtt = rtt;
            kind = 1;
        } else {
            let k = (-((now - self.at).as_nanos() as f64) / self.decay).exp();
            let next = self.rtt * k + rtt * (1.0 - k);
            kind = if next < self.rtt { -1 } else { 0 };
            self.rtt = next;
        }
        self.at = now;
        kind
    }
}
fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-6 * b.abs() + 1e-9
}

fn estimate<C>(c: &Case, comp: C, holds: bool)
where
    C: TrackCompletion<tower::load::peak_ewma::Handle, Resp>,
    C::Output: Out,
{
    sim(async {
        let r = c.rng.clone();
        let w = World::new(c, Plan::manual(Gate::Open));
        let default = Duration::from_micros(*r.pick(&[1u64, 50, 1_000, 30_000, 1_000_000, 3_600_000_000]));
        let decay_ms = *r.pick(&[1u64, 10, 100, 1_000, 10_000]);
        let decay = decay_ms as f64 * 1e6;
        tokio::time::advance(Duration::from_millis(r.below(50))).await;
        let mut svc = PeakEwma::new(w.svc(0), default, decay, comp.clone());
        let mut est = Est { at: Instant::now(), rtt: default.as_nanos() as f64, decay };
        ev!(c, "default {:?} decay {} ms", default, decay_ms);
        let mut open: Vec<(usize, Instant, _)> = vec![];
        let mut held: Vec<(Instant, C::Output)> = vec![];
        let mut spent = vec![];
        let (mut jumps, mut moves, mut decays, mut done_late) = (0u64, 0u64, 0u64, 0u64);
        let chatty = r.pct(50);
        let crowd = r.pct(2);
        for _ in 0..r.range(8, 70) {
            if c.violated() {
                break;
            }
            match r.weighted(&[20, 20, 8, 8, 4, 30]) {
                0 if crowd && r.pct(25) => {
                    let tk = Tk::new();
                    for _ in 0..r.range(30, 300) {
                        w.gate(0, Gate::Open);
                        chk!(c, tk.poll(|cx| svc.poll_ready(cx)).is_ready(), "not ready");
                        open.push((w.ncalls(), Instant::now(), Fut::new(svc.call(w.req()))));
                    }
                }
                0 => {
                    let tk = Tk::new();
                    let g = *r.pick(&[Gate::Open, Gate::Open, Gate::Closed]);
                    w.gate(0, g);
                    let got = tk.poll(|cx| svc.poll_ready(cx));
                    let ready = w.lock().insts[0].ready;
                    chk!(c, matches!(got, Poll::Ready(Ok(()))) == ready, "readiness changed: {:?}", got);
                    if !ready {
                        w.gate(0, Gate::Open);
                        chk!(c, tk.woken(), "the waker did not reach the wrapped service");
                        continue;
                    }
                    let k = w.ncalls();
                    open.push((k, Instant::now(), Fut::new(svc.call(w.req()))));
                    chk!(c, w.ncalls() == k + 1, "the call was not passed on once");
                }
                1 => {
                    if open.is_empty() {
                        continue;
                    }
                    let (k, t, mut f) = open.swap_remove(r.us(open.len()));
                    let ok = r.pct(70);
                    w.finish(k, ok);
                    if r.pct(30) {
                        // resolves when polled, not before
                        advance(r.below(30)).await;
                    }
                    let now = Instant::now();
                    match f.poll() {
                        Poll::Ready(Ok(o)) => {
                            chk!(c, ok && o.resp().call == k, "outcome changed");
                            if holds {
                                held.push((t, o));
                            } else {
                                match est.observe(now, now - t) {
                                    1 => jumps += 1,
                                    -1 => moves += 1,
                                    _ => {}
                                }
                                ev!(c, "observed {:?}", now - t);
                            }
                        }
                        Poll::Ready(Err(e)) => {
                            chk!(c, !ok && e.call == Some(k), "outcome changed");
                            match est.observe(now, now - t) {
                                1 => jumps += 1,
                                -1 => moves += 1,
                                _ => {}
                            }
                            ev!(c, "observed {:?} by failure", now - t);
                        }
                        Poll::Pending => c.fail("the answer was withheld"),
                    }
                    if r.pct(50) {
                        spent.push(f);
                    }
                }
                2 => {
                    if !open.is_empty() {
                        let (_, t, f) = open.swap_remove(r.us(open.len()));
                        drop(f);
                        let now = Instant::now();
                        est.observe(now, now - t);
                        ev!(c, "observed {:?} by drop", now - t);
                    }
                }
                3 => {
                    if !held.is_empty() {
                        let (t, mut o) = held.swap_remove(r.us(held.len()));
                        if r.pct(50) {
                            o.release();
                        }
                        drop(o);
                        let now = Instant::now();
                        est.observe(now, now - t);
                        done_late += 1;
                        ev!(c, "observed {:?} by release", now - t);
                    }
                }
                4 => spent.clear(),
                _ => {
                    let ns = match r.below(4) {
                        0 => r.below(1000),
                        1 => r.below(5_000_000),
                        2 => r.below(decay as u64),
                        _ => r.below(decay as u64 * 20),
                    };
                    tokio::time::advance(Duration::from_nanos(ns)).await;
                }
            }
            if chatty || r.pct(20) {
                for _ in 0..r.range(1, 2) {
                    let now = Instant::now();
                    let before = est.rtt;
                    est.observe(now, Duration::ZERO);
                    decays += (est.rtt < before) as u64;
                    let n = open.len() + held.len();
                    let want = est.rtt * (n as f64 + 1.0);
                    let m = svc.load();
                    let got = number(&m);
                    chk!(c, got.is_finite() && got >= 0.0, "load {:?}", m);
                    chk!(c, close(got, want), "load {} with {} outstanding, expected {} ({} x {})", got, n, want, est.rtt, n + 1);
                    ev!(c, "load {:.3}", got);
                }
            }
        }
        c.count("estimates jumped up", jumps);
        c.count("moved towards a lower latency", moves);
        c.count("decayed while idle", decays);
        c.count("observed at a later release", done_late);
        if jumps > 0 && decays > 0 && (moves > 0 || done_late > 0) {
            c.nontrivial();
        }
        if !c.violated() && !w.lock().insts[0].ready {
            w.gate(0, Gate::Err);
            let tk = Tk::new();
            let got = tk.poll(|cx| svc.poll_ready(cx));
            chk!(c, matches!(&got, Poll::Ready(Err(e)) if e.inst == 0), "readiness error changed: {:?}", got);
        }
        drop((open, held, spent, svc));
        w.check_no_leak("peak ewma");
    });
}

fn constant(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let w = World::new(c, Plan::manual(Gate::Open));
        let k = r.u64();
        let mut svc = Constant::new(w.svc(0), k);
        // limits report the load of what they limit
        let lim = tower::limit::ConcurrencyLimit::new(Constant::new((), k), 1 + r.us(5));
        chk!(c, lim.load() == k, "a concurrency limit over a load of {} reports {}", k, lim.load());
        let rate = tower::limit::RateLimit::new(Constant::new((), k), tower::limit::rate::Rate::new(1 + r.below(5), Duration::from_secs(1)));
        chk!(c, rate.load() == k, "a rate limit over a load of {} reports {}", k, rate.load());
        let fl = Constant::new((), r.f64());
        chk!(c, fl.load() == fl.load(), "float constant");
        let mut open = vec![];
        for _ in 0..r.range(3, 20) {
            chk!(c, svc.load() == k, "constant load {} instead of {}", svc.load(), k);
            if r.pct(60) {
                let g = *r.pick(&[Gate::Open, Gate::Open, Gate::Closed]);
                w.gate(0, g);
                let tk = Tk::new();
                let got = tk.poll(|cx| svc.poll_ready(cx));
                let ready = w.lock().insts[0].ready;
                chk!(c, matches!(got, Poll::Ready(Ok(()))) == ready, "readiness changed: {:?}", got);
                if !ready {
                    w.gate(0, Gate::Open);
                    chk!(c, tk.woken(), "the waker did not reach the wrapped service");
                    continue;
                }
                let i = w.ncalls();
                open.push((i, Fut::new(svc.call(w.req()))));
                chk!(c, w.ncalls() == i + 1, "not passed on once");
            } else if !open.is_empty() {
                let (i, mut f) = open.swap_remove(r.us(open.len()));
                let ok = r.pct(50);
                w.finish(i, ok);
                match f.poll() {
                    Poll::Ready(Ok(o)) => {
                        chk!(c, ok && o.call == i, "outcome changed");
                    }
                    Poll::Ready(Err(e)) => {
                        chk!(c, !ok && e.call == Some(i), "outcome changed");
                    }
                    Poll::Pending => c.fail("withheld"),
                }
                c.nontrivial();
            }
        }
        drop((open, svc));
        w.check_no_leak("constant");
    });
}

/// Loads read while other threads complete requests are finite and never negative, and after
/// all is released no request counts any more.
fn ewma_threads(c: &Case) {
    let n = 8u64;
    let per = if c.thorough { 20_000 } else { 4_000 };
    let default = Duration::from_secs(1);
    let svc = Arc::new(Mutex::new(PeakEwma::new(
        tower::service_fn(|x: u64| async move { Ok::<_, ()>(x) }),
        default,
        1e15,
        Hold(true),
    )));
    let seeds: Vec<Rng> = (0..n).map(|_| c.rng.fork()).collect();
    std::thread::scope(|sc| {
        for r in seeds {
            let (svc, c) = (svc.clone(), c.clone());
            sc.spawn(move || {
                let mut held = vec![];
                for i in 0..per {
                    let f = svc.lock().unwrap().call(i);
                    let mut f = Fut::new(f);
                    if r.pct(70) {
                        if let Poll::Ready(Ok(o)) = f.poll() {
                            if r.pct(30) {
                                held.push(o);
                            }
                        }
                    }
                    drop(f);
                    if held.len() > 4 {
                        held.clear();
                    }
                    if i % 16 == 0 {
                        let l = number(&svc.lock().unwrap().load());
                        let max = 1e9 * (n * 7) as f64;
                        chk!(c, l.is_finite() && l > 0.0 && l <= max, "load {} outside 0..{}", l, max);
                    }
                }
            });
        }
    });
    // nothing outstanding: the load is the estimate itself, at most the default, and hardly
    // decayed (the whole run takes far less than the decay constant)
    let l = number(&svc.lock().unwrap().load());
    ev!(c, "threads done");
    chk!(c, l <= 1e9 && l > 0.9e9, "load {} with nothing outstanding and an estimate just below 1e9", l);
    c.count("threaded calls", per * n);
    c.fp(c.seed);
    c.nontrivial();
}

/// Of latencies observed by several threads at once none is overlooked: the peak is known.
fn ewma_peaks(c: &Case) {
    let rounds = if c.thorough { 3000 } else { 500 };
    sim(async {
        let r = c.rng.fork();
        let n = r.us(5) + 2;
        let per = r.us(3) + 1;
        let mut svc = PeakEwma::new(
            tower::service_fn(|x: u64| async move { Ok::<_, ()>(x) }),
            Duration::from_millis(1),
            1e6,
            Hold(true),
        );
        let rt = tokio::runtime::Handle::current();
        for round in 0..rounds {
            tokio::time::advance(Duration::from_secs(2)).await;
            let l = number(&svc.load());
            if !chk!(c, l >= 0.0 && l < 1.0, "round {}: load {} after two seconds of idling", round, l) {
                break;
            }
            let mut held: Vec<_> = vec![];
            let first = Instant::now();
            for i in 0..n * per {
                if let Poll::Ready(Ok(o)) = Fut::new(svc.call(i as u64)).poll() {
                    held.push(o);
                }
                tokio::time::advance(Duration::from_millis(r.range(1, 3))).await;
            }
            let peak = first.elapsed().as_nanos() as f64;
            for k in (1..held.len()).rev() {
                held.swap(k, r.us(k + 1));
            }
            let bar = std::sync::Barrier::new(n);
            std::thread::scope(|sc| {
                for _ in 0..n {
                    let share = held.split_off(held.len() - per);
                    let (rt, bar) = (rt.clone(), &bar);
                    sc.spawn(move || {
                        let _in = rt.enter();
                        bar.wait();
                        drop(share);
                    });
                }
            });
            let l = number(&svc.load());
            ev!(c, "round {}: peak {} load {}", round, peak, l);
            if !chk!(c, (l - peak).abs() <= peak * 1e-6, "round {}: load {} with nothing outstanding, right after {} threads observed latencies up to {}", round, l, n, peak) {
                break;
            }
        }
        c.count("threaded calls", (rounds * n * per) as u64);
        c.fp((n * 8 + per) as u64);
        c.nontrivial();
    });
}
