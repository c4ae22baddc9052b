//! P11: hedge.
use crate::kit::*;
use std::collections::BTreeMap;
use std::sync::Mutex;
use tower::hedge::{Hedge, Policy};

pub fn p11() -> Prop {
    Prop {
        id: "P11",
        rule: "seeded random request trains over several periods with random latencies, percentiles, thresholds, policies and cancellations; every dispatch is judged against an exact quantile model fed with the observed inner completions; threads: answers polled to completion by several threads at once are all remembered and nothing else is; non-trivial: a copy was dispatched and another was withheld",
        assumptions: &["tokio's paused clock behaves as documented", "periods are at least a millisecond", "latencies are kept in whole milliseconds (rounded up) with three significant digits"],
        scenarios: vec![Scenario::new("trains", 1000, trains), Scenario::new("large", 25, super::large::hedge), Scenario::new("threads", 40, threads)],
    }
}

#[derive(Default)]
struct Asked {
    copies: BTreeMap<u64, Vec<Option<u64>>>,
    allowed: BTreeMap<u64, Vec<(u64, bool, Duration)>>,
}
#[derive(Clone)]
struct Pol {
    w: World,
    asked: Arc<Mutex<Asked>>,
    copy_pct: u64,
    allow_pct: u64,
}
impl Policy<Req> for Pol {
    fn clone_request(&self, req: &Req) -> Option<Req> {
        let x = decide(req.id, 1, self.copy_pct).then(|| req.clone());
        self.asked.lock().unwrap().copies.entry(req.id).or_default().push(x.as_ref().map(|x| x.tag));
        x
    }
    fn can_retry(&self, req: &Req) -> bool {
        let x = decide(req.id, 2, self.allow_pct);
        ev!(self.w.c, "may {:?} be sent again: {}", req, x);
        self.asked.lock().unwrap().allowed.entry(req.id).or_default().push((req.tag, x, self.w.now()));
        x
    }
}
/// the same answer however often it is asked
fn decide(id: u64, salt: u64, pct: u64) -> bool {
    rng::mix(id * 31 + salt) % 100 < pct
}

#[derive(Debug, Clone)]
struct CallPlan {
    t: Duration,
    /// earliest and latest instant for the copy; none if it must not be sent
    due: Option<(Duration, Duration)>,
    outer: Option<(Duration, Result<usize, Option<usize>>)>,
    cancelled: Option<Duration>,
    points: usize,
}

fn trains(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let mut plan = Plan::random(&r);
        plan.ready = *r.pick(&[[1, 0, 0], [1, 0, 0], [3, 1, 1]]);
        plan.ready_delay = (1, 5);
        plan.resp = *r.pick(&[[0, 0, 1, 0], [1, 1, 8, 0], [0, 0, 8, 1]]);
        plan.resp_delay = *r.pick(&[(1, 10), (1, 60), (20, 40), (500, 1500)]);
        plan.resp_err_pct = *r.pick(&[0, 0, 10, 30]);
        let slack = if plan.ready[0] == 1 && plan.ready[1] == 0 { 2 } else { 12 };
        // now and then many data points, where the high percentiles differ
        let crowd = r.pct(6);
        let min_points = if crowd { *r.pick(&[0u64, 20, 100, 150]) } else { *r.pick(&[0u64, 1, 1, 2, 3, 5, 10]) };
        let q = if crowd {
            *r.pick(&[0.5f32, 0.9, 0.99, 0.995, 0.999, 1.0])
        } else {
            *r.pick(&[0.0f32, 0.1, 0.5, 0.5, 0.9, 0.95, 0.99, 1.0])
        };
        let period = Duration::from_millis(if crowd { *r.pick(&[500, 2000, 60_000]) } else { *r.pick(&[7, 30, 100, 250, 1000, 5000]) });
        let mock: Vec<u64> = if crowd && r.pct(70) {
            let top = *r.pick(&[70, 2000]);
            (0..r.range(50, 400)).map(|_| if r.pct(2) { r.range(0, top) } else { r.range(0, 40) }).collect()
        } else if r.pct(40) {
            (0..r.range(1, 12)).map(|_| r.range(0, 70)).collect()
        } else {
            vec![]
        };
        let w = World::new(c, plan.clone());
        let asked: Arc<Mutex<Asked>> = Default::default();
        let pol = Pol { w: w.clone(), asked: asked.clone(), copy_pct: *r.pick(&[100, 100, 70]), allow_pct: *r.pick(&[100, 100, 60, 0]) };
        ev!(c, "min {} quantile {} period {:?} mock {:?} copy {} allow {} {:?}", min_points, q, period, mock, pol.copy_pct, pol.allow_pct, plan);
        let copy_pct = pol.copy_pct;
        let p = w.svc(0);
        tokio::time::advance(Duration::from_millis(r.below(20))).await;
        let born = w.now();

        let mut svc = if mock.is_empty() {
            Hedge::new(p, pol, min_points, q, period)
        } else {
            Hedge::new_with_mock_latencies(p, pol, min_points, q, period, &mock)
        };
        let book: Arc<Mutex<BTreeMap<u64, CallPlan>>> = Default::default();
        let s = Sched::new(c);
        let (c2, w2, s2, book2) = (c.clone(), w.clone(), s.clone(), book.clone());
        let r2 = r.fork();
        let fine = r.pct(40);
        let gap = *r.pick(&[1u64, 5, 20]);
        s.spawn("driver", async move {
            let (c, w, s, book, r) = (c2, w2, s2, book2, r2);
            let n = if crowd { r.range(60, 200) } else { r.range(4, 40) };
            for k in 0..n {
                match r.below(20) {
                    0 => sleep_ms(period.as_millis() as u64).await,
                    1 => sleep_ms(2 * period.as_millis() as u64 + r.below(3)).await,
                    _ => sleep_ms(r.below(gap * 2 + 1)).await,
                }
                if std::future::poll_fn(|cx| svc.poll_ready(cx)).await.is_err() {
                    return;
                }
                if r.pct(10) {
                    sleep_ms(r.below(9)).await;
                }
                if fine && r.pct(60) {
                    tokio::time::advance(Duration::from_micros(r.range(1, 999))).await;
                }
                // what the completed preceding window knows right now
                let now = w.now();
                let cur = (now - born).as_nanos() / period.as_nanos();
                let mut xs: Vec<u64> = vec![];
                if cur == 0 {
                    xs.extend(&mock);
                }
                for a in w.lock().calls.iter() {
                    if let Some((true, at)) = a.done {
                        let per = (at - born).as_nanos() / period.as_nanos();
                        if per + 1 == cur {
                            xs.push((at - a.t).as_nanos().div_ceil(1_000_000) as u64);
                        }
                    }
                }
                xs.sort_unstable();
                let req = w.req();
                let id = req.id;
                let due = (xs.len() as u64 >= min_points).then(|| {
                    let (lo, hi) = quantile(&xs, q as f64);
                    (now + Duration::from_millis(lo), now + Duration::from_millis(hi + hi / 500 + 2 + slack))
                });
                ev!(c, "call {} at {:?}: {} points, copy due {:?}", id, now, xs.len(), due);
                book.lock().unwrap().insert(id, CallPlan { t: now, due, outer: None, cancelled: None, points: xs.len() });
                let f = svc.call(req);
                let (b, w2) = (book.clone(), w.clone());
                let task = async move {
                    let x = f.await;
                    let o = match x {
                        Ok(x) => Ok(x.call),
                        Err(e) => Err(find_fail(&*e).and_then(|f| f.call)),
                    };
                    b.lock().unwrap().get_mut(&id).unwrap().outer = Some((w2.now(), o));
                };
                let never = w.lock().plan.resp[3] > 0;
                if never || r.pct(10) {
                    let t = s.daemon(format!("call {}", k), task);
                    let (s2, w2, b2, r2) = (s.clone(), w.clone(), book.clone(), r.fork());
                    s.spawn(format!("giving up {}", k), async move {
                        sleep_ms(if never { 3000 } else { r2.below(50) }).await;
                        if !s2.finished(t) {
                            s2.abort(t);
                            ev!(w2.c, "gave up on {}", id);
                            b2.lock().unwrap().get_mut(&id).unwrap().cancelled = Some(w2.now());
                        }
                    });
                } else {
                    let t = s.spawn(format!("call {}", k), task);
                    if r.pct(40) {
                        while !s.finished(t) {
                            sleep_ms(1).await;
                        }
                    }
                }
            }
        });
        let stuck = s.run(Duration::from_secs(36000)).await;
        chk!(c, stuck.is_empty(), "hangs: {:?}", stuck);
        s.clear();

        let (mut sent, mut withheld) = (0u64, 0u64);
        for (id, p) in book.lock().unwrap().iter() {
            if c.violated() {
                break;
            }
            let calls: Vec<(usize, u64, usize, Duration, Option<(bool, Duration)>, bool)> = w
                .lock()
                .calls
                .iter()
                .enumerate()
                .filter(|(_, a)| a.id == *id)
                .map(|(k, a)| (k, a.tag, a.inst, a.t, a.done, a.fut_dropped))
                .collect();
            let a = asked.lock().unwrap();
            let copies = a.copies.get(id).cloned().unwrap_or_default();
            let tag = copies.first().copied().flatten();
            let allowed = a.allowed.get(id).cloned().unwrap_or_default();
            chk!(c, copies.len() <= 1, "request {}: copied {} times", id, copies.len());
            chk!(c, calls.len() <= 2, "request {}: dispatched {} times", id, calls.len());
            let originals = calls.iter().filter(|x| x.1 == 0).count();
            if !chk!(c, originals == 1, "request {}: the original was dispatched {} times", id, originals) {
                continue;
            }
            let orig = calls.iter().find(|x| x.1 == 0).unwrap();
            chk!(c, orig.3 == p.t, "request {}: the original was not dispatched at once", id);
            let second = calls.iter().find(|x| x.1 != 0);
            let end = match (&p.outer, p.cancelled) {
                (Some((t, _)), _) => *t,
                (None, Some(t)) => t,
                _ => {
                    c.fail(format!("request {} unanswered", id));
                    continue;
                }
            };
            // the copy
            match (second, p.due) {
                (Some(x), None) => c.fail(format!("request {}: a copy was sent with only {} of {} data points (at {:?})", id, p.points, min_points, x.3)),
                (Some(x), Some((lo, _))) => {
                    sent += 1;
                    chk!(c, Some(x.1) == tag, "request {}: the copy sent is not the policy's", id);
                    chk!(c, allowed.iter().any(|(_, ok, _)| *ok) && allowed.iter().all(|(_, ok, _)| *ok), "request {}: a copy was sent although the policy did not allow it", id);
                    chk!(c, x.3 >= lo, "request {}: the copy was sent at {:?}, not before {:?} ({} points, call at {:?})", id, x.3, lo, p.points, p.t);
                    chk!(c, x.2 != orig.2 || w.lock().insts[x.2].calls >= 2, "odd instance");
                    if let Some((_, t)) = orig.4 {
                        chk!(c, x.3 <= t, "request {}: a copy was sent after the original was answered", id);
                    }
                }
                (None, Some((_, hi))) => {
                    let asked_no = allowed.iter().any(|(_, ok, _)| !*ok);
                    let readiness_failed = matches!(&p.outer, Some((_, Err(None))));
                    if decide(*id, 1, copy_pct) && !asked_no && !readiness_failed {
                        chk!(c, end <= hi, "request {}: no copy was sent although the original was still unanswered at {:?} (call at {:?}, {} points, ended {:?})", id, hi, p.t, p.points, end);
                    }
                    withheld += 1;
                }
                (None, None) => withheld += 1,
            }
            for (t, _, at) in &allowed {
                chk!(c, Some(*t) == tag, "request {}: the policy was asked about something else", id);
                if let Some((lo, _)) = p.due {
                    chk!(c, *at >= lo, "request {}: asked for permission early", id);
                }
            }
            // the answer
            if let Some((t, o)) = &p.outer {
                let first = calls.iter().filter_map(|x| x.4.map(|(_, at)| at)).min();
                match o {
                    Ok(k) | Err(Some(k)) => {
                        let x = calls.iter().find(|x| x.0 == *k);
                        match x.and_then(|x| x.4) {
                            Some((ok, at)) => {
                                chk!(c, ok == o.is_ok() && at == *t && Some(at) == first, "request {}: answered at {:?} with call {}'s outcome of {:?} (first answer {:?})", id, t, k, at, first);
                            }
                            None => c.fail(format!("request {}: answered with a foreign outcome", id)),
                        }
                    }
                    Err(None) => {
                        chk!(c, false, "request {}: failed with neither answer", id);
                    }
                }
            }
            for x in &calls {
                chk!(c, x.5, "request {}: call {} is still running after the answer", id, x.0);
            }
        }
        c.count("requests", book.lock().unwrap().len() as u64);
        c.count("copies sent", sent);
        c.count("copies withheld", withheld);
        if sent > 0 && withheld > 0 {
            c.nontrivial();
        }

        w.check_no_leak("hedge");
    });
}

/// Smallest recorded value with at least the fraction `q` of all values at or below it, with
/// room for the representation of q.
fn quantile(xs: &[u64], q: f64) -> (u64, u64) {
    if xs.is_empty() {
        return (0, 0);
    }
    let at = |q: f64| {
        let rank = (q * xs.len() as f64).ceil().max(1.0) as usize;
        xs[rank.min(xs.len()) - 1]
    };
    (at(q - 1e-6), at((q + 1e-6).min(1.0)))
}

// ---- answers taken by several threads at once ----

#[derive(Clone)]
struct Never;
impl Policy<u64> for Never {
    fn clone_request(&self, q: &u64) -> Option<u64> {
        // the copy of an even request is odd
        (q % 4 == 0).then_some(q + 1)
    }
    fn can_retry(&self, _: &u64) -> bool {
        true
    }
}

/// What a request is for is in its number: 2 mod 4: never copied; 2 mod 8: fails.
#[derive(Clone)]
struct Gate(Arc<std::sync::atomic::AtomicBool>, Arc<Mutex<Vec<(u64, tokio::time::Instant)>>>);
impl tower::Service<u64> for Gate {
    type Response = u64;
    type Error = BoxError;
    type Future = std::pin::Pin<Box<dyn std::future::Future<Output = Result<u64, BoxError>> + Send>>;
    fn poll_ready(&mut self, _: &mut std::task::Context<'_>) -> Poll<Result<(), BoxError>> {
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, q: u64) -> Self::Future {
        let open = self.0.clone();
        if q % 4 < 2 {
            self.1.lock().unwrap().push((q, tokio::time::Instant::now()));
        }
        Box::pin(std::future::poll_fn(move |_| {
            if q % 4 < 2 || !open.load(std::sync::atomic::Ordering::SeqCst) {
                Poll::Pending
            } else if q % 8 == 2 {
                Poll::Ready(Err("refused".into()))
            } else {
                Poll::Ready(Ok(q))
            }
        }))
    }
}

fn threads(c: &Case) {
    use tower::Service;
    sim(async {
        let r = c.rng.clone();
        let n = r.us(5) + 2;
        let per = *r.pick(&[40usize, 150, 400]);
        let period = Duration::from_secs(*r.pick(&[5, 20]));
        let q = *r.pick(&[0.0f32, 0.5, 0.9, 1.0]);
        let fail_pct = *r.pick(&[0, 30]);
        // what is to be remembered
        let mut ids: Vec<u64> = (0..(n * per) as u64).map(|k| k * 8 + if r.pct(fail_pct) { 2 } else { 6 }).collect();
        let dropped = r.pick(&[0, 10]);
        let keep: Vec<bool> = ids.iter().map(|_| !r.pct(*dropped)).collect();
        let points = ids.iter().zip(&keep).filter(|(x, k)| **k && **x % 8 == 6).count() as u64;
        let enough = r.pct(60);
        let min = if enough { points - r.below(2).min(points) } else { points + 1 };
        let open: Arc<std::sync::atomic::AtomicBool> = Default::default();
        let log = Arc::new(Mutex::new(vec![]));
        let mut svc = Hedge::new(Gate(open.clone(), log.clone()), Never, min, q, period);
        ev!(c, "{} threads, {} points, min {}, quantile {}, period {:?}", n, points, min, q, period);
        let mut shares: Vec<Vec<(_, bool)>> = (0..n).map(|_| vec![]).collect();
        let mut starts = vec![];
        let t0 = tokio::time::Instant::now();
        for (k, id) in ids.drain(..).enumerate() {
            if r.pct(30) && t0.elapsed() < period / 4 {
                tokio::time::advance(Duration::from_millis(r.range(1, 9))).await;
            }
            if keep[k] && id % 8 == 6 {
                starts.push(tokio::time::Instant::now());
            }
            let _ = svc.poll_ready(&mut std::task::Context::from_waker(futures::task::noop_waker_ref()));
            shares[k % n].push((Box::pin(svc.call(id)), keep[k]));
        }
        tokio::time::advance(Duration::from_millis(r.range(1, 50))).await;
        open.store(true, std::sync::atomic::Ordering::SeqCst);
        let end = tokio::time::Instant::now();
        let mut xs: Vec<u64> = starts.iter().map(|t| (end - *t).as_millis() as u64).collect();
        xs.sort_unstable();
        let rt = tokio::runtime::Handle::current();
        let bar = std::sync::Barrier::new(n + 1);
        let good = std::sync::atomic::AtomicU64::new(0);
        std::thread::scope(|sc| {
            for share in shares {
                let (rt, bar, good) = (rt.clone(), &bar, &good);
                sc.spawn(move || {
                    let _in = rt.enter();
                    bar.wait();
                    for (mut f, keep) in share {
                        if keep {
                            let p = std::future::Future::poll(f.as_mut(), &mut std::task::Context::from_waker(futures::task::noop_waker_ref()));
                            if let Poll::Ready(Ok(_)) = p {
                                good.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                            }
                        }
                    }
                });
            }
            // others are called meanwhile, and looked up what is known, and given up
            bar.wait();
            for k in 0..per as u64 {
                let _ = svc.poll_ready(&mut std::task::Context::from_waker(futures::task::noop_waker_ref()));
                drop(svc.call(1_000_000 + k * 4));
            }
        });
        let good = good.load(std::sync::atomic::Ordering::SeqCst);
        chk!(c, good == points, "{} of {} requests were answered well", good, points);
        log.lock().unwrap().clear();

        // the next period
        let gone = t0.elapsed();
        tokio::time::advance(period - gone + Duration::from_millis(r.range(1, 100))).await;
        let _ = svc.poll_ready(&mut std::task::Context::from_waker(futures::task::noop_waker_ref()));
        let now = tokio::time::Instant::now();
        let mut f = Fut::new(svc.call(4_000_000));
        let (lo, hi) = quantile(&xs, q as f64);
        let hi = hi + hi / 500 + 4;
        let mut sent = None;
        while now.elapsed() < Duration::from_millis(hi + 20) {
            let _ = f.poll();
            if let Some((_, t)) = log.lock().unwrap().iter().find(|x| x.0 == 4_000_001) {
                sent = Some((*t - now).as_millis() as u64);
                break;
            }
            tokio::time::advance(Duration::from_millis(1)).await;
        }
        ev!(c, "copy after {:?} ms, the percentile is {} to {}", sent, lo, hi);
        match sent {
            None => {
                chk!(c, !enough, "no copy was sent within {} ms although {} latencies were recorded by {} threads and {} are needed", hi + 20, points, n, min);
            }
            Some(t) => {
                chk!(c, enough, "a copy was sent although only {} of {} latencies were recorded", points, min);
                chk!(c, t >= lo && t <= hi, "the copy was sent after {} ms, the percentile of what {} threads recorded is {} to {} ms", t, n, lo, hi);
            }
        }
        c.fp(rng::mix(points * 64 + n as u64) ^ enough as u64);
        c.count("requests", points);
        c.count(if sent.is_some() { "copies sent" } else { "copies withheld" }, 1);
        c.nontrivial();
    });
}
