//! Few but large cases: sizes far past what the step-by-step models reach, around powers of two, where
//! narrow counters, caps and bounded loops would show. Everything here is judged by plain counting.
use super::cache::{Disc, DiscEv, Draw, Loaded};
use crate::kit::*;
use std::future::Future;
use std::task::Context;
use futures::{Stream, StreamExt};
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::task::Waker;
use tokio::time::Instant;
use tower::buffer::{error::Closed, Buffer};
use tower::discover::{Change, ServiceList};
use tower::limit::{ConcurrencyLimit, GlobalConcurrencyLimitLayer, RateLimit};
use tower::load::{CompleteOnResponse, Load, PeakEwma, PendingRequests};
use tower::ready_cache::ReadyCache;
use tower::reconnect::Reconnect;
use tower::retry::budget::{Budget, TpsBudget};
use tower::retry::Retry;
use tower::steer::Steer;
use tower::util::rng::{HasherRng, Rng as TowerRng};
use tower_layer::Layer;

/// Log-uniform up to `max`, often next to a power of two.
fn size(r: &Rng, max: u64) -> usize {
    let top = 63 - max.leading_zeros() as u64;
    let p = 1u64 << r.range(top.min(4), top);
    let x = match r.below(6) {
        0 => p - 1,
        1 => p,
        2 => p + 1,
        _ => p + r.below(p),
    };
    x.clamp(1, max) as usize
}

/// What an executor does: poll again for as long as the task has been woken.
fn drive<T>(c: &Case, tk: &Tk, mut f: impl FnMut(&mut Context<'_>) -> Poll<T>) -> Poll<T> {
    for _ in 0..200_000 {
        let x = tk.poll(&mut f);
        if x.is_ready() || !tk.woken() {
            return x;
        }
    }
    c.fail("keeps waking itself without end");
    Poll::Pending
}

fn drive_fut<F: Future>(c: &Case, f: &mut Fut<F>) -> Poll<F::Output> {
    f.polled = true;
    let (tk, fut) = (f.tk.clone(), &mut f.fut);
    let x = drive(c, &tk, |cx| fut.as_mut().poll(cx));
    f.done |= x.is_ready();
    x
}

// ---------------------------------------------------------------- buffer

pub const DISPATCH: u8 = 1;
pub const FAULT: u8 = 2;
pub const CAPACITY: u8 = 4;

/// A long queue: filled to the brim, parts of it given up, then dispatched (or failed) as a whole.
pub fn buffer(c: &Case, want: u8) {
    sim(async {
        let r = c.rng.clone();
        let w = World::new(c, Plan::manual(Gate::Closed));
        let n = size(&r, if r.pct(20) { 9000 } else { 1500 });
        ev!(c, "bound {}", n);
        let mut bad = false;
        macro_rules! ck {
            ($tag:expr, $ok:expr, $($t:tt)*) => {{
                let ok: bool = $ok;
                if want & $tag != 0 { c.check(ok, || format!($($t)*)); }
                bad |= !ok;
            }};
        }
        let (buf, worker) = Buffer::<Req, RespFut>::pair(w.svc(0), n);
        let mut worker = Some(Fut::new(worker));
        // the worker looks once, at an empty queue
        if r.pct(50) {
            let _ = drive_fut(c, worker.as_mut().unwrap());
        }
        // as many as are let in
        let mut held = vec![];
        let mut futs = vec![];
        let mut ids = vec![];
        let hold = *r.pick(&[0, 0, 10, 50]);
        let mut admitted = 0usize;
        let tk = Tk::new();
        loop {
            let mut b = buf.clone();
            match tk.poll(|cx| b.poll_ready(cx)) {
                Poll::Ready(Ok(())) => {}
                Poll::Ready(Err(e)) => {
                    ck!(FAULT, false, "a healthy buffer fails: {}", e);
                    return;
                }
                Poll::Pending => break,
            }
            admitted += 1;
            if admitted > n {
                break;
            }
            if r.pct(hold) {
                held.push(b);
            } else {
                let q = w.req();
                ids.push(q.id);
                let mut f = Fut::new(b.call(q));
                let x = f.poll();
                ck!(DISPATCH, x.is_pending(), "answered before it was dispatched");
                futs.push(Some(f));
            }
        }
        ck!(CAPACITY, admitted == n, "{} places were given out with a bound of {}", admitted, n);
        if bad {
            return;
        }
        // callers waiting for a place
        let mut waiters: Vec<_> = (0..r.range(1, 300)).map(|_| (buf.clone(), Tk::new())).collect();
        for (b, tk) in waiters.iter_mut() {
            let x = tk.poll(|cx| b.poll_ready(cx));
            ck!(CAPACITY, x.is_pending(), "a further clone is ready with all {} places taken", n);
        }
        // some give up, whole stretches of them
        let mut gone: HashSet<u64> = HashSet::new();
        for _ in 0..r.below(5) {
            if ids.is_empty() {
                break;
            }
            let a = r.us(ids.len());
            let len = if r.pct(30) { ids.len() } else { size(&r, ids.len() as u64) };
            for k in a..(a + len).min(ids.len()) {
                if futs[k].take().is_some() {
                    gone.insert(ids[k]);
                }
            }
        }
        let mut live: Vec<usize> = (0..ids.len()).filter(|k| futs[*k].is_some()).collect();
        ev!(c, "{} queued, {} given up, {} places held, {} waiting", ids.len(), gone.len(), held.len(), waiters.len());
        c.count("queued at once", ids.len() as u64);
        // the service is not ready: the worker takes what was given up, and one more
        let _ = drive_fut(c, worker.as_mut().unwrap());
        ck!(DISPATCH, w.ncalls() == 0, "dispatched to a service that is not ready");
        let freed = match live.first() {
            Some(k) => k + 1,
            None => ids.len(),
        };
        let mut ready = 0;
        for (b, tk) in waiters.iter_mut() {
            if tk.woken() && drive(c, tk, |cx| b.poll_ready(cx)).is_ready() {
                ready += 1;
            }
        }
        ck!(CAPACITY, ready == freed.min(waiters.len()), "{} places became free and {} of {} waiting callers became ready", freed, ready, waiters.len());
        if bad {
            return;
        }
        if want == FAULT {
            let how = r.below(3);
            ev!(c, "fault {}", how);
            match how {
                0 => {
                    w.gate(0, Gate::Err);
                    let wk = worker.as_mut().unwrap();
                    if wk.tk.woken() {
                        let _ = drive_fut(c, wk);
                    }
                    if live.is_empty() {
                        // it never looked; a request makes it
                        held.clear();
                        waiters.clear();
                        let mut b = buf.clone();
                        let tk = Tk::new();
                        if drive(c, &tk, |cx| b.poll_ready(cx)).is_pending() {
                            return;
                        }
                        let q = w.req();
                        ids.push(q.id);
                        live.push(ids.len() - 1);
                        let mut f = Fut::new(b.call(q));
                        let _ = f.poll();
                        futs.push(Some(f));
                        let wk = worker.as_mut().unwrap();
                        if wk.tk.woken() {
                            let _ = drive_fut(c, wk);
                        }
                    }
                }
                _ => worker = None,
            }
            let right = |e: &BoxError| match how {
                0 => find_fail(&**e).map(|f| f.inst) == Some(0),
                _ => e.is::<Closed>(),
            };
            for k in &live {
                let f = futs[*k].as_mut().unwrap();
                ck!(FAULT, f.tk.woken(), "the caller of request {} (number {} of {} queued) was not woken by the fault", ids[*k], k, ids.len());
                match drive_fut(c, f) {
                    Poll::Ready(Err(e)) => ck!(FAULT, right(&e), "request {} fails with {}", ids[*k], e),
                    x => ck!(FAULT, false, "request {} (number {} of {} queued) after the fault: {}", ids[*k], k, ids.len(), if x.is_ready() { "answered" } else { "still waiting" }),
                }
                if bad {
                    return;
                }
            }
            for (i, (b, tk)) in waiters.iter_mut().enumerate() {
                if i < ready {
                    continue;
                }
                ck!(FAULT, tk.woken(), "waiting caller {} was not woken by the fault", i);
                match drive(c, tk, |cx| b.poll_ready(cx)) {
                    Poll::Ready(Err(e)) => ck!(FAULT, right(&e), "waiting caller {} fails with {}", i, e),
                    _ => ck!(FAULT, false, "waiting caller {} of {} does not fail after the fault", i, n),
                }
                if bad {
                    return;
                }
            }
            for mut b in held.drain(..) {
                let mut f = Fut::new(b.call(w.req()));
                match drive_fut(c, &mut f) {
                    Poll::Ready(Err(e)) => ck!(FAULT, right(&e), "a later request fails with {}", e),
                    _ => ck!(FAULT, false, "a request made with a place reserved before the fault does not fail"),
                }
            }
            ck!(FAULT, w.ncalls() == 0, "the failed service was called");
            c.nontrivial();
            drop((waiters, futs, buf, worker));
            w.check_no_leak("buffer");
            return;
        }
        drop(waiters);
        // now it is ready for all of them
        w.gate(0, Gate::Open);
        let wk = worker.as_mut().unwrap();
        if wk.tk.woken() || live.is_empty() {
            let _ = drive_fut(c, wk);
        }
        let got: Vec<u64> = w.lock().calls.iter().map(|x| x.id).collect();
        let expect: Vec<u64> = live.iter().map(|k| ids[*k]).collect();
        let at = got.iter().zip(&expect).position(|(a, b)| a != b);
        ck!(DISPATCH | CAPACITY, got.len() == expect.len(), "{} of {} queued requests were dispatched ({} were given up)", got.len(), expect.len(), gone.len());
        ck!(DISPATCH, at.is_none(), "dispatch {:?} is not in the order of the calls", at);
        if bad {
            return;
        }
        // answers, from either end or all over
        let mut order: Vec<usize> = (0..live.len()).collect();
        match r.below(3) {
            0 => {}
            1 => order.reverse(),
            _ => {
                for i in (1..order.len()).rev() {
                    order.swap(i, r.us(i + 1));
                }
            }
        }
        for i in order {
            let ok = i % 3 != 1;
            let f = futs[live[i]].as_mut().unwrap();
            // told where its answer comes from
            ck!(DISPATCH, f.tk.woken(), "the caller of a dispatched request was not woken");
            let early = drive_fut(c, f);
            ck!(DISPATCH, early.is_pending(), "request {} was answered before the service answered it", expect[i]);
            if early.is_ready() {
                return;
            }
            w.finish(i, ok);
            ck!(DISPATCH, f.tk.woken(), "the caller of request {} was not woken for its answer", expect[i]);
            let x = drive_fut(c, f);
            let right = match &x {
                Poll::Ready(Ok(a)) => ok && a.id == expect[i] && a.call == i,
                Poll::Ready(Err(e)) => !ok && find_fail(&**e).is_some_and(|f| f.call == Some(i) && f.id == expect[i]),
                Poll::Pending => false,
            };
            ck!(DISPATCH, right, "request {} (call {}) got the wrong answer or none", expect[i], i);
            if bad {
                return;
            }
        }
        // all places are back
        drop(held);
        let mut all = vec![];
        loop {
            let mut b = buf.clone();
            if tk.poll(|cx| b.poll_ready(cx)).is_pending() || all.len() > n {
                break;
            }
            all.push(b);
        }
        ck!(CAPACITY, all.len() == n, "{} of {} places are free after everything was answered", all.len(), n);
        if n > 64 && !bad {
            c.nontrivial();
        }
        drop((all, futs, buf));
        if want == DISPATCH {
            let _ = drive_fut(c, worker.as_mut().unwrap());
        }
        drop(worker);
        w.check_no_leak("buffer");
    });
}

// ---------------------------------------------------------------- limits

pub fn concurrency(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let w = World::new(c, Plan::manual(Gate::Open));
        let huge = r.pct(25);
        let n: usize = if huge {
            *r.pick(&[1 << 16, 1 << 31, 1 << 32, (1 << 32) + 3, 1 << 40, tokio::sync::Semaphore::MAX_PERMITS])
        } else {
            size(&r, if r.pct(10) { 70_000 } else { 5000 })
        };
        let tries = if huge { 300 } else { n };
        ev!(c, "limit {}", n);
        let first = match r.below(3) {
            0 => ConcurrencyLimit::new(w.svc(0), n),
            1 => GlobalConcurrencyLimitLayer::new(n).layer(w.svc(0)),
            _ => tower::ServiceBuilder::new().concurrency_limit(n).service(w.svc(0)),
        };
        let tk = Tk::new();
        let mut futs = vec![];
        let mut held = vec![];
        let hold = *r.pick(&[0, 30, 100]);
        for k in 0..tries {
            let mut s = first.clone();
            if !chk!(c, tk.poll(|cx| s.poll_ready(cx)).is_ready(), "not ready with {} of {} slots in use", k, n) {
                return;
            }
            if r.pct(hold) {
                held.push(s);
            } else {
                futs.push((w.ncalls(), Fut::new(s.call(w.req()))));
            }
        }
        if !huge {
            let mut waiters: Vec<_> = (0..r.range(1, 400)).map(|_| (first.clone(), Tk::new())).collect();
            for (s, tk) in waiters.iter_mut() {
                if !chk!(c, tk.poll(|cx| s.poll_ready(cx)).is_pending(), "ready with all {} slots taken", n) {
                    return;
                }
            }
            // give back some, in any of the ways
            let back = if r.pct(50) { size(&r, n as u64) } else { r.range(1, n as u64) as usize };
            let mut freed = 0;
            while freed < back {
                if !held.is_empty() && (futs.is_empty() || r.pct(30)) {
                    drop(held.swap_remove(r.us(held.len())));
                } else if !futs.is_empty() {
                    let (k, mut f) = futs.swap_remove(r.us(futs.len()));
                    match r.below(3) {
                        0 => drop(f),
                        x => {
                            w.finish(k, x == 1);
                            let _ = f.poll();
                        }
                    }
                } else {
                    break;
                }
                freed += 1;
            }
            let mut ready = 0;
            let mut now = vec![];
            for (mut s, tk) in waiters {
                if tk.woken() && drive(c, &tk, |cx| s.poll_ready(cx)).is_ready() {
                    ready += 1;
                    now.push((s, tk));
                }
            }
            let waited = ready.max(freed.min(ready));
            let _ = waited;
            c.count("slots given back at once", freed as u64);
            ev!(c, "{} slots given back, {} callers became ready", freed, ready);
            c.check(ready <= freed, || format!("{} callers became ready with {} slots given back", ready, freed));
            // whatever was not claimed by a waiting caller is there for others
            let mut more = vec![];
            loop {
                let mut s = first.clone();
                if more.len() > n || tk.poll(|cx| s.poll_ready(cx)).is_pending() {
                    break;
                }
                more.push(s);
            }
            chk!(c, ready + more.len() == freed, "of {} slots given back {} waiting callers and {} further ones got one", freed, ready, more.len());
            drop((now, more));
        }
        if n > 64 {
            c.nontrivial();
        }
        c.count("slots in use at once", tries as u64);
        drop((futs, held));
        if !huge && !c.violated() {
            let mut all = vec![];
            loop {
                let mut s = first.clone();
                if all.len() > n || tk.poll(|cx| s.poll_ready(cx)).is_pending() {
                    break;
                }
                all.push(s);
            }
            chk!(c, all.len() == n, "{} of {} slots are free when nothing is in flight", all.len(), n);
        }
        drop(first);
        w.check_no_leak("concurrency limit");
    });
}

pub fn rate(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let w = World::new(c, Plan::manual(Gate::Open));
        let huge = r.pct(25);
        let n: u64 = if huge {
            *r.pick(&[1 << 16, 1 << 31, 1 << 32, (1 << 32) + 2, 1 << 40, u64::MAX])
        } else {
            size(&r, if r.pct(10) { 70_000 } else { 5000 }) as u64
        };
        let per = Duration::from_millis(r.range(1, 100_000));
        ev!(c, "{} per {:?}", n, per);
        let mut svc = RateLimit::new(w.svc(0), tower::limit::rate::Rate::new(n, per));
        let tk = Tk::new();
        for round in 0..if huge { 1 } else { 2 } {
            for k in 0..if huge { 300 } else { n } {
                if !chk!(c, tk.poll(|cx| svc.poll_ready(cx)).is_ready(), "window {}: not ready after {} of {} calls", round, k, n) {
                    return;
                }
                drop(svc.call(w.req()));
            }
            if huge {
                break;
            }
            if !chk!(c, tk.poll(|cx| svc.poll_ready(cx)).is_pending(), "window {}: ready after all {} calls were made", round, n) {
                return;
            }
            tokio::time::advance(per).await;
            settle().await;
            tokio::time::advance(Duration::from_millis(1)).await;
            settle().await;
            chk!(c, tk.woken(), "not woken when the window ended");
        }
        c.count("calls admitted", w.ncalls() as u64);
        if n > 64 {
            c.nontrivial();
        }
        drop(svc);
        w.check_no_leak("rate limit");
    });
}

// ---------------------------------------------------------------- retry, budget

#[derive(Clone)]
struct Again {
    left: u64,
    asked: Arc<AtomicU64>,
    spin: bool,
}
struct Pause(bool);
impl Future for Pause {
    type Output = ();
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            self.0 = false;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        Poll::Ready(())
    }
}
impl tower::retry::Policy<Req, Resp, Fail> for Again {
    type Future = Pause;
    fn retry(&mut self, _: &mut Req, _: &mut Result<Resp, Fail>) -> Option<Pause> {
        self.asked.fetch_add(1, SeqCst);
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        Some(Pause(self.spin && self.left % 7 == 0))
    }
    fn clone_request(&mut self, r: &Req) -> Option<Req> {
        Some(r.clone())
    }
}

/// Very many attempts, all of them at once.
pub fn retries(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let plan = Plan { resp_err_pct: *r.pick(&[0, 50, 100]), resp: *r.pick(&[[1, 0, 0, 0], [5, 1, 0, 0]]), ..Plan::default() };
        let w = World::new(c, plan);
        let asked = Arc::new(AtomicU64::new(0));
        let left = size(&r, if r.pct(10) { 70_000 } else { 3000 }) as u64;
        let mut svc = Retry::new(Again { left, asked: asked.clone(), spin: r.pct(50) }, w.svc(0));
        let tk = Tk::new();
        ev!(c, "{} retries", left);
        for round in 1..=2u64 {
            let _ = drive(c, &tk, |cx| svc.poll_ready(cx));
            let before = w.ncalls();
            let mut f = Fut::new(svc.call(w.req()));
            let x = drive_fut(c, &mut f);
            let made = (w.ncalls() - before) as u64;
            chk!(c, made == left + 1, "{} attempts were made with {} retries wanted", made, left);
            chk!(c, asked.load(SeqCst) == round * (left + 1), "the policy was consulted {} times for {} attempts", asked.load(SeqCst), round * (left + 1));
            let last = w.ncalls() - 1;
            let ok = match &x {
                Poll::Ready(Ok(a)) => a.call == last,
                Poll::Ready(Err(e)) => e.call == Some(last),
                Poll::Pending => false,
            };
            chk!(c, ok, "after {} attempts the outcome is {:?} instead of that of attempt {}", made, x, last);
            if c.violated() {
                return;
            }
        }
        c.count("attempts", w.ncalls() as u64);
        if left > 64 {
            c.nontrivial();
        }
        drop(svc);
        w.check_no_leak("retry");
    });
}

/// Large reserves and large numbers of deposits.
pub fn budget(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let ttl = Duration::from_secs(r.range(1, 4));
        let min = if r.pct(50) { size(&r, if r.pct(10) { 1_000_000 } else { 50_000 }) as u32 } else { r.below(3) as u32 };
        // costs in deposits come out whole
        let (pct, dep, wd): (f32, u64, u64) = *r.pick(&[(0.0, 0, 1), (1.0, 1, 1), (0.5, 1, 2), (0.25, 1, 4), (2.0, 1000, 500), (10.0, 1000, 100)]);
        let b = TpsBudget::new(ttl, min, pct);
        let reserve = min as u64 * ttl.as_secs();
        ev!(c, "ttl {:?} reserve {} ratio {}", ttl, reserve, pct);
        let deps = if r.pct(60) { size(&r, if r.pct(10) { 1_000_000 } else { 100_000 }) as u64 } else { 0 };
        for _ in 0..deps {
            b.deposit();
        }
        let want = reserve + deps * dep / wd;
        let mut got = 0u64;
        while got <= want && b.withdraw() {
            got += 1;
        }
        chk!(c, got == want, "{} withdrawals granted with a reserve of {} and {} deposits at {} (expected {})", got, reserve, deps, pct, want);
        // all of it is forgotten
        tokio::time::advance(ttl + ttl / 5).await;
        let mut again = 0u64;
        while again <= reserve && b.withdraw() {
            again += 1;
        }
        chk!(c, again == reserve, "{} withdrawals granted after the time-to-live with a reserve of {}", again, reserve);
        c.count("withdrawals", got + again);
        if got > 100 {
            c.nontrivial();
        }
    });
}

// ---------------------------------------------------------------- hedge

#[derive(Clone)]
struct Always;
impl tower::hedge::Policy<Req> for Always {
    fn clone_request(&self, r: &Req) -> Option<Req> {
        Some(r.clone())
    }
    fn can_retry(&self, _: &Req) -> bool {
        true
    }
}

/// A very large number of periods goes by without a request: what was known is forgotten.
fn hedge_idle(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let w = World::new(c, Plan::manual(Gate::Open));
        let period = Duration::from_millis(*r.pick(&[1u64, 2, 5, 7]));
        let xs: Vec<u64> = (0..r.range(1, 30)).map(|_| r.below(period.as_millis() as u64)).collect();
        let mut svc = tower::hedge::Hedge::new_with_mock_latencies(w.svc(0), Always, 1, 0.5, period, &xs);
        let periods = *r.pick(&[1u64 << 8, 1 << 16, 1 << 24, 1 << 31, 1 << 32, 1 << 32]) + *r.pick(&[0u64, 0, 1, 2]) ;
        let idle = Duration::from_nanos(period.as_nanos() as u64 * periods);
        ev!(c, "period {:?}, {} data points, then idle for {} periods", period, xs.len(), periods);
        tokio::time::advance(idle).await;
        let tk = Tk::new();
        chk!(c, drive(c, &tk, |cx| svc.poll_ready(cx)).is_ready(), "not ready");
        let mut f = Fut::new(svc.call(w.req()));
        let _ = drive_fut(c, &mut f);
        for _ in 0..20 {
            tokio::time::advance(Duration::from_millis(1)).await;
            settle().await;
            if f.tk.woken() {
                let _ = drive_fut(c, &mut f);
            }
        }
        chk!(c, w.ncalls() == 1, "a copy was sent although the data points are {} periods old", periods);
        c.nontrivial();
        drop((f, svc));
        w.check_no_leak("hedge");
    });
}

/// Many data points, long latencies.
pub fn hedge(c: &Case) {
    if c.rng.pct(20) {
        return hedge_idle(c);
    }
    sim(async {
        let r = c.rng.clone();
        let w = World::new(c, Plan::manual(Gate::Open));
        let n = size(&r, if r.pct(15) { 70_000 } else { 3000 });
        let top = *r.pick(&[1_000u64, 70_000, 5_000_000, 3_000_000_000, 86_400_000 * 300]);
        let mut xs: Vec<u64> = (0..n).map(|_| r.range(1, top)).collect();
        // exactly enough, or one too few
        let short = r.pct(30);
        let min = n as u64 + short as u64;
        let q = *r.pick(&[0.01f32, 0.5, 0.9, 0.99]);
        ev!(c, "{} latencies up to {} ms, at least {} wanted, percentile {}", n, top, min, q);
        let mut svc = tower::hedge::Hedge::new_with_mock_latencies(w.svc(0), Always, min, q, Duration::from_secs(86_400 * 1000), &xs);
        let tk = Tk::new();
        for _ in 0..3 {
            if drive(c, &tk, |cx| svc.poll_ready(cx)).is_ready() {
                break;
            }
        }
        let mut f = Fut::new(svc.call(w.req()));
        let _ = drive_fut(c, &mut f);
        chk!(c, w.ncalls() == 1, "{} requests sent at once", w.ncalls());
        xs.sort_unstable();
        // the rank may be rounded either way, and values are kept to three digits
        let at = |k: f64| xs[(k.clamp(0.0, n as f64 - 1.0)) as usize] as f64;
        let k = q as f64 * n as f64;
        let lo = at((k - 2.0).floor()) * 0.998 - 2.0;
        let hi = at((k + 1.0).ceil()) * 1.002 + 2.0;
        if lo > 1.0 {
            tokio::time::advance(Duration::from_micros((lo * 1000.0) as u64)).await;
            settle().await;
            if f.tk.woken() {
                let _ = drive_fut(c, &mut f);
            }
            chk!(c, w.ncalls() == 1, "the copy was sent before {} ms had passed", lo);
        }
        tokio::time::advance(Duration::from_micros(((hi - lo.max(0.0)) * 1000.0) as u64 + 2000)).await;
        settle().await;
        if f.tk.woken() {
            let _ = drive_fut(c, &mut f);
        }
        chk!(c, (w.ncalls() == 2) != short, "{} requests were sent after {} ms with {} of {} data points", w.ncalls(), hi, n, min);
        if !short && n > 64 {
            c.nontrivial();
        }
        c.count("data points", n as u64);
        drop((f, svc));
        w.check_no_leak("hedge");
    });
}

// ---------------------------------------------------------------- ready cache, balancer

pub fn cache(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let w = World::new(c, Plan::manual(Gate::Closed));
        let n = size(&r, if r.pct(10) { 20_000 } else { 2000 });
        ev!(c, "{} services", n);
        let mut cache: ReadyCache<usize, Probe, Req> = ReadyCache::default();
        let open_pct = *r.pick(&[0, 10, 50, 90, 100]);
        let mut gates = vec![];
        for k in 0..n {
            let p = w.svc(0);
            let open = r.pct(open_pct);
            w.lock().insts[p.id].gate = if open { Gate::Open } else { Gate::Closed };
            gates.push(open);
            cache.push(k, p);
        }
        let tk = Tk::new();
        let opened = gates.iter().filter(|x| **x).count();
        let x = drive(c, &tk, |cx| cache.poll_pending(cx));
        chk!(c, matches!(x, Poll::Ready(Ok(()))) == (opened == n), "poll_pending says {:?} with {} of {} services ready", x.is_ready(), opened, n);
        let lens = (cache.ready_len(), cache.pending_len(), cache.len());
        chk!(c, lens == (opened, n - opened, n), "{:?} ready, pending, in all; of {} services {} are ready", lens, n, opened);
        // more of them open, in any order
        let mut closed: Vec<usize> = (0..n).filter(|k| !gates[*k]).collect();
        for i in (1..closed.len()).rev() {
            closed.swap(i, r.us(i + 1));
        }
        closed.truncate(r.us(closed.len() + 1));
        for (i, k) in closed.iter().enumerate() {
            w.gate(*k, Gate::Open);
            gates[*k] = true;
            if i == 0 {
                chk!(c, tk.woken(), "a pending service became ready and the task was not woken");
            }
        }
        if tk.woken() {
            let _ = drive(c, &tk, |cx| cache.poll_pending(cx));
        }
        let opened = gates.iter().filter(|x| **x).count();
        chk!(c, cache.ready_len() == opened && cache.pending_len() == n - opened, "{} ready and {} pending of {} services, {} of them ready", cache.ready_len(), cache.pending_len(), n, opened);
        if c.violated() {
            return;
        }
        // use some, evict some
        let mut here: Vec<Option<bool>> = gates.iter().map(|x| Some(*x)).collect();
        let mut futs = vec![];
        for _ in 0..r.below(300) {
            let k = r.us(n);
            if r.pct(50) {
                let got = cache.evict(&k);
                chk!(c, got == here[k].is_some(), "evict of {} returned {}", k, got);
                here[k] = None;
            } else if here[k] == Some(true) {
                let id = cache.get_ready(&k).map(|(_, _, p)| p.id);
                chk!(c, id == Some(k), "the service ready under {} is {:?}", k, id);
                futs.push(cache.call_ready(&k, w.req()));
                here[k] = Some(false);
                w.gate(k, Gate::Closed);
            }
        }
        let _ = drive(c, &tk, |cx| cache.poll_pending(cx));
        let (a, b) = (here.iter().filter(|x| **x == Some(true)).count(), here.iter().filter(|x| **x == Some(false)).count());
        chk!(c, cache.ready_len() == a && cache.pending_len() == b, "{} ready and {} pending instead of {} and {}", cache.ready_len(), cache.pending_len(), a, b);
        let mut seen: Vec<usize> = cache.iter_ready().map(|(k, _)| *k).collect();
        seen.sort_unstable();
        let expect: Vec<usize> = (0..n).filter(|k| here[*k] == Some(true)).collect();
        chk!(c, seen == expect, "the ready services are not the ones expected");
        for k in 0..n {
            if here[k].is_none() {
                chk!(c, w.lock().insts[k].dropped, "the evicted service {} is still held", k);
            }
        }
        if n > 64 {
            c.nontrivial();
        }
        c.count("services in the cache", n as u64);
        drop((cache, futs));
        w.check_no_leak("ready cache");
    });
}

/// Many endpoints arriving and leaving at once; each can be drawn.
pub fn balance(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let w = World::new(c, Plan::manual(Gate::Open));
        let n = size(&r, if r.pct(20) { 2000 } else { 400 });
        let (disc, h) = Disc::new(c);
        let mut bal: tower::balance::p2c::Balance<Disc<usize, Loaded>, Req> = tower::balance::p2c::Balance::from_rng(disc, Draw(r.fork()));
        for k in 0..n {
            h.send(DiscEv::Change(Change::Insert(k, Loaded { p: w.svc(k as u32), load: Arc::new(AtomicU64::new(7)) })));
        }
        let tk = Tk::new();
        chk!(c, drive(c, &tk, |cx| bal.poll_ready(cx)).is_ready(), "not ready with {} ready endpoints", n);
        chk!(c, bal.len() == n, "{} endpoints instead of {}", bal.len(), n);
        // some leave in one go
        let mut gone = HashSet::new();
        let keep = 2 + r.us(n);
        while gone.len() + keep < n {
            let k = r.us(n);
            if gone.insert(k) {
                h.send(DiscEv::Change(Change::Remove(k)));
            }
        }
        let m = n - gone.len();
        ev!(c, "{} endpoints, {} of them leave", n, gone.len());
        let x = drive(c, &tk, |cx| bal.poll_ready(cx)).is_ready();
        chk!(c, x && bal.len() == m, "ready {} with {} endpoints instead of {}", x, bal.len(), m);
        for k in &gone {
            chk!(c, w.lock().insts[*k].dropped, "endpoint {} left and is still held", k);
        }
        if c.violated() || m < 2 {
            return;
        }
        // any of them is drawn with probability 1/m: missing one for so long is below 1e-9
        let total = (m as f64 * ((m as f64).ln() + 21.0)) as u64;
        let total = total.min(40_000);
        let mut hits: HashMap<usize, u64> = HashMap::new();
        for _ in 0..total {
            let k = w.ncalls();
            drop(bal.call(w.req()));
            let i = w.lock().calls[k].inst;
            *hits.entry(i).or_default() += 1;
            if !chk!(c, drive(c, &tk, |cx| bal.poll_ready(cx)).is_ready(), "not ready with {} ready endpoints", m) {
                return;
            }
        }
        if total < 40_000 {
            let cold: Vec<usize> = (0..n).filter(|k| !gone.contains(k) && !hits.contains_key(k)).collect();
            chk!(c, cold.is_empty(), "of {} endpoints {} never got one of {} requests: {:?}", m, cold.len(), total, &cold[..cold.len().min(10)]);
        }
        let most = hits.values().copied().max().unwrap_or(0) as f64;
        let mean = total as f64 / m as f64;
        chk!(c, most <= mean + 7.0 * mean.sqrt() + 12.0, "one of {} equal endpoints got {} of {} requests", m, most, total);
        c.count("endpoints", n as u64);
        if n > 64 {
            c.nontrivial();
        }
        drop((bal, h));
        w.check_no_leak("balance");
    });
}

// ---------------------------------------------------------------- load

fn number(m: &impl std::fmt::Debug) -> f64 {
    super::load::number(m)
}

pub fn pending(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let w = World::new(c, Plan::manual(Gate::Open));
        let mut svc = PendingRequests::new(w.svc(0), CompleteOnResponse::default());
        let n = size(&r, if r.pct(15) { 70_000 } else { 5000 });
        let tk = Tk::new();
        let mut open = vec![];
        for k in 0..n {
            chk!(c, tk.poll(|cx| svc.poll_ready(cx)).is_ready(), "not ready");
            open.push((w.ncalls(), Fut::new(svc.call(w.req()))));
            if k % 61 == 0 || (k + 2).is_power_of_two() || (k + 1).is_power_of_two() || k + 1 == n {
                let l = number(&svc.load());
                if !chk!(c, l == (k + 1) as f64, "load {} with {} requests outstanding", l, k + 1) {
                    return;
                }
            }
        }
        let mut left = n;
        while left > 0 {
            let (k, mut f) = open.swap_remove(r.us(left));
            match r.below(3) {
                0 => drop(f),
                x => {
                    w.finish(k, x == 1);
                    let _ = f.poll();
                    drop(f);
                }
            }
            left -= 1;
            if left % 61 == 0 || left.is_power_of_two() {
                let l = number(&svc.load());
                if !chk!(c, l == left as f64, "load {} with {} requests outstanding", l, left) {
                    return;
                }
            }
        }
        c.count("outstanding at once", n as u64);
        if n > 64 {
            c.nontrivial();
        }
        drop(svc);
        w.check_no_leak("pending requests");
    });
}

pub fn ewma(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let w = World::new(c, Plan::manual(Gate::Open));
        let default = Duration::from_nanos(r.range(1, 10_000_000_000));
        // no time passes, so nothing decays
        let mut svc = PeakEwma::new(w.svc(0), default, 1e9 * r.range(1, 100) as f64, CompleteOnResponse::default());
        let n = size(&r, if r.pct(15) { 70_000 } else { 5000 });
        let tk = Tk::new();
        let mut open = vec![];
        let rtt = default.as_nanos() as f64;
        let right = |l: f64, k: usize| (l / (rtt * (k as f64 + 1.0)) - 1.0).abs() < 1e-6;
        for k in 0..n {
            chk!(c, tk.poll(|cx| svc.poll_ready(cx)).is_ready(), "not ready");
            open.push(Fut::new(svc.call(w.req())));
            if k % 61 == 0 || (k + 1).is_power_of_two() || (k + 2).is_power_of_two() || k + 1 == n {
                let l = number(&svc.load());
                if !chk!(c, right(l, k + 1), "load {} with {} outstanding and an estimate of {} ns", l, k + 1, rtt) {
                    return;
                }
            }
        }
        drop(open);
        // those observations were of no latency at all, over no time at all
        let l = number(&svc.load());
        chk!(c, l.is_finite() && l >= 0.0 && l <= rtt * 1.000001, "load {} after everything ended", l);
        c.count("outstanding at once", n as u64);
        if n > 64 {
            c.nontrivial();
        }
        drop(svc);
        w.check_no_leak("peak ewma");
    });
}

// ---------------------------------------------------------------- reconnect, steer

struct Maker {
    w: World,
    /// outcomes still to come: connections that are broken from the start, then one that is well
    broken: usize,
    made: Arc<AtomicU64>,
    wrong: Arc<AtomicU64>,
    fail: usize,
    spin: bool,
}
struct Made(Option<Result<Probe, Fail>>, bool);
impl Future for Made {
    type Output = Result<Probe, Fail>;
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if self.1 {
            self.1 = false;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        Poll::Ready(self.0.take().expect("polled after completion"))
    }
}
impl Service<u64> for Maker {
    type Response = Probe;
    type Error = Fail;
    type Future = Made;
    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), Fail>> {
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, t: u64) -> Made {
        if t != 4711 {
            self.wrong.fetch_add(1, SeqCst);
        }
        let k = self.made.fetch_add(1, SeqCst) as usize;
        let spin = self.spin && k % 5 == 0;
        if k < self.fail {
            return Made(Some(Err(Fail { inst: k, call: None, id: 0 })), spin);
        }
        let p = self.w.svc(k as u32);
        self.w.lock().insts[p.id].gate = if k < self.fail + self.broken { Gate::Err } else { Gate::Open };
        Made(Some(Ok(p)), spin)
    }
}

/// Many failures in a row, each followed by another attempt.
pub fn reconnects(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let w = World::new(c, Plan::manual(Gate::Open));
        let fail = if r.pct(50) { size(&r, 3000) } else { 0 };
        let broken = if fail == 0 || r.pct(50) { size(&r, 3000) } else { 0 };
        let (made, wrong): (Arc<AtomicU64>, Arc<AtomicU64>) = Default::default();
        let mk = Maker { w: w.clone(), broken, fail, made: made.clone(), wrong: wrong.clone(), spin: r.pct(50) };
        let mut svc = Reconnect::new(mk, 4711u64);
        ev!(c, "{} failed connects, then {} broken connections", fail, broken);
        let tk = Tk::new();
        for k in 0..fail {
            if !chk!(c, drive(c, &tk, |cx| svc.poll_ready(cx)).is_ready(), "attempt {} of {}: the failure to connect leaves the service waiting", k, fail) {
                return;
            }
            let mut f = Fut::new(svc.call(w.req()));
            let x = drive_fut(c, &mut f);
            let right = matches!(&x, Poll::Ready(Err(e)) if find_fail(&**e).is_some_and(|f| f.inst == k && f.call.is_none()));
            if !chk!(c, right, "failure {} to connect is not what the next call reports", k) {
                return;
            }
        }
        chk!(c, drive(c, &tk, |cx| svc.poll_ready(cx)).is_ready(), "not ready after {} connections broke, although the next one is well", broken);
        let n = made.load(SeqCst) as usize;
        chk!(c, n == fail + broken + 1, "{} connections were asked for instead of {}", n, fail + broken + 1);
        chk!(c, wrong.load(SeqCst) == 0, "{} of them for another target", wrong.load(SeqCst));
        let alive = w.lock().insts.iter().filter(|i| !i.dropped).count();
        chk!(c, alive == 1, "{} connections are held", alive);
        let mut f = Fut::new(svc.call(w.req()));
        let _ = drive_fut(c, &mut f);
        chk!(c, w.ncalls() == 1, "{} calls reached connections", w.ncalls());
        c.count("connects", n as u64);
        if n > 64 {
            c.nontrivial();
        }
        drop((svc, f));
        w.check_no_leak("reconnect");
    });
}

struct Fixed(Arc<AtomicU64>);
impl tower::steer::Picker<Probe, Req> for Fixed {
    fn pick(&mut self, _: &Req, _: &[Probe]) -> usize {
        self.0.load(SeqCst) as usize
    }
}

pub fn steer(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let w = World::new(c, Plan::manual(Gate::Closed));
        let n = size(&r, if r.pct(15) { 20_000 } else { 2000 });
        let next: Arc<AtomicU64> = Default::default();
        let mut svc = Steer::new((0..n).map(|k| w.svc(k as u32)), Fixed(next.clone()));
        ev!(c, "{} services", n);
        let tk = Tk::new();
        // they open in stretches, in any order
        let mut order: Vec<usize> = (0..n).collect();
        if r.pct(50) {
            for i in (1..n).rev() {
                order.swap(i, r.us(i + 1));
            }
        }
        let mut at = 0;
        loop {
            let x = if at == 0 || tk.woken() { drive(c, &tk, |cx| svc.poll_ready(cx)).is_ready() } else { false };
            if !chk!(c, x == (at == n), "ready {} with {} of {} services ready", x, at, n) {
                return;
            }
            if x {
                break;
            }
            let m = size(&r, (n - at) as u64).max(n / 20).min(n - at);
            for k in &order[at..at + m] {
                w.gate(*k, Gate::Open);
            }
            at += m;
        }
        let mut futs = vec![];
        for _ in 0..r.range(1, 40) {
            let k = match r.below(4) {
                0 => n - 1,
                1 => size(&r, n as u64) - 1,
                _ => r.us(n),
            };
            next.store(k as u64, SeqCst);
            let before = w.ncalls();
            futs.push(svc.call(w.req()));
            let got = w.lock().calls.get(before).map(|x| x.inst);
            let m = w.ncalls();
            chk!(c, got == Some(k) && m == before + 1, "the request for service {} went to {:?}", k, got);
            if r.pct(50) {
                w.gate(k, Gate::Closed);
                let x = drive(c, &tk, |cx| svc.poll_ready(cx)).is_ready();
                chk!(c, !x, "ready although service {} of {} is not", k, n);
                w.gate(k, Gate::Open);
                chk!(c, tk.woken(), "not woken although service {} became ready", k);
            }
            let x = drive(c, &tk, |cx| svc.poll_ready(cx)).is_ready();
            if !chk!(c, x, "not ready although all {} services are", n) {
                return;
            }
        }
        c.count("services", n as u64);
        if n > 64 {
            c.nontrivial();
        }
        drop((svc, futs));
        w.check_no_leak("steer");
    });
}

// ---------------------------------------------------------------- streams

pub fn call_all(c: &Case) {
    sim(async {
        use tower::util::{CallAll, CallAllUnordered};
        let r = c.rng.clone();
        let w = World::new(c, Plan::manual(Gate::Open));
        let n = size(&r, if r.pct(10) { 20_000 } else { 3000 });
        let reqs: Vec<Req> = (0..n).map(|_| w.req()).collect();
        let ids: Vec<u64> = reqs.iter().map(|q| q.id).collect();
        let ordered = r.pct(50);
        ev!(c, "{} items, ordered {}", n, ordered);
        let src = futures::stream::iter(reqs);
        type S = std::pin::Pin<Box<dyn Stream<Item = Result<Resp, Fail>>>>;
        let mut s: S = if ordered { Box::pin(CallAll::new(w.svc(0), src)) } else { Box::pin(CallAllUnordered::new(w.svc(0), src)) };
        let tk = Tk::new();
        let x = drive(c, &tk, |cx| s.poll_next_unpin(cx));
        chk!(c, x.is_pending(), "it yields or ends before anything was answered");
        let got: Vec<u64> = w.lock().calls.iter().map(|x| x.id).collect();
        if !chk!(c, got == ids, "{} calls for {} items, or not in their order", got.len(), n) {
            return;
        }
        // answered in stretches, in any order
        let mut order: Vec<usize> = (0..n).collect();
        match r.below(3) {
            0 => {}
            1 => order.reverse(),
            _ => {
                for i in (1..n).rev() {
                    order.swap(i, r.us(i + 1));
                }
            }
        }
        let mut done = vec![false; n];
        let mut seen = vec![false; n];
        let (mut at, mut next, mut count) = (0, 0, 0);
        while at < n {
            let m = size(&r, (n - at) as u64).max(n / 30).min(n - at);
            for k in &order[at..at + m] {
                w.finish(*k, k % 5 != 2);
                done[*k] = true;
            }
            at += m;
            loop {
                let due = if ordered { next < n && done[next] } else { count < at };
                if !tk.woken() && !due {
                    break;
                }
                // whoever just got an item polls again without having been woken
                let x = drive(c, &tk, |cx| s.poll_next_unpin(cx));
                let (k, ok) = match x {
                    Poll::Ready(Some(Ok(a))) => (a.call, true),
                    Poll::Ready(Some(Err(e))) => (e.call.unwrap_or(usize::MAX), false),
                    Poll::Ready(None) => {
                        chk!(c, false, "it ends with {} of {} responses yielded", count, n);
                        return;
                    }
                    Poll::Pending => {
                        if !chk!(c, !due, "{} responses are there, {} yielded, and it waits", at, count) {
                            return;
                        }
                        break;
                    }
                };
                let fine = k < n && done[k] && !seen[k] && ok == (k % 5 != 2) && (!ordered || k == next);
                if !chk!(c, fine, "the response of call {} (ok {}) is yielded as number {}", k, ok, count) {
                    return;
                }
                seen[k] = true;
                count += 1;
                next += 1;
                if count == n {
                    break;
                }
            }
        }
        chk!(c, count == n, "{} of {} responses were yielded", count, n);
        let x = drive(c, &tk, |cx| s.poll_next_unpin(cx));
        chk!(c, matches!(x, Poll::Ready(None)), "everything was yielded and it does not end");
        c.count("in flight at once", n as u64);
        if n > 64 {
            c.nontrivial();
        }
        drop(s);
        w.check_no_leak("call all");
    });
}

// ---------------------------------------------------------------- mock, makers, random helpers

pub fn mock(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let w = World::new(c, Plan::manual(Gate::Open));
        let (mock, mut handle) = tower_test::mock::pair::<Req, Resp>();
        let n = size(&r, if r.pct(10) { 20_000 } else { 2000 });
        // many wait
        let mut waiters: Vec<_> = (0..n).map(|_| (mock.clone(), Tk::new())).collect();
        handle.allow(0);
        for (m, tk) in waiters.iter_mut() {
            chk!(c, tk.poll(|cx| m.poll_ready(cx)).is_pending(), "ready with nothing allowed");
        }
        let huge = r.pct(30);
        let allow = if huge { *r.pick(&[1u64 << 16, 1 << 32, (1 << 32) + 1, 1 << 40, u64::MAX]) } else { size(&r, n as u64) as u64 };
        handle.allow(allow);
        ev!(c, "{} clones wait, {} requests allowed", n, allow);
        let asleep = waiters.iter().filter(|x| !x.1.woken()).count();
        chk!(c, asleep == 0, "{} of {} waiting clones were not woken", asleep, n);
        let mut futs = vec![];
        let mut ids = vec![];
        for (k, (mut m, tk)) in waiters.into_iter().enumerate() {
            let x = tk.poll(|cx| m.poll_ready(cx)).is_ready();
            if !chk!(c, x == ((k as u64) < allow), "ready {} after {} of {} allowed requests", x, k, allow) {
                return;
            }
            if !x {
                break;
            }
            let q = w.req();
            ids.push(q.id);
            futs.push(Fut::new(m.call(q)));
        }
        c.count("requests queued", ids.len() as u64);
        let mut rs = vec![];
        for (k, id) in ids.iter().enumerate() {
            let mut f = Fut::new(handle.next_request());
            match drive_fut(c, &mut f) {
                Poll::Ready(Some((q, s))) => {
                    if !chk!(c, q.id == *id, "request {} of {} received is {}, sent was {}", k, ids.len(), q.id, id) {
                        return;
                    }
                    rs.push(Some((q.id, s)));
                }
                _ => {
                    chk!(c, false, "only {} of {} requests were received", k, ids.len());
                    return;
                }
            }
        }
        for _ in 0..2 * rs.len() {
            let k = r.us(rs.len());
            if let Some((id, s)) = rs[k].take() {
                s.send_response(w.resp(id, k as u64));
                let x = drive_fut(c, &mut futs[k]);
                chk!(c, matches!(&x, Poll::Ready(Ok(a)) if a.tag == k as u64), "request {} did not get its response", k);
            }
        }
        if n > 64 {
            c.nontrivial();
        }
        drop((rs, futs, mock, handle));
        w.check_no_leak("mock");
    });
}

pub fn list(c: &Case) {
    let r = c.rng.clone();
    let n = size(&r, if r.pct(20) { 140_000 } else { 10_000 });
    #[derive(Debug)]
    struct S(usize);
    impl Service<()> for S {
        type Response = ();
        type Error = std::convert::Infallible;
        type Future = std::future::Ready<Result<(), std::convert::Infallible>>;
        fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
            Poll::Ready(Ok(()))
        }
        fn call(&mut self, _: ()) -> Self::Future {
            std::future::ready(Ok(()))
        }
    }
    let mut l = ServiceList::new::<()>((0..n).map(|k| S(k * 3)));
    let mut cx = Context::from_waker(Waker::noop());
    for k in 0..n {
        let x = l.poll_next_unpin(&mut cx);
        let fine = matches!(&x, Poll::Ready(Some(Ok(Change::Insert(i, S(v))))) if *i == k && *v == 3 * k);
        if !chk!(c, fine, "element {} of {} comes out as {:?}", k, n, x.map(|x| x.map(|x| x.is_ok()))) {
            return;
        }
    }
    chk!(c, matches!(l.poll_next_unpin(&mut cx), Poll::Ready(None)), "a list of {} does not end", n);
    c.count("services listed", n as u64);
    ev!(c, "{} services", n);
    c.fp(n as u64);
    c.nontrivial();
}

/// The sequence does not come round.
pub fn hasher(c: &Case) {
    let r = c.rng.clone();
    let n = size(&r, if r.pct(20) { 300_000 } else { 20_000 });
    let mut g = HasherRng::new();
    let mut seen = HashSet::with_capacity(n);
    let mut twin = g.clone();
    for k in 0..n {
        let x = g.next_u64();
        if !chk!(c, seen.insert(x), "draw {} repeats an earlier value", k) {
            return;
        }
        c.check(x == twin.next_u64(), || format!("the clone differs at draw {}", k));
    }
    c.count("draws without repetition", n as u64);
    ev!(c, "{} draws", n);
    c.fp(n as u64);
    c.nontrivial();
    let _ = Instant::now;
}
