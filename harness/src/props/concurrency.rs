//! P04: concurrency limit.
use crate::kit::*;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use tokio::sync::Semaphore;
use tower::limit::concurrency::{
    future::ResponseFuture, ConcurrencyLimit, ConcurrencyLimitLayer, GlobalConcurrencyLimitLayer,
};
use tower_layer::Layer;

pub fn prop() -> Prop {
    Prop {
        id: "P04",
        rule: "seeded random histories of clone/poll_ready/call/complete/cancel/drop over services sharing limits, hand-driven, strictly scheduled (polled only when woken) or on real threads; non-trivial: the limit was reached and a waiter was later admitted",
        assumptions: &["tokio's semaphore and clock behave as documented", "a caller that was woken polls again or drops its clone"],
        scenarios: vec![
            Scenario::new("manual_model", 6000, manual_model),
            Scenario::new("scheduled_tasks", 2500, scheduled_tasks),
            Scenario::new("layers_independent", 600, layers_independent), Scenario::new("large", 25, super::large::concurrency),
            Scenario::new("from_drops", 600, from_drops),
            Scenario::threaded("threads", 6, threads),
        ],
    }
}

struct Cl {
    svc: ConcurrencyLimit<Probe>,
    inner: usize,
    tk: Tk,
    /// reported ready and not called since
    ready: bool,
    /// polled pending since last ready
    waiting: bool,
    errored: bool,
}

struct Fl {
    fut: Fut<ResponseFuture<RespFut>>,
    call: usize,
    resolved: bool,
}

fn manual_model(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        // now and then a crowd: many clones, on a large or a small limit
        let crowd = r.pct(6);
        let n = if crowd {
            *r.pick(&[1usize, 4, 9, 16, 31, 40, 64])
        } else {
            *r.pick(&[1usize, 1, 2, 2, 3, 4])
        };
        let most = if crowd { 110 } else { 14 };
        let grow = if crowd { 24 } else { 5 };
        let gate_pct = *r.pick(&[0u64, 0, 30, 60]);
        let w = World::new(c, Plan::manual(Gate::Open));
        w.lock().once_failed = false; // this client asks again
        ev!(c, "limit {}", n);
        let mut cls: Vec<Option<Cl>> = vec![];
        let mut fls: Vec<Fl> = vec![];
        // several separately built services sharing one limit
        let how = r.below(4);
        let builds = r.range(1, 3);
        let sem = Arc::new(Semaphore::new(n));
        let glayer = GlobalConcurrencyLimitLayer::new(n);
        let glayer2 = GlobalConcurrencyLimitLayer::with_semaphore(sem.clone());
        for g in 0..builds {
            let p = w.svc(g as u32);
            let inner = p.id;
            let svc = match how {
                0 => glayer.layer(p),
                1 => glayer2.clone().layer(p),
                2 => ConcurrencyLimit::with_semaphore(p, sem.clone()),
                _ => {
                    if g > 0 {
                        continue;
                    }
                    match r.below(3) {
                        0 => ConcurrencyLimit::new(p, n),
                        1 => tower::ServiceBuilder::new().concurrency_limit(n).service(p),
                        _ => ConcurrencyLimitLayer::new(n).layer(p),
                    }
                }
            };
            cls.push(Some(Cl {
                svc,
                inner,
                tk: Tk::new(),
                ready: false,
                waiting: false,
                errored: false,
            }));
        }
        let mut saw_full_wait = false;
        let mut admitted_after_wait = false;
        let steps = if crowd { r.range(100, 700) } else { r.range(20, 90) };
        for _ in 0..steps {
            if c.violated() {
                break;
            }
            let live: Vec<usize> = (0..cls.len()).filter(|&k| cls[k].is_some()).collect();
            match r.weighted(&[grow, 30, 20, 14, 8, 8, gate_pct / 4, 4, 3, 1]) {
                // clone
                0 if cls.len() < most && !live.is_empty() => {
                    let k = *r.pick(&live);
                    let svc = cls[k].as_ref().unwrap().svc.clone();
                    let inner = w.newest();
                    if r.pct(5) {
                        // a new clone has no slot: it must not get a request in without one
                        let (mut x, before, q) = (svc, w.ncalls(), w.req());
                        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(x.call(q))));
                        let _ = crate::kit::run::take_panics();
                        chk!(c, w.ncalls() == before, "a clone that holds no slot passed a request on");
                        continue;
                    }
                    ev!(c, "clone {} from {}", cls.len(), k);
                    cls.push(Some(Cl {
                        svc,
                        inner,
                        tk: Tk::new(),
                        ready: false,
                        waiting: false,
                        errored: false,
                    }));
                }
                // poll_ready
                1 if !live.is_empty() => {
                    let k = *r.pick(&live);
                    poll(c, &w, n, &mut cls, &fls, k, &mut admitted_after_wait);
                }
                // call
                2 => {
                    let rd: Vec<usize> = live
                        .iter()
                        .copied()
                        .filter(|&k| cls[k].as_ref().unwrap().ready)
                        .collect();
                    if !rd.is_empty() {
                        let k = *r.pick(&rd);
                        let req = w.req();
                        let id = req.id;
                        let cl = cls[k].as_mut().unwrap();
                        let before = w.ncalls();
                        ev!(c, "client {} calls", k);
                        let fut = cl.svc.call(req);
                        cl.ready = false;
                        chk!(c, w.ncalls() == before + 1, "a call did not reach the inner service exactly once");
                        if w.ncalls() > before {
                            chk!(c, w.lock().calls[before].id == id, "call delivered another request");
                        }
                        let mut fut = Fut::new(fut);
                        if r.pct(70) {
                            chk!(c, fut.poll().is_pending(), "response resolved before the inner one");
                        }
                        fls.push(Fl {
                            fut,
                            call: before,
                            resolved: false,
                        });
                    }
                }
                // complete and poll
                3 if !fls.is_empty() => {
                    let k = r.us(fls.len());
                    if !fls[k].resolved {
                        let ok = r.pct(65);
                        let f = &mut fls[k];
                        w.finish(f.call, ok);
                        if f.fut.polled {
                            chk!(c, f.fut.tk.woken(), "completion of the inner response did not wake the caller");
                        }
                        match f.fut.poll() {
                            Poll::Ready(Ok(x)) => {
                                chk!(c, ok && x.call == f.call, "wrong outcome");
                            }
                            Poll::Ready(Err(e)) => {
                                let e: Option<Fail> = as_fail(e);
                                chk!(c, !ok && e.as_ref().map(|e| e.call) == Some(Some(f.call)), "wrong error {:?}", e);
                            }
                            Poll::Pending => {
                                chk!(c, false, "response still pending after the inner one resolved");
                            }
                        }
                        f.resolved = true;
                        if r.pct(70) {
                            let f = fls.swap_remove(k);
                            ev!(c, "drop resolved {}", f.call);
                            drop(f);
                        }
                    } else {
                        let f = fls.swap_remove(k);
                        ev!(c, "drop resolved {}", f.call);
                        drop(f);
                    }
                }
                // cancel
                4 if !fls.is_empty() => {
                    let f = fls.swap_remove(r.us(fls.len()));
                    ev!(c, "cancel {}", f.call);
                    drop(f);
                }
                // drop a clone
                5 if live.len() > 1 => {
                    let k = *r.pick(&live);
                    ev!(c, "drop client {} ready={}", k, cls[k].as_ref().unwrap().ready);
                    cls[k] = None;
                }
                6 if !live.is_empty() => {
                    let k = *r.pick(&live);
                    let cl = cls[k].as_mut().unwrap();
                    if !cl.ready {
                        let g = if r.pct(50) { Gate::Closed } else { Gate::Open };
                        w.gate(cl.inner, g);
                    } else if r.pct(40) {
                        // the inner service loses the readiness it had, and the clone asks again
                        w.revoke(cl.inner, if r.pct(15) { Gate::Err } else { Gate::Closed });
                        c.count("inner readiness lost", 1);
                        cl.ready = false;
                        cl.waiting = true;
                        poll(c, &w, n, &mut cls, &fls, k, &mut admitted_after_wait);
                    }
                }
                7 if gate_pct > 0 => {
                    // reopen everything
                    w.gate_all(Gate::Open);
                }
                8 => {
                    advance(r.range(1, 20)).await;
                }
                9 if gate_pct > 30 && live.len() > 1 => {
                    let k = *r.pick(&live);
                    let cl = cls[k].as_ref().unwrap();
                    if !cl.ready && !cl.errored {
                        w.gate(cl.inner, Gate::Err);
                    }
                }
                _ => {}
            }
            drain(c, &w, n, &mut cls, &fls, &mut saw_full_wait, &mut admitted_after_wait);
            bound(c, &w, n, &cls, &fls);
        }
        if saw_full_wait && admitted_after_wait {
            c.nontrivial();
        }
        // teardown: give everything back, then the whole limit is available again
        if !c.violated() {
            let base = cls.iter().flatten().find(|x| !x.errored).map(|x| x.svc.clone());
            fls.clear();
            cls.clear();
            w.gate_all(Gate::Open);
            if let Some(b) = base {
                let mut v: Vec<_> = (0..n + 1).map(|_| b.clone()).collect();
                drop(b);
                for (i, s) in v.iter_mut().enumerate() {
                    let tk = Tk::new();
                    let got = tk.poll(|cx| s.poll_ready(cx));
                    if i < n {
                        chk!(c, matches!(got, Poll::Ready(Ok(()))), "a slot was lost: after everything was released only {} of {} are available", i, n);
                    } else {
                        chk!(c, got.is_pending(), "{} clones ready at once under limit {}", i + 1, n);
                    }
                    if c.violated() {
                        break;
                    }
                }
                drop(v);
            }
            w.check_no_leak("concurrency limit");
        }
    });
}

pub fn as_fail<E: Into<BoxError>>(e: E) -> Option<Fail> {
    let b: BoxError = e.into();
    find_fail(&*b)
}

/// slots certainly in use: requests in flight and clones told they are ready
fn used_min(cls: &[Option<Cl>], fls: &[Fl]) -> usize {
    fls.len() + cls.iter().flatten().filter(|x| x.ready).count()
}

fn bound(c: &Case, w: &World, n: usize, cls: &[Option<Cl>], fls: &[Fl]) {
    let u = used_min(cls, fls);
    chk!(c, u <= n, "{} requests in flight or reserved by ready clones under a limit of {}", u, n);
    let m = w.lock().inflight;
    chk!(c, m as usize <= n, "{} inner requests in flight under a limit of {}", m, n);
}

fn poll(
    c: &Case,
    w: &World,
    n: usize,
    cls: &mut [Option<Cl>],
    fls: &[Fl],
    k: usize,
    admitted: &mut bool,
) {
    let u = used_min(cls, fls);
    // clones that may have been granted a slot without having been told so
    let others = cls
        .iter()
        .enumerate()
        .filter(|(i, x)| *i != k && x.as_ref().map_or(false, |x| !x.ready && (x.waiting || x.errored)))
        .count();
    let cl = cls[k].as_mut().unwrap();
    let gate = w.lock().insts[cl.inner].gate;
    let svc = &mut cl.svc;
    let got = cl.tk.poll(|cx| svc.poll_ready(cx));
    ev!(c, "client {} poll_ready -> {:?}", k, got);
    match got {
        Poll::Ready(Ok(())) => {
            if !cl.ready {
                chk!(c, u < n, "a clone became ready although all {} slots were taken", n);
                chk!(c, gate == Gate::Open, "ready although the inner service is not");
                if cl.waiting {
                    *admitted = true;
                    c.count("waiters admitted", 1);
                }
            }
            cl.ready = true;
            cl.waiting = false;
        }
        Poll::Ready(Err(_)) => {
            chk!(c, gate == Gate::Err || cl.errored, "readiness failed without the inner service failing");
            cl.errored = true;
            cl.waiting = false;
            cl.ready = false;
        }
        Poll::Pending => {
            chk!(c, !cl.ready, "a ready clone became not ready without being called");
            chk!(c, gate != Gate::Err || u + others >= n, "the inner service's readiness error was swallowed");
            cl.waiting = true;
            if gate == Gate::Open {
                chk!(c, u + others >= n, "not ready although {} of {} slots are free and only {} others wait", n - u, n, others);
            }
        }
    }
}

/// Poll woken waiters until nothing moves, then nobody may wait for a free slot.
fn drain(
    c: &Case,
    w: &World,
    n: usize,
    cls: &mut [Option<Cl>],
    fls: &[Fl],
    saw: &mut bool,
    admitted: &mut bool,
) {
    for _ in 0..50 {
        let woken: Vec<usize> = (0..cls.len())
            .filter(|&k| cls[k].as_ref().map_or(false, |x| x.waiting && x.tk.woken()))
            .collect();
        if woken.is_empty() {
            break;
        }
        let k = *c.rng.pick(&woken);
        poll(c, w, n, cls, fls, k, admitted);
    }
    let u = used_min(cls, fls);
    let mut reserved = 0;
    let mut wait_open = vec![];
    for (k, x) in cls.iter().enumerate() {
        if let Some(x) = x {
            if x.waiting {
                if w.lock().insts[x.inner].gate == Gate::Open {
                    wait_open.push(k);
                } else {
                    reserved += 1; // may hold a slot while its inner service is not ready
                }
            } else if x.errored {
                reserved += 1;
            }
        }
    }
    if !wait_open.is_empty() {
        *saw = true;
        c.count("waits at the limit", 1);
    }
    chk!(
        c,
        wait_open.is_empty() || u + reserved >= n,
        "client(s) {:?} wait without being woken although only {} of {} slots are taken",
        wait_open,
        u + reserved,
        n
    );
}

fn scheduled_tasks(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let n = *r.pick(&[1usize, 1, 2, 3, 5]);
        let mut plan = Plan::random(&r);
        if plan.resp == [1, 0, 0, 0] {
            plan.resp = [1, 0, 2, 1];
        }
        if r.pct(30) {
            plan.resp[3] = 1;
        }
        if r.pct(15) {
            plan.ready_err_pct = 5;
        }
        let may_err = plan.ready_err_pct > 0;
        let w = World::new(c, plan);
        let s = Sched::new(c);
        let base = if r.pct(50) {
            ConcurrencyLimit::new(w.svc(0), n)
        } else {
            GlobalConcurrencyLimitLayer::new(n).layer(w.svc(0))
        };
        let tasks = r.range(2, 9);
        let waited = Arc::new(AtomicU64::new(0));
        ev!(c, "limit {} tasks {}", n, tasks);
        for t in 0..tasks {
            let mut svc = base.clone();
            let (w, c, r) = (w.clone(), c.clone(), r.fork());
            let waited = waited.clone();
            s.spawn(format!("client {}", t), async move {
                for _ in 0..r.range(1, 6) {
                    if r.pct(40) {
                        sleep_ms(r.range(0, 15)).await;
                    }
                    if r.pct(20) {
                        svc = svc.clone();
                    }
                    // wait for readiness, sometimes giving up (and dropping the clone)
                    let give_up = r.pct(15).then(|| r.range(0, 12));
                    let mut first = true;
                    let rd = {
                        let p = std::future::poll_fn(|cx| {
                            let x = svc.poll_ready(cx);
                            if x.is_pending() && first {
                                first = false;
                                waited.fetch_add(1, SeqCst);
                            }
                            x
                        });
                        match give_up {
                            Some(ms) => tokio::select! { biased; x = p => Some(x), _ = sleep_ms(ms) => None },
                            None => Some(p.await),
                        }
                    };
                    match rd {
                        None => {
                            let fresh = svc.clone();
                            svc = fresh; // the waiting clone is dropped
                            continue;
                        }
                        Some(Err(_)) => return,
                        Some(Ok(())) => {}
                    }
                    if r.pct(10) {
                        // hold the readiness for a while and give it back unused
                        sleep_ms(r.range(0, 9)).await;
                        let fresh = svc.clone();
                        svc = fresh;
                        continue;
                    }
                    let req = w.req();
                    let id = req.id;
                    let fut = svc.call(req);
                    let limit = if r.pct(30) { r.range(0, 10) } else { 200 };
                    tokio::select! { biased;
                        x = fut => match x {
                            Ok(x) => { chk!(c, x.id == id, "request {} got response of {}", id, x.id); }
                            Err(e) => { let f = as_fail(e); chk!(c, f.as_ref().map(|f| f.id) == Some(id), "request {} got error {:?}", id, f); }
                        },
                        _ = sleep_ms(limit) => { c.count("cancelled calls", 1); }
                    }
                }
            });
        }
        drop(base);
        let stuck = s.run(Duration::from_secs(3600)).await;
        chk!(c, stuck.is_empty(), "tasks never woken although slots were given back: {:?}", stuck);
        let m = w.lock().max_inflight;
        chk!(c, m as usize <= n, "{} requests in flight under a limit of {}", m, n);
        s.clear();
        if m as usize == n && waited.load(SeqCst) > 0 && !may_err {
            c.nontrivial();
        }
        c.count("waits observed", waited.load(SeqCst));
        c.count("inner calls", w.ncalls() as u64);
        if !c.violated() {
            w.check_no_leak("concurrency limit");
        }
    });
}

/// `ConcurrencyLimitLayer` limits each service it builds on its own; the global one shares.
fn layers_independent(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let n = r.range(1, 4) as usize;
        let w = World::new(c, Plan::manual(Gate::Open));
        let shared = r.pct(50);
        let k = r.range(2, 4) as usize;
        let mut svcs: Vec<Vec<ConcurrencyLimit<Probe>>> = vec![];
        let l = ConcurrencyLimitLayer::new(n);
        let g = GlobalConcurrencyLimitLayer::new(n);
        for i in 0..k {
            let p = w.svc(i as u32);
            let s = match (shared, r.pct(50)) {
                (false, true) => l.layer(p),
                (false, false) => l.clone().layer(p),
                (true, true) => g.layer(p),
                (true, false) => g.clone().layer(p),
            };
            let mut v: Vec<_> = (0..n).map(|_| s.clone()).collect();
            v.push(s);
            svcs.push(v);
        }
        let mut order: Vec<(usize, usize)> =
            (0..k).flat_map(|i| (0..n + 1).map(move |j| (i, j))).collect();
        for i in (1..order.len()).rev() {
            order.swap(i, r.us(i + 1));
        }
        let mut used = vec![0usize; k];
        let mut futs = vec![];
        for (i, j) in order {
            let s = &mut svcs[i][j];
            let tk = Tk::new();
            let got = tk.poll(|cx| s.poll_ready(cx));
            let taken = if shared { used.iter().sum() } else { used[i] };
            ev!(c, "service {} clone {} -> {:?} (taken {})", i, j, got, taken);
            if taken < n {
                chk!(c, matches!(got, Poll::Ready(Ok(()))), "service {} not ready with {} of {} slots of its own limit taken", i, taken, n);
                used[i] += 1;
                if r.pct(60) {
                    futs.push(s.call(w.req()));
                }
            } else {
                chk!(c, got.is_pending(), "service {} ready with all {} slots taken (shared={})", i, n, shared);
            }
            if c.violated() {
                return;
            }
        }
        c.nontrivial();
        drop(futs);
        drop(svcs);
        w.check_no_leak("layers");
    });
}

/// A response's future that does something when it has gone.
struct Inside<T>(std::pin::Pin<Box<dyn std::future::Future<Output = T> + Send>>, Option<Box<dyn FnOnce() + Send>>);
impl<T> std::future::Future for Inside<T> {
    type Output = T;
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<T> {
        self.0.as_mut().poll(cx)
    }
}
impl<T> Drop for Inside<T> {
    fn drop(&mut self) {
        if let Some(f) = self.1.take() {
            f();
        }
    }
}

/// While a request's response is being dropped its slot is not free yet: what looks for one
/// from there finds one only if another was.
fn from_drops(c: &Case) {
    use std::sync::Mutex;
    type In = Inside<Result<u64, &'static str>>;
    #[derive(Clone)]
    struct Leaf(Arc<World>);
    struct World {
        c: Case,
        n: usize,
        /// gone only in part
        active: AtomicI64,
        r: Rng,
        found: AtomicU64,
        none: AtomicU64,
        base: Mutex<Option<ConcurrencyLimit<Leaf>>>,
        more: Mutex<Vec<ResponseFuture<In>>>,
    }
    impl Service<u64> for Leaf {
        type Response = u64;
        type Error = &'static str;
        type Future = In;
        fn poll_ready(&mut self, _: &mut std::task::Context<'_>) -> Poll<Result<(), &'static str>> {
            Poll::Ready(Ok(()))
        }
        fn call(&mut self, q: u64) -> In {
            let w = self.0.clone();
            let v = w.active.fetch_add(1, SeqCst) + 1;
            chk!(w.c, v <= w.n as i64, "request {} is in flight with {} others, one of them being dropped, under a limit of {}", q, v - 1, w.n);
            let work = async move {
                match q % 4 {
                    0 => Ok(q),
                    1 => Err("no"),
                    _ => std::future::pending().await,
                }
            };
            Inside(Box::pin(work), Some(Box::new(move || {
                look(&w, q);
                w.active.fetch_sub(1, SeqCst);
            })))
        }
    }
    fn look(w: &Arc<World>, q: u64) {
        let s = w.base.lock().unwrap().clone();
        let Some(mut s) = s else { return };
        let free = w.active.load(SeqCst) < w.n as i64;
        let mut tk = Tk::new();
        let p = tk.poll(|cx| s.poll_ready(cx));
        ev!(w.c, "from the drop of {}: {:?} ({} in flight)", q, p, w.active.load(SeqCst));
        match p {
            Poll::Ready(Ok(())) => {
                w.found.fetch_add(1, SeqCst);
                chk!(w.c, free, "a slot was found while {} requests are in flight, the one being dropped included, under a limit of {}", w.active.load(SeqCst), w.n);
                if w.r.pct(60) {
                    let f = s.call(w.r.below(1000));
                    w.more.lock().unwrap().push(f);
                }
            }
            Poll::Ready(Err(e)) => w.c.fail(format!("readiness failed: {}", e)),
            Poll::Pending => {
                w.none.fetch_add(1, SeqCst);
                chk!(w.c, !free, "no slot was found while {} requests are in flight under a limit of {}", w.active.load(SeqCst), w.n);
            }
        }
    }
    let r = c.rng.clone();
    let n = r.us(4) + 1;
    let w = Arc::new(World {
        c: c.clone(),
        n,
        active: AtomicI64::new(0),
        r: r.fork(),
        found: AtomicU64::new(0),
        none: AtomicU64::new(0),
        base: Mutex::new(None),
        more: Mutex::new(vec![]),
    });
    let svc = ConcurrencyLimit::new(Leaf(w.clone()), n);
    *w.base.lock().unwrap() = Some(svc.clone());
    let mut futs: Vec<ResponseFuture<In>> = vec![];
    let mut svc = svc;
    for _ in 0..r.range(10, 50) {
        futs.append(&mut w.more.lock().unwrap());
        if r.pct(65) {
            let mut tk = Tk::new();
            if let Poll::Ready(Ok(())) = tk.poll(|cx| svc.poll_ready(cx)) {
                let q = r.below(1000);
                ev!(c, "call {}", q);
                futs.push(svc.call(q));
            } else if r.pct(50) {
                // gives up its place in the queue
                svc = svc.clone();
            }
        } else if !futs.is_empty() {
            let mut f = futs.swap_remove(r.us(futs.len()));
            if r.pct(50) {
                let _ = Tk::new().poll(|cx| std::future::Future::poll(std::pin::Pin::new(&mut f), cx));
            }
            // nobody is in the queue before those that look
            svc = svc.clone();
            drop(f);
        }
        if c.violated() {
            break;
        }
    }
    let b = w.base.lock().unwrap().take();
    drop((svc, b));
    futs.append(&mut w.more.lock().unwrap());
    drop(futs);
    let (found, none) = (w.found.load(SeqCst), w.none.load(SeqCst));
    c.fp(found * 64 + none);
    if none > 0 && (found > 0 || n == 1) {
        c.nontrivial();
    }
}

/// Real threads: gauge never above the limit, everything finishes.
fn threads(c: &Case) {
    let r = c.rng.clone();
    let n = *r.pick(&[1usize, 2, 4, 7]);
    let tasks = 24;
    let per = if c.thorough { 3000 } else { 600 };
    let rt = tokio::runtime::Builder::new_multi_thread()
        .worker_threads(8)
        .enable_time()
        .build()
        .unwrap();
    let gauge = Arc::new(AtomicI64::new(0));
    let max = Arc::new(AtomicI64::new(0));
    let done = Arc::new(AtomicU64::new(0));
    let waits = Arc::new(AtomicU64::new(0));
    let g2 = gauge.clone();
    let m2 = max.clone();
    let inner = tower::service_fn(move |mode: u64| {
        let v = g2.fetch_add(1, SeqCst) + 1;
        m2.fetch_max(v, SeqCst);
        let work = async move {
            for _ in 0..mode % 4 {
                tokio::task::yield_now().await;
            }
            if mode % 11 == 10 {
                std::future::pending::<()>().await;
            }
            if mode % 5 == 4 {
                Err("no")
            } else {
                Ok(mode)
            }
        };
        // in flight until it is gone, which takes a moment
        let g = g2.clone();
        Inside(Box::pin(work), Some(Box::new(move || {
            for _ in 0..mode % 50 {
                std::hint::spin_loop();
            }
            g.fetch_sub(1, SeqCst);
        })))
    });
    let svc = ConcurrencyLimit::new(inner, n);
    let seeds: Vec<Rng> = (0..tasks).map(|_| r.fork()).collect();
    let ok = rt.block_on(async {
        let mut hs = vec![];
        for r in seeds {
            let mut svc = svc.clone();
            let (done, waits) = (done.clone(), waits.clone());
            hs.push(tokio::spawn(async move {
                for _ in 0..per {
                    let mut pended = false;
                    let _ = std::future::poll_fn(|cx| {
                        let x = svc.poll_ready(cx);
                        pended |= x.is_pending();
                        x
                    })
                    .await;
                    if pended {
                        waits.fetch_add(1, SeqCst);
                    }
                    if r.pct(5) {
                        svc = svc.clone();
                        continue;
                    }
                    let mode = r.below(1000);
                    let fut = svc.call(mode);
                    tokio::pin!(fut);
                    if mode % 11 == 10 || r.pct(10) {
                        let _ = futures::poll!(fut.as_mut());
                        tokio::task::yield_now().await;
                    } else {
                        let _ = fut.as_mut().await;
                    }
                    done.fetch_add(1, SeqCst);
                }
            }));
        }
        let all = futures::future::join_all(hs);
        tokio::time::timeout(Duration::from_secs(60), all).await.is_ok()
    });
    let m = max.load(SeqCst);
    ev!(c, "threads limit {} max {}", n, m);
    c.count("threaded calls", done.load(SeqCst));
    c.count("threaded waits", waits.load(SeqCst));
    chk!(c, m <= n as i64, "{} requests in flight under a limit of {} (real threads)", m, n);
    chk!(c, ok, "tasks did not finish within 60 s under real threads: {} calls done", done.load(SeqCst));
    if waits.load(SeqCst) > 0 && m == n as i64 {
        c.nontrivial();
    }
    c.fp(waits.load(SeqCst));
    rt.shutdown_background();
}
