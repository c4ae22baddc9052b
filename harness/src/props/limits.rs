//! P05 rate limit, P06 load shed, P07 timeout.
use super::concurrency::as_fail;
use crate::kit::*;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use tokio::time::Instant;
use tower::limit::rate::{Rate, RateLimit, RateLimitLayer};
use tower::load_shed::{error::Overloaded, LoadShed, LoadShedLayer};
use tower::timeout::{error::Elapsed, Timeout, TimeoutLayer};
use tower_layer::Layer;

const ASSUME: &[&str] = &["tokio's paused clock and timers behave as documented (1 ms granularity)"];

pub fn p05() -> Prop {
    Prop {
        id: "P05",
        rule: "seeded random sequences of readiness checks, calls and pauses under a paused clock against the window model; non-trivial: the quota was exhausted and a later window was used",
        assumptions: ASSUME,
        scenarios: vec![
            Scenario::new("manual_model", 8000, rate_manual),
            Scenario::new("scheduled", 2500, rate_scheduled),
            Scenario::new("construction", 100, rate_construction), Scenario::new("large", 25, super::large::rate),
        ],
    }
}
pub fn p06() -> Prop {
    Prop {
        id: "P06",
        rule: "seeded random sequences of inner readiness changes, readiness checks, calls (also repeated or on fresh clones), completions; non-trivial: at least one request was dispatched and one shed",
        assumptions: ASSUME,
        scenarios: vec![
            Scenario::new("manual_model", 8000, shed_manual),
            Scenario::new("scheduled", 1500, shed_scheduled),
        ],
    }
}
pub fn p07() -> Prop {
    Prop {
        id: "P07",
        rule: "seeded random timeouts, inner latencies around the deadline, poll times, errors and cancellations under a paused clock; non-trivial: at least one call timed out and one was answered",
        assumptions: ASSUME,
        scenarios: vec![
            Scenario::new("manual", 6000, timeout_manual),
            Scenario::new("scheduled", 4000, timeout_scheduled),
        ],
    }
}

#[derive(Clone, Copy, Debug)]
enum Win {
    Ready { until: Instant, rem: u64 },
    Limited { until: Instant },
}

/// Window model, straight from the statement.
struct RateModel {
    num: u64,
    per: Duration,
    st: Win,
}
impl RateModel {
    fn call(&mut self, now: Instant) -> Result<(), String> {
        match self.st {
            Win::Limited { until } => Err(format!(
                "a call was admitted with the quota of {} used up {:?} before the window ends",
                self.num,
                until.saturating_duration_since(now)
            )),
            Win::Ready { mut until, mut rem } => {
                if now >= until {
                    until = now + self.per;
                    rem = self.num;
                }
                rem -= 1;
                self.st = if rem == 0 {
                    Win::Limited { until }
                } else {
                    Win::Ready { until, rem }
                };
                Ok(())
            }
        }
    }
}

fn pick_rate(r: &Rng) -> (u64, Duration) {
    let num = *r.pick(&[1u64, 1, 2, 3, 5, 10]);
    let per = match r.below(12) {
        0 => Duration::from_micros(r.range(1, 3000)),
        1 => Duration::from_nanos(r.range(1, 1_000_000)),
        2 => *r.pick(&[Duration::from_secs(86_400 * 365), Duration::from_secs(86_400 * 365 * 20), Duration::MAX, Duration::from_secs(u64::MAX), Duration::from_secs(1 << 62)]),
        _ => Duration::from_millis(*r.pick(&[1, 5, 10, 50, 100, 1000])),
    };
    (num, per)
}

fn mk_rate(r: &Rng, p: Probe, num: u64, per: Duration) -> RateLimit<Probe> {
    match r.below(3) {
        0 => RateLimit::new(p, Rate::new(num, per)),
        1 => RateLimitLayer::new(num, per).layer(p),
        _ => tower::ServiceBuilder::new().rate_limit(num, per).service(p),
    }
}

fn rate_manual(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let (num, per) = pick_rate(&r);
        let w = World::new(c, Plan::manual(Gate::Open));
        let p = w.svc(0);
        let inner = p.id;
        let mut svc = mk_rate(&r, p, num, per);
        ev!(c, "rate {} per {:?}", num, per);
        // a window that will not end here
        let per = per.min(Duration::from_secs(86_400 * 365 * 30));
        let longest = if per > Duration::from_secs(86_400 * 365 * 2) { Duration::from_secs(86_400 * 30) } else { Duration::MAX };
        let t0 = Instant::now();
        let mut m = RateModel { num, per, st: Win::Ready { until: t0, rem: num } };
        let tk = Tk::new();
        let mut ready = false;
        let mut waiting = false;
        let mut errored = false;
        let mut exhausted = 0;
        let mut reopened = 0;
        let gates = r.pct(30);
        let mut futs = vec![];
        let mut stamps: Vec<Instant> = vec![];
        // when the exhausted service was seen to wait
        for _ in 0..r.range(20, 120) {
            if c.violated() || errored {
                break;
            }
            match r.weighted(&[30, 30, 30, if gates { 8 } else { 0 }, 4]) {
                0 => {
                    let now = Instant::now();
                    let gate = w.lock().insts[inner].gate;
                    let polls0 = w.lock().insts[inner].polls;
                    let got = tk.poll(|cx| svc.poll_ready(cx));
                    let asked = w.lock().insts[inner].polls > polls0;
                    ev!(c, "{:?} poll_ready -> {:?}", now - t0, got);
                    if let Win::Limited { until } = m.st {
                        if now < until {
                            if r.pct(10) {
                                // an impatient caller gets nothing through
                                let (before, q) = (w.ncalls(), w.req());
                                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(svc.call(q))));
                                let _ = crate::kit::run::take_panics();
                                chk!(c, w.ncalls() == before, "a request got through although the quota is used up");
                            }
                            chk!(c, got.is_pending(), "ready {:?} before the exhausted window ends", until - now);
                            waiting = true;
                            ready = false;
                            continue;
                        }
                        let sure = now >= until + Duration::from_millis(1) || whole_ms(until - t0);
                        if got.is_pending() && !sure && !asked {
                            waiting = true;
                            continue; // within timer granularity
                        }
                        // the window is over: it reopens now
                        m.st = Win::Ready { until: now + per, rem: num };
                        reopened += 1;
                    }
                    match (gate, &got) {
                        (_, Poll::Ready(Err(_))) => {
                            chk!(c, gate == Gate::Err, "readiness error without one from the inner service");
                            errored = true;
                        }
                        (Gate::Open, g) => {
                            chk!(c, matches!(g, Poll::Ready(Ok(()))), "not ready although quota is left and the inner service is ready ({:?})", m.st);
                            ready = true;
                            waiting = false;
                        }
                        (_, g) => {
                            let was = w.lock().insts[inner].ready;
                            chk!(c, g.is_pending() || was, "ready although the inner service is not");
                            chk!(c, gate != Gate::Err || was, "the inner service's readiness error was swallowed");
                            ready = matches!(g, Poll::Ready(Ok(())));
                            waiting = !ready;
                        }
                    }
                }
                1 if ready => {
                    let now = Instant::now();
                    let before = w.ncalls();
                    let req = w.req();
                    let id = req.id;
                    let f = svc.call(req);
                    ready = false;
                    ev!(c, "{:?} call", now - t0);
                    if let Err(e) = m.call(now) {
                        c.fail(e);
                    }
                    stamps.push(now);
                    if matches!(m.st, Win::Limited { .. }) {
                        exhausted += 1;
                    }
                    chk!(c, w.ncalls() == before + 1 && w.lock().calls[before].id == id, "the call was not passed on exactly once");
                    let mut f = Fut::new(f);
                    let ok = r.pct(70);
                    w.finish(before, ok);
                    match f.poll() {
                        Poll::Ready(Ok(x)) => { chk!(c, ok && x.id == id, "wrong response"); }
                        Poll::Ready(Err(e)) => { chk!(c, !ok && e.call == Some(before), "wrong error {:?}", e); }
                        Poll::Pending => { chk!(c, false, "response not passed through"); }
                    }
                    futs.push(f);
                }
                2 => {
                    // move to an interesting time: around the end of the window
                    let now = Instant::now();
                    let until = match m.st {
                        Win::Ready { until, .. } => until,
                        Win::Limited { until } => until,
                    };
                    let d = match r.below(6) {
                        0 | 1 => until.saturating_duration_since(now),
                        2 => until.saturating_duration_since(now) + Duration::from_millis(1),
                        3 => until.saturating_duration_since(now).saturating_sub(Duration::from_millis(1)),
                        4 => Duration::from_millis(r.range(1, 30)),
                        _ => (per / 3).min(Duration::from_secs(3600)),
                    };
                    let d = d.min(longest);
                    tokio::time::advance(d).await;
                    settle().await;
                    ev!(c, "advance {:?}", d);
                    if let Win::Limited { until } = m.st {
                        let now = Instant::now();
                        let sure = now >= until + Duration::from_millis(1);
                        if waiting && sure {
                            chk!(c, tk.woken(), "the waiting task was not woken when the window ended");
                        }
                    }
                }
                3 => {
                    let g = *r.pick(&[Gate::Open, Gate::Open, Gate::Closed, Gate::Closed, Gate::Err]);
                    let g = if g == Gate::Err && !r.pct(10) { Gate::Open } else { g };
                    let was = w.lock().insts[inner].gate;
                    if ready && g != Gate::Open && r.pct(50) {
                        w.revoke(inner, g);
                        ready = false; // to be asked again before the next call
                        continue;
                    }
                    w.gate(inner, g);
                    if waiting && was == Gate::Closed && g != Gate::Closed && matches!(m.st, Win::Ready { .. }) {
                        chk!(c, tk.woken(), "the waiting task was not woken when the inner service became ready");
                    }
                }
                _ => {
                    // an idle stretch
                    tokio::time::advance(per.min(Duration::from_secs(100_000)) * r.range(1, 3) as u32).await;
                    settle().await;
                }
            }
        }
        // independent of the model: never more than 2n calls start within one period
        for i in 0..stamps.len() {
            let n = stamps[i..].iter().take_while(|t| **t - stamps[i] < per).count();
            chk!(c, n as u64 <= 2 * num, "{} calls within one period of {:?} at rate {}", n, per, num);
        }
        c.count("calls", stamps.len() as u64);
        c.count("windows exhausted", exhausted);
        c.count("windows reopened", reopened);
        if exhausted > 0 && reopened > 0 {
            c.nontrivial();
        }
        drop((svc, futs));
        w.check_no_leak("rate limit");
    });
}

fn whole_ms(d: Duration) -> bool {
    d.subsec_nanos() % 1_000_000 == 0
}

fn rate_scheduled(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let num = r.range(1, 6);
        let per = Duration::from_millis(*r.pick(&[3, 10, 25, 100]));
        let w = World::new(c, Plan::random(&r));
        let mut svc = mk_rate(&r, w.svc(0), num, per);
        let total = r.range(num + 1, 5 * num + 3);
        let s = Sched::new(c);
        let t0 = Instant::now();
        ev!(c, "rate {} per {:?} calls {}", num, per, total);
        let m = Arc::new(Mutex::new(RateModel { num, per, st: Win::Ready { until: t0, rem: num } }));
        let reopened = Arc::new(AtomicU64::new(0));
        let pauses = *r.pick(&[0u64, 20, 60]);
        let (c2, w2, re2) = (c.clone(), w.clone(), reopened.clone());
        s.spawn("client", async move {
            let c = c2;
            for _ in 0..total {
                if r.pct(pauses) {
                    sleep_ms(r.range(0, per.as_millis() as u64 * 2)).await;
                }
                let asked = Instant::now();
                let limited = match m.lock().unwrap().st {
                    Win::Limited { until } => Some(until),
                    _ => None,
                };
                let mut inner_wait = false;
                let inst = 0;
                let rd = std::future::poll_fn(|cx| {
                    let p0 = w2.lock().insts[inst].pending_polls;
                    let x = svc.poll_ready(cx);
                    inner_wait |= w2.lock().insts[inst].pending_polls > p0;
                    if let (Some(u), true) = (limited, x.is_ready() || w2.lock().insts[inst].pending_polls > p0) {
                        let mut m = m.lock().unwrap();
                        if matches!(m.st, Win::Limited { .. }) {
                            let now = Instant::now();
                            chk!(c, now >= u, "let through before the exhausted window ended");
                            m.st = Win::Ready { until: now + per, rem: num };
                            re2.fetch_add(1, SeqCst);
                        }
                    }
                    x
                })
                .await;
                let now = Instant::now();
                chk!(c, rd.is_ok(), "unexpected readiness error");
                if !inner_wait {
                    let due = limited.map_or(asked, |u| u.max(asked));
                    chk!(c, now <= due + Duration::from_millis(1), "became ready {:?} late", now - due);
                }
                if r.pct(20) {
                    sleep_ms(r.range(0, 12)).await;
                }
                let now = Instant::now();
                let f = svc.call(w2.req());
                if let Err(e) = m.lock().unwrap().call(now) {
                    c.fail(e);
                }
                if r.pct(50) {
                    let _ = f.await;
                }
            }
        });
        let stuck = s.run(Duration::from_secs(36000)).await;
        chk!(c, stuck.is_empty(), "the client hangs: not woken at the end of the window");
        s.clear();
        c.count("calls", w.ncalls() as u64);
        c.count("windows reopened", reopened.load(SeqCst));
        if reopened.load(SeqCst) > 0 {
            c.nontrivial();
        }
        if !c.violated() {
            chk!(c, w.ncalls() as u64 == total, "{} of {} calls made", w.ncalls(), total);
            w.check_no_leak("rate limit");
        }
    });
}

fn shed_manual(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let w = World::new(c, Plan::manual(Gate::Open));
        struct S {
            svc: LoadShed<Probe>,
            inner: usize,
            armed: bool,
            err: bool,
            // the inner service lost its readiness since the last check
            stale: bool,
        }
        let p = w.svc(0);
        let inner = p.id;
        let svc = match r.below(3) {
            0 => LoadShed::new(p),
            1 => LoadShedLayer::new().layer(p),
            _ => tower::ServiceBuilder::new().load_shed().service(p),
        };
        let mut ss = vec![S { svc, inner, armed: false, err: false, stale: false }];
        let (mut sent, mut shed, mut lost) = (0u64, 0u64, 0u64);
        let mut open: Vec<(Fut<_>, usize, u64)> = vec![];
        for _ in 0..r.range(10, 70) {
            if c.violated() {
                break;
            }
            let k = r.us(ss.len());
            match r.weighted(&[25, 25, 20, 6, 12, 3]) {
                0 => {
                    let s = &mut ss[k];
                    if s.err {
                        continue;
                    }
                    let tk = Tk::new();
                    let got = tk.poll(|cx| s.svc.poll_ready(cx));
                    s.stale = false;
                    let (gate, iready) = {
                        let i = w.lock();
                        (i.insts[s.inner].gate, i.insts[s.inner].ready)
                    };
                    ev!(c, "{} poll_ready -> {:?} (inner {:?})", k, got.is_ready(), gate);
                    match got {
                        Poll::Pending => {
                            chk!(c, false, "load shed made its caller wait");
                        }
                        Poll::Ready(Err(e)) => {
                            let f = find_fail(&*e);
                            chk!(c, gate == Gate::Err && f.as_ref().map(|f| f.inst) == Some(s.inner), "readiness error {:?} not from the inner service", f);
                            s.err = true;
                        }
                        Poll::Ready(Ok(())) => {
                            chk!(c, gate != Gate::Err || iready, "the inner service's readiness error was swallowed");
                            s.armed = iready;
                        }
                    }
                }
                1 => {
                    // with or without a fresh readiness check
                    let s = &mut ss[k];
                    if s.err || s.stale {
                        continue;
                    }
                    let before = w.ncalls();
                    let req = w.req();
                    let id = req.id;
                    ev!(c, "{} call {} armed {}", k, id, s.armed);
                    let mut f = Fut::new(s.svc.call(req));
                    let made = w.ncalls() - before;
                    if s.armed {
                        chk!(c, made == 1, "request {} was not dispatched ({} inner calls) although the inner service was ready at the last check", id, made);
                        if made == 1 {
                            chk!(c, w.lock().calls[before].id == id && w.lock().calls[before].inst == s.inner, "wrong request or service");
                            sent += 1;
                            open.push((f, before, id));
                        }
                    } else {
                        chk!(c, made == 0, "request {} was dispatched although the inner service was not ready at the last check", id);
                        match f.poll() {
                            Poll::Ready(Err(e)) => {
                                chk!(c, has_err::<Overloaded>(&*e), "shed with the wrong error {}", e);
                            }
                            Poll::Ready(Ok(x)) => {
                                chk!(c, false, "shed request answered {:?}", x);
                            }
                            Poll::Pending => {
                                chk!(c, false, "a shed request waits");
                            }
                        }
                        shed += 1;
                    }
                    s.armed = false;
                }
                2 => {
                    let s = &mut ss[k];
                    let g = *r.pick(&[Gate::Open, Gate::Closed, Gate::Closed]);
                    let g = if r.pct(4) { Gate::Err } else { g };
                    if s.armed && r.pct(35) {
                        // an endpoint is lost: the next check must notice
                        s.stale = true;
                        lost += 1;
                        w.revoke(s.inner, if r.pct(25) { Gate::Err } else { Gate::Closed });
                    } else {
                        w.gate(s.inner, g);
                    }
                }
                3 if ss.len() < 5 => {
                    let svc = ss[k].svc.clone();
                    let inner = w.newest();
                    ss.push(S { svc, inner, armed: false, err: false, stale: false });
                }
                4 if !open.is_empty() => {
                    let i = r.us(open.len());
                    let early = open[i].0.poll();
                    chk!(c, early.is_pending(), "answered before the inner response");
                    let ok = r.pct(60);
                    let (mut f, call, id) = open.swap_remove(i);
                    w.finish(call, ok);
                    chk!(c, f.tk.woken(), "caller not woken by its response");
                    match f.poll() {
                        Poll::Ready(Ok(x)) => { chk!(c, ok && x.id == id, "wrong response {:?}", x); }
                        Poll::Ready(Err(e)) => { let e = find_fail(&*e); chk!(c, !ok && e.as_ref().map(|e| e.call) == Some(Some(call)), "wrong error {:?}", e); }
                        Poll::Pending => { chk!(c, false, "response not delivered"); }
                    }
                }
                5 if !open.is_empty() => {
                    open.swap_remove(r.us(open.len()));
                }
                _ => {}
            }
        }
        c.count("dispatched", sent);
        c.count("shed", shed);
        c.count("inner readiness lost between checks", lost);
        if sent > 0 && shed > 0 {
            c.nontrivial();
        }
        drop((ss, open));
        w.check_no_leak("load shed");
    });
}

/// Load shed over a really limited service: shed exactly when the limit is taken.
fn shed_scheduled(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let n = r.range(1, 3) as usize;
        let plan = Plan { resp: [0, 1, 4, 0], resp_delay: (1, 12), resp_err_pct: 20, ..Plan::default() };
        let w = World::new(c, plan);
        let base = tower::ServiceBuilder::new().load_shed().concurrency_limit(n).service(w.svc(0));
        let s = Sched::new(c);
        let (sent, shed) = (Arc::new(AtomicU64::new(0)), Arc::new(AtomicU64::new(0)));
        for t in 0..r.range(2, 7) {
            let (mut svc, w, c, r) = (base.clone(), w.clone(), c.clone(), r.fork());
            let (sent, shed) = (sent.clone(), shed.clone());
            s.spawn(format!("client {}", t), async move {
                for _ in 0..r.range(1, 7) {
                    sleep_ms(r.range(0, 10)).await;
                    let busy = w.lock().inflight as usize;
                    let tk = Tk::new();
                    let got = tk.poll(|cx| svc.poll_ready(cx));
                    if !matches!(got, Poll::Ready(Ok(()))) {
                        c.fail("load shed not ready");
                        return;
                    }
                    let before = w.ncalls();
                    let req = w.req();
                    let id = req.id;
                    let f = svc.call(req);
                    let went = w.ncalls() > before;
                    if busy >= n {
                        chk!(c, !went, "dispatched beyond the limit");
                    }
                    match f.await {
                        Ok(x) => {
                            sent.fetch_add(1, SeqCst);
                            chk!(c, went && x.id == id, "wrong response");
                        }
                        Err(e) => {
                            if went {
                                sent.fetch_add(1, SeqCst);
                                let f = find_fail(&*e);
                                chk!(c, f.as_ref().map(|f| f.id) == Some(id), "wrong error {}", e);
                            } else {
                                shed.fetch_add(1, SeqCst);
                                chk!(c, has_err::<Overloaded>(&*e), "wrong error {}", e);
                            }
                        }
                    }
                }
            });
        }
        drop(base);
        let stuck = s.run(Duration::from_secs(3600)).await;
        chk!(c, stuck.is_empty(), "tasks hang: {:?}", stuck);
        chk!(c, w.lock().max_inflight as usize <= n, "limit exceeded");
        s.clear();
        c.count("dispatched", sent.load(SeqCst));
        c.count("shed", shed.load(SeqCst));
        if sent.load(SeqCst) > 0 && shed.load(SeqCst) > 0 {
            c.nontrivial();
        }
        if !c.violated() {
            w.check_no_leak("load shed");
        }
    });
}

fn mk_timeout(r: &Rng, p: Probe, d: Duration) -> Timeout<Probe> {
    match r.below(3) {
        0 => Timeout::new(p, d),
        1 => TimeoutLayer::new(d).layer(p),
        _ => tower::ServiceBuilder::new().timeout(d).service(p),
    }
}

fn timeout_manual(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let w = World::new(c, Plan::manual(Gate::Open));
        let d = match r.below(10) {
            0 => Duration::ZERO,
            1 => Duration::MAX,
            2 => Duration::from_micros(r.range(1, 2000)),
            3 => Duration::from_secs(*r.pick(&[1, 7, 45, 100, 3600, 86_400 * 30, 86_400 * 365])) + Duration::from_millis(r.range(0, 999)),
            _ => Duration::from_millis(r.range(1, 60)),
        };
        const LONG: Duration = Duration::from_secs(86_400 * 365 * 3);
        let p = w.svc(0);
        let mut inner = vec![p.id];
        let mut svcs = vec![mk_timeout(&r, p, d)];
        ev!(c, "timeout {:?}", d);
        let t0 = Instant::now();
        struct Call {
            f: Fut<tower::timeout::future::ResponseFuture<RespFut>>,
            call: usize,
            id: u64,
            at: Instant,
            set: Option<(bool, Instant)>,
        }
        let slack = Duration::from_millis(1);
        let mut open: Vec<Call> = vec![];
        let (mut timed_out, mut answered) = (0u64, 0u64);
        let mut readyk = vec![false];
        for _ in 0..r.range(10, 70) {
            if c.violated() {
                break;
            }
            match r.weighted(&[16, 16, 22, 16, 25, 3, 3, 4]) {
                0 => {
                    let k = r.us(svcs.len());
                    let gate = w.lock().insts[inner[k]].gate;
                    let tk = Tk::new();
                    let got = tk.poll(|cx| svcs[k].poll_ready(cx));
                    let st = { let i = w.lock(); (i.insts[inner[k]].ready, i.insts[inner[k]].errored) };
                    match got {
                        Poll::Ready(Ok(())) => { chk!(c, st.0, "ready although the inner service is not"); readyk[k] = true; }
                        Poll::Pending => {
                            chk!(c, !st.0 && !st.1, "not ready although the inner service is");
                            w.gate(inner[k], Gate::Open);
                            chk!(c, tk.woken(), "caller not woken when the inner service became ready");
                        }
                        Poll::Ready(Err(e)) => {
                            let f = find_fail(&*e);
                            chk!(c, gate == Gate::Err && f.map(|f| f.inst) == Some(inner[k]), "readiness error {} not the inner one", e);
                            if svcs.len() > 1 {
                                svcs.remove(k);
                                inner.remove(k);
                                readyk.remove(k);
                            } else {
                                break;
                            }
                        }
                    }
                }
                1 => {
                    let rd: Vec<usize> = (0..svcs.len()).filter(|&k| readyk[k]).collect();
                    if rd.is_empty() {
                        continue;
                    }
                    let k = *r.pick(&rd);
                    readyk[k] = false;
                    let req = w.req();
                    let id = req.id;
                    let before = w.ncalls();
                    let f = Fut::new(svcs[k].call(req));
                    chk!(c, w.ncalls() == before + 1 && w.lock().calls[before].id == id, "call not passed on exactly once");
                    ev!(c, "call {} at {:?}", id, t0.elapsed());
                    open.push(Call { f, call: before, id, at: Instant::now(), set: None });
                    if r.pct(50) {
                        continue;
                    }
                    judge(c, &w, d, slack, open.last_mut().unwrap(), &mut timed_out, &mut answered);
                }
                2 if !open.is_empty() => {
                    let k = r.us(open.len());
                    judge(c, &w, d, slack, &mut open[k], &mut timed_out, &mut answered);
                }
                3 if !open.is_empty() => {
                    let k = r.us(open.len());
                    if open[k].set.is_none() {
                        let ok = r.pct(65);
                        w.finish(open[k].call, ok);
                        open[k].set = Some((ok, Instant::now()));
                        if open[k].f.polled {
                            chk!(c, open[k].f.tk.woken(), "caller not woken by the inner response");
                        }
                    }
                }
                4 => {
                    let now = Instant::now();
                    let x = if !open.is_empty() && d < LONG {
                        let k = r.us(open.len());
                        let left = (open[k].at + d).saturating_duration_since(now);
                        *r.pick(&[left, left + slack, left.saturating_sub(slack), left / 2, Duration::from_millis(3)])
                    } else {
                        Duration::from_millis(r.range(1, 200))
                    };
                    tokio::time::advance(x).await;
                    settle().await;
                    ev!(c, "advance {:?}", x);
                    let now = Instant::now();
                    for o in &open {
                        if o.f.polled && !o.f.done && d < LONG && now >= o.at + d + slack {
                            chk!(c, o.f.tk.woken(), "request {}: caller not woken at the deadline", o.id);
                        }
                    }
                }
                5 if svcs.len() < 4 => {
                    let k = r.us(svcs.len());
                    let s = svcs[k].clone();
                    inner.push(w.newest());
                    svcs.push(s);
                    readyk.push(false);
                }
                6 => {
                    let k = r.us(svcs.len());
                    w.gate(inner[k], *r.pick(&[Gate::Closed, Gate::Closed, Gate::Err]));
                }
                _ if !open.is_empty() => {
                    let o = open.swap_remove(r.us(open.len()));
                    let k = o.call;
                    drop(o);
                    chk!(c, w.lock().calls[k].fut_dropped, "inner response not dropped with the caller's future");
                }
                _ => {}
            }
            open.retain(|o| !o.f.done);
        }
        c.count("timed out", timed_out);
        c.count("answered", answered);
        if timed_out + answered > 0 && (timed_out > 0 && answered > 0 || d == Duration::MAX || d == Duration::ZERO) {
            c.nontrivial();
        }
        drop((svcs, open));
        w.check_no_leak("timeout");

        fn judge(
            c: &Case,
            w: &World,
            d: Duration,
            slack: Duration,
            o: &mut Call,
            timed_out: &mut u64,
            answered: &mut u64,
        ) {
            let now = Instant::now();
            let deadline = o.at.checked_add(d);
            let past = deadline.map_or(false, |x| now >= x);
            let surely_past = deadline.map_or(false, |x| now >= x + slack);
            let got = o.f.poll();
            ev!(c, "poll {} -> {}", o.id, match &got { Poll::Pending => "pending", Poll::Ready(Ok(_)) => "ok", Poll::Ready(Err(_)) => "err" });
            match (got, o.set) {
                (Poll::Pending, None) => {
                    chk!(c, !surely_past, "request {} still waits after its deadline", o.id);
                }
                (Poll::Pending, Some(_)) => {
                    chk!(c, false, "request {} still waits although the inner response is there", o.id);
                }
                (Poll::Ready(Ok(x)), set) => {
                    *answered += 1;
                    chk!(c, matches!(set, Some((true, _))) && x.id == o.id && x.call == o.call, "request {} got {:?}", o.id, x);
                }
                (Poll::Ready(Err(e)), set) => {
                    if has_err::<Elapsed>(&*e) {
                        *timed_out += 1;
                        chk!(c, past, "request {} timed out {:?} before its deadline", o.id, deadline.map(|x| x - now));
                        // the inner outcome was there when the deadline passed
                        let in_time = set.map_or(false, |(_, t)| deadline.map_or(true, |x| t <= x));
                        chk!(c, !in_time, "request {} timed out although its response was available in time", o.id);
                        let _ = w;
                    } else {
                        *answered += 1;
                        let f = find_fail(&*e);
                        chk!(c, matches!(set, Some((false, _))) && f.as_ref().map(|f| f.call) == Some(Some(o.call)), "request {} got error {} ({:?})", o.id, e, f);
                    }
                }
            }
        }
    });
}

fn timeout_scheduled(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let d = Duration::from_millis(*r.pick(&[0, 1, 5, 10, 20, 20]));
        let plan = Plan {
            resp: *r.pick(&[[1, 1, 6, 1], [0, 0, 1, 0]]),
            resp_delay: (1, 25),
            resp_err_pct: *r.pick(&[0, 30]),
            ready: *r.pick(&[[1, 0, 0], [2, 1, 1]]),
            ..Plan::default()
        };
        let w = World::new(c, plan);
        let base = mk_timeout(&r, w.svc(0), d);
        let s = Sched::new(c);
        let t0 = Instant::now();
        ev!(c, "timeout {:?}", d);
        let (timed_out, answered) = (Arc::new(AtomicU64::new(0)), Arc::new(AtomicU64::new(0)));
        for t in 0..r.range(1, 5) {
            let (mut svc, w, c, r) = (base.clone(), w.clone(), c.clone(), r.fork());
            let (timed_out, answered) = (timed_out.clone(), answered.clone());
            s.spawn(format!("client {}", t), async move {
                for _ in 0..r.range(1, 5) {
                    sleep_ms(r.range(0, 7)).await;
                    if std::future::poll_fn(|cx| svc.poll_ready(cx)).await.is_err() {
                        c.fail("readiness error");
                        return;
                    }
                    if r.pct(30) {
                        sleep_ms(r.range(1, 30)).await; // readiness may be old: the deadline counts from the call
                    }
                    let before = w.ncalls();
                    let req = w.req();
                    let id = req.id;
                    let at = Instant::now();
                    let f = svc.call(req);
                    let out = f.await;
                    let took = at.elapsed();
                    let done = w.lock().calls[before].done;
                    let inner_at = done.map(|x| x.1);
                    let rel = inner_at.map(|x| (t0 + x) - at);
                    match out {
                        Ok(x) => {
                            answered.fetch_add(1, SeqCst);
                            chk!(c, x.id == id && x.call == before, "request {} got {:?}", id, x);
                            chk!(c, took <= d, "request {} answered {:?} after a deadline of {:?}", id, took, d);
                            chk!(c, rel == Some(took), "response delivered {:?}, inner resolved {:?}", took, rel);
                        }
                        Err(e) if has_err::<Elapsed>(&*e) => {
                            timed_out.fetch_add(1, SeqCst);
                            chk!(c, done.is_none(), "request {} timed out although its inner response resolved at {:?}", id, rel);
                            chk!(c, took >= d && took <= d + Duration::from_millis(1), "request {} timed out after {:?}, timeout {:?}", id, took, d);
                            chk!(c, w.lock().calls[before].fut_dropped, "the inner response of timed-out request {} is still alive after its future is gone", id);
                        }
                        Err(e) => {
                            answered.fetch_add(1, SeqCst);
                            let f = as_fail(e);
                            chk!(c, f.as_ref().map(|f| f.call) == Some(Some(before)), "request {} got {:?}", id, f);
                            chk!(c, took <= d, "error delivered {:?} after a deadline of {:?}", took, d);
                        }
                    }
                }
            });
        }
        drop(base);
        let stuck = s.run(Duration::from_secs(3600)).await;
        chk!(c, stuck.is_empty(), "not woken at the deadline: {:?}", stuck);
        s.clear();
        c.count("timed out", timed_out.load(SeqCst));
        c.count("answered", answered.load(SeqCst));
        if timed_out.load(SeqCst) > 0 && answered.load(SeqCst) > 0 {
            c.nontrivial();
        }
        if !c.violated() {
            w.check_no_leak("timeout");
        }
    });
}

/// A rate must be of at least one call and of some time; anything else is refused.
fn rate_construction(c: &Case) {
    let r = c.rng.clone();
    let num = *r.pick(&[0u64, 0, 1, 2, 1000, u64::MAX]);
    let per = *r.pick(&[Duration::ZERO, Duration::ZERO, Duration::from_nanos(1), Duration::from_nanos(r.range(1, 1000)), Duration::from_millis(r.range(1, 9999)), Duration::from_secs(1)]);
    let way = r.below(3);
    let got = std::panic::catch_unwind(|| {
        match way {
            0 => drop(Rate::new(num, per)),
            1 => drop(RateLimitLayer::new(num, per)),
            _ => drop(tower::ServiceBuilder::new().rate_limit(num, per)),
        }
    });
    let _ = crate::kit::run::take_panics();
    let valid = num > 0 && !per.is_zero();
    chk!(c, got.is_ok() == valid, "a rate of {} per {:?} is {}", num, per, if got.is_ok() { "accepted" } else { "refused" });
    ev!(c, "{} per {:?} {:?}", num, per, got.is_ok());
    c.nontrivial();
}
