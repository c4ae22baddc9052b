//! P20 call-all, P21 spawn-ready.
use crate::kit::run::take_panics;
use crate::kit::*;
use futures::Stream;
use std::collections::VecDeque;
use std::pin::Pin;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Mutex;
use std::task::{Context, Waker};
use tower::spawn_ready::{SpawnReady, SpawnReadyLayer};
use tower::util::{CallAll, CallAllUnordered};
use tower::ServiceExt;
use tower_layer::Layer;

pub fn p20() -> Prop {
    Prop {
        id: "P20",
        rule: "seeded random arrival of items, readiness, completion order, failures and early end over both variants, polled only when woken (and sometimes spuriously); non-trivial: two or more responses were in flight together and completed out of order, or readiness failed with responses in flight",
        assumptions: &[],
        scenarios: vec![
            Scenario::new("model", 8000, call_all),
            Scenario::new("traffic", 1500, call_all_traffic), Scenario::new("switch", 1000, call_all_switch), Scenario::new("large", 25, super::large::call_all),
        ],
    }
}
pub fn p21() -> Prop {
    Prop {
        id: "P21",
        rule: "seeded random readiness, failures, panics, calls, changed and lost callers over a spawn-ready service on a real runtime; non-trivial: readiness was reached in the background while nobody polled",
        assumptions: &["the runtime's count of live tasks"],
        scenarios: vec![
            Scenario::new("model", 5000, spawn_ready),
            Scenario::new("shutdown", 1200, spawn_ready_shutdown),
            Scenario::threaded("threads", 8, spawn_ready_threads),
        ],
    }
}

// ---------------------------------------------------------------- P20

#[derive(Default)]
struct SrcState {
    q: VecDeque<Req>,
    end: bool,
    ended: bool,
    taken: Vec<u64>,
    waker: Option<Waker>,
    /// how much the stream says about what is still to come
    hints: u64,
}
/// A stream of requests scripted by the harness; it monitors its consumer.
struct Src {
    c: Case,
    st: Arc<Mutex<SrcState>>,
}
impl Stream for Src {
    type Item = Req;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Req>> {
        let mut s = self.st.lock().unwrap();
        if s.ended {
            drop(s);
            self.c.fail("the request stream was polled again after it ended");
            return Poll::Ready(None);
        }
        if let Some(q) = s.q.pop_front() {
            s.taken.push(q.id);
            return Poll::Ready(Some(q));
        }
        if s.end {
            s.ended = true;
            return Poll::Ready(None);
        }
        s.waker = Some(cx.waker().clone());
        Poll::Pending
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let s = self.st.lock().unwrap();
        let n = s.q.len();
        match (s.hints, s.end) {
            (0, _) => (0, None),
            (1, true) => (n, Some(n)),
            (2, true) => (0, Some(n + 3)),
            _ => (n, None),
        }
    }
}

enum Any {
    Ordered(Pin<Box<CallAll<Probe, Src>>>),
    Unordered(Pin<Box<CallAllUnordered<Probe, Src>>>),
}
impl Any {
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Option<Result<Resp, Fail>>> {
        match self {
            Any::Ordered(s) => s.as_mut().poll_next(cx),
            Any::Unordered(s) => s.as_mut().poll_next(cx),
        }
    }
}

/// A stream that was perhaps polled already is made unordered: either that is refused, or not a
/// single item or response is lost.
fn call_all_switch(c: &Case) {
    let r = c.rng.clone();
    let w = World::new(c, Plan::manual(*r.pick(&[Gate::Open, Gate::Closed])));
    let st = Arc::new(Mutex::new(SrcState::default()));
    let mut a = w.svc(0).call_all(Src { c: c.clone(), st: st.clone() });
    let tk = Tk::new();
    let mut total = 0;
    let mut got = vec![];
    let (mut polled, mut left) = (false, r.range(0, 8));
    while left > 0 {
        left -= 1;
        match r.below(5) {
            0 | 1 => {
                let q = w.req();
                total += 1;
                ev!(c, "item {}", q.id);
                st.lock().unwrap().q.push_back(q);
            }
            2 => w.gate_all(if r.pct(60) { Gate::Open } else { Gate::Closed }),
            3 => {
                if let Some(k) = w.unset_calls().first() {
                    w.finish(*k, true);
                }
            }
            _ => {
                polled = true;
                let x = tk.poll(|cx| Pin::new(&mut a).poll_next(cx));
                ev!(c, "poll {:?}", x);
                if let Poll::Ready(Some(Ok(x))) = x {
                    got.push(x.id);
                }
            }
        }
    }
    let b = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || a.unordered()));
    let p = take_panics();
    let mut b = match b {
        Err(_) => {
            ev!(c, "refused");
            chk!(c, polled, "unordered() panicked on a stream not polled yet: {:?}", p);
            c.count("switches refused", 1);
            c.nontrivial();
            return;
        }
        Ok(b) => b,
    };
    ev!(c, "now unordered");
    w.gate_all(Gate::Open);
    st.lock().unwrap().end = true;
    let mut over = false;
    for _ in 0..200 {
        match tk.poll(|cx| Pin::new(&mut b).poll_next(cx)) {
            Poll::Ready(Some(Ok(x))) => got.push(x.id),
            Poll::Ready(Some(Err(_))) => {}
            Poll::Ready(None) => {
                over = true;
                break;
            }
            Poll::Pending => {
                let u = w.unset_calls();
                if u.is_empty() {
                    break;
                }
                w.finish(u[r.us(u.len())], true);
            }
        }
    }
    chk!(c, over, "the stream made unordered does not end");
    let all = got.len();
    got.sort_unstable();
    got.dedup();
    chk!(c, got.len() == total && all == total, "{} items, {} answers to {} of them once the stream was made unordered", total, all, got.len());
    if polled && total > 0 {
        c.nontrivial();
    }
}

struct Ca {
    c: Case,
    w: World,
    st: Arc<Mutex<SrcState>>,
    s: Any,
    ordered: bool,
    tk: Tk,
    /// polled to quiescence, nothing happened since
    idle: bool,
    over: bool,
    failed: bool,
    yielded: Vec<bool>,
    nyield: usize,
    reordered: bool,
    inst: usize,
}
impl Ca {
    fn drive(&mut self) {
        for _ in 0..2000 {
            if self.c.violated() {
                return;
            }
            let c = self.c.clone();
            let before = self.w.ncalls();
            let s = &mut self.s;
            let got = self.tk.poll(|cx| s.poll(cx));
            let n = self.w.ncalls();
            if self.failed {
                chk!(c, n == before, "the service was called after its readiness failed");
            }
            // calls follow the stream
            {
                let i = self.w.lock();
                let t = self.st.lock().unwrap();
                let calls: Vec<(u64, u64)> = i.calls.iter().map(|x| (x.id, x.tag)).collect();
                let want: Vec<(u64, u64)> = t.taken.iter().take(calls.len()).map(|x| (*x, 0)).collect();
                drop(i);
                chk!(c, calls == want, "calls {:?} do not follow the items {:?}", calls, t.taken);
                chk!(c, t.taken.len() <= n + 1, "{} items taken with {} calls made", t.taken.len(), n);
            }
            self.yielded.resize(n, false);
            match got {
                Poll::Ready(Some(Ok(x))) => {
                    ev!(c, "yields {:?}", x);
                    self.take(x.call, true);
                }
                Poll::Ready(Some(Err(e))) => {
                    ev!(c, "yields {:?}", e);
                    match e.call {
                        Some(k) => self.take(k, false),
                        None => {
                            chk!(c, !self.failed, "the readiness failure was yielded twice");
                            chk!(c, self.w.lock().insts[self.inst].errored, "a readiness failure out of nowhere");
                            self.failed = true;
                            if self.yielded.iter().any(|y| !*y) {
                                c.nontrivial();
                                c.count("readiness failures with responses in flight", 1);
                            }
                        }
                    }
                }
                Poll::Ready(None) => {
                    let t = self.st.lock().unwrap();
                    chk!(c, t.ended || self.failed, "ended before the stream");
                    drop(t);
                    let open: Vec<usize> = (0..n).filter(|k| !self.yielded[*k]).collect();
                    chk!(c, open.is_empty(), "ended without yielding the responses of calls {:?}", open);
                    self.over = true;
                    return;
                }
                Poll::Pending => {
                    if self.tk.woken() {
                        continue;
                    }
                    self.idle = true;
                    self.quiet();
                    return;
                }
            }
        }
        self.c.fail("never comes to rest");
    }
    fn take(&mut self, k: usize, ok: bool) {
        let c = self.c.clone();
        let done = self.w.lock().calls.get(k).and_then(|x| x.done);
        chk!(c, done.map(|d| d.0) == Some(ok), "the outcome of call {} was {:?} and is yielded as ok={}", k, done, ok);
        if !chk!(c, self.yielded.get(k) == Some(&false), "the response of call {} is yielded again", k) {
            return;
        }
        let first = self.yielded.iter().position(|y| !*y).unwrap();
        if self.ordered {
            chk!(c, k == first, "the response of call {} is yielded before that of {}", k, first);
        } else if k != first {
            self.reordered = true;
        }
        self.yielded[k] = true;
        self.nyield += 1;
    }
    /// pending and not woken: there must be nothing to do
    fn quiet(&self) {
        let c = &self.c;
        let i = self.w.lock();
        let t = self.st.lock().unwrap();
        let n = i.calls.len();
        let set: Vec<usize> = (0..n).filter(|k| !self.yielded[*k] && i.calls[*k].set.is_some()).collect();
        let first = self.yielded.iter().position(|y| !*y);
        let held = t.taken.len() - n;
        let inst = &i.insts[self.inst];
        let (blocked, ended, avail) = (!inst.ready && inst.gate == Gate::Closed, t.ended, t.q.len());
        let can_end = t.end && !t.ended;
        drop((i, t));
        if self.ordered {
            chk!(c, first.map_or(true, |f| !set.contains(&f)), "the next response is ready and not yielded");
        } else {
            chk!(c, set.is_empty(), "responses {:?} are ready and not yielded", set);
        }
        if !self.failed && !ended {
            if held == 1 {
                chk!(c, blocked, "an item waits although the service is ready or failing");
            } else {
                chk!(c, avail == 0 && !can_end, "the stream has {} items (end {}) and is not read", avail, can_end);
            }
        }
        if self.failed || (ended && held == 0) {
            chk!(c, first.is_some(), "everything was yielded and it does not end");
        }
        if ended && held == 1 {
            chk!(c, blocked || self.failed, "the last item waits although the service is ready");
        }
    }
}

fn mk_call_all(c: &Case, w: &World, p: Probe) -> (Any, bool, Arc<Mutex<SrcState>>) {
    let r = &c.rng;
    let st: Arc<Mutex<SrcState>> = Default::default();
    st.lock().unwrap().hints = r.below(4);
    let src = Src { c: c.clone(), st: st.clone() };
    let _ = w;
    let (s, ordered) = match r.below(4) {
        0 => (Any::Ordered(Box::pin(CallAll::new(p, src))), true),
        1 => (Any::Ordered(Box::pin(p.call_all(src))), true),
        2 => (Any::Unordered(Box::pin(p.call_all(src).unordered())), false),
        _ => (Any::Unordered(Box::pin(CallAllUnordered::new(p, src))), false),
    };
    (s, ordered, st)
}

fn call_all(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let w = World::new(c, Plan::manual(*r.pick(&[Gate::Open, Gate::Closed])));
        let p = w.svc(0);
        let inst = p.id;
        let (s, ordered, st) = mk_call_all(c, &w, p);
        ev!(c, "ordered {}", ordered);
        let mut m = Ca {
            c: c.clone(),
            w: w.clone(),
            st: st.clone(),
            s,
            ordered,
            tk: Tk::new(),
            idle: false,
            over: false,
            failed: false,
            yielded: vec![],
            nyield: 0,
            reordered: false,
            inst,
        };
        let may_fail = r.pct(30);
        let burst = r.pct(3);
        let (mut max_open, mut out_of_order) = (0usize, false);
        let steps = r.range(15, 120);
        for step in 0..steps {
            if c.violated() || m.over {
                break;
            }
            let held = st.lock().unwrap().taken.len() - w.ncalls();
            // must the next change wake the task?
            let mut must_wake = false;
            match r.weighted(&[30, 2, 20, 30, 18]) {
                0 => {
                    let crowd = burst && w.ncalls() < 400 && r.pct(30);
                    for _ in 0..if crowd { r.range(20, 200) } else { r.range(1, 3) } {
                        let mut s = st.lock().unwrap();
                        if s.end {
                            break;
                        }
                        s.q.push_back(w.req());
                        must_wake = held == 0 && !m.failed;
                        let wk = s.waker.take();
                        drop(s);
                        if let Some(wk) = wk {
                            wk.wake();
                        }
                    }
                }
                1 => {
                    if step * 2 > steps {
                        let mut s = st.lock().unwrap();
                        if !s.end {
                            s.end = true;
                            must_wake = held == 0 && !m.failed;
                            ev!(c, "the stream ends");
                            let wk = s.waker.take();
                            drop(s);
                            if let Some(wk) = wk {
                                wk.wake();
                            }
                        }
                    }
                }
                2 => {
                    let ready = w.lock().insts[inst].ready;
                    if !ready && !m.failed {
                        let g = if may_fail && r.pct(5) { Gate::Err } else { *r.pick(&[Gate::Open, Gate::Open, Gate::Closed]) };
                        w.gate(inst, g);
                        must_wake = held == 1 && g != Gate::Closed;
                    }
                }
                3 => {
                    let u = w.unset_calls();
                    max_open = max_open.max(u.len());
                    if !u.is_empty() {
                        let i = r.us(u.len());
                        if i > 0 {
                            out_of_order = true;
                        }
                        must_wake = !ordered || i == 0 && m.yielded.iter().position(|y| !*y) == Some(u[0]);
                        w.finish(u[i], r.pct(70));
                        if burst && r.pct(50) {
                            let n = r.range(1, 80);
                            for k in w.unset_calls() {
                                if r.below(80) < n {
                                    w.finish(k, r.pct(70));
                                }
                            }
                        }
                    }
                }
                _ => {
                    m.drive();
                    continue;
                }
            }
            if m.idle && must_wake {
                chk!(c, m.tk.woken(), "there is something to do and the task was not woken");
            }
            if m.tk.woken() {
                m.idle = false;
                if r.pct(60) {
                    m.drive();
                }
            }
        }
        // let it finish, most of the time
        if r.pct(80) && !c.violated() {
            {
                let mut s = st.lock().unwrap();
                s.end = true;
                let wk = s.waker.take();
                drop(s);
                if let Some(wk) = wk {
                    wk.wake();
                }
            }
            if !m.failed {
                w.gate(inst, Gate::Open);
            }
            m.drive();
            for _ in 0..3000 {
                if c.violated() || m.over {
                    break;
                }
                let u = w.unset_calls();
                if u.is_empty() {
                    break;
                }
                let i = r.us(u.len());
                out_of_order |= i > 0;
                max_open = max_open.max(u.len());
                w.finish(u[i], r.pct(80));
                if m.tk.woken() {
                    m.drive();
                } else {
                    chk!(c, ordered, "a response came and the task was not woken");
                }
            }
            if chk!(c, m.over || c.violated(), "did not end although everything was answered") {
                if r.pct(50) && !c.violated() {
                    let s = &mut m.s;
                    let got = m.tk.poll(|cx| s.poll(cx));
                    chk!(c, matches!(got, Poll::Ready(None)), "yields {:?} after the end", got);
                }
            }
            if !c.violated() {
                let t = st.lock().unwrap();
                let n = w.ncalls();
                if !m.failed {
                    chk!(c, t.taken.len() == n && t.q.is_empty(), "ended with {} of {} items called", n, t.taken.len() + t.q.len());
                }
                c.count("responses", m.nyield as u64);
            }
        }
        if max_open >= 2 && out_of_order {
            c.nontrivial();
        }
        c.count(if ordered { "ordered runs" } else { "unordered runs" }, 1);
        c.count("yields out of request order", m.reordered as u64);
        if !c.violated() && r.pct(60) {
            let p = match m.s {
                Any::Ordered(mut s) => {
                    if r.pct(50) {
                        s.as_mut().take_service()
                    } else {
                        // Src is Unpin, so the box can be opened
                        Pin::into_inner(s).into_inner()
                    }
                }
                Any::Unordered(mut s) => {
                    if r.pct(50) {
                        s.as_mut().take_service()
                    } else {
                        Pin::into_inner(s).into_inner()
                    }
                }
            };
            chk!(c, p.id == inst && !w.lock().insts[inst].dropped, "another service came back");
            drop(p);
        } else {
            drop(m.s);
        }
        st.lock().unwrap().q.clear();
        w.check_no_leak("call all");
    });
}

/// With automatic services under a scheduler: no hang, each response once.
fn call_all_traffic(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let mut plan = Plan::random(&r);
        plan.ready_err_pct = *r.pick(&[0, 0, 3]);
        let w = World::new(c, plan);
        let p = w.svc(0);
        let (mut s, ordered, st) = mk_call_all(c, &w, p);
        let sc = Sched::new(c);
        let n = r.range(1, 60);
        let (st2, w2, r2) = (st.clone(), w.clone(), r.fork());
        sc.spawn("source", async move {
            for _ in 0..n {
                if r2.pct(30) {
                    sleep_ms(r2.below(20)).await;
                }
                let wk = {
                    let mut s = st2.lock().unwrap();
                    s.q.push_back(w2.req());
                    s.waker.take()
                };
                if let Some(wk) = wk {
                    wk.wake();
                }
            }
            let wk = {
                let mut s = st2.lock().unwrap();
                s.end = true;
                s.waker.take()
            };
            if let Some(wk) = wk {
                wk.wake();
            }
        });
        let (c2, w2) = (c.clone(), w.clone());
        sc.spawn("consumer", async move {
            let (c, w) = (c2, w2);
            let mut seen = vec![];
            let mut failed = false;
            loop {
                match std::future::poll_fn(|cx| s.poll(cx)).await {
                    None => break,
                    Some(Ok(x)) => seen.push(x.call),
                    Some(Err(Fail { call: Some(k), .. })) => seen.push(k),
                    Some(Err(_)) => {
                        chk!(c, !failed, "readiness failed twice");
                        failed = true;
                    }
                }
            }
            let calls = w.ncalls();
            chk!(c, failed || calls as u64 == n, "{} of {} items were called", calls, n);
            if ordered {
                chk!(c, seen == (0..calls).collect::<Vec<_>>(), "responses out of order: {:?}", seen);
            } else {
                let order = {
                    let i = w.lock();
                    let mut v: Vec<usize> = (0..calls).collect();
                    v.sort_by_key(|k| i.calls[*k].done.map(|d| d.1));
                    v
                };
                // as they complete: yields follow the completion times
                let times: Vec<_> = {
                    let i = w.lock();
                    seen.iter().map(|k| i.calls[*k].done.map(|d| d.1)).collect()
                };
                chk!(c, times.windows(2).all(|x| x[0] <= x[1]), "yielded {:?}, completed {:?}", seen, order);
                let mut s = seen.clone();
                s.sort_unstable();
                chk!(c, s == (0..calls).collect::<Vec<_>>(), "responses lost or repeated: {:?}", seen);
                if seen.windows(2).any(|x| x[0] > x[1]) {
                    c.nontrivial();
                }
            }
            if w.lock().max_inflight >= 2 {
                c.nontrivial();
            }
        });
        let stuck = sc.run(Duration::from_secs(3600)).await;
        chk!(c, stuck.is_empty(), "hangs: {:?}", stuck);
        sc.clear();
        st.lock().unwrap().q.clear();
        w.check_no_leak("call all");
    });
}

// ---------------------------------------------------------------- P21

fn alive() -> usize {
    tokio::runtime::Handle::current().metrics().num_alive_tasks()
}

fn spawn_ready(c: &Case) {
    sim(async {
        let r = c.rng.clone();
        let w = World::new(c, Plan::manual(*r.pick(&[Gate::Open, Gate::Closed])));
        let p = w.svc(0);
        let inst = p.id;
        let mut svc = match r.below(3) {
            0 => SpawnReady::new(p),
            1 => SpawnReadyLayer::new().layer(p),
            _ => SpawnReady::<Probe>::layer().layer(p),
        };
        let d = tracing::Dispatch::new(tracing_subscriber::registry());
        let _sub = r.pct(60).then(|| tracing::dispatcher::set_default(&d));
        let mut tk = Tk::new();
        // a background task is (or was) driving readiness and its result was not taken yet
        let mut bg = false;
        let mut bg_span: Option<u64> = None;
        let mut told = false;
        let mut open = vec![];
        let mut keep = vec![];
        let (mut unpolled, mut fails, mut panics) = (0u64, 0u64, 0u64);
        let base = alive();
        let mut injected = false;
        let may_fail = r.pct(40);
        let mut dead = false;
        for _ in 0..r.range(8, 70) {
            if c.violated() || dead {
                break;
            }
            match r.weighted(&[30, 25, 20, 14, 10]) {
                0 => {
                    // a readiness check by the caller, sometimes by another task of it
                    if r.pct(15) {
                        tk = Tk::new();
                    }
                    let span = if _sub.is_some() { Some(tracing::info_span!("check")) } else { None };
                    let sid = span.as_ref().and_then(|s| s.id()).map(|i| i.into_u64());
                    let polls = w.lock().insts[inst].polls;
                    let (gate, ready, errored) = {
                        let i = w.lock();
                        let x = &i.insts[inst];
                        (x.gate, x.ready, x.errored)
                    };
                    let direct_panic = !bg && w.lock().insts[inst].panic == 1;
                    if direct_panic {
                        w.lock().insts[inst].panic = 0;
                        injected = false;
                    }
                    let got = {
                        let _g = span.as_ref().map(|s| s.enter());
                        tk.poll(|cx| svc.poll_ready(cx))
                    };
                    if let Some(s) = span {
                        keep.push(s);
                    }
                    ev!(c, "poll_ready {:?} (background {} gate {:?} ready {})", got, bg, gate, ready);
                    match &got {
                        Poll::Ready(Ok(())) => {
                            chk!(c, w.lock().insts[inst].ready, "ready although the wrapped service is not");
                            bg = false;
                            told = true;
                        }
                        Poll::Pending => {
                            chk!(c, !told, "a ready service became not ready without being called");
                            if bg {
                                // waits for the background task
                                let i = w.lock();
                                chk!(c, i.insts[inst].polls == polls, "polled here and in the background");
                            } else {
                                chk!(c, gate == Gate::Closed && !ready, "not ready although the wrapped service is {:?}", gate);
                                bg = true;
                                bg_span = sid;
                                chk!(c, alive() == base + 1, "{} background tasks", alive() - base);
                                if alive() == base + 1 && r.pct(60) {
                                    settle().await;
                                    chk!(c, w.lock().insts[inst].polls > polls + 1, "the background task does not poll the service");
                                    if _sub.is_some() {
                                        let s = w.lock().insts[inst].poll_span;
                                        chk!(c, s == bg_span, "polled under span {:?} instead of {:?}", s, bg_span);
                                    }
                                }
                            }
                        }
                        Poll::Ready(Err(e)) => {
                            let f = find_fail(&**e);
                            if injected && bg {
                                panics += 1;
                                chk!(c, f.is_none(), "the task's failure is reported as {:?}", f);
                                let j = e.downcast_ref::<tokio::task::JoinError>();
                                chk!(c, j.map_or(true, |j| j.is_panic()), "the task's panic is reported as {}", e);
                            } else {
                                fails += 1;
                                chk!(c, (errored || gate == Gate::Err) && f.map(|f| f.inst) == Some(inst), "failed with {}", e);
                            }
                            dead = true;
                        }
                    }
                }
                1 => {
                    // the wrapped service changes while nobody polls
                    let x = w.lock().insts[inst].ready;
                    if x || (bg && alive() == base) {
                        continue;
                    }
                    if bg && may_fail && alive() > base && r.pct(4) {
                        w.lock().insts[inst].panic = 1;
                        injected = true;
                    }
                    let g = if may_fail && r.pct(10) { Gate::Err } else { *r.pick(&[Gate::Open, Gate::Open, Gate::Closed]) };
                    if bg {
                        // the task must have had its first poll to be woken
                        settle().await;
                    }
                    let was = w.lock().insts[inst].clone_state();
                    w.gate(inst, g);
                    if bg && g != Gate::Closed {
                        settle().await;
                        let i = w.lock().insts[inst].clone_state();
                        if injected {
                            chk!(c, tk.woken(), "the background task died and the caller was not woken");
                        } else {
                            chk!(c, i.0 || i.1, "the background task did not drive the service to readiness: {:?} -> {:?}", was, i);
                            chk!(c, tk.woken(), "the service became ready in the background and the caller was not woken");
                            unpolled += 1;
                            if _sub.is_some() {
                                let s = w.lock().insts[inst].poll_span;
                                chk!(c, s == bg_span, "polled under span {:?} instead of {:?}", s, bg_span);
                            }
                        }
                        chk!(c, alive() == base, "the background task lives on after its work");
                    }
                }
                2 => {
                    if !told {
                        continue;
                    }
                    let k = w.ncalls();
                    let q = w.req();
                    let id = q.id;
                    let f = Fut::new(svc.call(q));
                    told = false;
                    let good = w.ncalls() == k + 1 && w.lock().calls[k].inst == inst && w.lock().calls[k].id == id;
                    chk!(c, good, "the call did not reach the wrapped service once");
                    w.lock().insts[inst].gate = *r.pick(&[Gate::Open, Gate::Closed, Gate::Closed]);
                    open.push((k, f));
                }
                3 => {
                    if open.is_empty() {
                        continue;
                    }
                    let (k, mut f): (usize, Fut<_>) = open.swap_remove(r.us(open.len()));
                    if r.pct(25) {
                        drop(f);
                        chk!(c, w.lock().calls[k].fut_dropped, "dropping the response did not drop the wrapped one");
                        continue;
                    }
                    let ok = r.pct(60);
                    if r.pct(50) {
                        chk!(c, f.poll().is_pending(), "answered early");
                        w.finish(k, ok);
                        chk!(c, f.tk.woken(), "not woken by the answer");
                    }
                    w.finish(k, ok);
                    match f.poll() {
                        Poll::Ready(Ok(x)) => {
                            chk!(c, ok && x.call == k, "outcome changed");
                        }
                        Poll::Ready(Err(e)) => {
                            chk!(c, !ok && find_fail(&*e).and_then(|f| f.call) == Some(k), "outcome changed");
                        }
                        Poll::Pending => c.fail("the answer was withheld"),
                    }
                }
                _ => settle().await,
            }
            let made = w.lock().insts.len();
            chk!(c, made == 1, "the wrapped service was cloned");
        }
        c.count("became ready while nobody polled", unpolled);
        c.count("failures", fails);
        c.count("task panics", panics);
        if unpolled > 0 {
            c.nontrivial();
        }
        drop(open);
        drop(svc);
        settle().await;
        chk!(c, alive() == base, "{} background tasks outlive the service", alive() as i64 - base as i64);
        w.check_no_leak("spawn ready");
        drop(keep);
    });
}

/// The runtime of the background task goes away before the service is ready.
fn spawn_ready_shutdown(c: &Case) {
    let r = c.rng.clone();
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .build()
        .unwrap();
    let n = r.range(1, 6) as usize;
    let w = {
        let _g = rt.enter();
        World::new(c, Plan::manual(Gate::Closed))
    };
    // (service, its probe, its caller, waiting)
    let mut all = vec![];
    for _ in 0..n {
        let p = w.svc(0);
        let id = p.id;
        all.push((SpawnReady::new(p), id, Tk::new(), false));
    }
    let (mut cut, mut lucky) = (0u64, 0u64);
    rt.block_on(async {
        for (s, id, tk, waiting) in all.iter_mut() {
            if r.pct(85) {
                let got = tk.poll(|cx| s.poll_ready(cx));
                ev!(c, "s{} poll_ready {:?}", id, got);
                chk!(c, got.is_pending(), "ready although the wrapped service is not");
                *waiting = true;
            }
        }
        if r.pct(60) {
            settle().await;
        }
        if r.pct(30) {
            // another task takes over the wait
            for (s, id, tk, waiting) in all.iter_mut() {
                if *waiting {
                    *tk = Tk::new();
                    let got = tk.poll(|cx| s.poll_ready(cx));
                    ev!(c, "s{} poll_ready {:?} by another task", id, got);
                    chk!(c, got.is_pending(), "ready although the wrapped service is not");
                }
            }
        }
    });
    ev!(c, "shutdown");
    if r.pct(50) {
        drop(rt);
    } else {
        rt.shutdown_background();
    }
    let keep = r.pct(50).then(|| all.len() / 2);
    for (i, (s, id, tk, waiting)) in all.iter_mut().enumerate() {
        if keep.map_or(false, |k| i < k) {
            continue;
        }
        if *waiting {
            chk!(c, tk.woken(), "the background task was cancelled and the caller was not woken");
            let got = tk.poll(|cx| s.poll_ready(cx));
            ev!(c, "s{} poll_ready {:?}", id, got);
            match got {
                Poll::Ready(Err(e)) => {
                    chk!(c, find_fail(&*e).is_none(), "the task's cancellation is reported as {}", e);
                    let j = e.downcast_ref::<tokio::task::JoinError>();
                    chk!(c, j.map_or(true, |j| j.is_cancelled()), "the task's cancellation is reported as {}", e);
                    cut += 1;
                }
                x => c.fail(format!("the background task was cancelled and readiness is {:?}", x)),
            }
            let d = w.lock().insts[*id].dropped;
            chk!(c, d, "the service of a cancelled task lives on");
        } else {
            // what is ready at once needs no background task
            w.gate(*id, Gate::Open);
            let got = tk.poll(|cx| s.poll_ready(cx));
            ev!(c, "s{} poll_ready {:?}", id, got);
            chk!(c, matches!(got, Poll::Ready(Ok(()))), "a service that is ready is reported {:?}", got);
            lucky += 1;
        }
    }
    c.count("readiness cut by shutdown", cut);
    c.count("ready without a runtime", lucky);
    if cut > 0 {
        c.nontrivial();
    }
    drop(all);
    w.check_no_leak("spawn ready after shutdown");
}

/// A service on real threads: a lock-free gate, and a monitor of the contract.
struct Gated {
    st: Arc<GateState>,
    ready: bool,
    polling: u64,
}
struct GateState {
    open: std::sync::atomic::AtomicBool,
    wakers: Mutex<Vec<Waker>>,
    bad: std::sync::atomic::AtomicU64,
    calls: std::sync::atomic::AtomicU64,
    live: std::sync::atomic::AtomicI64,
}
impl Drop for Gated {
    fn drop(&mut self) {
        self.st.live.fetch_sub(1, SeqCst);
    }
}
impl tower::Service<u64> for Gated {
    type Response = u64;
    type Error = &'static str;
    type Future = std::future::Ready<Result<u64, &'static str>>;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), &'static str>> {
        if self.ready {
            return Poll::Ready(Ok(()));
        }
        self.polling += 1;
        // one permit per opening
        if self.st.open.swap(false, SeqCst) {
            self.ready = true;
            return Poll::Ready(Ok(()));
        }
        self.st.wakers.lock().unwrap().push(cx.waker().clone());
        if self.st.open.swap(false, SeqCst) {
            self.ready = true;
            return Poll::Ready(Ok(()));
        }
        Poll::Pending
    }
    fn call(&mut self, x: u64) -> Self::Future {
        if !std::mem::replace(&mut self.ready, false) {
            self.st.bad.fetch_add(1, SeqCst);
        }
        self.st.calls.fetch_add(1, SeqCst);
        std::future::ready(if x % 7 == 6 { Err("no") } else { Ok(x + 1) })
    }
}

fn spawn_ready_threads(c: &Case) {
    use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64};
    let r = c.rng.clone();
    let rt = tokio::runtime::Builder::new_multi_thread()
        .worker_threads(6)
        .enable_time()
        .build()
        .unwrap();
    let n = 24usize;
    let per = if c.thorough { 2000 } else { 400 };
    let gates: Vec<Arc<GateState>> = (0..n)
        .map(|_| {
            Arc::new(GateState {
                open: AtomicBool::new(false),
                wakers: Mutex::new(vec![]),
                bad: AtomicU64::new(0),
                calls: AtomicU64::new(0),
                live: AtomicI64::new(1),
            })
        })
        .collect();
    let stop = Arc::new(AtomicBool::new(false));
    let openers: Vec<_> = (0..2)
        .map(|k| {
            let gates: Vec<_> = gates.iter().skip(k).step_by(2).cloned().collect();
            let stop = stop.clone();
            let r = r.fork();
            std::thread::spawn(move || {
                while !stop.load(SeqCst) {
                    for g in &gates {
                        if r.pct(70) {
                            g.open.store(true, SeqCst);
                            let ws = std::mem::take(&mut *g.wakers.lock().unwrap());
                            ws.into_iter().for_each(Waker::wake);
                        }
                    }
                    for _ in 0..r.below(200) {
                        std::hint::spin_loop();
                    }
                }
            })
        })
        .collect();
    let waits = Arc::new(AtomicU64::new(0));
    let wrong = Arc::new(Mutex::new(Vec::<String>::new()));
    let done = Arc::new(AtomicU64::new(0));
    let ok = rt.block_on(async {
        let mut hs = vec![];
        for g in &gates {
            let g = g.clone();
            let r = r.fork();
            let (waits, wrong, done) = (waits.clone(), wrong.clone(), done.clone());
            hs.push(tokio::spawn(async move {
                let mut svc = Some(SpawnReady::new(Gated { st: g.clone(), ready: false, polling: 0 }));
                for i in 0..per {
                    let mut s = svc.take().unwrap();
                    if r.pct(20) {
                        // one task checks, another one waits
                        let _ = futures::poll!(std::future::poll_fn(|cx| s.poll_ready(cx)));
                        let w2 = waits.clone();
                        s = tokio::spawn(async move {
                            std::future::poll_fn(|cx| s.poll_ready(cx)).await.unwrap();
                            w2.fetch_add(1, SeqCst);
                            s
                        })
                        .await
                        .unwrap();
                    }
                    let mut pended = false;
                    let got = std::future::poll_fn(|cx| {
                        let x = s.poll_ready(cx);
                        pended |= x.is_pending();
                        x
                    })
                    .await;
                    if pended {
                        waits.fetch_add(1, SeqCst);
                    }
                    if let Err(e) = got {
                        wrong.lock().unwrap().push(format!("readiness failed with {}", e));
                        return;
                    }
                    let x = i as u64 * 3;
                    let got = s.call(x).await.map_err(|e| e.to_string());
                    let want = if x % 7 == 6 { Err("no".to_string()) } else { Ok(x + 1) };
                    if got != want {
                        wrong.lock().unwrap().push(format!("{:?} instead of {:?}", got, want));
                    }
                    done.fetch_add(1, SeqCst);
                    svc = Some(s);
                }
                // left waiting, and dropped
                let mut s = svc.take().unwrap();
                let _ = futures::poll!(std::future::poll_fn(|cx| s.poll_ready(cx)));
                drop(s);
            }));
        }
        let all = futures::future::join_all(hs);
        let ok = tokio::time::timeout(Duration::from_secs(60), all).await.is_ok();
        // aborted tasks go away
        for _ in 0..2000 {
            if gates.iter().all(|g| g.live.load(SeqCst) == 0) {
                break;
            }
            tokio::time::sleep(Duration::from_millis(5)).await;
        }
        ok
    });
    stop.store(true, SeqCst);
    for o in openers {
        let _ = o.join();
    }
    let g = |f: fn(&GateState) -> i64| gates.iter().map(|x| f(x)).sum::<i64>();
    let (bad, live) = (g(|x| x.bad.load(SeqCst) as i64), g(|x| x.live.load(SeqCst)));
    let (d, calls) = (done.load(SeqCst), g(|x| x.calls.load(SeqCst) as i64));
    ev!(c, "threads: {} calls", d);
    c.count("threaded calls", d);
    c.count("threaded waits", waits.load(SeqCst));
    chk!(c, ok, "callers did not finish within 60 s under real threads: {} calls done", d);
    chk!(c, bad == 0, "{} calls reached a service that was not ready", bad);
    chk!(c, live == 0, "{} services outlive their spawn-ready service", live);
    chk!(c, calls == d as i64, "{} calls made, {} received", d, calls);
    for m in wrong.lock().unwrap().iter().take(3) {
        c.fail(m.clone());
    }
    if waits.load(SeqCst) > 0 {
        c.nontrivial();
    }
    c.fp(waits.load(SeqCst));
    rt.shutdown_background();
}
